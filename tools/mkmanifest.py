#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BLACK = "black box: the built programs are run as processes; random search, no proof of absence"
MODEL = "stateful model-based property testing: generated ledgers booked by the real pod and by an independent reference model"
CLJ = "property-based testing of the front end: its Clojure sources run in an interpreter over generated ledgers served by the real pod"
INT = "the Clojure sources are run by an interpreter written for this purpose, as there is no Clojure runtime here; a case that needs a function it lacks is not decided"
CHECKS = {
    "C01": (MODEL + ", plus a weight-sum invariant computed from the response alone", ""),
    "C02": (MODEL + ", plus an as-written invariant computed from the response alone", ""),
    "C03": (MODEL + ", plus a lot-conservation invariant over the booked history", "lot matching inside one transaction is compared with the pinned limabean-booking crate called directly"),
    "C04": (MODEL + ", booking methods varied", "lot matching inside one transaction is compared with the pinned limabean-booking crate called directly"),
    "C05": (MODEL + ", account life-cycle faults injected", ""),
    "C06": (MODEL + ", currency lists and violations injected", ""),
    "C07": (MODEL + ", balances placed at and next to the tolerance", ""),
    "C08": (MODEL + ", chains of failing balances", ""),
    "C09": (MODEL + ", pads and balances", ""),
    "C10": (MODEL + ", pads and balances", ""),
    "C11": (MODEL + ", several faults of every kind per ledger, located by span and by index", ""),
    "C12": ("metamorphic property testing: faulty ledgers booked with and without the rejected directives", ""),
    "C13": ("round-trip property testing: generated directives rendered as text, parsed by the pod, compared field by field", ""),
    "C14": ("metamorphic property testing: the same directives in permuted file order, plus the reference model", ""),
    "C15": ("round-trip and differential property testing: returned directives respelled and passed back; edited lists against the reference model", ""),
    "C16": ("round-trip property testing over option and plugin lines", ""),
    "C17": ("grammar-based request fuzzing against a protocol oracle, healthy, unparseable and missing ledgers", ""),
    "C18": ("stateful property testing: responses within random histories against those of a fresh pod", ""),
    "C19": ("round-trip property testing: spans resolved against the generated text", ""),
    "C20": ("stateful model-based property testing of synthetic spans", ""),
    "C21": ("property testing of formatted reports against containment and order oracles", ""),
    "C22": ("mutation fuzzing of ledger bytes and request lines with a liveness and span-bounds oracle", "a crash with the recorded signature of a known finding is counted and skipped"),
    "C23": ("property testing of the launcher with recording stand-ins for java and clojure", ""),
    "C24": ("property testing of the launcher with recording and failing stand-ins for java and clojure", ""),
    "C25": ("property testing of tabulate against an independent layout oracle; invalid inputs by mutation", ""),
    "C26": (MODEL + ", annotations compared line by line", ""),
    "C27": ("metamorphic property testing: the same directives split over included files and in one", ""),
    "C28": ("metamorphic property testing: rerun and consistent renaming", ""),
    "C29": (MODEL + ", directives of every kind", ""),
    "C30": ("metamorphic property testing: random log settings against logging off", ""),
    "C31": ("differential fuzzing: damaged texts, the pod's answers against the parsing library called directly", "the parsing library (beancount-parser-lima, the locked version) is the oracle"),
    "C32": ("differential fuzzing: rearranged and reworded texts, the pod's answers against the parsing library called directly", "the parsing library (beancount-parser-lima, the locked version) is the oracle"),
    "C33": ("differential and model-based fuzzing: rearranged and reworded texts, booking against the reference model fed by the parsing library", "what a text says is taken from the parsing library; lot matching inside one transaction is compared with the pinned limabean-booking crate called directly"),
    "J01": (CLJ + "; model: an independent sum over the pod's booked directives", INT),
    "J02": (CLJ + "; model: an independent fold over the pod's booked directives", INT),
    "J03": (CLJ + "; model: an independent rollup, compared with the rows shown", INT),
    "J04": (CLJ + "; model: the documented meaning of generated filter expressions", INT),
    "J05": (CLJ + "; oracle: the generated data's cells against the parsed lines shown", INT),
    "J06": (CLJ + "; round trip: directives printed and parsed again", INT),
    "J07": (CLJ + "; generated plugins with a model of what each does", INT),
    "J08": (CLJ + "; generated failing plugins", INT),
    "J09": (CLJ + "; differential: the text printed against the pod's own formatting of the reports", INT),
    "J10": (CLJ + "; generated user files, some failing", INT),
    "J11": (CLJ + "; round trip of the dumped files through the real parser", INT),
    "J12": (CLJ + "; generated argument lists and environments against an independent statement of the documented ones", INT),
    "J13": (CLJ + "; stateful: histories of edits and loads, each compared with a fresh pod on the same files", INT),
}
NA = {}
done = os.popen(f"{here}/harness/target/debug/lbverif list").read().split()
props = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in done:
        t, n = CHECKS[p]
        m["checks"].append({
            "property": p,
            "quick_cmd": f"./check.sh {p} quick",
            "thorough_cmd": f"./check.sh {p} thorough",
            "technique": t,
            "level": "exploration",
            "level_note": n + ("; " if n else "") + BLACK,
        })
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
