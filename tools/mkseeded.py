#!/usr/bin/env python3
"""Writes seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) from the list in bugs.py.
Nothing that a check runs reads these."""
import json, os, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(os.path.dirname(here), "seeded")
HELPER = '''import json, os, subprocess, sys, tempfile
BIN = os.path.join(os.getcwd(), "rust", "target", "debug")
SCRATCH = tempfile.TemporaryDirectory()
os.environ["RUST_BACKTRACE"] = "0"
def pod(files, reqs, env=None, pwd=None, text=False):
    "the responses of a pod serving these files (a text is main.beancount alone) to these requests"
    if isinstance(files, str):
        files = {"main.beancount": files}
    d = tempfile.mkdtemp(dir=SCRATCH.name)
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(t if isinstance(t, bytes) else t.encode())
    lines = []
    for i, r in enumerate(reqs):
        if isinstance(r, tuple):
            r = {"jsonrpc": "2.0", "id": i, "method": r[0], **({"params": r[1]} if len(r) > 1 else {})}
        if isinstance(r, dict):
            r = json.dumps(r, ensure_ascii=False)
        lines.append(r)
    p = subprocess.run([os.path.join(BIN, "limabean-pod"), "serve", os.path.join(d, "main.beancount")], cwd=pwd or d,
                       input="".join(x + "\\n" for x in lines).encode(), capture_output=True, timeout=60,
                       env={**os.environ, **(env or {})})
    check(p.returncode == 0, "the pod ended with %s: %s" % (p.returncode, p.stderr.decode()[:300]))
    rs = [x if text else json.loads(x) for x in p.stdout.decode().splitlines()]
    check(len(rs) == len(reqs), "one response per request")
    return rs
def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)
def booked(text):
    r = pod(text, [("book",)])[0]
    check("result" in r, "booking succeeds: " + json.dumps(r)[:600])
    return r["result"]["directives"]
def faults(text):
    r = pod(text, [("book",)])[0]
    check("error" in r, "booking fails")
    return [x["reason"] for x in r["error"]["data"]]
'''
sys.path.insert(0, here)
import bugs
head = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
seen = set()
for b in bugs.BUGS:
    assert b["id"] not in seen, b["id"]; seen.add(b["id"])
    d = os.path.join(out, b["id"]); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    diff = ""
    by = {}
    for f, old, new in b["edits"]:
        p = "rust/src/" + f
        by.setdefault(p, subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + p], capture_output=True, text=True, check=True).stdout)
        assert by[p].count(old) == 1, (b["id"], f, by[p].count(old), old)
        by[p] = by[p].replace(old, new)
    subprocess.run(["git", "init", "-q", t], check=True)
    for phase in (0, 1):
        for p in by:
            q = os.path.join(t, p); os.makedirs(os.path.dirname(q), exist_ok=True)
            txt = by[p] if phase else subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + p], capture_output=True, text=True).stdout
            open(q, "w").write(txt)
        if not phase:
            subprocess.run(["git", "-C", t, "add", "-A"], check=True)
    diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True, check=True).stdout
    shutil.rmtree(t)
    assert diff, b["id"]
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(HELPER + "\n" + b["demo"].strip("\n") + "\n")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "meta.json"), "a").write("\n")
for d in os.listdir(out):
    if d not in seen and os.path.isdir(os.path.join(out, d)): print("not in bugs.py:", d)
print(len(seen), "bugs at", head)
