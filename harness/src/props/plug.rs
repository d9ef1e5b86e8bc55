//! Plugins (J07, J08) and failed booking (J09), as the Clojure half has them.
use super::clj::*;
use super::common::*;
use super::meta::extra;
use crate::ast::*;
use crate::clj::host::Host;
use crate::compare::*;
use crate::gen::{self, Profile};
use crate::genes::{Case, G};
use crate::pod::*;
use crate::runner::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::path::Path;

/// what a generated plugin does with each directive
#[derive(Debug, Clone)]
enum Op {
    Same,
    /// tags directives of a kind
    Tag,
    /// puts text in front of narrations
    Narr,
    Drop,
    /// emits a copy first
    Copy,
    /// emits the very directive again
    Twice,
    /// emits an event before
    Event,
    /// holds them back until the end
    Hold,
    /// sets metadata
    Meta,
    /// tags what matches a regular expression
    Match,
    /// lets only so many through
    Take,
    /// limabean's own
    Auto,
    /// annotates with an error
    Fail,
    /// throws when it meets one
    Throw,
}
const KINDS: &[&str] = &["note", "event", "query", "custom", "document", "price", "commodity", "txn", "open", "balance"];
const TEXTS: &[&str] = &["per plugin: ", "a \"b\" ", "back\\slash ", "é ", "x"];
const VALUES: &[(&str, &str)] = &[
    ("{:string \"can \\\"opener\"}", "{\"string\":\"can \\\"opener\"}"),
    ("{:number 1.50M}", "{\"number\":1.50}"),
    ("{:number 7}", "{\"number\":7}"),
    ("{:date #time/date \"2024-02-29\"}", "{\"date\":\"2024-02-29\"}"),
    ("{:bool false}", "{\"bool\":false}"),
    ("{:units -3 :cur \"USD\"}", "{\"units\":-3,\"cur\":\"USD\"}"),
    ("{:acc \"Assets:Made:Up\"}", "{\"acc\":\"Assets:Made:Up\"}"),
    ("nil", "null"),
];

#[derive(Debug, Clone)]
struct Plug {
    /// as in the beanfile
    name: String,
    ns: String,
    config: Option<String>,
    booked: bool,
    op: Op,
    kind: &'static str,
    text: &'static str,
    tag: String,
    value: usize,
    n: usize,
}

impl Plug {
    fn source(&self) -> String {
        // (what is in the configuration is read from there)
        let k = "(= (:dct d) (:kind config))";
        let state = "(let [seen (volatile! [])] (fn ([] (rf)) ([r] END) ([r d] STEP)))";
        let (step, end) = match self.op {
            Op::Same | Op::Auto => ("(rf r d)".to_string(), "(rf r)"),
            Op::Tag => (format!("(rf r (if {k} (update d :tags (fn [t] (conj (or t #{{}}) (:tag config)))) d))"), "(rf r)"),
            Op::Narr => ("(rf r (cond-> d (= :txn (:dct d)) (update :narration (fn [n] (str (:text config) n)))))".into(), "(rf r)"),
            Op::Drop => (format!("(if {k} r (rf r d))"), "(rf r)"),
            Op::Copy => (format!("(let [r' (if {k} (rf r (-> d (dissoc :span) (assoc-in [:metadata :copy-of] {{:string (:name-assets options)}}))) r)] (rf r' d))"), "(rf r)"),
            Op::Twice => (format!("(let [r' (if {k} (rf r d) r)] (rf r' d))"), "(rf r)"),
            Op::Event => (format!("(if {k} (do (vswap! seen conj d) (-> r (rf {{:dct :event :date (:date d) :type (:text config) :description (str (count @seen))}}) (rf d))) (rf r d))"), "(rf r)"),
            Op::Hold => (format!("(if {k} (do (vswap! seen conj d) r) (rf r d))"), "(rf (reduce rf r @seen))"),
            Op::Meta => (format!("(rf r (if {k} (assoc-in d [:metadata :from-plugin] (:value config)) d))"), "(rf r)"),
            Op::Match => ("(rf r (if (some->> (:narration d) (re-find (:re config))) (update d :links (fn [t] (conj (or t #{}) (:tag config)))) d))".into(), "(rf r)"),
            Op::Take => ("(do (vswap! seen conj d) (if (<= (count @seen) (:n config)) (rf r d) (reduced r)))".into(), "(rf r)"),
            Op::Fail => (format!("(rf r (if {k} (plugin/dct-error! d (:text config)) d))"), "(rf r)"),
            Op::Throw => (format!("(if {k} (throw (ex-info (:text config) {{:dct d}})) (rf r d))"), "(rf r)"),
        };
        let xf = state.replace("STEP", &step).replace("END", end);
        let f = if self.booked { "booked-xf" } else { "raw-xf" };
        format!("(ns {} (:require [limabean.plugin :as plugin]))\n(defn {f} \"A plugin\" [{{:keys [config options]}}]\n  (fn [rf]\n    {xf}))\n", self.ns)
    }
    fn hit(&self, d: &Value) -> bool {
        d["dct"] == self.kind
    }
    /// directives out, and whether each is another than came in
    fn run(&self, ds: Vec<Value>, options: &Value) -> Vec<(Value, bool)> {
        let mut out = vec![];
        let mut seen = 0;
        let mut held = vec![];
        let mut opened: BTreeSet<String> = BTreeSet::new();
        let add = |d: &mut Value, key: &str, t: &str| {
            let mut v: Vec<String> = d[key].as_array().into_iter().flatten().filter_map(|x| x.as_str()).map(|x| x.to_string()).collect();
            v.push(t.into());
            v.sort();
            d[key] = json!(v);
        };
        let meta = |d: &mut Value, k: &str, v: Value| {
            if d["metadata"].is_null() {
                d["metadata"] = json!({});
            }
            d["metadata"][k] = v;
        };
        for mut d in ds {
            let hit = self.hit(&d);
            match self.op {
                Op::Same => out.push((d, false)),
                Op::Tag if hit => {
                    add(&mut d, "tags", &self.tag);
                    out.push((d, true));
                }
                Op::Narr if d["dct"] == "txn" => {
                    d["narration"] = json!(format!("{}{}", self.text, d["narration"].as_str().unwrap_or("")));
                    out.push((d, true));
                }
                Op::Drop if hit => {}
                Op::Copy if hit => {
                    let mut c = d.clone();
                    c.as_object_mut().map(|o| o.remove("span"));
                    meta(&mut c, "copy-of", json!({"string": options["name-assets"]}));
                    out.push((c, true));
                    out.push((d, false));
                }
                Op::Twice if hit => {
                    out.push((d.clone(), false));
                    out.push((d, false));
                }
                Op::Event if hit => {
                    seen += 1;
                    out.push((json!({"dct": "event", "date": d["date"], "type": self.text, "description": seen.to_string()}), true));
                    out.push((d, false));
                }
                Op::Hold if hit => held.push((d, false)),
                Op::Meta if hit => {
                    meta(&mut d, "from-plugin", serde_json::from_str(VALUES[self.value].1).expect("value"));
                    out.push((d, true));
                }
                Op::Match => {
                    let m = d["narration"].as_str().is_some_and(|n| regex::Regex::new("^[Aa].*|o+").expect("regular expression").is_match(n));
                    if m {
                        add(&mut d, "links", &self.tag);
                    }
                    out.push((d, m));
                }
                Op::Take => {
                    seen += 1;
                    if seen > self.n {
                        break;
                    }
                    out.push((d, false));
                }
                Op::Auto => {
                    if d["dct"] == "open" {
                        opened.insert(d["acc"].as_str().unwrap_or("").into());
                    }
                    if d["dct"] == "txn" {
                        let used: BTreeSet<String> = d["postings"].as_array().into_iter().flatten().filter_map(|p| p["acc"].as_str()).map(|a| a.to_string()).collect();
                        for a in used {
                            if opened.insert(a.clone()) {
                                out.push((json!({"dct": "open", "date": d["date"], "acc": a, "metadata": {"auto": null}}), true));
                            }
                        }
                    }
                    out.push((d, false));
                }
                Op::Fail if hit => {
                    let mut e: Vec<Value> = d["err"].as_array().cloned().unwrap_or_default();
                    e.push(json!({"message": self.text, "plugin": self.ns}));
                    d["err"] = json!(e);
                    out.push((d, true));
                }
                _ => out.push((d, false)),
            }
        }
        out.extend(held);
        out
    }
}

fn plug(g: &mut G, i: usize, last: Option<Op>) -> Plug {
    let booked = g.chance(35);
    let op = match last {
        Some(o) => o,
        None => match g.weighted(&[1, 5, 4, 3, 4, 2, 4, 3, 4, 3, 1, 3]) {
            0 => Op::Same,
            1 => Op::Tag,
            2 => Op::Narr,
            3 => Op::Drop,
            4 => Op::Copy,
            5 => Op::Twice,
            6 => Op::Event,
            7 => Op::Hold,
            8 => Op::Meta,
            9 => Op::Match,
            10 => Op::Take,
            _ => Op::Auto,
        },
    };
    // what upsets booking is not done before it
    let easy = booked || g.chance(20);
    let kind = match op {
        Op::Drop | Op::Copy | Op::Hold | Op::Twice if !easy => KINDS[g.n(7)],
        _ => KINDS[g.n(KINDS.len())],
    };
    let (sep, file) = *g.pick(&[("-", true), ("_", true), ("", false)]);
    let stem = if file { format!("plug{sep}no{sep}{i}") } else { format!("plug{i}") };
    let (mut name, mut ns) = (format!("gen.{stem}"), format!("gen.{}", stem.replace('_', "-")));
    let text = *g.pick(TEXTS);
    let tag = format!("tag-{i}");
    let value = g.n(VALUES.len());
    let n = 3 + g.n(20);
    let mut config = Some(match op {
        Op::Same => "[1 2 #{3}]".to_string(),
        Op::Tag => format!("{{:kind :{kind} :tag {}}}", quoted(&tag)),
        Op::Narr => format!("{{:text {}}}", quoted(text)),
        Op::Drop | Op::Hold | Op::Copy | Op::Twice => format!("{{ :kind, :{kind} }}"),
        Op::Event | Op::Fail | Op::Throw => format!("{{:kind :{kind} :text {}}}", quoted(text)),
        Op::Meta => format!("{{:kind :{kind} :value {}}}", VALUES[value].0),
        Op::Match => format!("{{:re #regex \"^[Aa].*|o+\" :tag {}}}", quoted(&tag)),
        Op::Take => format!("{{:n {n}}}"),
        Op::Auto => String::new(),
    });
    if matches!(op, Op::Auto) || matches!(op, Op::Same) && g.chance(60) {
        config = None;
    }
    let mut booked = booked;
    if matches!(op, Op::Auto) {
        (name, ns, booked) = ("beancount.plugins.auto_accounts".into(), "beancount.plugins.auto-accounts".into(), false);
    }
    Plug { name, ns, config, booked, op, kind, text, tag, value, n }
}

fn write_plugins(dir: &Path, ps: &[Plug]) -> Result<(), HarnessError> {
    let d = dir.join("src/gen");
    std::fs::create_dir_all(&d).map_err(|e| HarnessError(e.to_string()))?;
    for p in ps.iter().filter(|p| !matches!(p.op, Op::Auto)) {
        let f = p.ns["gen.".len()..].replace('-', "_");
        std::fs::write(d.join(format!("{f}.clj")), p.source()).map_err(|e| HarnessError(e.to_string()))?;
    }
    Ok(())
}
fn line_for(name: &str, config: &Option<String>) -> String {
    match config {
        Some(c) => format!("plugin {} {}", quote(name), quote(c)),
        None => format!("plugin {}", quote(name)),
    }
}

/// sets sorted
fn sets(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(
            o.iter()
                .map(|(k, x)| {
                    let mut x = sets(x);
                    if matches!(&k[..], "tags" | "links" | "currencies") {
                        if let Some(a) = x.as_array_mut() {
                            a.sort_by_key(crate::compare::canon);
                        }
                    }
                    (k.clone(), x)
                })
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(sets).collect()),
        v => v.clone(),
    }
}
fn list(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn without(v: &Value, keys: &[&str]) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|(k, _)| !keys.contains(&&k[..])).map(|(k, x)| (k.clone(), without(x, keys))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(|x| without(x, keys)).collect()),
        v => v.clone(),
    }
}

/// what plugins of one phase make of directives
fn through(ps: &[Plug], booked: bool, ds: Vec<Value>, options: &Value) -> Vec<Value> {
    let mut ds = ds;
    for p in ps.iter().filter(|p| p.booked == booked) {
        ds = p
            .run(ds, options)
            .into_iter()
            .map(|(mut d, other)| {
                // one with an error needs this only if nothing else says where it is from
                if other && (d["err"].is_null() || d["span"].is_null() && list(&d["provenance"]).is_empty()) {
                    let mut v = list(&d["provenance"]);
                    if booked && !v.iter().any(|x| x == "booked") {
                        v.push(json!("booked"));
                    }
                    v.push(json!(p.name));
                    d["provenance"] = json!(v);
                }
                d
            })
            .collect();
    }
    ds
}

/// with the spans made for them; or why these are not right
fn with_spans(ds: &mut [Value], asked: Option<&(Value, Value)>) -> Result<(), String> {
    let empty = (Value::Null, Value::Null);
    let (q, a) = asked.unwrap_or(&empty);
    let (q, a) = (list(&q["params"]), list(&a["result"]));
    let mut i = 0;
    for d in ds.iter_mut() {
        if d["provenance"].is_null() {
            continue;
        }
        let name = format!("Synthetic directive from {}", list(&d["provenance"]).iter().map(|x| x.as_str().unwrap_or("")).map(|x| if x == "booked" { ":booked" } else { x }).collect::<Vec<_>>().join(" "));
        let parts = if d["dct"] == "txn" { 1 + list(&d["postings"]).len() } else { 1 };
        for k in 0..parts {
            let Some(x) = q.get(i) else { return Err(format!("no span was made for {}", short(d))) };
            if x["name"] != json!(name) {
                return Err(format!("a span for {} is named {}", short(d), x["name"]));
            }
            let text = x["content"].as_str().unwrap_or("");
            let of = |k: &str, v: &Value| v[k].as_str().unwrap_or("").to_string();
            let fine = match k {
                0 if d["dct"] == "txn" => text.starts_with(&format!("{} {}", of("date", d), of("flag", d))),
                0 => text.starts_with(&format!("{} {}", of("date", d), of("dct", d))),
                k => text.contains(&of("acc", &d["postings"][k - 1])) && text.starts_with("  "),
            };
            if !fine {
                return Err(format!("part {k} of {} is {text:?}", short(d)));
            }
            let s = a.get(i).cloned().unwrap_or(Value::Null);
            if k == 0 {
                d["span-p"] = s;
            } else {
                d["postings"][k - 1]["span-p"] = s;
            }
            i += 1;
        }
    }
    if i != q.len() {
        return Err(format!("{} spans were made, not {i}", q.len()));
    }
    Ok(())
}

fn first_difference(a: &[Value], b: &[Value]) -> Option<String> {
    if let Some((i, (x, y))) = a.iter().zip(b).enumerate().find(|(_, (x, y))| !same(x, y)) {
        return Some(format!("at {i} is {}, not {}", short(x), short(y)));
    }
    (a.len() != b.len()).then(|| format!("there are {}, not {}", a.len(), b.len()))
}

static PROFILES: std::sync::LazyLock<Vec<Profile>> = std::sync::LazyLock::new(|| {
    let b = Profile::base;
    vec![
        Profile { ops: (2, 14), rich: 10, meta: 20, w: [3, 1, 16, 4, 2, 4, 4, 4, 4, 4, 4, 4], ..b() },
        Profile { ops: (2, 14), costs: 50, prices: 30, w: [3, 1, 20, 3, 1, 1, 1, 3, 1, 3, 1, 2], ..b() },
        Profile { ops: (2, 10), files: 50, w: [3, 1, 16, 4, 2, 2, 2, 2, 2, 2, 2, 2], ..b() },
    ]
});
pub(super) fn ledger(case: &Case, g: &mut G, faulty: bool) -> Ledger {
    let p = &PROFILES[g.n(PROFILES.len())];
    let l = if faulty { gen::build(case, &Profile { fault: 25, bal_fail: 25, ..p.clone() }).ledger } else { gen::build(case, p).ledger };
    let mut l = l;
    no_average(&mut l);
    if !faulty {
        if let Some((m, _, _)) = accepted(l.clone()) {
            l = m;
        }
    }
    for f in &mut l.files {
        f.retain(|it| !matches!(it, Item::Line(t) if t.starts_with("plugin ")));
    }
    l
}
fn plugin_lines(l: &mut Ledger, lines: Vec<String>, g: &mut G) {
    // in order, here and there before what the root has
    let mut at = 0;
    for t in lines {
        let to = l.files[0].len().min(12);
        at += g.n(to.saturating_sub(at) + 1);
        let k = at.min(l.files[0].len());
        l.files[0].insert(k, Item::Line(t));
        at += 1;
    }
}

/// J07: what plugins do is what is booked and had
fn j07(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut e = Eval::default();
    let x = extra(case);
    let mut g = G::new(&x);
    let mut l = ledger(case, &mut g, false);
    let n = g.weighted(&[1, 4, 6, 4, 2]);
    let mut ps: Vec<Plug> = vec![];
    for i in 0..n {
        let p = plug(&mut g, i, None);
        if !(matches!(p.op, Op::Auto) && ps.iter().any(|q| matches!(q.op, Op::Auto))) {
            ps.push(p);
        }
    }
    let lines = ps.iter().map(|p| line_for(&p.name, &p.config)).collect();
    plugin_lines(&mut l, lines, &mut g);
    let r = l.render();
    let dir = w.fresh();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    write_plugins(&dir, &ps)?;
    let told = json!(ps.iter().map(|p| format!("{:?} {} {} {:?}", p.op, p.name, if p.booked { "booked" } else { "raw" }, p.config)).collect::<Vec<_>>());
    e.detail = json!({"ledger": texts_json(&l.paths, &r.texts), "plugins": told});
    e.sample = json!({"ledger": r.texts[0], "plugins": told});
    e.key = hash_of(&r.texts);
    let s = Session::open(w, &dir, &root, &[], "nil");
    let Some(s) = settle(&mut e, "loading the ledger", s) else { return Ok(e) };
    let complaint = Host::take(&s.c.host.err);
    e.detail["stderr"] = json!(complaint);
    let options = s.answers("parser.options").pop().map(|x| x.1["result"].clone()).unwrap_or(Value::Null);
    let Some((_, parsed)) = s.answers("parser.directives").pop() else {
        e.bad("plugins", format!("directives were not asked for: {complaint}"));
        return Ok(e);
    };
    let raw = list(&sets(&parsed["result"]["directives"]));
    let made = s.answers("parser.create-synthetic-spans");
    let mut made = made.iter();
    let mut want = raw.clone();
    let has_raw = ps.iter().any(|p| !p.booked);
    if has_raw {
        want = through(&ps, false, raw.clone(), &options);
        let any = want.iter().any(|d| !d["provenance"].is_null());
        if let Err(t) = with_spans(&mut want, if any { made.next() } else { None }) {
            e.bad("spans", t);
            return Ok(e);
        }
        let Some(got) = settle(&mut e, "raw-xf-directives", s.json("(:raw-xf-directives *beans*)")) else { return Ok(e) };
        if let Some(t) = first_difference(&list(&got), &want) {
            e.bad("raw", format!("directives after raw plugins: {t}"));
            return Ok(e);
        }
    }
    let Some((asked, booked)) = s.answers("book").pop() else {
        e.bad("book", format!("nothing was booked: {complaint}"));
        return Ok(e);
    };
    if has_raw {
        const EXTRA: &[&str] = &["provenance", "span", "span-p"];
        let (a, b) = (list(&without(&sets(&asked["params"]), EXTRA)), list(&without(&json!(want), EXTRA)));
        if let Some(t) = first_difference(&a, &b) {
            e.bad("book", format!("directives to book: {t}"));
        }
        // empty metadata and the like would be lost on the way
    } else if !asked["params"].is_null() {
        e.bad("book", "directives are given to book, without raw plugins");
    }
    for p in &ps {
        e.hit(&format!("{:?}", p.op));
        e.hit(if p.booked { "booked plugin" } else { "raw plugin" });
    }
    e.nontrivial = want.iter().any(|d| !d["provenance"].is_null());
    let ds = list(&sets(&booked["result"]["directives"]));
    if booked["error"].is_object() {
        e.hit("not booked");
        let Some(got) = settle(&mut e, "directives", s.json("*directives*")) else { return Ok(e) };
        if !list(&got).is_empty() {
            e.bad("directives", "there are directives after booking failed");
        }
        return Ok(e);
    }
    // where they come from
    let ds: Vec<Value> = ds
        .into_iter()
        .map(|mut d| {
            let from = |d: &mut Value, r: &Value| {
                for k in ["span", "span-p", "provenance"] {
                    if !r[k].is_null() {
                        d[k] = r[k].clone();
                    }
                }
            };
            let r = d["idx"].as_u64().and_then(|i| want.get(i as usize)).cloned().unwrap_or(Value::Null);
            from(&mut d, &r);
            if let Some(ps) = d.get_mut("postings").and_then(|p| p.as_array_mut()) {
                for p in ps {
                    let r = p["idx"].as_u64().map(|i| r["postings"][i as usize].clone()).unwrap_or(Value::Null);
                    from(p, &r);
                }
            }
            d
        })
        .collect();
    let mut want = ds;
    if ps.iter().any(|p| p.booked) {
        want = through(&ps, true, want, &options);
        let any = want.iter().any(|d| !d["provenance"].is_null());
        if let Err(t) = with_spans(&mut want, if any { made.next() } else { None }) {
            e.bad("spans", t);
            return Ok(e);
        }
        e.nontrivial |= any;
        e.hit("booked, then plugins");
    }
    let Some(got) = settle(&mut e, "directives", s.json("*directives*")) else { return Ok(e) };
    if let Some(t) = first_difference(&list(&got), &want) {
        e.bad("directives", format!("directives in the end: {t}"));
    }
    if complaint.contains("ERROR") || complaint.contains("Exception") {
        e.bad("plugins", complaint);
    }
    Ok(e)
}

/// J08: what fails in plugins is reported, and ends the loading
fn j08(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut e = Eval::default();
    let x = extra(case);
    let mut g = G::new(&x);
    let mut l = ledger(case, &mut g, false);
    let mut ps: Vec<Plug> = vec![];
    let how = g.n(6);
    for i in 0..g.n(3) {
        let p = plug(&mut g, i, None);
        if !matches!(p.op, Op::Auto | Op::Take) {
            ps.push(p);
        }
    }
    let failing = match how {
        0 | 1 => Some(Op::Fail),
        2 => Some(Op::Throw),
        _ => None,
    };
    if let Some(op) = failing {
        let at = g.n(ps.len() + 1);
        let mut p = plug(&mut g, 7, Some(op));
        p.kind = ["open", "txn", "txn", "balance"][g.n(4)];
        p.config = Some(format!("{{:kind :{} :text {}}}", p.kind, quoted(p.text)));
        let (p_kind, p_booked) = (p.kind, p.booked);
        ps.insert(at, p);
        if g.chance(20) {
            // what failed is copied, without its source
            let mut c = plug(&mut g, 5, Some(Op::Copy));
            (c.kind, c.booked) = (p_kind, p_booked);
            c.config = Some(format!("{{ :kind, :{} }}", c.kind));
            ps.push(c);
        }
        if how == 1 {
            let mut p = plug(&mut g, 8, Some(Op::Fail));
            p.kind = "txn";
            p.config = Some(format!("{{:kind :{} :text {}}}", p.kind, quoted(p.text)));
            ps.push(p);
        }
    }
    let mut lines: Vec<(String, Option<String>, Option<&str>)> = ps.iter().map(|p| (p.name.clone(), p.config.clone(), None)).collect();
    if how >= 3 {
        for _ in 0..1 + g.n(2) {
            let at = g.n(lines.len() + 1);
            let x = match g.n(4) {
                0 => ("gen.no_such_plugin".to_string(), None, Some("could not load namespace for plugin")),
                1 => ("gen.empty".into(), None, Some("Failed to find either booked-xf or raw-xf in plugin")),
                2 => ("gen.refuses".into(), Some("{:a 1}".into()), Some("Error resolving config: refused")),
                _ => ("gen.broken".into(), None, Some("could not load namespace for plugin")),
            };
            lines.insert(at, x);
        }
    }
    plugin_lines(&mut l, lines.iter().map(|x| line_for(&x.0, &x.1)).collect(), &mut g);
    let r = l.render();
    let dir = w.fresh();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    write_plugins(&dir, &ps)?;
    let put = |f: &str, t: &str| std::fs::write(dir.join("src/gen").join(f), t).map_err(|e| HarnessError(e.to_string()));
    put("empty.clj", "(ns gen.empty)\n(defn other [] nil)\n")?;
    put("refuses.clj", "(ns gen.refuses)\n(defn raw-xf [{:keys [config]}] (throw (ex-info \"refused\" config)))\n")?;
    put("broken.clj", "(ns gen.broken)\n(throw (ex-info \"broken\" {}))\n")?;
    let told = json!(ps.iter().map(|p| format!("{:?} {} {} {:?}", p.op, p.name, if p.booked { "booked" } else { "raw" }, p.config)).collect::<Vec<_>>());
    e.detail = json!({"ledger": texts_json(&l.paths, &r.texts), "plugins": told});
    e.sample = json!({"ledger": r.texts[0], "plugins": told});
    e.key = hash_of(&r.texts);
    let s = Session::open(w, &dir, &root, &[], "nil");
    let Some(s) = settle(&mut e, "loading the ledger", s) else { return Ok(e) };
    let complaint = Host::take(&s.c.host.err);
    e.detail["stderr"] = json!(complaint);
    let had = s.json("*directives*");
    let Some(had) = settle(&mut e, "directives", had) else { return Ok(e) };
    if how >= 3 {
        for (n, _, m) in &lines {
            let all = format!("ERROR in plugin {n} - ");
            let found: Vec<&str> = complaint.lines().filter(|t| t.starts_with(&all)).collect();
            match m {
                None if !found.is_empty() => e.bad("resolution", format!("{found:?} of a plugin that is there")),
                Some(m) if !found.iter().any(|t| *t == format!("{all}{m}")) => e.bad("resolution", format!("{found:?} for {n}, which should be: {m}")),
                _ => {}
            }
            if let Some(m) = m {
                e.hit(m);
            }
        }
        if !s.answers("book").is_empty() || !list(&had).is_empty() {
            e.bad("went on", "processing went on after plugins were not resolved");
        }
        e.nontrivial = true;
        return Ok(e);
    }
    let options = s.answers("parser.options").pop().map(|x| x.1["result"].clone()).unwrap_or(Value::Null);
    let Some((_, parsed)) = s.answers("parser.directives").pop() else {
        e.bad("plugins", format!("directives were not asked for: {complaint}"));
        return Ok(e);
    };
    let raw = list(&sets(&parsed["result"]["directives"]));
    let made = s.answers("parser.create-synthetic-spans");
    let mut made = made.iter();
    let mut phase = |e: &mut Eval, booked: bool, ds: Vec<Value>| -> Option<Vec<Value>> {
        if !ps.iter().any(|p| p.booked == booked) {
            return Some(ds);
        }
        let name = if booked { "booked" } else { "raw" };
        // does one throw?
        let mut so_far = ds.clone();
        for (i, p) in ps.iter().enumerate().filter(|(_, p)| p.booked == booked) {
            if matches!(p.op, Op::Throw) && so_far.iter().any(|d| p.hit(d)) {
                let want = format!("Exception thrown by {name} plugin, all {name} plugins ignored\n");
                if !complaint.contains(&want) || !complaint.lines().any(|t| t == p.text) {
                    e.bad("exception", format!("an exception saying {:?} is reported as {complaint:?}", p.text));
                }
                if !list(&had).is_empty() {
                    e.bad("went on", "there are directives after an exception in a plugin");
                }
                e.hit("exception");
                e.nontrivial = true;
                return None;
            }
            so_far = through(&ps[i..i + 1], booked, so_far, &options);
        }
        let mut want = so_far;
        let any = want.iter().any(|d| !d["provenance"].is_null());
        if let Err(t) = with_spans(&mut want, if any { made.next() } else { None }) {
            e.bad("spans", t);
            return None;
        }
        let bad: Vec<&Value> = want.iter().filter(|d| !d["err"].is_null()).collect();
        if bad.is_empty() {
            return Some(want);
        }
        e.nontrivial = true;
        e.hit(&format!("{name} directives failed"));
        let mut reports = vec![];
        for d in &bad {
            for x in list(&d["err"]) {
                let at = if d["span-p"].is_null() { &d["span"] } else { &d["span-p"] };
                if at.is_null() {
                    e.bad("span", format!("nothing says where {d} is from"));
                    return None;
                }
                let mut rep = json!({"message": x["plugin"], "reason": x["message"], "span": at});
                if !d["span"].is_null() && !d["span-p"].is_null() {
                    rep["related"] = json!([["source", d["span"]]]);
                    e.hit("with source");
                }
                reports.push(rep);
            }
        }
        let q = format!("(limabean.adapter.pod/format-errors (:pod *beans*) (cheshire.core/parse-string {} true))", quoted(&json!(reports).to_string()));
        let t = settle(e, "format-errors", s.json(&q))?;
        let t = t.as_str().unwrap_or("").to_string();
        if t.is_empty() || !complaint.contains(&t) {
            e.bad("reports", format!("failed directives are reported as {complaint}, which should have {t}"));
        }
        if !list(&had).is_empty() || !booked && !s.answers("book").is_empty() {
            e.bad("went on", "processing went on after directives failed");
        }
        None
    };
    let Some(want) = phase(&mut e, false, raw) else { return Ok(e) };
    let Some((_, booked)) = s.answers("book").pop() else {
        e.bad("book", format!("nothing was booked: {complaint}"));
        return Ok(e);
    };
    if booked["error"].is_object() {
        e.hit("not booked");
        return Ok(e);
    }
    let ds: Vec<Value> = list(&sets(&booked["result"]["directives"]))
        .into_iter()
        .map(|mut d| {
            let r = d["idx"].as_u64().and_then(|i| want.get(i as usize)).cloned().unwrap_or(Value::Null);
            for k in ["span", "span-p", "provenance"] {
                if !r[k].is_null() {
                    d[k] = r[k].clone();
                }
            }
            d
        })
        .collect();
    if phase(&mut e, true, ds).is_some() && (complaint.contains("ERROR") || complaint.contains("Exception")) {
        e.bad("plugins", complaint);
    }
    Ok(e)
}

/// J09: booking that fails is reported as the pod reports it
fn j09(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut e = Eval::default();
    let x = extra(case);
    let mut g = G::new(&x);
    let mut l = ledger(case, &mut g, true);
    let raw = g.chance(60);
    // directives that plugins leave alone are reported alike
    let mut lines = vec![];
    if raw {
        lines.push(line_for("limabean.test.plugins.identity", &None));
    }
    if g.chance(30) {
        lines.push(line_for("limabean.test.plugins.create_event", &None));
    }
    plugin_lines(&mut l, lines, &mut g);
    let r = l.render();
    let dir = w.fresh();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    e.detail = json!({"ledger": texts_json(&l.paths, &r.texts)});
    e.sample = json!({"ledger": r.texts[0]});
    e.key = hash_of(&r.texts);
    let s = Session::open(w, &dir, &root, &[], "nil");
    let Some(s) = settle(&mut e, "loading the ledger", s) else { return Ok(e) };
    let complaint = Host::take(&s.c.host.err);
    e.detail["stderr"] = json!(complaint);
    let Some((asked, booked)) = s.answers("book").pop() else {
        e.discard = Some("nothing booked");
        return Ok(e);
    };
    if raw == asked["params"].is_null() {
        e.bad("book", "directives are given to book just when there are no raw plugins");
    }
    let own = match ask(w, &root, &[req(1, "book", None)])? {
        Err(d) => {
            e.bad = d;
            return Ok(e);
        }
        Ok(mut v) => v.remove(0),
    };
    if own["error"].is_object() != booked["error"].is_object() {
        e.discard = Some("not settled");
        return Ok(e);
    }
    if !booked["error"].is_object() {
        e.hit("booked");
        if complaint.contains("failed") {
            e.bad("reports", complaint);
        }
        return Ok(e);
    }
    let reports = &own["error"]["data"];
    // (in the order in which booking came across them)
    let of = |d: &Value| list(d).iter().map(|r| r["reason"].to_string()).collect::<Vec<_>>();
    if of(reports) != of(&booked["error"]["data"]) {
        e.discard = Some("not settled");
        return Ok(e);
    }
    e.nontrivial = true;
    e.hit(if raw { "failed after raw plugins" } else { "failed" });
    for r in list(reports) {
        for k in ["contexts", "related", "annotation"] {
            if !r[k].is_null() {
                e.hit(k);
            }
        }
    }
    let text = match ask(w, &root, &[req(1, "parser.format-errors", Some(reports.clone()))])? {
        Err(d) => {
            e.bad = d;
            return Ok(e);
        }
        Ok(v) => v[0]["result"].as_str().unwrap_or("").to_string(),
    };
    if text.is_empty() || !complaint.contains("Booking failed\n") || !complaint.contains(&text) {
        e.bad("reports", format!("failures are reported as\n{complaint}\nnot\n{text}"));
    }
    let Some(had) = settle(&mut e, "directives", s.json("*directives*")) else { return Ok(e) };
    if !list(&had).is_empty() {
        e.bad("directives", "there are directives after booking failed");
    }
    Ok(e)
}

/// J10: the user's own code
fn j10(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut e = Eval::default();
    let x = extra(case);
    let mut g = G::new(&x);
    let mut l = ledger(case, &mut g, g_faulty(case));
    let r = l.render();
    let dir = w.fresh();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    // each notes that it was loaded; some fail, before or after that, or are not there
    let n = 1 + g.n(5);
    let mut names = vec![];
    let mut loaded = vec![];
    let mut failed = vec![];
    for i in 0..n {
        let (stem, how) = (*g.pick(&["a", "two words", "é", "sub/dir", "x.y"]), g.weighted(&[6, 2, 2, 1, 1, 1]));
        let p = dir.join(format!("{stem}{i}.clj"));
        std::fs::create_dir_all(p.parent().expect("directory")).map_err(|e| HarnessError(e.to_string()))?;
        let name = p.to_string_lossy().to_string();
        let ns = if g.chance(50) { "(ns user (:require [limabean.core.filters :as f]))\n" } else { "" };
        let note = format!("(def trail (conj (or (some-> (resolve 'user/trail) deref) []) {i}))\n(def last-one {i})\n(defn of-year [y] (f/date>=< y (inc y)))\n");
        let text = match how {
            0 => format!("{ns}{note}"),
            1 => format!("{ns}(throw (ex-info \"no good\" {{}}))\n{note}"),
            2 => format!("{ns}{note}(throw (ex-info \"too late\" {{:at {i}}}))\n"),
            3 => format!("{ns}{note}(require (quote no.such.namespace))\n"),
            4 => format!("{ns}{note}(let [\n"),
            _ => String::new(),
        };
        if how != 5 {
            std::fs::write(&p, text).map_err(|e| HarnessError(e.to_string()))?;
        }
        if matches!(how, 0 | 2 | 3 | 4) {
            loaded.push(i);
        }
        if how != 0 {
            failed.push(name.clone());
            e.hit(["", "throws", "throws after definitions", "unknown namespace", "unfinished", "missing"][how]);
        }
        names.push(name);
    }
    let env = names.join(":");
    e.detail = json!({"ledger": texts_json(&l.paths, &r.texts), "files": names, "fail": failed});
    e.sample = e.detail.clone();
    e.key = hash_of(&format!("{}{env}", r.texts[0]));
    e.nontrivial = n > 1;
    let s = Session::open(w, &dir, &root, &[("LIMABEAN_USER_CLJ", &env)], "nil");
    let Some(s) = settle(&mut e, "loading the ledger", s) else { return Ok(e) };
    let complaint = Host::take(&s.c.host.err);
    e.detail["stderr"] = json!(complaint);
    let said: Vec<&str> = complaint.lines().filter(|t| t.starts_with("Failed to load ")).collect();
    let want: Vec<String> = failed.iter().map(|f| format!("Failed to load {f} from $LIMABEAN_USER_CLJ")).collect();
    if said != want {
        e.bad("failures", format!("{said:?} rather than {want:?}"));
    }
    let Some(got) = settle(&mut e, "definitions", s.json("(some-> (resolve 'user/trail) deref)")) else { return Ok(e) };
    if list(&got) != loaded.iter().map(|i| json!(i)).collect::<Vec<_>>() {
        e.bad("loaded", format!("{got} are loaded, not {loaded:?}"));
    }
    if let Some(i) = loaded.last() {
        let Some(got) = settle(&mut e, "definitions", s.json("user/last-one")) else { return Ok(e) };
        if got != json!(i) {
            e.bad("loaded", format!("last-one is {got}, not {i}"));
        }
        let year = l.dirs.first().map(|d| d.date.year()).unwrap_or(2020);
        let both = (s.json(&format!("(count (journal (user/of-year {year})))")), s.json(&format!("(count (journal (f/date>=< {year} {})))", year + 1)));
        match both {
            (Ok(a), Ok(b)) if a == b => {}
            (Err(Stop::Undecided(_)), _) | (_, Err(Stop::Undecided(_))) => {}
            (a, b) => e.bad("filter", format!("a filter of the user's selects {a:?}, not {b:?}")),
        }
    }
    Ok(e)
}
/// one in four does not load
pub(super) fn g_faulty(case: &Case) -> bool {
    extra(case).last().is_some_and(|x| x % 4 == 0)
}

/// J11: the intermediate beanfiles
fn j11(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut e = Eval::default();
    let x = extra(case);
    let mut g = G::new(&x);
    let mut l = ledger(case, &mut g, g_faulty(case));
    let mut ps: Vec<Plug> = vec![];
    for i in 0..g.weighted(&[2, 4, 4, 2]) {
        let p = plug(&mut g, i, None);
        if !(matches!(p.op, Op::Auto) && ps.iter().any(|q| matches!(q.op, Op::Auto))) {
            ps.push(p);
        }
    }
    plugin_lines(&mut l, ps.iter().map(|p| line_for(&p.name, &p.config)).collect(), &mut g);
    let r = l.render();
    let dir = w.fresh();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    write_plugins(&dir, &ps)?;
    let root = match *g.pick(&["", "", "my.books.2024.beancount", "ledger", "a b.bean"]) {
        "" => root,
        n => {
            let to = dir.join(n);
            std::fs::rename(&root, &to).map_err(|e| HarnessError(e.to_string()))?;
            to
        }
    };
    let dump = dir.join(*g.pick(&["dump", "two words/é", "d.d"]));
    let there = !g.chance(12);
    let stem = root.file_stem().expect("a file").to_string_lossy().to_string();
    if there {
        std::fs::create_dir_all(&dump).map_err(|e| HarnessError(e.to_string()))?;
        // what an earlier session left
        if g.chance(40) {
            for st in ["raw", "raw-xf", "booked"] {
                let old = "2001-01-01 event \"old\" \"longer\"\n".repeat(200);
                std::fs::write(dump.join(format!("{stem}.{st}.beancount")), old).map_err(|e| HarnessError(e.to_string()))?;
            }
            e.hit("dumped before");
        }
    }
    let told = json!(ps.iter().map(|p| format!("{:?} {} {} {:?}", p.op, p.name, if p.booked { "booked" } else { "raw" }, p.config)).collect::<Vec<_>>());
    e.detail = json!({"ledger": texts_json(&l.paths, &r.texts), "plugins": told, "directory is there": there});
    e.sample = json!({"ledger": r.texts[0], "plugins": told, "directory is there": there});
    e.key = hash_of(&format!("{:?}{there}", r.texts));
    let s = Session::open(w, &dir, &root, &[("LIMABEAN_DEBUG_DIR", &dump.to_string_lossy())], "nil");
    let Some(s) = settle(&mut e, "loading the ledger", s) else { return Ok(e) };
    let complaint = Host::take(&s.c.host.err);
    e.detail["stderr"] = json!(complaint);
    let (raw, booked) = (ps.iter().any(|p| !p.booked), ps.iter().any(|p| p.booked));
    let done = s.answers("book").pop().is_some_and(|x| x.1["result"].is_object());
    let mut stages = vec![("raw", "raw-directives")];
    if raw {
        stages.push(("raw-xf", "raw-xf-directives"));
    }
    if done {
        stages.push(("booked", "booked-directives"));
        if booked {
            stages.push(("booked-xf", "booked-xf-directives"));
        }
        e.hit("booked");
    }
    e.nontrivial = stages.len() > 2;
    let said: Vec<&str> = complaint.lines().filter(|t| t.starts_with("WARNING: $LIMABEAN_DEBUG_DIR")).collect();
    if !there {
        e.hit("no such directory");
        if said.len() != stages.len() {
            e.bad("warning", format!("{said:?} for {} stages", stages.len()));
        }
        let all = s.json("(= *directives* (or (:booked-xf-directives *beans*) (:booked-directives *beans*) []))");
        let Some(all) = settle(&mut e, "directives", all) else { return Ok(e) };
        if all != json!(true) {
            e.bad("loaded", "the directives are not those of the last stage");
        }
        return Ok(e);
    }
    if !said.is_empty() {
        e.bad("warning", format!("{said:?}"));
    }
    for (st, key) in stages {
        e.hit(st);
        let name = format!("{stem}.{st}.beancount");
        let Some(want) = settle(&mut e, st, s.json(&format!("(vec (:{key} *beans*))"))) else { return Ok(e) };
        let want = list(&without(&respec(&parsed(&want)), &["provenance", "span-p", "idx"]));
        let Ok(t) = std::fs::read_to_string(dump.join(&name)) else {
            e.bad("missing", format!("there is no {name}"));
            continue;
        };
        let dates: Vec<&str> = t.lines().filter_map(|x| x.get(..10)).filter(|x| x.bytes().enumerate().all(|(i, b)| if i == 4 || i == 7 { b == b'-' } else { b.is_ascii_digit() })).collect();
        if dates != want.iter().map(|d| d["date"].as_str().unwrap_or("")).collect::<Vec<_>>() {
            e.bad("order", format!("{name} is not in the order of the directives: {t}"));
            continue;
        }
        let text = format!("{}\n{t}", l.opts.lines().into_iter().filter(|x| !x.starts_with("plugin ")).collect::<Vec<_>>().join("\n"));
        let again = dir.join(format!("again.{st}.beancount"));
        std::fs::write(&again, text).map_err(|e| HarnessError(e.to_string()))?;
        match ask(w, &again, &[req(1, "parser.directives", None)])? {
            Err(d) => e.bad = d,
            Ok(v) if v[0]["error"].is_object() => e.bad("unreadable", format!("{name} is not read: {}\n{t}", short(&v[0]["error"]["data"]))),
            Ok(v) => {
                let mut got = list(&respec(&parsed(&v[0]["result"]["directives"])));
                for d in &want {
                    match got.iter().position(|x| same(d, x)) {
                        Some(i) => {
                            got.remove(i);
                        }
                        None => {
                            e.bad("lost", format!("{name} has no {}; left are {}", short(d), short(&json!(got))));
                            break;
                        }
                    }
                }
                if e.bad.is_empty() && !got.is_empty() {
                    e.bad("more", format!("{name} has besides {}", short(&json!(got))));
                }
            }
        }
    }
    Ok(e)
}
/// booked costs and prices as they are written
fn respec(v: &Value) -> Value {
    match v {
        Value::Object(o) => {
            let txn = o.get("dct").is_none() && o.contains_key("acc");
            Value::Object(
                o.iter()
                    .map(|(k, x)| {
                        let mut x = respec(x);
                        let k = match &k[..] {
                            "cost" if txn => "cost-spec",
                            "price" if txn => "price-spec",
                            k => k,
                        };
                        if k.ends_with("-spec") && !x["per-unit"].is_null() {
                            if let Some(x) = x.as_object_mut() {
                                x.remove("total");
                            }
                        }
                        (k.to_string(), x)
                    })
                    .collect(),
            )
        }
        Value::Array(a) => Value::Array(a.iter().map(respec).collect()),
        v => v.clone(),
    }
}

pub fn checks() -> Vec<Box<dyn Check>> {
    vec![
        mk("J07", 500, (1, 14), "ledgers with up to four generated plugins, raw and booked; non-trivial: a directive changed or added by a plugin", |c, w| inside(c, w, j07)),
        mk("J08", 500, (1, 12), "ledgers with plugins that are not resolved, fail directives or throw; non-trivial: one did", |c, w| inside(c, w, j08)),
        mk("J09", 500, (1, 20), "ledgers with faults, with and without raw plugins; non-trivial: booking failed", |c, w| inside(c, w, j09)),
        mk("J10", 400, (1, 6), "ledgers with up to five files of the user's code, of which some fail; non-trivial: more than one file", |c, w| inside(c, w, j10)),
        mk("J11", 250, (1, 14), "ledgers, also faulty ones, with up to three plugins, dumped; non-trivial: more than two stages", |c, w| inside(c, w, j11)),
    ]
}
