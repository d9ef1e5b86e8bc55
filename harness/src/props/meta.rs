//! Metamorphic checks: related inputs whose results must be related.
use super::common::*;
use super::book::PROFILES;
use crate::ast::*;
use crate::compare::*;
use crate::gen::{self, f, string, Profile};
use crate::genes::{Case, G};
use crate::model::*;
use crate::pod::*;
use crate::runner::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use time::Duration;

/// genes for choices beside those of the ledger
pub fn extra(case: &Case) -> Vec<u16> {
    let n = case.cfg.len();
    case.cfg[n.saturating_sub(96)..].to_vec()
}

/// a ledger whose result the booking crate's own hash order cannot sway
pub fn settled(l: &Ledger, sorted: &[Dir]) -> Option<Model> {
    let m = Model::run(&l.opts, sorted);
    if m.ambiguous || m.st.get("ambiguous-reason") > 0 {
        None
    } else {
        Some(m)
    }
}

pub fn no_spans(v: &Value) -> Value {
    let mut v = norm(v);
    for d in v.as_array_mut().into_iter().flatten() {
        if let Some(o) = d.as_object_mut() {
            o.remove("span");
            for p in o.get_mut("postings").and_then(|p| p.as_array_mut()).into_iter().flatten() {
                if let Some(p) = p.as_object_mut() {
                    p.remove("span");
                }
            }
        }
    }
    v
}

fn dirs_of(v: &Value) -> Value {
    v["result"]["directives"].clone()
}

/// what a booking gave: directives, or faults by index
#[derive(Clone, Debug)]
pub enum Res {
    Ok(Value),
    Faults(Vec<GotFault>),
}

pub fn res_own(resp: &Value, sm: &SpanMap, dirs: &[Dir], out: &mut Vec<Disc>) -> Option<Res> {
    if let Some(r) = resp.get("result") {
        return Some(Res::Ok(norm(&r["directives"])));
    }
    if resp["error"]["code"] != 2 {
        out.push(disc("proto", format!("booking gave {}", short(resp))));
        return None;
    }
    let (got, bad) = span_faults(&resp["error"]["data"], sm, dirs);
    if !bad.is_empty() {
        out.extend(bad);
        return None;
    }
    Some(Res::Faults(got))
}
pub fn res_params(resp: &Value, out: &mut Vec<Disc>) -> Option<Res> {
    if let Some(r) = resp.get("result") {
        return Some(Res::Ok(norm(&r["directives"])));
    }
    if resp["error"]["code"] != 3 {
        out.push(disc("proto", format!("booking gave {}", short(resp))));
        return None;
    }
    match indexed_faults(&resp["error"]["data"]) {
        Ok(g) => Some(Res::Faults(g)),
        Err(e) => {
            out.push(disc("proto", e));
            None
        }
    }
}

type FKey = (El, String, Vec<El>, Option<String>);
pub fn fkey(g: &GotFault, annot: bool) -> FKey {
    (g.at, norm_reason(&g.reason), g.related.clone(), if annot { g.annotation.clone() } else { None })
}

pub fn same_res(a: &Res, b: &Res, what: &str, out: &mut Vec<Disc>) {
    match (a, b) {
        (Res::Ok(x), Res::Ok(y)) => {
            if x != y {
                let (xs, ys) = (x.as_array().cloned().unwrap_or_default(), y.as_array().cloned().unwrap_or_default());
                let i = xs.iter().zip(&ys).position(|(p, q)| p != q).unwrap_or(xs.len().min(ys.len()));
                out.push(disc(
                    "differ",
                    format!("{what}: booked directive {i} is {} in one and {} in the other", xs.get(i).map(short).unwrap_or("absent".into()), ys.get(i).map(short).unwrap_or("absent".into())),
                ));
            }
        }
        (Res::Faults(x), Res::Faults(y)) => {
            let kx: Vec<FKey> = x.iter().map(|g| fkey(g, true)).collect();
            let ky: Vec<FKey> = y.iter().map(|g| fkey(g, true)).collect();
            if kx != ky {
                out.push(disc("differ", format!("{what}: faults {kx:?} in one and {ky:?} in the other")));
            }
        }
        (Res::Ok(_), Res::Faults(y)) => out.push(disc("differ", format!("{what}: one is booked, the other has faults {y:?}"))),
        (Res::Faults(x), Res::Ok(_)) => out.push(disc("differ", format!("{what}: one has faults {x:?}, the other is booked"))),
    }
}

fn run_own(w: &mut Worker, l: &Ledger, more: Vec<Value>) -> Result<Result<Vec<Value>, Vec<Disc>>, HarnessError> {
    let r = l.render();
    let dir = w.fresh();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    let mut reqs = vec![req(1, "parser.directives", None), req(2, "book", None)];
    reqs.extend(more);
    match ask(w, &root, &reqs)? {
        Err(d) => Ok(Err(d)),
        Ok(v) if v[0].get("result").is_none() => {
            Ok(Err(vec![disc("noparse", format!("ledger was not parsed: {}", short(&v[0])))]))
        }
        Ok(v) => Ok(Ok(v)),
    }
}

fn note_classes(ev: &mut Eval, m: &Model, dirs: &[Dir]) {
    for x in &m.faults {
        ev.hit(&format!("fault {}", reason_class(&x.reasons[0], dirs[x.at.0].kind())));
    }
    if m.faults.is_empty() {
        ev.hit("success");
    }
    for k in ["open-booking", "second-pad", "pad-used", "interp-units", "at-cost", "txn-ok"] {
        if m.st.get(k) > 0 {
            ev.hit(k);
        }
    }
}

// ---------------------------------------------------------------- C12

/// rejected directives removed: the other faults stay, and nothing else changes
fn c12(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let ex = extra(case);
    let mut g = G::new(&ex);
    let p = &PROFILES.c12[g.n(PROFILES.c12.len())];
    let b = gen::build(case, p);
    let mut list = b.ledger.sorted();
    if g.chance(50) && !list.is_empty() {
        // assertions at the end that show what every account holds
        let date = list.iter().map(|d| d.date).max().unwrap() + Duration::days(1);
        let accs: BTreeSet<String> = list
            .iter()
            .filter_map(|d| match &d.var {
                Var::Open { acc, .. } => Some(acc.clone()),
                _ => None,
            })
            .collect();
        let curs = ["USD", "EUR", "AAPL", "VTI"];
        for a in accs {
            for c in &curs[..1 + g.n(curs.len())] {
                list.push(Dir {
                    date,
                    var: Var::Balance { acc: a.clone(), units: Num::of(gen::dec(987_654_321_125, 3)), cur: c.to_string(), tol: None },
                    meta: Meta::default(),
                    style: vec![],
                });
            }
        }
    }
    let Some(m) = settled(&b.ledger, &list) else { return Ok(Eval::discard("booking crate's hash order decides")) };
    let mut ev = Eval::default();
    note_classes(&mut ev, &m, &list);
    let r = b.ledger.render();
    let dir = w.fresh();
    // only the options of the ledger matter here
    let mut bare = b.ledger.clone();
    bare.dirs.clear();
    bare.files = vec![bare.files[0].iter().filter(|i| matches!(i, Item::Line(l) if l.starts_with("option"))).cloned().collect()];
    bare.paths.truncate(1);
    let root = write_ledger(&dir, &bare.paths, &bare.render().texts)?;
    let first = match ask(w, &root, &[req(1, "book", Some(params_of(&list)))])? {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) => v,
    };
    let mut bad = vec![];
    let faults = match res_params(&first[0], &mut bad) {
        None => vec![],
        Some(Res::Ok(_)) => vec![],
        Some(Res::Faults(f)) => f,
    };
    let mut groups: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for x in &faults {
        if x.reason.starts_with("accumulated") {
            continue;
        }
        let e = groups.entry(x.at.0).or_default();
        e.insert(x.at.0);
        if x.reason.contains("second pad") {
            e.extend(x.related.iter().map(|r| r.0));
        }
    }
    let mut removals: Vec<BTreeSet<usize>> = vec![];
    if !groups.is_empty() {
        removals.push(groups.values().flatten().copied().collect());
        let keys: Vec<usize> = groups.keys().copied().collect();
        for _ in 0..3.min(keys.len()) {
            let k = *g.pick(&keys);
            let s = groups[&k].clone();
            if !removals.contains(&s) {
                removals.push(s);
            }
        }
    }
    let mut reqs = vec![];
    for (i, s) in removals.iter().enumerate() {
        let kept: Vec<Dir> = list.iter().enumerate().filter(|(j, _)| !s.contains(j)).map(|(_, d)| d.clone()).collect();
        reqs.push(req(i as u64, "book", Some(params_of(&kept))));
    }
    let second = if reqs.is_empty() {
        vec![]
    } else {
        match ask(w, &root, &reqs)? {
            Err(d) => {
                ev.bad = d;
                return Ok(ev);
            }
            Ok(v) => v,
        }
    };
    for (s, resp) in removals.iter().zip(&second) {
        let map: Vec<usize> = (0..list.len()).filter(|j| !s.contains(j)).collect();
        // faults of the removed ones are gone, all others stay
        let want: Vec<FKey> = faults
            .iter()
            .filter(|x| !s.contains(&x.at.0))
            .map(|x| fkey(x, true))
            .collect();
        let back = |e: El| (map.get(e.0).copied().unwrap_or(usize::MAX), e.1);
        let got: Vec<FKey> = match res_params(resp, &mut bad) {
            None => continue,
            Some(Res::Ok(_)) => vec![],
            Some(Res::Faults(f)) => f
                .into_iter()
                .map(|mut x| {
                    x.at = back(x.at);
                    x.related = x.related.into_iter().map(back).collect();
                    fkey(&x, true)
                })
                .collect(),
        };
        if want != got {
            let gone: Vec<&FKey> = want.iter().filter(|k| !got.contains(k)).collect();
            let new: Vec<&FKey> = got.iter().filter(|k| !want.contains(k)).collect();
            bad.push(disc("trace", format!("without directives {s:?}: no more {gone:?}, now {new:?}")));
        }
        ev.hit(if want.is_empty() { "removal leaves no fault" } else { "removal leaves faults" });
    }
    ev.bad = bad;
    let last = list.len() - 1.min(list.len());
    ev.nontrivial = groups.keys().any(|k| *k + 1 < last);
    ev.key = hash_of(&(r.texts.clone(), list.len()));
    ev.sample = json!({"ledger": r.texts[0], "rejected": groups.keys().collect::<Vec<_>>(), "faults": faults.len()});
    ev.detail = json!({"options": bare.render().texts, "params": params_of(&list), "removed": removals, "first": first, "second": second});
    Ok(ev)
}

// ---------------------------------------------------------------- C14

/// the same directives standing in another order in the file
fn c14(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let ex = extra(case);
    let mut g = G::new(&ex);
    let p = &PROFILES.c14[g.n(PROFILES.c14.len())];
    let b = gen::build(case, p);
    let l = &b.ledger;
    let sorted = l.sorted();
    let Some(m) = settled(l, &sorted) else { return Ok(Eval::discard("booking crate's hash order decides")) };
    let mut ev = Eval::default();
    note_classes(&mut ev, &m, &sorted);
    // a random order, except that those of the same date and rank keep theirs
    let n = l.dirs.len();
    let mut perm: Vec<usize> = (0..n).collect();
    match g.n(4) {
        0 => perm.reverse(),
        1 => {
            for _ in 0..1 + g.n(6) {
                if n > 0 {
                    let (i, j) = (g.n(n), g.n(n));
                    perm.swap(i, j);
                }
            }
        }
        _ => {
            for i in (1..n).rev() {
                let j = g.n(i + 1);
                perm.swap(i, j);
            }
        }
    }
    let key = |i: usize| (l.dirs[i].date, l.dirs[i].rank());
    let mut slots: BTreeMap<_, Vec<usize>> = BTreeMap::new();
    for (pos, i) in perm.iter().enumerate() {
        slots.entry(key(*i)).or_default().push(pos);
    }
    let mut new = vec![0; n];
    let mut next: BTreeMap<_, usize> = BTreeMap::new();
    for i in 0..n {
        let k = key(i);
        let c = next.entry(k).or_default();
        new[slots[&k][*c]] = i;
        *c += 1;
    }
    let mut l2 = l.clone();
    l2.dirs = new.iter().map(|i| l.dirs[*i].clone()).collect();
    let moved = new.iter().enumerate().filter(|(a, b)| a != *b).count();
    let (a, b2) = (run_own(w, l, vec![])?, run_own(w, &l2, vec![])?);
    let (a, b2) = match (a, b2) {
        (Err(d), _) | (_, Err(d)) => {
            ev.bad = d;
            return Ok(ev);
        }
        (Ok(a), Ok(b)) => (a, b),
    };
    let mut bad = vec![];
    if no_spans(&dirs_of(&a[0])) != no_spans(&dirs_of(&b2[0])) {
        bad.push(disc("differ", "the parsed directives differ between the two orders in the file"));
    }
    let mut raw = diff_raw(&sorted, &dirs_of(&a[0]));
    raw.extend(diff_raw(&sorted, &dirs_of(&b2[0])));
    raw.retain(|d| d.class == "raw-order");
    bad.extend(raw);
    let ra = res_own(&a[1], &SpanMap::of(&dirs_of(&a[0])), &sorted, &mut bad);
    let rb = res_own(&b2[1], &SpanMap::of(&dirs_of(&b2[0])), &sorted, &mut bad);
    if let (Some(x), Some(y)) = (&ra, &rb) {
        same_res(x, y, "the two orders in the file", &mut bad);
    }
    // whatever shares its date with directives of another rank is judged in the documented order
    if bad.is_empty() {
        let mixed = |i: usize| sorted.iter().any(|d| d.date == sorted[i].date && d.rank() != sorted[i].rank());
        let sm = SpanMap::of(&dirs_of(&a[0]));
        bad.extend(diff_book_own(&m, &sorted, &a[1], &sm).into_iter().filter(|d| {
            d.class == "order"
                || (["missing:acct", "extra:acct", "missing:open", "extra:open", "missing:bal", "extra:bal"].contains(&d.class.as_str())
                    && d.at.is_some_and(|i| i < sorted.len() && mixed(i)))
        }));
    }
    ev.bad = bad;
    ev.nontrivial = moved > 0;
    let texts = (l.render().texts, l2.render().texts);
    ev.key = hash_of(&texts);
    ev.sample = json!({"moved": moved, "one": texts.0[0], "other": texts.1[0]});
    ev.detail = json!({"one": texts.0, "other": texts.1, "response one": a, "response other": b2});
    Ok(ev)
}

// ---------------------------------------------------------------- C15

/// JSON text of the value in a spelling of its own
pub struct Speller<'a, 'b> {
    pub g: &'a mut G<'b>,
    pub shuffle: u32,
    pub nulls: u32,
    pub numbers: u32,
    pub spaces: u32,
    pub drop_spans: u32,
}
fn num_text(g: &mut G, t: &str) -> String {
    // mantissa digits and scale are those of the text
    let (neg, body) = match t.strip_prefix('-') {
        Some(b) => ("-", b),
        None => ("", t),
    };
    let (i, f) = body.split_once('.').unwrap_or((body, ""));
    let all = format!("{i}{f}");
    let digits = all.trim_start_matches('0');
    let e = ["e", "E"][g.n(2)];
    if digits.is_empty() || digits.len() > 20 {
        return t.to_string();
    }
    let scale = f.len();
    match g.n(3) {
        0 if scale > 0 => format!("{neg}{digits}{e}-{scale}"),
        1 if scale > 1 && digits.len() > 1 => {
            // part of the scale as a fraction
            let k = 1 + g.n(digits.len().min(scale) - 1);
            let (a, b) = digits.split_at(digits.len() - k);
            if a.is_empty() {
                format!("{neg}0.{b}{e}-{}", scale - k)
            } else {
                format!("{neg}{a}.{b}{e}-{}", scale - k)
            }
        }
        _ => format!("{neg}{}{}{}", if i.is_empty() { "0" } else { i }, if scale > 0 { "." } else { "" }, f) + ["e0", "E0", "e+0", ""][g.n(4)],
    }
}

impl Speller<'_, '_> {
    fn sp(&mut self) -> &'static str {
        if self.g.chance(self.spaces) {
            [" ", "  ", "\t", " "][self.g.n(4)]
        } else {
            ""
        }
    }
    pub fn text(&mut self, v: &Value, at: &str, top: bool) -> String {
        // below metadata and the values of custom directives nothing is named by us
        let free = at == "metadata" || at == "values" || at == "free";
        match v {
            Value::Object(m) => {
                let mut ks: Vec<(String, String)> = vec![];
                for (k, x) in m {
                    if !free && k == "span" && self.g.chance(self.drop_spans) {
                        continue;
                    }
                    let t = self.text(x, if free { "free" } else { k }, false);
                    ks.push((Value::String(k.clone()).to_string(), t));
                }
                // fields that may be absent may be null
                let opt: &[&str] = if top {
                    match m["dct"].as_str().unwrap_or("") {
                        "txn" => &["tags", "links", "metadata", "payee", "narration", "span"],
                        "balance" => &["tags", "links", "metadata", "tolerance"],
                        "open" => &["tags", "links", "metadata", "currencies", "booking"],
                        _ => &["tags", "links", "metadata"],
                    }
                } else {
                    match at {
                        "postings" => &["flag", "units", "cur", "cost-spec", "price-spec", "tags", "links", "metadata", "span"],
                        "cost-spec" => &["per-unit", "total", "cur", "label"],
                        "price-spec" => &["per-unit", "total", "cur"],
                        "price" => &["total"],
                        _ => &[],
                    }
                };
                for k in opt {
                    if !m.contains_key(*k) && self.g.chance(self.nulls) {
                        ks.push((format!("{k:?}"), "null".into()));
                    }
                }
                if self.g.chance(self.shuffle) {
                    for i in (1..ks.len()).rev() {
                        let j = self.g.n(i + 1);
                        ks.swap(i, j);
                    }
                }
                let parts: Vec<String> = ks
                    .into_iter()
                    .map(|(k, t)| format!("{}{k}{}:{}{t}{}", self.sp(), self.sp(), self.sp(), self.sp()))
                    .collect();
                format!("{{{}}}", parts.join(","))
            }
            Value::Array(a) => {
                let mut parts: Vec<String> = a.iter().map(|x| format!("{}{}", self.sp(), self.text(x, at, false))).collect();
                if matches!(at, "tags" | "links" | "currencies") && parts.len() > 1 && self.g.chance(self.shuffle) {
                    let k = self.g.n(parts.len());
                    parts.rotate_left(k);
                }
                format!("[{}]", parts.join(","))
            }
            Value::Number(n) if at != "span" && self.g.chance(self.numbers) => num_text(self.g, &n.to_string()),
            v => v.to_string(),
        }
    }
    pub fn list(&mut self, v: &Value) -> String {
        let parts: Vec<String> = v.as_array().into_iter().flatten().map(|d| self.text(d, "", true)).collect();
        format!("[{}]", parts.join(","))
    }
}

/// an edited list, as a program working on the directives might make it
fn edit(g: &mut G, list: &[Dir], other: &[Dir]) -> Vec<Dir> {
    let mut v = list.to_vec();
    for _ in 0..1 + g.n(6) {
        let n = v.len();
        match g.n(11) {
            0 if n > 0 => {
                let i = g.n(n);
                v.remove(i);
            }
            1 if n > 0 => {
                let (i, j) = (g.n(n), g.n(n));
                v.swap(i, j);
            }
            2 if n > 0 => {
                let d = v[g.n(n)].clone();
                let j = g.n(n + 1);
                v.insert(j, d);
            }
            3 if !other.is_empty() => {
                let d = other[g.n(other.len())].clone();
                let j = g.n(n + 1);
                v.insert(j, d);
            }
            4 if n > 0 => {
                let i = g.n(n);
                v[i].date += Duration::days(g.n(60) as i64 - 30);
            }
            5 => {
                let k = g.n(n + 1);
                v.truncate(k.max(n / 2));
            }
            6 if n > 0 => {
                let i = g.n(n);
                if let Var::Txn { postings, .. } = &mut v[i].var {
                    let by = gen::dec(1 + g.n(500) as i64, 2);
                    let k: Vec<usize> = (0..postings.len()).filter(|j| postings[*j].units.is_some() && postings[*j].cost.is_none()).collect();
                    // by as much up as down
                    if k.len() > 1 {
                        let (x, y) = (k[0], k[k.len() - 1]);
                        let up = postings[x].units.as_ref().unwrap().v + by;
                        let down = postings[y].units.as_ref().unwrap().v - by;
                        if !up.is_zero() && !down.is_zero() {
                            postings[x].units = Some(Num::of(up));
                            postings[y].units = Some(Num::of(down));
                        }
                    }
                }
            }
            7 if n > 0 => {
                let i = g.n(n);
                let s = string(g, 30, false);
                match &mut v[i].var {
                    Var::Txn { narration, payee, flag, .. } => {
                        *narration = Some(s.clone());
                        if g.chance(50) {
                            *payee = if payee.is_some() { None } else { Some(s) };
                        }
                        if g.chance(30) {
                            *flag = "!".into();
                        }
                    }
                    Var::Note { comment, .. } => *comment = s,
                    _ => v[i].meta.kv = vec![("edited".into(), Mv::Str(s))],
                }
            }
            // what no file can say
            8 if n > 0 => {
                let i = g.n(n);
                let s = ["", "", "two\nlines", "\u{1}", "tab\there", "quote \" and \\"][g.n(6)].to_string();
                match &mut v[i].var {
                    Var::Txn { narration, payee, flag, .. } => match g.n(4) {
                        0 => *narration = Some(s),
                        1 => *payee = Some(s),
                        2 => (*payee, *narration) = (Some(s.clone()), Some(s)),
                        _ => *flag = ["", "X1", "'P", "**", "é"][g.n(5)].to_string(),
                    },
                    Var::Note { comment, .. } => *comment = s,
                    Var::Document { path, .. } => *path = s,
                    Var::Event { typ, desc } => (*typ, *desc) = (s.clone(), s),
                    Var::Query { name, content } => (*name, *content) = (s.clone(), s),
                    Var::Custom { typ, .. } => *typ = s,
                    _ => v[i].meta.kv = vec![(["", "a b", "É", "UP"][g.n(4)].into(), Mv::Str(s))],
                }
            }
            9 => {
                // an account of another name throughout
                let accs: Vec<String> = v.iter().filter_map(|d| if let Var::Open { acc, .. } = &d.var { Some(acc.clone()) } else { None }).collect();
                if !accs.is_empty() {
                    let from = accs[g.n(accs.len())].clone();
                    let to = ["x", "", "assets", "Assets", "Assets:", ":", "Assets::B", "a b", "A:é", "1:2"][g.n(10)].to_string();
                    if !accs.contains(&to) {
                        rename(&mut v, &from, &to);
                    }
                }
            }
            10 if n > 0 => {
                let i = g.n(n);
                v[i].meta.tags = vec![["", "a b", "#x", "É", "'"][g.n(5)].to_string()];
                v[i].meta.links = vec![["", "a b", "^x", "É"][g.n(4)].to_string()];
            }
            _ => {}
        }
    }
    v
}

fn rename(v: &mut [Dir], from: &str, to: &str) {
    for d in v.iter_mut() {
        let put = |a: &mut String| {
            if a == from {
                *a = to.to_string()
            }
        };
        match &mut d.var {
            Var::Txn { postings, .. } => postings.iter_mut().for_each(|p| put(&mut p.acc)),
            Var::Pad { acc, source } => {
                put(acc);
                put(source);
            }
            Var::Balance { acc, .. } | Var::Open { acc, .. } | Var::Close { acc } | Var::Document { acc, .. } | Var::Note { acc, .. } => put(acc),
            _ => (),
        }
    }
}

fn c15(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let ex = extra(case);
    let mut g = G::new(&ex);
    let p = &PROFILES.c15[g.n(PROFILES.c15.len())];
    let b = gen::build(case, p);
    let l = &b.ledger;
    let sorted = l.sorted();
    let Some(m) = settled(l, &sorted) else { return Ok(Eval::discard("booking crate's hash order decides")) };
    let mut ev = Eval::default();
    note_classes(&mut ev, &m, &sorted);
    let r = l.render();
    ev.detail = texts_json(&l.paths, &r.texts);
    let dir = w.fresh();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    // the directives, as the pod has them
    let first = match ask(w, &root, &[req(1, "parser.directives", None)])? {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) => v,
    };
    let pd = dirs_of(&first[0]);
    if !pd.is_array() {
        ev.bad("noparse", short(&first[0]));
        return Ok(ev);
    }
    let as_is = pd.to_string();
    let spelled = {
        let sub = case.cfg.iter().rev().flat_map(|x| [*x, x.rotate_left(5) ^ 0x5a5a]).cycle().take(6000).collect::<Vec<u16>>();
        let mut g2 = G::new(&sub);
        let (shuffle, nulls, numbers, spaces, drop_spans) = (
            [0, 30, 100][g.n(3)],
            [0, 20, 100][g.n(3)],
            [0, 40, 100][g.n(3)],
            [0, 10][g.n(2)],
            [0, 40, 100][g.n(3)],
        );
        Speller { g: &mut g2, shuffle, nulls, numbers, spaces, drop_spans }.list(&pd)
    };
    let other = gen::build(&Case { cfg: case.cfg.iter().rev().copied().collect(), ops: case.ops.iter().rev().take(6).cloned().collect() }, p);
    let edited = edit(&mut g, &sorted, &other.ledger.dirs);
    let em = settled(l, &edited);
    let mk = |id: u32, params: &str| format!("{{\"jsonrpc\":\"2.0\",\"id\":{id},\"method\":\"book\",\"params\":{params}}}").into_bytes();
    let lines = vec![
        mk(1, &as_is),
        mk(2, &spelled),
        line(&req(3, "book", None)),
        mk(4, &params_of(&edited).to_string()),
    ];
    let out = w.serve(&root, &lines)?;
    let resp = match responses(&out, 4) {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) => v,
    };
    let mut bad = vec![];
    let own = res_own(&resp[2], &SpanMap::of(&pd), &sorted, &mut bad);
    for (i, what) in [(0, "the directives as returned"), (1, "the directives spelled differently")] {
        if let (Some(a), Some(b)) = (&own, res_params(&resp[i], &mut bad)) {
            same_res(a, &b, what, &mut bad);
        }
    }
    if let Some(em) = em {
        ev.hit("edited");
        if em.faults.is_empty() {
            ev.hit("edited, booked");
        }
        bad.extend(
            diff_book_params(&em, &edited, &resp[3])
                .into_iter()
                .map(|mut d| {
                    d.msg = format!("edited list: {}", d.msg);
                    d
                }),
        );
    }
    ev.bad = bad;
    ev.nontrivial = !sorted.is_empty() && spelled != as_is;
    ev.key = hash_of(&(&r.texts, &spelled));
    ev.sample = json!({"ledger": r.texts[0], "spelled": spelled.chars().take(1500).collect::<String>()});
    ev.detail = json!({"ledger": texts_json(&l.paths, &r.texts), "spelled": spelled, "edited": params_of(&edited), "responses": resp});
    Ok(ev)
}

// ---------------------------------------------------------------- C18

fn c18(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let ex = extra(case);
    let mut g = G::new(&ex);
    let p = &PROFILES.c18[g.n(PROFILES.c18.len())];
    let b = gen::build(case, p);
    let l = &b.ledger;
    let sorted = l.sorted();
    let Some(m) = settled(l, &sorted) else { return Ok(Eval::discard("booking crate's hash order decides")) };
    let mut ev = Eval::default();
    note_classes(&mut ev, &m, &sorted);
    let r = l.render();
    ev.detail = texts_json(&l.paths, &r.texts);
    let dir = w.fresh();
    let mut texts = r.texts.clone();
    if g.chance(8) {
        texts[0].push_str("2020-01-01 opne Assets:Bad\n");
        ev.hit("unparseable ledger");
    }
    let root = write_ledger(&dir, &l.paths, &texts)?;
    let spans: Vec<Value> = r
        .dlocs
        .iter()
        .chain(r.plocs.iter().flatten())
        .map(|x| json!([0, x.start, x.end]))
        .collect();
    // spans within others and overlapping others, at the same start and at the same end
    let mut spans = spans;
    for k in 0..spans.len().min(24) {
        let Some([s, e]) = spans[g.n(spans.len())].as_array().map(|a| [a[1].as_u64().unwrap_or(0), a[2].as_u64().unwrap_or(0)]) else { continue };
        if let Some(t) = texts[0].get(s as usize..e as usize).filter(|t| t.is_ascii() && !t.is_empty()) {
            let cut = 1 + g.n(t.len()) as u64;
            spans.push(if k % 2 == 0 { json!([0, s, s + cut]) } else { json!([0, e - cut, e]) });
        }
    }
    let mut reqs: Vec<Value> = vec![];
    let mut pure: Vec<usize> = vec![];
    let n = 3 + g.n(14);
    for k in 0..n {
        let id = json!(100 + k);
        let mut is_pure = true;
        let q = match g.n(17) {
            14 | 15 => {
                // the same start again and again
                let v: Vec<Value> = (0..1 + g.n(6)).filter(|_| !spans.is_empty()).map(|_| spans[g.n(spans.len())].clone()).collect();
                req(id, "parser.resolve-spans", Some(json!(v)))
            }
            0 => req(id, "parser.plugins", None),
            1 | 2 => req(id, "parser.directives", None),
            3 => req(id, "parser.options", None),
            4..=6 => req(id, "book", None),
            7 | 8 => {
                let other = edit(&mut g, &sorted, &sorted);
                if settled(l, &other).is_none() {
                    is_pure = false;
                }
                req(id, "book", Some(params_of(&other)))
            }
            9 => {
                let v: Vec<Value> = (0..g.n(4)).filter(|_| !spans.is_empty()).map(|_| spans[g.n(spans.len())].clone()).collect();
                req(id, "parser.resolve-spans", Some(json!(v)))
            }
            10 => {
                is_pure = false;
                let v: Vec<Value> = (0..1 + g.n(3))
                    .map(|i| json!({"name": *g.pick(&["syn", "other", "a.beancount"]), "content": format!("text {k} {i}")}))
                    .collect();
                req(id, "parser.create-synthetic-spans", Some(json!(v)))
            }
            11 => {
                let v: Vec<Value> = (0..1 + g.n(2))
                    .filter(|_| !spans.is_empty())
                    .map(|i| json!({"message": format!("m{i}"), "reason": "why", "span": spans[g.n(spans.len())].clone()}))
                    .collect();
                req(id, if g.chance(50) { "parser.format-errors" } else { "parser.format-warnings" }, Some(json!(v)))
            }
            12 => req(id, "status", None),
            _ => match g.n(3) {
                0 => req(id, "no.such", None),
                1 => req(id, "book", Some(json!([{"dct": "open"}]))),
                _ => json!({"jsonrpc": "1.0", "id": id, "method": "book"}),
            },
        };
        if is_pure {
            pure.push(k);
        }
        reqs.push(q);
    }
    let lines: Vec<Vec<u8>> = reqs.iter().map(line).collect();
    let out = w.serve(&root, &lines)?;
    let resp = match responses(&out, reqs.len()) {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) => v,
    };
    let mut tried = 0;
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut alone = vec![];
    // later ones first: they have more behind them
    for k in pure.iter().rev() {
        let mut q = reqs[*k].clone();
        q["id"] = json!(0);
        if !seen.insert(q.to_string()) {
            continue;
        }
        tried += 1;
        if tried > 5 {
            break;
        }
        let out = w.serve(&root, &[line(&reqs[*k])])?;
        let one = match responses(&out, 1) {
            Err(d) => {
                ev.bad = d;
                return Ok(ev);
            }
            Ok(v) => v,
        };
        if norm_resp(&one[0]) != norm_resp(&resp[*k]) {
            ev.bad("history", format!("request {k} {} got {} after others and {} alone", short(&reqs[*k]), short(&resp[*k]), short(&one[0])));
        }
        alone.push(json!({"request": k, "response": one[0]}));
    }
    // and each equal request in the history got an equal answer
    let mut by: BTreeMap<String, (usize, Value)> = BTreeMap::new();
    for k in &pure {
        let mut q = reqs[*k].clone();
        q["id"] = json!(0);
        let mut a = norm_resp(&resp[*k]);
        if a["id"] == json!(100 + k) {
            a["id"] = json!(0);
        }
        match by.get(&q.to_string()) {
            None => {
                by.insert(q.to_string(), (*k, a));
            }
            Some((j, b)) if *b != a => ev.bad("history", format!("requests {j} and {k} are equal but not their responses: {} {}", short(b), short(&a))),
            Some(_) => ev.hit("repeated request"),
        }
    }
    ev.nontrivial = n > 3 && !alone.is_empty();
    ev.key = hash_of(&(&texts, Value::Array(reqs.clone()).to_string()));
    ev.sample = json!({"ledger": texts[0], "methods": reqs.iter().map(|r| r["method"].clone()).collect::<Vec<_>>()});
    ev.detail = json!({"ledger": texts_json(&l.paths, &texts), "requests": reqs, "responses": resp, "alone": alone});
    Ok(ev)
}

// ---------------------------------------------------------------- C27

fn c27(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let ex = extra(case);
    let mut g = G::new(&ex);
    let p = &PROFILES.c27[g.n(PROFILES.c27.len())];
    let b = gen::build(case, p);
    let mut b = b;
    // hundreds of files now and then
    if g.chance(1) {
        let l = &mut b.ledger;
        if let Some(at) = l.files[0].iter().position(|x| matches!(x, Item::Include(_))) {
            for k in 0..250 + g.n(60) {
                let f = l.files.len();
                l.files.push(vec![Item::Line(format!("; file {k}"))]);
                l.paths.push(format!("more{k}.beancount"));
                l.files[0].insert(at, Item::Include(f));
            }
        }
    }
    let l = &b.ledger;
    let sorted = l.sorted();
    let order = l.order();
    let Some(m) = settled(l, &sorted) else { return Ok(Eval::discard("booking crate's hash order decides")) };
    let mut ev = Eval::default();
    note_classes(&mut ev, &m, &sorted);
    // the same in one file: each include replaced by what it includes
    fn flat(l: &Ledger, f: usize, out: &mut Vec<Item>) {
        for it in &l.files[f] {
            match it {
                Item::Include(k) => flat(l, *k, out),
                it => out.push(it.clone()),
            }
        }
    }
    let mut one = l.clone();
    let mut items = vec![];
    flat(l, 0, &mut items);
    one.files = vec![items];
    one.paths.truncate(1);
    let more = || vec![req(3, "parser.plugins", None), req(4, "parser.options", None)];
    let rone = match run_own(w, &one, more())? {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) => v,
    };
    // several times: files must not be taken in whatever order a hash gives
    let r = l.render();
    ev.detail = texts_json(&l.paths, &r.texts);
    let dir = w.fresh();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    let mut reqs = vec![req(1, "parser.directives", None), req(2, "book", None)];
    reqs.extend(more());
    let many = match ask(w, &root, &reqs)? {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) => v,
    };
    let mut bad = vec![];
    let pd = dirs_of(&many[0]);
    if !pd.is_array() {
        ev.bad("noparse", short(&many[0]));
        return Ok(ev);
    }
    if no_spans(&pd) != no_spans(&dirs_of(&rone[0])) {
        bad.push(disc("differ", format!("parsed directives: {} split and {} in one file", short(&no_spans(&pd)), short(&no_spans(&dirs_of(&rone[0]))))));
    }
    for i in [2, 3] {
        if norm(&many[i]["result"]) != norm(&rone[i]["result"]) {
            bad.push(disc("differ", format!("{} split and {} in one file", short(&many[i]), short(&rone[i]))));
        }
    }
    let a = res_own(&many[1], &SpanMap::of(&pd), &sorted, &mut bad);
    let o = res_own(&rone[1], &SpanMap::of(&dirs_of(&rone[0])), &sorted, &mut bad);
    if let (Some(a), Some(o)) = (&a, &o) {
        same_res(a, o, "split and in one file", &mut bad);
    }
    // every span leads to the file that holds the text
    let mut spans = vec![];
    let mut want = vec![];
    for (i, d) in pd.as_array().unwrap().iter().enumerate() {
        let Some(di) = order.get(i) else { break };
        spans.push(d["span"].clone());
        want.push(&r.dlocs[*di]);
        for (j, q) in d.get("postings").and_then(|p| p.as_array()).into_iter().flatten().enumerate() {
            if let Some(loc) = r.plocs[*di].get(j) {
                spans.push(q["span"].clone());
                want.push(loc);
            }
        }
    }
    for x in many[1]["error"]["data"].as_array().into_iter().flatten() {
        // those of faults are among them
        if !spans.contains(&x["span"]) {
            bad.push(disc("fault-span", format!("{} is no span of a directive", x["span"])));
        }
    }
    if bad.is_empty() {
        // (of very many, some: each takes time in proportion to what precedes it)
        let n = spans.len();
        let few = |i: usize| n < 2500 || i < 3 || i > n - 4 || i % (n / if n < 9000 { 60 } else { 6 }) == 0;
        let spans: Vec<Value> = spans.into_iter().enumerate().filter(|(i, _)| few(*i)).map(|x| x.1).collect();
        let want: Vec<_> = want.into_iter().enumerate().filter(|(i, _)| few(*i)).map(|x| x.1).collect();
        match ask(w, &root, &[req(1, "parser.resolve-spans", Some(Value::Array(spans)))])? {
            Err(d) => bad.extend(d),
            Ok(v) => {
                let got = v[0]["result"].as_array().cloned().unwrap_or_default();
                if got.len() != want.len() {
                    bad.push(disc("resolve", format!("{} spans resolved instead of {}", got.len(), want.len())));
                }
                for (e, x) in want.iter().zip(&got) {
                    let file = dir.join(&l.paths[e.file]);
                    // paths of included files may go up and down again
                    let named = x["file-name"].as_str().map(|s| std::fs::canonicalize(s).unwrap_or_default());
                    if named != std::fs::canonicalize(&file).ok() || !same_text(&e.text, x["content"].as_str().unwrap_or("none")) {
                        bad.push(disc("resolve", format!("span resolves to {} instead of {:?} in {}", short(x), e.text, l.paths[e.file])));
                    }
                }
            }
        }
    }
    ev.bad = bad;
    ev.nontrivial = l.files.len() > 1 && sorted.len() > 1;
    ev.hit(&format!("{} files", l.files.len()));
    ev.key = hash_of(&r.texts);
    ev.sample = texts_json(&l.paths, &r.texts);
    ev.detail = json!({"split": texts_json(&l.paths, &r.texts), "one": one.render().texts, "responses split": many, "responses one": rone});
    Ok(ev)
}

// ---------------------------------------------------------------- C28

/// names that occur nowhere else, so that they can be put back in any text
fn c28(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let ex = extra(case);
    let mut g = G::new(&ex);
    let p = &PROFILES.c28[g.n(PROFILES.c28.len())];
    let b = gen::build(case, p);
    let l = &b.ledger;
    let sorted = l.sorted();
    let Some(m) = settled(l, &sorted) else { return Ok(Eval::discard("booking crate's hash order decides")) };
    let mut ev = Eval::default();
    note_classes(&mut ev, &m, &sorted);
    let reqs = [req(2, "parser.directives", None), req(1, "book", None), req(1, "book", None)];
    let r = l.render();
    ev.detail = texts_json(&l.paths, &r.texts);
    let dir = w.fresh();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    let mut runs = vec![];
    for _ in 0..2 {
        match ask(w, &root, &reqs)? {
            Err(d) => {
                ev.bad = d;
                return Ok(ev);
            }
            Ok(v) => runs.push(v),
        }
    }
    let mut bad = vec![];
    if !dirs_of(&runs[0][0]).is_array() {
        ev.bad("noparse", short(&runs[0][0]));
        return Ok(ev);
    }
    let n0 = norm_resp(&runs[0][1]);
    for (v, what) in [(&runs[0][2], "booked again"), (&runs[1][1], "booked by another process"), (&runs[1][2], "booked again by another process")] {
        let n1 = norm_resp(v);
        if n1 != n0 {
            bad.push(disc("rerun", format!("{what}: {} instead of {}", short(&n1), short(&n0))));
        }
    }
    if norm_resp(&runs[0][0]) != norm_resp(&runs[1][0]) {
        bad.push(disc("rerun", "parsed directives differ between two runs"));
    }
    // another set of names
    let mut names = Names { g: &mut g, comps: BTreeMap::new(), curs: BTreeMap::new(), n: 0, roots: BTreeMap::new() };
    if !crate::gen::ROOTS.iter().any(|r| names.root_taken(&l, r)) && names.g.chance(70) {
        // accounts of one type become accounts of another
        let shift = 1 + names.g.n(4);
        for (i, r) in crate::gen::ROOTS.iter().enumerate() {
            names.roots.insert(r.to_string(), crate::gen::ROOTS[(i + shift) % crate::gen::ROOTS.len()].to_string());
        }
    }
    let mut l2 = l.clone();
    for d in &mut l2.dirs {
        names.dir(d);
    }
    l2.opts.tol_default.iter_mut().for_each(|(c, _)| {
        if c != "*" {
            *c = names.cur(c)
        }
    });
    l2.files[0].retain(|i| !matches!(i, Item::Line(s) if s.starts_with("option") || s.starts_with("plugin")));
    let mut items: Vec<Item> = l2.opts.lines().into_iter().map(Item::Line).collect();
    items.append(&mut l2.files[0]);
    l2.files[0] = items;
    let r2 = l2.render();
    let root2 = write_ledger(&dir, &l2.paths, &r2.texts)?;
    let renamed = match ask(w, &root2, &reqs)? {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) => v,
    };
    if !dirs_of(&renamed[0]).is_array() {
        ev.bad("noparse", short(&renamed[0]));
        return Ok(ev);
    }
    let back = |v: &Value| -> Value {
        let mut s = v.to_string();
        for (old, new) in names.comps.iter().chain(&names.curs) {
            s = s.replace(new.as_str(), old);
        }
        let mut v = serde_json::from_str(&s).unwrap_or(Value::Null);
        let roots: BTreeMap<&str, &str> = names.roots.iter().map(|(a, b)| (b.as_str(), a.as_str())).collect();
        roots_back(&mut v, &roots);
        v
    };
    let strip = |x: Option<Res>| {
        x.map(|x| match x {
            Res::Ok(v) => Res::Ok(v),
            Res::Faults(f) => Res::Faults(
                f.into_iter()
                    .map(|mut f| {
                        // currencies are listed in the order of their names
                        if let Some((a, b)) = f.reason.split_once(" residual ") {
                            let mut v: Vec<&str> = b.split(", ").collect();
                            v.sort();
                            f.reason = format!("{a} residual {}", v.join(", "));
                        }
                        // columns are as wide as the names are
                        f.annotation = f.annotation.map(|a| a.lines().map(collapse).collect::<Vec<_>>().join("\n"));
                        f
                    })
                    .collect(),
            ),
        })
    };
    let a = strip(res_own(&runs[0][1], &SpanMap::of(&dirs_of(&runs[0][0])), &sorted, &mut bad));
    let c = strip(res_own(&back(&renamed[1]), &SpanMap::of(&dirs_of(&renamed[0])), &sorted, &mut bad));
    if let (Some(a), Some(c)) = (&a, &c) {
        same_res(a, c, "with the names as written and with others", &mut bad);
    }
    ev.bad = bad;
    ev.nontrivial = m.st.get("txn-ok") > 0;
    ev.key = hash_of(&r.texts);
    ev.sample = json!({"ledger": r.texts[0], "renamed": r2.texts[0]});
    ev.detail = json!({"ledger": r.texts, "renamed": r2.texts, "responses": runs[0], "renamed responses": renamed});
    Ok(ev)
}

fn roots_back(v: &mut Value, roots: &BTreeMap<&str, &str>) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| roots_back(x, roots)),
        Value::Object(o) => {
            for (k, x) in o {
                match x.as_str().and_then(|s| s.split_once(':')) {
                    Some((root, rest)) if matches!(k.as_str(), "acc" | "account" | "source") => {
                        if let Some(r) = roots.get(root) {
                            *x = Value::from(format!("{r}:{rest}"));
                        }
                    }
                    _ => roots_back(x, roots),
                }
            }
        }
        _ => {}
    }
}

struct Names<'a, 'b> {
    g: &'a mut G<'b>,
    comps: BTreeMap<String, String>,
    curs: BTreeMap<String, String>,
    n: usize,
    roots: BTreeMap<String, String>,
}
impl Names<'_, '_> {
    /// is the account type named by an option
    fn root_taken(&self, l: &Ledger, root: &str) -> bool {
        let key = format!("option \"name_{}\"", root.to_lowercase());
        l.opts.lines().iter().chain(l.files.iter().flatten().filter_map(|i| match i {
            Item::Line(s) => Some(s),
            _ => None,
        })).any(|s| s.starts_with(&key))
    }
    fn acc(&mut self, a: &mut String) {
        let mut parts: Vec<String> = a.split(':').map(|s| s.to_string()).collect();
        if let Some(r) = self.roots.get(&parts[0]) {
            parts[0] = r.clone();
        }
        for p in parts.iter_mut().skip(1) {
            let next = self.n;
            let e = match self.comps.get(p) {
                Some(e) => e.clone(),
                None => {
                    self.n += 1;
                    // before, among and after the others in any sorting
                    let first = ["A", "Q", "Z", "9"][self.g.n(4)];
                    let s = format!("{first}qj{next:02}j{}", &"xxxxxxx"[..self.g.n(7)]);
                    self.comps.insert(p.clone(), s.clone());
                    s
                }
            };
            *p = e;
        }
        *a = parts.join(":");
    }
    fn cur(&mut self, c: &str) -> String {
        if let Some(e) = self.curs.get(c) {
            return e.clone();
        }
        let first = ["A", "K", "Z", "/Z"][self.g.n(4)];
        let s = format!("{first}QJ{:02}J{}", self.n, &"XXXX"[..self.g.n(4)]);
        self.n += 1;
        self.curs.insert(c.into(), s.clone());
        s
    }
    fn oc(&mut self, c: &mut Option<String>) {
        if let Some(x) = c {
            *x = self.cur(x);
        }
    }
    fn mv(&mut self, v: &mut Mv) {
        match v {
            Mv::Amount(_, c) | Mv::Cur(c) => *c = self.cur(c),
            Mv::Acc(a) => self.acc(a),
            _ => {}
        }
    }
    fn dir(&mut self, d: &mut Dir) {
        for (_, v) in d.meta.kv.iter_mut().chain(&mut d.meta.ikv) {
            self.mv(v);
        }
        match &mut d.var {
            Var::Txn { postings, .. } => {
                for p in postings {
                    self.acc(&mut p.acc);
                    self.oc(&mut p.cur);
                    if let Some(c) = &mut p.cost {
                        self.oc(&mut c.cur);
                    }
                    if let Some(c) = &mut p.price {
                        self.oc(&mut c.cur);
                    }
                    for (_, v) in &mut p.meta.kv {
                        self.mv(v);
                    }
                }
            }
            Var::Price { cur, pcur, .. } => {
                *cur = self.cur(cur);
                *pcur = self.cur(pcur);
            }
            Var::Balance { acc, cur, .. } => {
                self.acc(acc);
                *cur = self.cur(cur);
            }
            Var::Open { acc, curs, .. } => {
                self.acc(acc);
                for c in curs {
                    *c = self.cur(c);
                }
            }
            Var::Close { acc } | Var::Document { acc, .. } | Var::Note { acc, .. } => self.acc(acc),
            Var::Commodity { cur } => *cur = self.cur(cur),
            Var::Pad { acc, source } => {
                self.acc(acc);
                self.acc(source);
            }
            Var::Custom { values, .. } => {
                for v in values {
                    self.mv(v);
                }
            }
            Var::Event { .. } | Var::Query { .. } => {}
        }
    }
}

pub struct Profiles {
    pub c12: Vec<Profile>,
    pub c14: Vec<Profile>,
    pub c15: Vec<Profile>,
    pub c18: Vec<Profile>,
    pub c27: Vec<Profile>,
    pub c28: Vec<Profile>,
    pub c13: Vec<Profile>,
    pub c16: Vec<Profile>,
    pub c19: Vec<Profile>,
    pub c17: Vec<Profile>,
    pub c20: Vec<Profile>,
    pub c21: Vec<Profile>,
    pub c22: Vec<Profile>,
}

pub fn profiles() -> Profiles {
    let b = || Profile { bulk: 2, before: true, ..Profile::base() };
    let plain = || Profile { mend: 35, opt_booking: 8, booking: 8, meta: 4, ..b() };
    let lots = || Profile { mend: 35, ops: (3, 26), w: [1, 0, 30, 2, 0, 0, 0, 0, 0, 0, 0, 0], costs: 75, prices: 3, multi: 3, booking: 30, opt_booking: 30, near_tol: 2, elide: 45, preopen: (3, 6), meta: 3, ..b() };
    let pads = || Profile { mend: 35, w: [2, 0, 16, 14, 12, 0, 0, 0, 0, 0, 0, 0], pad_focus: true, bal_fail: 8, costs: 0, booking: 0, opt_booking: 0, ..b() };
    let cycle = || Profile { w: [8, 7, 20, 6, 4, 0, 0, 0, 0, 0, 0, 0], ..plain() };
    Profiles {
        c12: vec![
            Profile { mend: 0, fault: 30, bal_fail: 10, curlists: 20, ..plain() },
            Profile { mend: 0, fault: 28, curlists: 10, ..lots() },
            Profile { mend: 0, fault: 30, ..pads() },
            Profile { mend: 0, fault: 35, ..cycle() },
        ],
        c14: vec![
            Profile { samedate: 70, shuffle: 40, w: [6, 3, 16, 10, 3, 1, 1, 1, 1, 1, 1, 1], bal_fail: 4, ..plain() },
            Profile { samedate: 40, shuffle: 20, ..lots() },
            Profile { samedate: 60, shuffle: 30, ..cycle() },
            Profile { samedate: 45, shuffle: 20, ..pads() },
        ],
        c15: vec![
            Profile { meta: 35, rich: 25, style: 10, w: [4, 2, 24, 8, 3, 2, 2, 2, 2, 2, 2, 2], ..plain() },
            Profile { fault: 15, bal_fail: 8, meta: 20, rich: 15, ..plain() },
            Profile { unusual_nums: 50, ..lots() },
            pads(),
        ],
        c18: vec![
            Profile { all_opts: 30, meta: 20, rich: 10, ..plain() },
            Profile { fault: 15, bal_fail: 8, ..plain() },
            lots(),
            pads(),
        ],
        c27: vec![
            Profile { files: 100, meta: 15, shuffle: 30, samedate: 30, style: 20, w: [3, 1, 20, 8, 3, 2, 2, 2, 2, 2, 2, 2], ..plain() },
            Profile { files: 100, fault: 15, bal_fail: 8, all_opts: 20, ..plain() },
            Profile { files: 100, ..lots() },
            Profile { files: 100, shuffle: 20, samedate: 50, ..pads() },
        ],
        c28: vec![
            Profile { rich: 0, multi: 30, prices: 20, ..plain() },
            Profile { rich: 0, fault: 15, bal_fail: 15, curlists: 20, rollup_focus: true, ..plain() },
            Profile { rich: 0, ..lots() },
            Profile { rich: 0, ..pads() },
        ],
        c13: vec![
            Profile { wild: 100, rich: 30, style: 40, meta: 35, push: 30, w: [3, 2, 20, 3, 2, 3, 3, 3, 3, 3, 3, 4], costs: 50, prices: 40, curlists: 40, booking: 40, unusual_nums: 40, ..b() },
            Profile { wild: 100, rich: 10, style: 15, meta: 15, files: 60, shuffle: 40, w: [3, 2, 10, 3, 2, 3, 3, 3, 3, 3, 3, 4], costs: 40, prices: 30, curlists: 40, booking: 40, ..b() },
            Profile { rich: 30, style: 40, meta: 35, all_opts: 20, rename: 40, push: 20, costs: 40, prices: 25, ..b() },
            Profile { wild: 100, rich: 40, style: 60, meta: 60, push: 50, w: [3, 2, 12, 3, 2, 3, 3, 3, 3, 3, 3, 6], costs: 60, prices: 50, ..b() },
        ],
        c16: vec![
            Profile { all_opts: 60, rename: 40, tol_opts: 60, opt_booking: 50, style: 10, preopen: (0, 3), costs: 0, rich: 20, ..b() },
            Profile { all_opts: 60, files: 100, tol_opts: 60, opt_booking: 50, style: 10, preopen: (1, 5), costs: 0, rich: 20, ..b() },
            Profile { all_opts: 12, rename: 15, tol_opts: 20, opt_booking: 20, preopen: (0, 3), costs: 0, ..b() },
        ],
        c19: vec![
            Profile { rich: 40, style: 45, meta: 30, push: 20, wild: 100, costs: 40, prices: 20, w: [3, 2, 20, 3, 2, 3, 3, 3, 3, 3, 3, 4], ..b() },
            Profile { files: 100, rich: 30, style: 30, meta: 20, wild: 100, costs: 40, prices: 20, shuffle: 30, w: [3, 2, 20, 3, 2, 3, 3, 3, 3, 3, 3, 4], ..b() },
            Profile { files: 40, rich: 60, style: 60, meta: 50, all_opts: 20, ..b() },
        ],
        c17: vec![
            Profile { preopen: (0, 4), all_opts: 15, meta: 10, rich: 10, ..plain() },
            Profile { preopen: (2, 6), fault: 20, bal_fail: 10, ..plain() },
            Profile { preopen: (0, 4), wild: 100, files: 30, ..b() },
        ],
        c20: vec![
            Profile { preopen: (0, 4), rich: 20, style: 20, ..b() },
            Profile { preopen: (0, 4), files: 80, ..b() },
        ],
        c21: vec![
            Profile { fault: 35, bal_fail: 20, rich: 15, style: 20, curlists: 20, ..plain() },
            Profile { fault: 25, files: 70, meta: 20, ..plain() },
            Profile { fault: 30, ..cycle() },
            Profile { fault: 20, ..pads() },
        ],
        c22: vec![
            Profile { rich: 20, style: 20, fault: 20, all_opts: 10, meta: 20, push: 20, ..b() },
            Profile { wild: 100, rich: 20, style: 20, meta: 20, costs: 50, prices: 30, ..b() },
            Profile { preopen: (1, 4), ..lots() },
            Profile { fault: 20, bal_fail: 20, rich: 30, ..pads() },
            Profile { fault: 20, bal_fail: 40, rich: 50, files: 60, ..cycle() },
        ],
    }
}

pub fn checks() -> Vec<Box<dyn Check>> {
    let mk = |id, quick, ops, rule, f| -> Box<dyn Check> {
        Box::new(FnCheck {
            id,
            rule,
            cfg: 256,
            ops,
            genes: 56,
            quick,
            f,
            fixed: no_fixed,
            assumptions: &["limabean-booking 0.10.4 and beancount-parser-lima 0.16.3 are as pinned; amounts stay within 28 digits"],
        })
    };
    let _ = f::ALL;
    vec![
        mk("C12", 5000, (3, 24), "faulty lists of directives, with end assertions showing all holdings in half of them, booked again without the rejected directives (all, and up to three singly); non-trivial: a directive was rejected with others after it", c12),
        mk("C14", 4500, (2, 24), "ledgers and a permutation of their directives in the file that keeps the order of those sharing date and rank; non-trivial: at least one directive moved", c14),
        mk("C15", 4000, (1, 24), "returned directives passed back as they are, in another spelling, and edited; non-trivial: the ledger has directives and the spelling differs", c15),
        mk("C18", 2200, (1, 16), "random histories of requests, up to five of each compared with a fresh pod given that request only; non-trivial: more than three requests", c18),
        mk("C27", 3500, (2, 26), "ledgers split over up to six files by nested includes and the same in one file; non-trivial: at least two files and two directives", c27),
        mk("C28", 3500, (2, 24), "ledgers booked twice in each of two processes and once more with all accounts and currencies renamed; non-trivial: at least one transaction was booked", c28),
    ]
}
