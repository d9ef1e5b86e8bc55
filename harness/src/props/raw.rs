//! What the ledger says, read back: directives (C13), options and plugins (C16), spans (C19).
use super::book::{in_classes, PROFILES};
use super::common::*;
use super::meta::extra;
use crate::ast::*;
use crate::compare::*;
use crate::gen::{self, Built};
use crate::genes::{Case, G};
use crate::pod::*;
use crate::runner::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;

fn pick(case: &Case, ps: &[gen::Profile]) -> (Built, Vec<u16>) {
    let ex = extra(case);
    let mut g = G::new(&ex);
    let b = gen::build(case, &ps[g.n(ps.len())]);
    (b, ex)
}

/// every kind of part the directives have
pub(super) fn shapes(ev: &mut Eval, dirs: &[Dir]) -> usize {
    let mut n = BTreeSet::new();
    fn mv(n: &mut BTreeSet<String>, v: &Mv) {
        n.insert(format!("value {}", format!("{v:?}").split(['(', ' ']).next().unwrap()));
    }
    fn meta(n: &mut BTreeSet<String>, m: &Meta) {
        for (k, x) in [("tags", m.htags.len() + m.tags.len()), ("links", m.hlinks.len() + m.links.len()), ("pushed", m.itags.len() + m.ikv.len())] {
            if x > 0 {
                n.insert(k.into());
            }
        }
        for (_, v) in &m.kv {
            mv(n, v);
        }
    }
    for d in dirs {
        n.insert(d.kind().into());
        meta(&mut n, &d.meta);
        match &d.var {
            Var::Txn { flag, payee, narration, postings } => {
                if flag != "*" {
                    n.insert(format!("flag {flag}"));
                }
                n.insert(format!("payee {} narration {}", payee.is_some(), narration.is_some()));
                for p in postings {
                    meta(&mut n, &p.meta);
                    n.insert(format!("posting units {} cur {}", p.units.is_some(), p.cur.is_some()));
                    if let Some(f) = &p.flag {
                        n.insert(format!("posting flag {f}"));
                    }
                    if let Some(c) = &p.cost {
                        n.insert(format!(
                            "cost {}{}{}{}{}{}",
                            ["", "p"][c.per_unit.is_some() as usize],
                            ["", "t"][c.total.is_some() as usize],
                            ["", "c"][c.cur.is_some() as usize],
                            ["", "d"][c.date.is_some() as usize],
                            ["", "l"][c.label.is_some() as usize],
                            ["", "m"][c.merge as usize]
                        ));
                    }
                    if let Some(c) = &p.price {
                        n.insert(format!(
                            "price {}{}{}",
                            ["", "p"][c.per_unit.is_some() as usize],
                            ["", "t"][c.total.is_some() as usize],
                            ["", "c"][c.cur.is_some() as usize]
                        ));
                    }
                }
            }
            Var::Open { curs, booking, .. } => {
                if !curs.is_empty() {
                    n.insert("open currencies".into());
                }
                if let Some(b) = booking {
                    n.insert(format!("open {b}"));
                }
            }
            Var::Balance { tol, .. } => {
                if tol.is_some() {
                    n.insert("tolerance".into());
                }
            }
            Var::Custom { values, .. } => {
                for v in values {
                    mv(&mut n, v);
                }
            }
            _ => {}
        }
    }
    for k in &n {
        ev.hit(k);
    }
    n.len()
}

fn c13(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let (b, _) = pick(case, &PROFILES.c13);
    let l = &b.ledger;
    let r = l.render();
    let mut ev = Eval { detail: texts_json(&l.paths, &r.texts), key: hash_of(&r.texts), sample: json!({"ledger": r.texts[0]}), ..Eval::default() };
    let root = write_ledger(&w.fresh(), &l.paths, &r.texts)?;
    let sorted = l.sorted();
    ev.nontrivial = shapes(&mut ev, &sorted) > 3;
    for (k, v) in &b.stats.0 {
        ev.stats.insert(k.to_string(), *v as u64);
    }
    match ask(w, &root, &[req(1, "parser.directives", None)])? {
        Err(d) => ev.bad = d,
        Ok(v) => match v[0].get("result") {
            None => ev.bad("noparse", format!("ledger was not parsed: {}", short(&v[0]))),
            Some(x) => {
                ev.bad = diff_raw(&sorted, &x["directives"]);
                let keys: Vec<&String> = x.as_object().map(|o| o.keys().collect()).unwrap_or_default();
                if keys.iter().any(|k| *k != "directives" && *k != "warnings") {
                    ev.bad("raw", format!("unknown members among {keys:?}"));
                }
                if !x["warnings"].is_null() && x["warnings"] != json!([]) {
                    ev.bad("raw", format!("warnings {} from a ledger without cause for any", short(&x["warnings"])));
                }
            }
        },
    }
    ev.bad.retain(|d| in_classes(&d.class, &["raw", "raw-count", "noparse", "proto"]));
    Ok(ev)
}

/// positions of items, in the order in which a reader following includes meets them
fn slots(l: &Ledger, file: usize, out: &mut Vec<(usize, usize)>) {
    for (i, it) in l.files[file].iter().enumerate() {
        out.push((file, i));
        if let Item::Include(k) = it {
            slots(l, *k, out);
        }
    }
    out.push((file, l.files[file].len()));
}

/// the directories that relative documents are relative to
pub fn lexical(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}

/// the same, a slash at the end kept
fn spelt(p: &str) -> String {
    format!("{}{}", lexical(p), if p.ends_with('/') { "/" } else { "" })
}

fn c16(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let (mut b, ex) = pick(case, &PROFILES.c16);
    let mut g = G::new(&ex[1..]);
    let l = &mut b.ledger;
    let dir = w.fresh();
    let dirname = dir.to_string_lossy().to_string();
    let mut want = l.opts.json(&dirname);
    let renames = l.opts.names.iter().any(|n| n.is_some());
    // lines that may be anywhere
    let mut moved = 0;
    if g.chance(75) {
        let lines: Vec<String> = l.opts.lines();
        let fixed = lines.iter().filter(|s| s.starts_with("option \"name_")).count();
        let n = lines.len() - fixed;
        l.files[0].drain(fixed..lines.len());
        let mut sl = vec![];
        slots(l, 0, &mut sl);
        let sl: Vec<(usize, usize)> = sl.into_iter().filter(|(f, i)| *f != 0 || *i >= fixed).collect();
        let mut at: Vec<usize> = (0..n).map(|_| g.n(sl.len())).collect();
        at.sort();
        let mut docs = vec![];
        // options may come in any order, plugins not
        let mut rest: Vec<String> = lines[fixed..].to_vec();
        let np = rest.iter().filter(|s| s.starts_with("plugin")).count();
        let no = rest.len() - np;
        for _ in 0..no {
            let (i, j) = (g.n(no), g.n(no));
            rest.swap(i, j);
        }
        // interleave the plugins
        let mut merged = vec![];
        let (mut os, mut ps) = (rest[..no].iter(), rest[no..].iter());
        let (mut o, mut p) = (os.next(), ps.next());
        while o.is_some() || p.is_some() {
            if p.is_none() || o.is_some() && g.chance(60) {
                merged.push(o.unwrap().clone());
                o = os.next();
            } else {
                merged.push(p.unwrap().clone());
                p = ps.next();
            }
        }
        for (s, k) in merged.into_iter().zip(&at).rev() {
            let (f, i) = sl[*k];
            moved += 1;
            if let Some(d) = s.strip_prefix("option \"documents\" \"") {
                let d = d.trim_end_matches('"');
                let par = std::path::Path::new(&l.paths[f]).parent().unwrap().to_string_lossy().to_string();
                docs.push(if d.starts_with('/') { spelt(d) } else { spelt(&format!("{dirname}/{par}/{d}")) });
            }
            // other spellings of the same
            let s = if s.ends_with("\"TRUE\"") && g.chance(60) {
                let t: &[&str] = if s.contains("render_commas") { &["true", "True", "1", "tRUE"] } else { &["true", "True", "tRUE"] };
                s.replace("TRUE", g.pick(t))
            } else if s.ends_with("\"FALSE\"") && g.chance(60) {
                let t: &[&str] = if s.contains("render_commas") { &["false", "False", "0", "fALSE"] } else { &["false", "False", "fALSE"] };
                s.replace("FALSE", g.pick(t))
            } else {
                s
            };
            let s = match g.n(10) {
                8 => s.replace("\" \"", "\"   \t\""),
                9 => format!("{s}   ; a comment"),
                _ => s,
            };
            l.files[f].insert(i, Item::Line(s));
        }
        if !docs.is_empty() {
            docs.sort();
            docs.dedup();
            want["documents"] = json!(docs);
        }
    }
    if g.chance(10) {
        // steers the parser only
        l.files[0].insert(0, Item::Line("option \"long_string_maxlines\" \"100\"".into()));
    }
    let r = l.render();
    let mut ev = Eval { detail: texts_json(&l.paths, &r.texts), key: hash_of(&r.texts), ..Eval::default() };
    ev.sample = json!({"ledger": r.texts[0].chars().take(600).collect::<String>()});
    ev.nontrivial = l.opts.lines().len() > 1;
    for s in l.opts.lines() {
        ev.hit(s.split(' ').take(if s.starts_with("plugin") { 1 } else { 2 }).collect::<Vec<_>>().join(" ").as_str());
    }
    if l.opts.lines().is_empty() {
        ev.hit("no options");
    }
    if renames {
        ev.hit("renamed");
    }
    if moved > 0 {
        ev.hit("moved");
    }
    if l.files.len() > 1 {
        ev.hit("multi-file");
    }
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    match ask(w, &root, &[req(1, "parser.options", None), req(2, "parser.plugins", None), req(3, "parser.options", None)])? {
        Err(d) => ev.bad = d,
        Ok(v) if v[0].get("result").is_none() => ev.bad("noparse", format!("ledger was not parsed: {}", short(&v[0]))),
        Ok(v) => {
            let mut got = v[0]["result"].clone();
            if let Some(a) = got.get_mut("documents").and_then(|a| a.as_array_mut()) {
                if moved > 0 {
                    let mut s: Vec<String> = a.iter().map(|x| spelt(x.as_str().unwrap_or("?"))).collect();
                    s.sort();
                    s.dedup();
                    *a = s.into_iter().map(Value::from).collect();
                }
            }
            let (mut e, mut x) = (want, got);
            for v in [&mut e, &mut x] {
                for k in ["documents", "operating-currency"] {
                    if let Some(a) = v.get_mut(k).and_then(|a| a.as_array_mut()) {
                        a.sort_by_key(|x| x.to_string());
                    }
                }
            }
            let mut keys: BTreeSet<String> = BTreeSet::new();
            for v in [&e, &x] {
                keys.extend(v.as_object().into_iter().flatten().map(|(k, _)| k.clone()));
            }
            if x.as_object().is_none() {
                ev.bad("proto", format!("options is {}", short(&x)));
            }
            for k in keys {
                if canon(&e[&k]) != canon(&x[&k]) || e.get(&k).is_some() != x.get(&k).is_some() {
                    ev.bad("option", format!("option {k} is {} instead of {}", x.get(&k).map(short).unwrap_or("absent".into()), e.get(&k).map(short).unwrap_or("absent".into())));
                }
            }
            let p = l.opts.plugins_json();
            if canon(&p) != canon(&v[1]["result"]) {
                ev.bad("plugin", format!("plugins are {} instead of {}", short(&v[1]["result"]), short(&p)));
            }
            if canon(&norm_resp(&v[0]["result"])) != canon(&norm_resp(&v[2]["result"])) {
                ev.bad("option", "options asked for twice differ");
            }
        }
    }
    Ok(ev)
}

/// what resolving must give
fn check_resolved(got: &Value, loc: &Loc, paths: &[String], dirname: &str, what: &str) -> Option<Disc> {
    let file = got["file-name"].as_str().map(lexical);
    let want = lexical(&format!("{dirname}/{}", paths[loc.file]));
    if file.as_deref() != Some(&want) {
        return Some(disc("file", format!("{what} resolves to file {} instead of {want}", got["file-name"])));
    }
    let content = got["content"].as_str().unwrap_or("<none>");
    if !same_text(&loc.text, content) {
        return Some(disc("content", format!("{what} resolves to {content:?} instead of {:?}", loc.text)));
    }
    let (s, e) = (got["start-line"].as_u64(), got["end-line"].as_u64());
    // whatever follows the directive on lines of its own may be included
    let more = content.matches('\n').count() - loc.text.matches('\n').count();
    if s != Some(loc.start_line as u64) || e != Some((loc.end_line + more) as u64) {
        return Some(disc("lines", format!("{what} resolves to lines {s:?} to {e:?} instead of {} to {}", loc.start_line, loc.end_line + more)));
    }
    None
}

fn c19(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let (b, ex) = pick(case, &PROFILES.c19);
    let mut g = G::new(&ex[1..]);
    let l = &b.ledger;
    let r = l.render();
    let mut ev = Eval { detail: texts_json(&l.paths, &r.texts), key: hash_of(&r.texts), sample: json!({"ledger": r.texts[0]}), ..Eval::default() };
    let dir = w.fresh();
    let dirname = dir.to_string_lossy().to_string();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    // the spans are those a fresh pod gives: they do not hang on the run
    let dirs = match ask(w, &root, &[req(1, "parser.directives", None)])? {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) if v[0].get("result").is_none() => return Ok(Eval::discard("ledger was not parsed")),
        Ok(v) => v[0]["result"]["directives"].clone(),
    };
    let order = l.order();
    let list = dirs.as_array().cloned().unwrap_or_default();
    if list.len() != order.len() || list.iter().zip(&order).any(|(x, i)| x["dct"] != l.dirs[*i].kind()) {
        return Ok(Eval::discard("not the directives of the ledger"));
    }
    let mut all: Vec<(Value, &Loc, String)> = vec![];
    for (x, i) in list.iter().zip(&order) {
        if span3(&x["span"]).is_none() {
            ev.bad("span", format!("directive has span {}", x["span"]));
            continue;
        }
        all.push((x["span"].clone(), &r.dlocs[*i], format!("directive {i}")));
        let ps = x["postings"].as_array().cloned().unwrap_or_default();
        if ps.len() != r.plocs[*i].len() {
            continue;
        }
        for (k, (p, loc)) in ps.iter().zip(&r.plocs[*i]).enumerate() {
            if span3(&p["span"]).is_none() {
                ev.bad("span", format!("posting has span {}", p["span"]));
                continue;
            }
            all.push((p["span"].clone(), loc, format!("posting {k} of directive {i}")));
        }
    }
    // all of them in order; then some in any order with repetitions; the same singly
    // (of very many, those about the start and end and some between: each takes time in proportion to what precedes it)
    let n = all.len();
    let mut asks: Vec<Vec<usize>> = vec![(0..n).filter(|i| n < 2500 || *i < 3 || *i > n - 4 || i % (n / if n < 9000 { 60 } else { 6 }) == 0).collect(), vec![]];
    if !all.is_empty() {
        asks.push((0..1 + g.n(12)).map(|_| g.n(all.len())).collect());
        for _ in 0..g.n(4) {
            asks.push(vec![g.n(all.len())]);
        }
    }
    let reqs: Vec<Value> = asks
        .iter()
        .enumerate()
        .map(|(k, a)| req(k as u64, "parser.resolve-spans", Some(Value::Array(a.iter().map(|i| all[*i].0.clone()).collect()))))
        .collect();
    ev.nontrivial = all.len() > 1;
    if l.paths.len() > 1 {
        ev.hit("multi-file");
    }
    if l.crlf {
        ev.hit("CRLF");
    }
    if l.no_final_newline {
        ev.hit("no final newline");
    }
    if r.texts.iter().any(|t| !t.is_ascii()) {
        ev.hit("wide characters");
    }
    if all.iter().any(|a| a.1.start_line != a.1.end_line) {
        ev.hit("several lines");
    }
    if r.plocs.iter().any(|p| !p.is_empty()) {
        ev.hit("postings");
    }
    // parts of them
    let mut parts: Vec<(Value, usize, usize, usize)> = vec![];
    for _ in 0..g.n(6) {
        if all.is_empty() {
            break;
        }
        let (span, loc, _) = &all[g.n(all.len())];
        let Some((src, a, b)) = span3(span) else { continue };
        let Some(t) = r.texts[loc.file].get(a as usize..b as usize) else { continue };
        let at: Vec<usize> = t.char_indices().map(|(i, _)| i).collect();
        if at.is_empty() {
            continue;
        }
        let x = at[g.n(at.len())];
        let after: Vec<usize> = at.iter().copied().filter(|i| *i > x).chain([t.len()]).collect();
        let y = if g.chance(15) { x } else { *g.pick(&after) };
        // (one ending in a wide character shows nothing: the known finding)
        let sub = t[x..y].trim_end();
        if !sub.is_empty() && !sub.ends_with(|c: char| c.is_ascii()) || sub.is_empty() && x != y {
            continue;
        }
        parts.push((json!([src, a as usize + x, a as usize + y]), loc.file, a as usize + x, a as usize + x + sub.len()));
    }
    let mut reqs = reqs;
    if !parts.is_empty() {
        ev.hit("parts");
        reqs.push(req(99, "parser.resolve-spans", Some(Value::Array(parts.iter().map(|p| p.0.clone()).collect()))));
    }
    match ask(w, &root, &reqs)? {
        Err(d) => ev.bad = d,
        Ok(v) => {
            if !parts.is_empty() {
                let x = &v[asks.len()];
                let res = x["result"].as_array().cloned().unwrap_or_default();
                if res.len() != parts.len() {
                    ev.bad("count", format!("{} spans resolved as {}", parts.len(), short(x)));
                }
                for ((span, file, x, y), got) in parts.iter().zip(&res) {
                    let text = &r.texts[*file];
                    let line = |off: usize| 1 + text[..off].matches('\n').count();
                    let want = json!({"content": &text[*x..*y], "start-line": line(*x), "end-line": line(*y)});
                    if ["content", "start-line", "end-line"].iter().any(|k| got[*k] != want[*k]) {
                        ev.bad("part", format!("{span}, part of a directive, resolves to {got} instead of {want}"));
                    }
                    let file = lexical(&format!("{dirname}/{}", l.paths[*file]));
                    if got["file-name"].as_str().map(lexical).as_ref() != Some(&file) {
                        ev.bad("file", format!("{span}, part of a directive, resolves to file {} instead of {file}", got["file-name"]));
                    }
                }
            }
            for (a, x) in asks.iter().zip(&v) {
                let Some(res) = x["result"].as_array() else {
                    ev.bad("proto", format!("resolving gave {}", short(x)));
                    continue;
                };
                if res.len() != a.len() {
                    ev.bad("count", format!("{} answers to {} spans", res.len(), a.len()));
                    continue;
                }
                for (i, got) in a.iter().zip(res) {
                    if let Some(d) = check_resolved(got, all[*i].1, &l.paths, &dirname, &all[*i].2) {
                        ev.bad.push(d);
                    }
                }
            }
        }
    }
    Ok(ev)
}

pub fn checks() -> Vec<Box<dyn Check>> {
    let mk = |id, quick, ops, rule, f| -> Box<dyn Check> {
        Box::new(FnCheck { id, rule, cfg: 256, ops, genes: 56, quick, f, fixed: no_fixed, assumptions: &["beancount-parser-lima 0.16.3 is as pinned"] })
    };
    vec![
        mk("C13", 6000, (1, 26), "ledgers of all kinds of directives with parts present or absent at random, sensible or not, in many layouts; non-trivial: more than three different kinds of part", c13),
        mk("C16", 5000, (0, 6), "ledgers with random options and plugins, on random lines of up to six files and in other spellings; non-trivial: at least two are set", c16),
        mk("C19", 4500, (1, 20), "all spans of directives and postings of ledgers in random layouts resolved in order, in random order with repetitions, and singly; non-trivial: at least two spans", c19),
    ]
}
