//! The protocol: request lines (C17), synthetic spans (C20), reports (C21), rough input (C22), logging (C30).
use super::book::PROFILES;
use super::common::*;
use super::meta::{extra, settled};
use crate::ast::*;
use crate::compare::*;
use crate::gen::{self, Built};
use crate::genes::{Case, G};
use crate::pod::*;
use crate::runner::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};

pub fn pick(case: &Case, ps: &[gen::Profile], ops: usize) -> (Built, Vec<u16>) {
    let ex = extra(case);
    let mut g = G::new(&ex);
    // the ledger is made from the first operations only
    let c = Case { cfg: case.cfg.clone(), ops: case.ops[..ops.min(case.ops.len())].to_vec() };
    let b = gen::build(&c, &ps[g.n(ps.len())]);
    (b, ex)
}

pub const METHODS: &[&str] = &[
    "status",
    "parser.plugins",
    "parser.directives",
    "parser.options",
    "parser.format-errors",
    "parser.format-warnings",
    "parser.resolve-spans",
    "parser.create-synthetic-spans",
    "book",
];
fn needs_ledger(m: &str) -> bool {
    matches!(m, "parser.plugins" | "parser.directives" | "parser.options" | "book")
}
fn needs_params(m: &str) -> bool {
    matches!(m, "parser.format-errors" | "parser.format-warnings" | "parser.resolve-spans" | "parser.create-synthetic-spans")
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Healthy,
    Unparseable,
    Unreadable,
}

/// parameters of `book` in which something is missing, of another type or no value of its type
const WRONG_PARAMS: &str = include_str!("wrong_params.txt");

#[derive(Clone, Debug)]
enum Exp {
    /// a request that is understood
    Good { id: Value, method: &'static str, params: Option<Value> },
    /// understood, but not for this protocol
    Version { id: Value },
    /// not understood as a request: the id may be given back where there is one
    Bad { id: Value },
}

const IDS: &[&str] = &[
    "1",
    "0",
    "-5",
    "\"abc\"",
    "\"\"",
    "2147483648",
    "9007199254740993",
    "18446744073709551615",
    "-9223372036854775808",
    "18446744073709551616",
    "123456789012345678901234567890",
    "1.5",
    "-0.25",
    "1.50",
    "2.5e3",
    "1E5",
    "\"a\\\"b\\\\c\"",
    "\"tab\\t nl\\n\"",
    "\"\\u00e9\\u65e5\"",
    "\"\\ud83d\\ude00\"",
    "\"日本語 😀\"",
    "\"1\"",
    "\"null\"",
    "\"\\u0000\"",
    "\"a/b\\/c\"",
];

fn id_text(g: &mut G, k: usize) -> String {
    match g.n(10) {
        0..=4 => (k + 1).to_string(),
        5 => format!("\"{}\"", "x".repeat(g.n(2000))),
        _ => g.pick(IDS).to_string(),
    }
}

fn ws(g: &mut G) -> &'static str {
    *g.pick(&["", "", "", " ", "  ", "\t"])
}

/// an object with its members in any order and spacing
fn object(g: &mut G, mut members: Vec<(String, String)>) -> String {
    if g.chance(50) {
        for i in (1..members.len()).rev() {
            let j = g.n(i + 1);
            members.swap(i, j);
        }
    }
    let mut s = format!("{}{{", ws(g));
    for (i, (k, v)) in members.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(ws(g));
        s.push_str(k);
        s.push_str(ws(g));
        s.push(':');
        s.push_str(ws(g));
        s.push_str(v);
        s.push_str(ws(g));
    }
    s.push('}');
    s.push_str(ws(g));
    s
}

fn good_params(g: &mut G, m: &str, dirs: &[Dir]) -> Option<Value> {
    match m {
        "parser.format-errors" | "parser.format-warnings" => Some(match g.n(3) {
            0 => json!([]),
            1 => json!([{"message": "a message", "reason": "a reason", "span": [0, 0, 0]}]),
            _ => json!([{"message": "m1", "reason": "r1", "span": [0, 0, 0], "annotation": "note"}, {"message": "m2", "reason": "r2", "span": [0, 0, 0], "contexts": [], "related": null}]),
        }),
        "parser.resolve-spans" => Some(match g.n(3) {
            0 => json!([]),
            1 => json!([[0, 0, 0]]),
            _ => json!([[0, 0, 3], [0, 0, 0]]),
        }),
        "parser.create-synthetic-spans" => Some(match g.n(3) {
            0 => json!([]),
            1 => json!([{"name": "n", "content": "c"}]),
            _ => json!([{"name": "n1", "content": "some content"}, {"name": "n", "content": "more"}]),
        }),
        "book" => match g.n(5) {
            0 | 1 => None,
            2 => Some(Value::Null),
            3 => Some(json!([])),
            _ => {
                let n = g.n(dirs.len() + 1);
                Some(params_of(&dirs[..n]))
            }
        },
        _ => None,
    }
}

/// text of any length, of characters of every width; nothing that JSON would have to escape
pub fn wide_text(g: &mut G) -> String {
    let n = match g.n(4) {
        0 => g.n(20),
        1 => g.n(90),
        2 => g.n(300),
        _ => g.n(1200),
    };
    let set: &[char] = *g.pick(&[&['a', 'é', '語', '😀'][..], &['é'], &['語'], &['😀'], &['x', 'y', 'Z', '-', '.', ' ', 'ß'], &['a']]);
    let mut s = String::new();
    let mut x = g.u() as u32;
    // the lengths that count are the ones off by one
    for _ in 0..g.n(5) {
        s.push('.');
    }
    while s.chars().count() < n {
        x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        s.push(set[(x >> 16) as usize % set.len()]);
    }
    s
}

/// sizes about which buffers and limits are likely
const BIG: &[usize] = &[1000, 4095, 4096, 8190, 8192, 16384, 32767, 65530, 65536, 70000, 131072, 200_000, 1_100_000];

fn make_line(genes: &[u16], k: usize, dirs: &[Dir]) -> (Vec<u8>, Exp, &'static str) {
    let mut g = G::new(genes);
    let g = &mut g;
    let shape = g.weighted(&[50, 8, 8, 8, 8, 14, 6, 6]);
    let method = *g.pick(METHODS);
    let idt = id_text(g, k);
    let mut params = good_params(g, method, dirs);
    let idv: Value = serde_json::from_str(&idt).expect("id");
    let big = g.n(100);
    let size = BIG[g.n(BIG.len())];
    if big >= 98 {
        // long texts within
        let t = "line of text 语\n".repeat(size / 16);
        match &mut params {
            Some(Value::Array(a)) if method.starts_with("parser.format") => a.push(json!({"message": t, "reason": "r", "span": [0, 0, 0]})),
            Some(Value::Array(a)) if method == "parser.create-synthetic-spans" => a.push(json!({"name": "big", "content": t})),
            Some(Value::Array(a)) if method == "parser.resolve-spans" => a.extend((0..size / 60).map(|_| json!([0, 0, 0]))),
            _ => {}
        }
    }
    let with_id = g.n(8);
    let mut members = vec![("\"jsonrpc\"".to_string(), "\"2.0\"".to_string())];
    let id = match with_id {
        0 => Value::Null,
        1 => {
            members.push(("\"id\"".into(), "null".into()));
            Value::Null
        }
        _ => {
            members.push(("\"id\"".into(), idt.clone()));
            idv
        }
    };
    let name = |m: &mut Vec<(String, String)>, s: &str| m.push(("\"method\"".into(), s.into()));
    let put = |m: &mut Vec<(String, String)>, p: &Option<Value>| {
        if let Some(p) = p {
            m.push(("\"params\"".into(), p.to_string()))
        }
    };
    let quoted = format!("\"{method}\"");
    let (s, exp, what): (Vec<u8>, Exp, &'static str) = match shape {
        0 => {
            name(&mut members, &quoted);
            put(&mut members, &params);
            if g.chance(15) {
                members.push(("\"other\"".into(), "{\"a\":[1,2,{}]}".into()));
            }
            if params.as_ref().is_some_and(|p| p.is_null()) {
                params = None;
            }
            (object(g, members).into_bytes(), Exp::Good { id, method, params }, "valid")
        }
        1 => {
            name(&mut members, &quoted);
            put(&mut members, &params);
            members[0].1 = g.pick(&["\"1.0\"", "\"2\"", "\"2.0 \"", "\"\"", "\"2.00\"", "\"3.0\"", "\" 2.0\""]).to_string();
            (object(g, members).into_bytes(), Exp::Version { id }, "version")
        }
        2 => {
            // no text that JSON has
            let t = match g.n(16) {
                0 => b"".to_vec(),
                1 => b"   \t".to_vec(),
                2 => b"garbage".to_vec(),
                3 => b"{".to_vec(),
                4 => b"{}{}".to_vec(),
                5 => b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"status\",}".to_vec(),
                6 => b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"status\"".to_vec(),
                7 => b"{'jsonrpc':'2.0','id':1,'method':'status'}".to_vec(),
                8 => "\u{feff}{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"status\"}".as_bytes().to_vec(),
                9 => b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"status\"} x".to_vec(),
                10 => b"\"unterminated".to_vec(),
                11 => b"\x00".to_vec(),
                12 => b"{\"jsonrpc\":\"2.0\",\"id\":\"\\ud800\",\"method\":\"status\"}".to_vec(),
                13 => b"// comment".to_vec(),
                14 => b"{\"jsonrpc\":\"2.0\",\"id\":01,\"method\":\"status\"}".to_vec(),
                _ => {
                    name(&mut members, &quoted);
                    put(&mut members, &params);
                    let s = object(g, members).trim().to_string();
                    let mut n = g.n(s.len());
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    s[..n].as_bytes().to_vec()
                }
            };
            (t, Exp::Bad { id: Value::Null }, "malformed")
        }
        3 => {
            // JSON, but no request
            let t = *g.pick(&["null", "[]", "1", "\"status\"", "true", "{}", "[{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"status\"}]", "{\"id\":1}", "{\"jsonrpc\":\"2.0\"}", "[1,2,3]"]);
            let id = if t == "{\"id\":1}" { json!(1) } else { Value::Null };
            (t.as_bytes().to_vec(), Exp::Bad { id }, "no request")
        }
        4 => {
            // unknown or missing method
            let long = format!("\"{}\"", wide_text(g));
            let m = *g.pick(&[long.as_str(), long.as_str(), long.as_str(), "\"nope\"", "\"Status\"", "\"parser\"", "\"parser.\"", "\"\"", "\"status \"", "null", "[\"status\"]", "\"parser.format_errors\"", "\"Book\"", "\"book.book\"", ""]);
            if !m.is_empty() {
                name(&mut members, m);
            }
            put(&mut members, &params);
            (object(g, members).into_bytes(), Exp::Bad { id }, "unknown method")
        }
        5 => {
            // wrong parameters
            let m = *g.pick(&["parser.format-errors", "parser.format-warnings", "parser.resolve-spans", "parser.create-synthetic-spans", "book", "book", "book", "book"]);
            name(&mut members, &format!("\"{m}\""));
            let mut bad: Vec<&str> = vec!["{\"a\":1}", "\"x\"", "5", "true", "[1]", "[null]", "[\"x\"]", "[[]]", "[{}]", "[[1,2]]", "[{\"name\":\"n\"}]", "[{\"content\":\"n\"}]", "[{\"message\":\"m\"}]", "[[\"a\",0,0]]", "[[-1,0,0]]", "[[0,0,0.5]]"];
            match m {
                "book" => bad.extend(["[{\"dct\":\"nope\",\"date\":\"2020-01-01\"}]", "[{\"date\":\"2020-01-01\"}]", "[{\"date\":\"2020-13-01\",\"dct\":\"commodity\",\"cur\":\"X\"}]", "[{\"date\":\"2020-01-01\",\"dct\":\"commodity\"}]", "[{\"date\":\"2020-01-01\",\"dct\":\"commodity\",\"cur\":5}]", "[{\"date\":\"2020-01-01\",\"dct\":\"price\",\"cur\":\"X\",\"price\":{\"per-unit\":\"abc\",\"cur\":\"Y\"}}]"]),
                "parser.create-synthetic-spans" => bad.extend(["[{\"name\":1,\"content\":\"x\"}]", "[{\"name\":\"a\",\"content\":null}]"]),
                "parser.resolve-spans" => bad.extend(["[[0,0,99999999999999999999999999]]", "[{\"source\":0}]"]),
                _ => bad.extend(["[{\"message\":\"m\",\"reason\":\"r\"}]", "[{\"message\":\"m\",\"reason\":\"r\",\"span\":5}]", "[{\"message\":1,\"reason\":\"r\",\"span\":[0,0,0]}]"]),
            }
            if m != "book" {
                bad.push("null");
                bad.push("");
            }
            let t = wide_text(g);
            let long = match m {
                "book" => match g.n(3) {
                    0 => format!("[{{\"dct\":\"{t}\",\"date\":\"2020-01-01\"}}]"),
                    1 => format!("[{{\"dct\":\"commodity\",\"cur\":\"X\",\"date\":\"{t}\"}}]"),
                    _ => format!("\"{t}\""),
                },
                "parser.create-synthetic-spans" => format!("[{{\"name\":\"{t}\"}}]"),
                "parser.resolve-spans" => format!("[[0,\"{t}\",0]]"),
                _ => format!("[{{\"message\":\"{t}\",\"reason\":\"{t}\",\"span\":\"{t}\"}}]"),
            };
            for _ in 0..5 {
                bad.push(&long);
            }
            let mut p = *g.pick(&bad);
            if m == "book" && g.chance(60) {
                let all: Vec<&str> = WRONG_PARAMS.lines().collect();
                p = *g.pick(&all);
            }
            if !p.is_empty() {
                members.push(("\"params\"".into(), p.into()));
            }
            (object(g, members).into_bytes(), Exp::Bad { id }, "wrong params")
        }
        6 => {
            // ids that are none, versions that are none
            name(&mut members, &quoted);
            put(&mut members, &params);
            if g.chance(50) {
                members.retain(|m| m.0 != "\"id\"");
                members.push(("\"id\"".into(), g.pick(&["true", "{}", "[1]", "[]", "{\"a\":1}", "false"]).to_string()));
                (object(g, members).into_bytes(), Exp::Bad { id: Value::Null }, "wrong id")
            } else {
                let v = *g.pick(&["2.0", "2", "null", "[]", "{\"jsonrpc\":\"2.0\"}", ""]);
                if v.is_empty() {
                    members.remove(0);
                } else {
                    members[0].1 = v.into();
                }
                (object(g, members).into_bytes(), Exp::Bad { id }, "wrong version type")
            }
        }
        _ => {
            // not UTF-8
            name(&mut members, &quoted);
            put(&mut members, &params);
            let mut t = object(g, members).into_bytes();
            let bad: &[u8] = *g.pick(&[&[0xff][..], &[0xc3, 0x28], &[0xed, 0xa0, 0x80], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xe6, 0x97], &[0x80]]);
            let at = g.n(t.len() + 1);
            // not in the middle of a character, so that it stays invalid
            let at = (0..=at).rev().find(|i| *i == t.len() || t[*i] & 0xc0 != 0x80).unwrap_or(0);
            t.splice(at..at, bad.iter().copied());
            (t, Exp::Bad { id: Value::Null }, "not UTF-8")
        }
    };
    let mut s = s;
    if (96..98).contains(&big) {
        // a long line of little in it
        let mut t = vec![b' '; size];
        if big == 97 {
            std::mem::swap(&mut t, &mut s);
        }
        s.splice(0..0, t);
    }
    (s, exp, what)
}

fn same_id(a: &Value, b: &Value) -> bool {
    a.to_string() == b.to_string()
}

fn well_formed(x: &Value) -> Option<String> {
    let o = x.as_object()?;
    if o.get("jsonrpc") != Some(&json!("2.0")) {
        return Some("jsonrpc is not \"2.0\"".into());
    }
    if !o.contains_key("id") {
        return Some("no id".into());
    }
    match (o.contains_key("result"), o.get("error")) {
        (true, None) => None,
        (false, Some(e)) => {
            if !e["code"].is_i64() || !e["message"].is_string() {
                Some("error without integer code and message".into())
            } else {
                None
            }
        }
        _ => Some("not just one of result and error".into()),
    }
}

fn breakage(g: &mut G) -> Item {
    Item::Line(
        g.pick(&["2020-01-01 opn Assets:Broken", "2020-13-45 open Assets:X", "garbage", "option \"nope\" \"x\"", "2020-01-01 * \"unterminated", "include \"missing-file.beancount\"", "2020-01-01 open NotARoot:X", "plugin", "2020-01-01 balance Assets:Bank 1", "poptag #never", "}"])
            .to_string(),
    )
}

fn c17(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let half = case.ops.len() / 3;
    let (mut b, ex) = pick(case, &PROFILES.c17, half);
    let mut g = G::new(&ex[1..]);
    let state = [State::Healthy, State::Unparseable, State::Unreadable][g.weighted(&[60, 20, 20])];
    let l = &mut b.ledger;
    if settled(l, &l.sorted()).is_none() {
        return Ok(Eval::discard("booking crate's hash order decides"));
    }
    if state == State::Unparseable {
        let at = g.n(l.files[0].len() + 1);
        let it = breakage(&mut g);
        l.files[0].insert(at, it);
    }
    let sorted = l.sorted();
    let r = l.render();
    let dir = w.fresh();
    let mut root = write_ledger(&dir, &l.paths, &r.texts)?;
    if state == State::Unreadable {
        match g.n(4) {
            0 => root = dir.join("no such file"),
            1 => root = dir.clone(),
            2 => std::fs::write(&root, b"2020-01-01 open Assets:\xff\xfe\n").map_err(|e| HarnessError(e.to_string()))?,
            _ => root = dir.join("missing dir/x.beancount"),
        }
    }
    let tapes = &case.ops[half..];
    // some sessions are long
    let x = g.u() as usize;
    let lines = if x > 64_700 && !tapes.is_empty() { tapes.len() + 60 + x % 500 } else { tapes.len() };
    let made: Vec<(Vec<u8>, Exp, &'static str)> = (0..lines).map(|k| make_line(&tapes[k % tapes.len()], k, &sorted)).collect();
    let mut input = vec![];
    let eols: &[&[u8]] = if g.chance(20) { &[b"\n", b"\r\n"] } else { &[b"\n"] };
    for (t, _, _) in &made {
        input.extend_from_slice(t);
        input.extend_from_slice(g.pick(eols));
    }
    let mut n = made.len();
    if g.chance(25) && !made.is_empty() {
        // the last line need not end (but an empty one is none then)
        while matches!(input.last(), Some(b'\n' | b'\r')) {
            input.pop();
        }
        let mut nl = input.iter().filter(|b| **b == b'\n').count();
        if !input.is_empty() {
            nl += (input.last() != Some(&b'\n')) as usize;
        }
        n = nl.min(n);
    }
    let made = &made[..n];
    let mut ev = Eval { key: hash_of(&(&input, &r.texts)), ..Eval::default() };
    ev.detail = json!({"ledger": texts_json(&l.paths, &r.texts), "state": format!("{state:?}"), "input": String::from_utf8_lossy(&input), "expected": made.iter().map(|m| format!("{:?}", m.1)).collect::<Vec<_>>()});
    ev.sample = json!({"state": format!("{state:?}"), "input": String::from_utf8_lossy(&input).chars().take(800).collect::<String>()});
    ev.hit(&format!("{state:?}"));
    for m in made {
        ev.hit(m.2);
        if let Exp::Good { method, .. } = &m.1 {
            ev.hit(method);
        }
    }
    ev.nontrivial = made.len() > 1;
    if made.len() > 100 {
        ev.hit("long session");
    }
    // what each request gives when it is asked on its own terms
    let mut wants: BTreeMap<String, Value> = BTreeMap::new();
    if state != State::Unreadable {
        let mut qs: Vec<(String, Value)> = vec![];
        for m in made {
            if let Exp::Good { method, params, .. } = &m.1 {
                let key = format!("{method} {params:?}");
                if *method != "parser.create-synthetic-spans" && !qs.iter().any(|q| q.0 == key) {
                    qs.push((key, req(7, method, params.clone())));
                }
            }
        }
        let reqs: Vec<Value> = qs.iter().map(|q| q.1.clone()).collect();
        match ask(w, &root, &reqs)? {
            Err(d) => {
                ev.bad = d;
                return Ok(ev);
            }
            Ok(v) => {
                for (q, mut x) in qs.into_iter().zip(v) {
                    if let Some(o) = x.as_object_mut() {
                        o.remove("id");
                    }
                    wants.insert(q.0, norm_resp(&x));
                }
            }
        }
    }
    let mut c = w.cmd("limabean-pod");
    c.arg("serve").arg(&root);
    let talk = g.chance(35);
    let out = if talk { w.converse(c, &input)? } else { w.run(c, &input)? };
    if talk {
        ev.hit("line by line");
    }
    if let Some(k) = out.late {
        ev.bad("late", format!("line {} is not answered before the next is sent: {}", k + 1, made.get(k).map(|m| m.2).unwrap_or("")));
    }
    let v = match responses(&out, n) {
        Ok(v) => v,
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
    };
    for (k, (x, (_, exp, what))) in v.iter().zip(made).enumerate() {
        let at = format!("line {} ({what})", k + 1);
        if let Some(e) = well_formed(x) {
            ev.bad("proto", format!("{at}: {e}: {}", short(x)));
            continue;
        }
        let code = x["error"]["code"].as_i64();
        match exp {
            Exp::Bad { id } => {
                if code.is_none() {
                    ev.bad("accepted", format!("{at} gave {}", short(x)));
                } else if !x["id"].is_null() && !same_id(&x["id"], id) {
                    ev.bad("id", format!("{at}: id {} is none that was sent", x["id"]));
                }
            }
            Exp::Version { id } => {
                if code.is_none() {
                    ev.bad("accepted", format!("{at} gave {}", short(x)));
                } else if !same_id(&x["id"], id) {
                    ev.bad("id", format!("{at}: id {} instead of {id}", x["id"]));
                }
            }
            Exp::Good { id, method, params } => {
                if !same_id(&x["id"], id) {
                    ev.bad("id", format!("{at}: id {} instead of {id}", x["id"]));
                }
                match state {
                    State::Unreadable => {
                        let m = x["error"]["message"].as_str().unwrap_or("");
                        if code != Some(1) || !m.contains(&root.to_string_lossy().to_string()) {
                            ev.bad("unreadable", format!("{at}: {method} gave {} without a ledger to read", short(x)));
                        }
                        continue;
                    }
                    State::Unparseable if needs_ledger(method) => {
                        if code != Some(2) || x["error"]["data"].as_array().is_none_or(|a| a.is_empty()) {
                            ev.bad("unparseable", format!("{at}: {method} gave {} of an unparseable ledger", short(x)));
                        }
                    }
                    _ if *method == "book" => {
                        let want = if params.is_some() { 3 } else { 2 };
                        let ok = match code {
                            None => x["result"]["directives"].is_array(),
                            Some(c) => c == want && x["error"]["data"].as_array().is_some_and(|a| !a.is_empty()),
                        };
                        if !ok {
                            ev.bad("result", format!("{at}: {method} gave {}", short(x)));
                        }
                    }
                    _ => {
                        let r = &x["result"];
                        let ok = code.is_none()
                            && match *method {
                                "status" => r.is_null(),
                                "parser.plugins" => r.is_array(),
                                "parser.directives" => r["directives"].is_array(),
                                "parser.options" => r.is_object(),
                                "parser.format-errors" | "parser.format-warnings" => r.is_string(),
                                _ => r.as_array().map(|a| a.len()) == params.as_ref().and_then(|p| p.as_array()).map(|a| a.len()),
                            };
                        if !ok {
                            ev.bad("result", format!("{at}: {method} gave {}", short(x)));
                        }
                    }
                }
                if let Some(e) = wants.get(&format!("{method} {params:?}")) {
                    let mut x = x.clone();
                    if let Some(o) = x.as_object_mut() {
                        o.remove("id");
                    }
                    let x = norm_resp(&x);
                    if canon(&x) != canon(e) {
                        ev.bad("disturbed", format!("{at}: {method} gave {} here but {} on its own", short(&x), short(e)));
                    }
                }
            }
        }
    }
    Ok(ev)
}

const NAMES: &[&str] = &["plugin-a", "a", "b.clj", "some/path/x.beancount", "with space", "Ünï", "日本", "<synthetic>", "", "k-9", "main", "[x]", "a:1", "a/path/of/many/directories/below/others/and/a/name/that/goes/on/for/a good while/longer/than/anybody/would/type.clj"];
const FRAGS: &[&str] = &["2020-01-01 open Assets:X", "first\r\nsecond\r\nthird", "x", "", "two\nlines", "  led by space", "a\tb", "Käse\n  und Brot x", "日本語 1 USD", "{\"json\": true}", "\n\nblank first", "(defn f [x])\n  (g x)", "\"quoted\" \\ back", "😀 :)", "a\n\n\nb\n c"];

fn fragment(g: &mut G, k: usize) -> String {
    let mut s = g.pick(FRAGS).to_string();
    if g.chance(40) {
        s = format!("{s}{}{k}", if g.chance(30) { "\n" } else { " " });
        if g.chance(30) {
            s = format!("{s} {}", g.pick(FRAGS));
        }
    }
    let x = g.u() as usize;
    if x > 62_000 {
        // a long one
        let line = ["2020-01-01 open Assets:X", "word ", "é and ü ", "(let [x 1])\n  "][x % 4];
        s = format!("{s} {}", line.repeat(20 + x % 300));
    }
    // white space at the end is trimmed, which is no part of this; text that ends in a wide character
    // resolves to nothing (a known finding of C19)
    s = s.trim_end().to_string();
    if !s.is_empty() && !s.ends_with(|c: char| c.is_ascii()) {
        s.push('.');
    }
    s
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn strip_ansi(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

#[derive(Clone, Debug)]
struct Place {
    file: String,
    first: Option<usize>,
    last: Option<usize>,
    first_text: String,
    last_text: String,
    /// the row may have more on it
    partial: bool,
}

#[derive(Clone, Debug)]
struct WantReport {
    message: String,
    reason: String,
    place: Place,
    labels: Vec<(String, Place)>,
    annotation: Option<String>,
}

/// rows of quoted source: line number and text without white space
fn rows(block: &str) -> Vec<(usize, String)> {
    block
        .lines()
        .filter_map(|l| {
            let (n, t) = l.split_once('│')?;
            Some((n.trim().parse().ok()?, squeeze(t)))
        })
        .collect()
}

fn shows(rows: &[(usize, String)], p: &Place) -> Option<String> {
    for (n, t) in [(p.first, &p.first_text), (p.last, &p.last_text)] {
        let t = squeeze(t);
        let hit = rows.iter().any(|(m, r)| n.is_none_or(|n| n == *m) && if p.partial { r.contains(&t) } else { r.ends_with(&t) });
        if !hit {
            return Some(format!("{:?} of line {n:?}", t));
        }
    }
    None
}

/// "── [ file:line:column ]"
fn title(l: &str) -> Option<(String, usize)> {
    let t = l.trim_start();
    let t = t.strip_prefix("╭─[ ").or(t.strip_prefix("├─[ "))?.strip_suffix(" ]")?;
    let (t, _col) = t.rsplit_once(':')?;
    let (f, n) = t.rsplit_once(':')?;
    Some((plain_path(f), n.parse().ok()?))
}
fn plain_path(f: &str) -> String {
    if f.starts_with('/') {
        super::raw::lexical(f)
    } else {
        f.into()
    }
}

fn check_format(text: &str, warn: bool, want: &[WantReport]) -> Vec<Disc> {
    let text = strip_ansi(text);
    let mut out = vec![];
    let mut rest = text.as_str();
    let head = if warn { "Warning:" } else { "Error:" };
    for (i, r) in want.iter().enumerate() {
        let h = format!("{head} {}\n", r.message);
        let Some(after) = rest.strip_prefix(&h) else {
            out.push(disc("head", format!("report {i} begins {:?} instead of {h:?}", rest.chars().take(80).collect::<String>())));
            return out;
        };
        // the frame ends at the start of a line
        let Some(end) = after.match_indices("───╯\n").find(|(i, _)| after[..*i].rsplit('\n').next().unwrap().chars().all(|c| c == '─')).map(|x| x.0 + "───╯\n".len()) else {
            out.push(disc("frame", format!("report {i} does not end")));
            return out;
        };
        let block = &after[..end];
        rest = &after[end..];
        let titles: Vec<(String, usize)> = block.lines().filter_map(title).collect();
        let ok = titles.first().is_some_and(|t| t.0 == plain_path(&r.place.file) && r.place.first.is_none_or(|n| n == t.1));
        if !ok {
            out.push(disc("place", format!("report {i} is at {:?} instead of {:?} {:?}", titles.first(), r.place.file, r.place.first)));
        }
        if !block.contains(&r.reason) {
            out.push(disc("reason", format!("report {i} does not have its reason {:?}", r.reason)));
        }
        let rs = rows(block);
        if let Some(e) = shows(&rs, &r.place) {
            out.push(disc("source", format!("report {i} does not show {e}")));
        }
        for (label, p) in &r.labels {
            if !block.contains(label.as_str()) {
                out.push(disc("label", format!("report {i} does not have {label:?}")));
            }
            if !titles.iter().any(|t| t.0 == plain_path(&p.file)) {
                out.push(disc("label-place", format!("report {i} does not name {} for {label:?}", p.file)));
            }
            if let Some(e) = shows(&rs, p) {
                out.push(disc("label-source", format!("report {i} does not show {e} for {label:?}")));
            }
        }
        if let Some(a) = &r.annotation {
            let a = format!("{a}\n");
            match rest.strip_prefix(&a) {
                Some(x) => rest = x,
                None => {
                    out.push(disc("annotation", format!("report {i} is followed by {:?} instead of {a:?}", rest.chars().take(80).collect::<String>())));
                    return out;
                }
            }
        }
        if i + 1 < want.len() {
            rest = rest.trim_start_matches('\n');
        }
    }
    if !rest.trim().is_empty() {
        out.push(disc("rest", format!("more follows: {:?}", rest.chars().take(80).collect::<String>())));
    }
    out
}

fn place_of_text(file: &str, text: &str, a: usize, b: usize) -> Place {
    let t = text[a..b].trim_end();
    let e = a + t.len();
    let line = |off: usize| text[..off].matches('\n').count() + 1;
    let whole = |n: usize| text.split('\n').nth(n - 1).unwrap_or("").to_string();
    let (f, l) = (line(a), line(e));
    Place { file: file.into(), first: Some(f), last: Some(l), first_text: whole(f), last_text: whole(l), partial: false }
}

fn c20(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let half = case.ops.len() / 3;
    let (b, ex) = pick(case, &PROFILES.c20, half);
    let mut g = G::new(&ex[1..]);
    let l = &b.ledger;
    let r = l.render();
    let dir = w.fresh();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    #[derive(Debug)]
    enum Op {
        Create(Vec<usize>),
        Resolve(u16, Vec<u16>),
        Format(u16),
        Other(&'static str),
    }
    // what is made: name, content
    let mut made: Vec<(String, String)> = vec![];
    let mut ops = vec![];
    let reuse = g.chance(50);
    let mut wide_ok = true;
    if reuse && g.chance(50) {
        wide_ok = false;
    }
    for t in &case.ops[half..] {
        let mut g = G::new(t);
        match g.weighted(&[45, 35, 10, 10]) {
            0 => {
                let n = if g.chance(50) { 1 } else { g.n(6) };
                let mut v = vec![];
                for _ in 0..n {
                    let k = made.len();
                    let base = g.pick(NAMES).to_string();
                    let name = if reuse && g.chance(70) { base } else { format!("{base}-{k}") };
                    let mut c = fragment(&mut g, k);
                    if !wide_ok {
                        c = c.chars().filter(|c| c.is_ascii()).collect::<String>().trim_end().to_string();
                    }
                    v.push(k);
                    made.push((name, c));
                }
                // now and then as many as a plugin with a lot to say
                let x = g.u() as usize;
                if x > 63_500 {
                    for i in 0..30 + x % 200 {
                        let k = made.len();
                        let c = FRAGS[(x + i) % FRAGS.len()].chars().filter(char::is_ascii).collect::<String>();
                        v.push(k);
                        made.push((format!("many-{k}"), format!("{c} {k}")));
                    }
                }
                ops.push(Op::Create(v));
            }
            1 => {
                let k = g.u();
                let n = g.n(8);
                ops.push(Op::Resolve(k, g.take(n)))
            }
            2 => ops.push(Op::Format(g.u())),
            _ => ops.push(Op::Other(*g.pick(&["parser.directives", "book", "status", "parser.options"]))),
        }
    }
    let mut ev = Eval { key: hash_of(&made), ..Eval::default() };
    ev.detail = json!({"ledger": texts_json(&l.paths, &r.texts), "made": made, "ops": ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>()});
    ev.sample = json!({"made": made.iter().take(6).collect::<Vec<_>>(), "ops": ops.len()});
    ev.nontrivial = made.len() > 1;
    let mut uses: HashMap<&str, usize> = HashMap::new();
    let mut wide: HashMap<&str, bool> = HashMap::new();
    for (n, c) in &made {
        *uses.entry(n).or_default() += 1;
        *wide.entry(n).or_default() |= !c.is_ascii();
    }
    if uses.values().any(|n| *n > 1) {
        ev.hit("reused names");
    }
    if made.len() > 20 {
        ev.hit("many");
    }
    let create = |v: &Vec<usize>| Value::Array(v.iter().map(|k| json!({"name": made[*k].0, "content": made[*k].1})).collect());
    // first the spans as they are without anything else being asked
    let mut reqs = vec![req(0, "parser.directives", None)];
    for o in &ops {
        if let Op::Create(v) = o {
            reqs.push(req(reqs.len() as u64, "parser.create-synthetic-spans", Some(create(v))));
        }
    }
    let first = match ask(w, &root, &reqs)? {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) if v[0].get("result").is_none() => return Ok(Eval::discard("ledger was not parsed")),
        Ok(v) => v,
    };
    let mut spans: Vec<Value> = vec![];
    let mut it = first[1..].iter();
    for o in &ops {
        if let Op::Create(v) = o {
            let x = it.next().unwrap();
            match x["result"].as_array() {
                Some(a) if a.len() == v.len() && a.iter().all(|s| span3(s).is_some()) => spans.extend(a.iter().cloned()),
                _ => {
                    ev.bad("create", format!("creating {} spans gave {}", v.len(), short(x)));
                    return Ok(ev);
                }
            }
        }
    }
    // spans of the ledger's own, with what they are before anything is made
    let mut own: Vec<Value> = vec![];
    for d in first[0]["result"]["directives"].as_array().into_iter().flatten() {
        own.push(d["span"].clone());
        own.extend(d["postings"].as_array().into_iter().flatten().map(|p| p["span"].clone()));
    }
    own.truncate(40);
    let own_res = match ask(w, &root, &[req(1, "parser.resolve-spans", Some(Value::Array(own.clone())))])? {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) => v[0]["result"].as_array().cloned().unwrap_or_default(),
    };
    // now the whole history
    let mut reqs: Vec<Value> = vec![];
    let mut so_far = 0;
    let mut picks: Vec<Vec<(bool, usize)>> = vec![];
    for o in &ops {
        let id = reqs.len() as u64;
        let mut p = vec![];
        match o {
            Op::Create(v) => {
                reqs.push(req(id, "parser.create-synthetic-spans", Some(create(v))));
                so_far += v.len();
            }
            Op::Resolve(k, v) => {
                if *k > 52000 {
                    p.extend((0..so_far).map(|i| (true, i)));
                } else {
                    for x in v {
                        let (hi, lo) = ((*x >> 3) as usize, *x & 7);
                        if lo == 7 && !own_res.is_empty() && own_res.len() == own.len() {
                            p.push((false, hi % own.len()));
                        } else if so_far > 0 {
                            p.push((true, hi % so_far));
                        }
                    }
                }
                reqs.push(req(id, "parser.resolve-spans", Some(Value::Array(p.iter().map(|(s, i)| if *s { spans[*i].clone() } else { own[*i].clone() }).collect()))));
            }
            Op::Format(k) => {
                if so_far > 0 {
                    p.push((true, (*k as usize * so_far) >> 16));
                }
                reqs.push(req(
                    id,
                    "parser.format-errors",
                    Some(Value::Array(p.iter().map(|(_, i)| json!({"message": "The message", "reason": "the reason", "span": spans[*i]})).collect())),
                ));
            }
            Op::Other(m) => reqs.push(req(id, m, None)),
        }
        picks.push(p);
    }
    let v = match ask(w, &root, &reqs)? {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) => v,
    };
    let mut it = first[1..].iter();
    for (k, (o, x)) in ops.iter().zip(&v).enumerate() {
        match o {
            Op::Create(_) => {
                let f = it.next().unwrap();
                if f["result"] != x["result"] {
                    ev.bad("unsteady", format!("request {k} made spans {} here but {} on their own", short(&x["result"]), short(&f["result"])));
                }
                ev.hit("create");
            }
            Op::Resolve(..) => {
                let Some(a) = x["result"].as_array() else {
                    ev.bad("resolve", format!("request {k} gave {}", short(x)));
                    continue;
                };
                if a.len() != picks[k].len() {
                    ev.bad("resolve", format!("request {k}: {} answers to {} spans", a.len(), picks[k].len()));
                    continue;
                }
                for ((syn, i), got) in picks[k].iter().zip(a) {
                    if !*syn {
                        ev.hit("own resolved");
                        if canon(got) != canon(&own_res[*i]) {
                            ev.bad("own", format!("request {k}: span {} of the ledger resolves to {} instead of {}", own[*i], short(got), short(&own_res[*i])));
                        }
                        continue;
                    }
                    ev.hit("synthetic resolved");
                    let (n, c) = &made[*i];
                    if got["file-name"] != json!(n) || got["content"] != json!(c) {
                        ev.bad("resolve", format!("request {k}: the span made from {n:?} and {c:?} resolves to {}", short(got)));
                    } else if uses[n.as_str()] == 1 && (got["start-line"] != 1 || got["end-line"] != json!(c.matches('\n').count() + 1)) {
                        ev.bad("lines", format!("request {k}: the span made from {n:?} and {c:?} resolves to {}", short(got)));
                    }
                }
            }
            Op::Format(_) => {
                let Some(t) = x["result"].as_str() else {
                    ev.bad("format", format!("request {k} gave {}", short(x)));
                    continue;
                };
                let want: Vec<WantReport> = picks[k]
                    .iter()
                    .filter(|(_, i)| uses[made[*i].0.as_str()] == 1 || !wide[made[*i].0.as_str()])
                    .map(|(_, i)| {
                        let (n, c) = &made[*i];
                        let single = uses[n.as_str()] == 1;
                        WantReport {
                            message: "The message".into(),
                            reason: "the reason".into(),
                            place: Place {
                                file: n.clone(),
                                first: single.then_some(1),
                                last: single.then_some(c.matches('\n').count() + 1),
                                first_text: c.split('\n').next().unwrap().into(),
                                last_text: c.rsplit('\n').next().unwrap().into(),
                                partial: !single,
                            },
                            labels: vec![],
                            annotation: None,
                        }
                    })
                    .collect();
                if want.len() == picks[k].len() {
                    ev.hit("report at synthetic");
                    ev.bad.extend(check_format(t, false, &want));
                }
            }
            Op::Other(_) => {}
        }
    }
    Ok(ev)
}

const MSGS: &[&str] = &["invalid transaction", "message", "Müll 日本", "with: colon", "a b  c", "Error: nested", "x", "", "tab\there", "two\nlines", "one\n\n  three", "[31mno escape"];
const NOTES: &[&str] = &["note", "Assets:Bank  1 USD\nAssets:Cash  -1 USD", "wide 日本語", " lead", "", "\nblank first", "ends a line\n", "two\n\n", "\n", "trailing  ", "a\n b\n", "╭─[ frame ]", "very long annotation text that goes on and on and on and on and on and on and on and on and on and on and on and on"];

fn c21(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let half = case.ops.len() * 2 / 3;
    let (mut b, ex) = pick(case, &PROFILES.c21, half);
    let mut g = G::new(&ex[1..]);
    let broken = g.chance(20);
    let l = &mut b.ledger;
    if broken {
        for _ in 0..1 + g.n(3) {
            let f = g.n(l.files.len());
            let at = g.n(l.files[f].len() + 1);
            let it = breakage(&mut g);
            l.files[f].insert(at, it);
        }
    }
    let r = l.render();
    let dir = w.fresh();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    let mut ev = Eval { key: hash_of(&(&r.texts, &case.ops)), ..Eval::default() };
    let v = match ask(w, &root, &[req(1, "parser.directives", None), req(2, "book", None)])? {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) => v,
    };
    // source numbers, from what is known of the directives
    let order = l.order();
    let mut files: BTreeMap<u64, usize> = BTreeMap::new();
    let mut known: Vec<(u64, u64, u64)> = vec![];
    if let Some(a) = v[0]["result"]["directives"].as_array() {
        if a.len() != order.len() {
            return Ok(Eval::discard("not the directives of the ledger"));
        }
        for (x, i) in a.iter().zip(&order) {
            if let Some(s) = span3(&x["span"]) {
                files.insert(s.0, r.dlocs[*i].file);
                known.push(s);
            }
            for p in x["postings"].as_array().into_iter().flatten() {
                known.extend(span3(&p["span"]));
            }
        }
    }
    if files.is_empty() {
        files.insert(0, 0);
    }
    let bounds = |s: (u64, u64, u64)| -> Option<(usize, usize, usize)> {
        let f = *files.get(&s.0)?;
        let t = &r.texts[f];
        let (a, b) = (s.1 as usize, s.2 as usize);
        // (an ending in a wide character shows nothing: a known finding of C19)
        t.get(a..b).filter(|x| x.trim_end().ends_with(|c: char| c.is_ascii()))?;
        Some((f, a, b))
    };
    let known: Vec<(u64, u64, u64)> = known.into_iter().filter(|s| bounds(*s).is_some()).collect();
    let place = |s: (u64, u64, u64)| -> Option<Place> {
        let (f, a, b) = bounds(s)?;
        Some(place_of_text(&dir.join(&l.paths[f]).to_string_lossy(), &r.texts[f], a, b))
    };
    // spans made for the purpose
    let nsyn = if broken { 0 } else { g.n(3) };
    let syn: Vec<(String, String)> = (0..nsyn).map(|k| (format!("syn-{k}"), ["one line", "two\nlines here", "a (b) c"][k].to_string())).collect();
    let mut reports: Vec<Value> = vec![];
    let mut want: Vec<WantReport> = vec![];
    // those the pod itself gave go back as they are
    for x in [&v[0], &v[1]] {
        for rep in x["error"]["data"].as_array().into_iter().flatten() {
            if x["error"]["code"] != 2 {
                continue;
            }
            let Some(p) = span3(&rep["span"]).and_then(&place) else { continue };
            let mut labels = vec![];
            let mut ok = true;
            for (key, pre) in [("contexts", "in this "), ("related", "")] {
                for c in rep[key].as_array().into_iter().flatten() {
                    match span3(&c[1]).and_then(&place) {
                        Some(p) => labels.push((format!("{pre}{}", c[0].as_str().unwrap_or("?")), p)),
                        None => ok = false,
                    }
                }
            }
            if !ok || p.first_text.trim().is_empty() {
                continue;
            }
            ev.hit(if x["id"] == 1 { "parser's report" } else { "booking's report" });
            reports.push(rep.clone());
            want.push(WantReport {
                message: rep["message"].as_str().unwrap_or("?").into(),
                reason: rep["reason"].as_str().unwrap_or("?").into(),
                place: p,
                labels,
                annotation: rep["annotation"].as_str().map(String::from),
            });
        }
    }
    if reports.len() > 4 {
        reports.truncate(4);
        want.truncate(4);
    }
    let base = l.paths.len() as u64;
    let any_span = |g: &mut G| -> Option<(Value, Place)> {
        if !syn.is_empty() && g.chance(20) {
            let k = g.n(syn.len());
            let (n, c) = &syn[k];
            let b = c.len();
            let pl = Place {
                file: n.clone(),
                first: Some(1),
                last: Some(c.matches('\n').count() + 1),
                first_text: c.split('\n').next().unwrap().into(),
                last_text: c.rsplit('\n').next().unwrap().into(),
                partial: false,
            };
            return Some((json!([base + k as u64, 0, b]), pl));
        }
        if known.is_empty() {
            return None;
        }
        let mut s = *g.pick(&known);
        if g.chance(30) {
            // a part of it
            let (f, a, b) = bounds(s).unwrap();
            let t = &r.texts[f];
            let mut x = a + g.n(b - a);
            let mut y = a + g.n(b - a) + 1;
            if x > y {
                std::mem::swap(&mut x, &mut y);
            }
            if t.get(x..y).is_some_and(|t| !t.trim().is_empty() && !t.starts_with(['\n', '\r'])) && bounds((s.0, x as u64, y as u64)).is_some() {
                s = (s.0, x as u64, y as u64);
            }
        }
        Some((json!([s.0, s.1, s.2]), place(s)?))
    };
    let mut tapes: Vec<Vec<u16>> = case.ops[half..].to_vec();
    let x = g.u() as usize;
    if x > 63_000 && !tapes.is_empty() {
        // a great many
        for i in 0..30 + x % 120 {
            let t = &case.ops[half..][i % tapes.len().min(case.ops.len() - half)];
            tapes.push(t.iter().enumerate().map(|(j, v)| v.wrapping_add((i * 7919 + j * 104_729) as u16)).collect());
        }
        ev.hit("many reports");
    }
    for t in &tapes {
        let mut g = G::new(t);
        let g = &mut g;
        let Some((s, p)) = any_span(g) else { continue };
        let message = g.pick(MSGS).to_string();
        let reason = if g.chance(80) { g.pick(&["the reason", "Account not open", "ünbalanced", "(a) [b] {c}", "r", "the reason\nin two lines", "a\n  b\nc"]).to_string() } else { format!("reason {}", g.n(1000)) };
        let mut rep = json!({"message": message, "reason": reason, "span": s});
        let mut labels = vec![];
        for (key, pre) in [("contexts", "in this "), ("related", "")] {
            let n = match g.weighted(&[50, 30, 15, 3, 2]) {
                4 => 4 + g.n(9),
                n => n,
            };
            let mut v = vec![];
            for k in 0..n {
                if let Some((s, p)) = any_span(g) {
                    let name = format!("{}{}", g.pick(&["transaction", "open", "place 日本", "x-", "first\nand second"]), if g.chance(50) { k.to_string() } else { String::new() });
                    labels.push((format!("{pre}{name}"), p));
                    v.push(json!([name, s]));
                }
            }
            if !v.is_empty() {
                rep[key] = Value::Array(v);
            } else if g.chance(20) {
                rep[key] = if g.chance(50) { Value::Null } else { json!([]) };
            }
        }
        let annotation = if g.chance(40) {
            let a = g.pick(NOTES).to_string();
            rep["annotation"] = json!(a);
            Some(a)
        } else {
            if g.chance(10) {
                rep["annotation"] = Value::Null;
            }
            None
        };
        for (_, p) in &labels {
            if p.file != want.last().map(|w| w.place.file.clone()).unwrap_or_default() {
                ev.hit("other file");
            }
        }
        if !labels.is_empty() {
            ev.hit("labels");
        }
        let at = g.n(reports.len() + 1);
        reports.insert(at, rep);
        want.insert(at, WantReport { message, reason, place: p, labels, annotation });
    }
    let warn = g.chance(40);
    ev.hit(if warn { "warnings" } else { "errors" });
    ev.nontrivial = reports.len() > 1;
    ev.detail = json!({"ledger": texts_json(&l.paths, &r.texts), "reports": reports});
    ev.sample = json!({"reports": reports.iter().take(3).collect::<Vec<_>>()});
    let method = if warn { "parser.format-warnings" } else { "parser.format-errors" };
    let mut reqs = vec![];
    reqs.push(req(1, "parser.create-synthetic-spans", Some(Value::Array(syn.iter().map(|(n, c)| json!({"name": n, "content": c})).collect()))));
    reqs.push(req(2, method, Some(Value::Array(reports.clone()))));
    // and one of them on its own
    let one = if reports.is_empty() { None } else { Some(g.n(reports.len())) };
    if let Some(k) = one {
        reqs.push(req(3, method, Some(json!([reports[k]]))));
    }
    match ask(w, &root, &reqs)? {
        Err(d) => ev.bad = d,
        Ok(v) => {
            for (i, x) in v[0]["result"].as_array().into_iter().flatten().enumerate() {
                if x[0] != json!(base + i as u64) {
                    return Ok(Eval::discard("sources are counted otherwise"));
                }
            }
            match v[1]["result"].as_str() {
                None => ev.bad("format", format!("formatting gave {}", short(&v[1]))),
                Some(t) => ev.bad = check_format(t, warn, &want),
            }
            if let Some(k) = one {
                match v[2]["result"].as_str() {
                    None => ev.bad("format", format!("formatting gave {}", short(&v[2]))),
                    Some(t) => ev.bad.extend(check_format(t, warn, &want[k..k + 1])),
                }
            }
        }
    }
    Ok(ev)
}

pub const TOKENS: &[&str] = &[
    "2020-01-01", "open", "close", "balance", "pad", "*", "!", "txn", "P", "\"", "\\", "\\\"", "{", "}", "{{", "}}", "@", "@@", "#", "^", "(", ")", "-", "+", "/", "*", ",", ".", ":", ";", "~", "|", "\n", "\r\n", "\r", "\t",
    " ", "  ", "USD", "Assets:Bank", "Assets", "1", "0", "-1", "1.00", "TRUE", "NULL", "option", "plugin", "include", "pushtag", "poptag", "pushmeta", "popmeta", "query", "custom", "document", "event", "note", "price", "commodity",
    "é", "日", "😀", "\u{feff}", "\u{0}", "\u{2028}", "\u{a0}", "9999-12-31", "0000-00-00", "2020-02-30", "2020-1-1", "2020/01/01", "\"STRICT\"", "\"FIFO\"", "a:", "key: ", "Liabilities:", ":", "1,000", "1,00", "..", "5 #", "# 5", "()", "2020-01-01 open Assets:Bank\n",
    "2020-01-01 pad Assets:Bank Equity:Opening\n", "2020-01-02 balance Assets:Bank 5 USD\n", "2020-01-01 * \"x\"\n  Assets:Bank 1 USD\n  Assets:Cash\n", "option \"booking_method\" \"FIFO\"\n", "option \"name_assets\" \"Assets2\"\n", "option \"inferred_tolerance_default\" \"USD:0.01\"\n",
];

pub fn mutate(g: &mut G, t: &mut Vec<u8>) {
    let at = |g: &mut G, n: usize| g.n(n + 1);
    match g.n(10) {
        0 | 1 => {
            let i = at(g, t.len());
            let s = g.pick(TOKENS).as_bytes().to_vec();
            t.splice(i..i, s);
        }
        2 => {
            let i = at(g, t.len());
            let n = g.n(12).min(t.len() - i);
            t.drain(i..i + n);
        }
        3 => {
            // a line doubled, moved or dropped
            let lines: Vec<Vec<u8>> = t.split_inclusive(|b| *b == b'\n').map(|l| l.to_vec()).collect();
            if !lines.is_empty() {
                let mut lines = lines;
                let i = g.n(lines.len());
                let l = lines[i].clone();
                if g.chance(60) {
                    lines.remove(i);
                }
                if g.chance(70) {
                    let j = g.n(lines.len() + 1);
                    lines.insert(j, l);
                }
                *t = lines.concat();
            }
        }
        4 => {
            let i = at(g, t.len());
            if i < t.len() {
                t[i] = *g.pick(b"\"\\{}()#^@*!-+.,:;~ \n\t0aA/\x00\x80\xff\xc3|<>&%$'");
            }
        }
        5 => {
            let i = at(g, t.len());
            t.truncate(i.max(t.len() / 4));
        }
        6 => {
            // a piece copied elsewhere
            let i = at(g, t.len());
            let n = g.n(60).min(t.len() - i);
            let p = t[i..i + n].to_vec();
            let j = at(g, t.len());
            t.splice(j..j, p);
        }
        7 => {
            // indentation
            if let Some(i) = t.iter().position(|b| *b == b'\n') {
                let k = g.n(3);
                let s: &[u8] = [&b" "[..], b"\t", b"  "][k];
                let j = i + 1;
                t.splice(j..j, s.iter().copied());
            }
        }
        8 => {
            let i = at(g, t.len());
            t.insert(i, g.u() as u8);
        }
        _ => {
            let i = at(g, t.len());
            let s = g.pick(TOKENS).as_bytes().to_vec();
            let n = g.n(8).min(t.len() - i);
            t.splice(i..i + n, s);
        }
    }
}

/// not a defect of its own: recorded as known findings, by what the program says on its way out
pub fn known_crash(out: &Out) -> bool {
    let e = &out.stderr;
    // arithmetic in rust_decimal, and currencies with wide characters in option values, by their call sites
    let arithmetic = e.contains("rust_decimal-") && (e.contains("overflowed") || e.contains("Division by zero"));
    arithmetic || e.contains("beancount-parser-lima-0.16.3/src/types.rs:1700")
}

fn span_params(g: &mut G, n: u64) -> Value {
    let num = |g: &mut G| match g.n(8) {
        0 => json!(0),
        1 => json!(g.n(40)),
        2 | 3 => json!(g.n(n as usize + 3)),
        4 => json!(n),
        5 => json!(4294967296u64),
        6 => json!(u64::MAX),
        _ => json!(i64::MAX),
    };
    let src = match g.n(6) {
        0..=2 => json!(0),
        3 => json!(1),
        4 => json!(g.n(10)),
        _ => num(g),
    };
    json!([src, num(g), num(g)])
}

fn c22(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let half = case.ops.len() / 2;
    let (b, ex) = pick(case, &PROFILES.c22, half);
    let mut g = G::new(&ex[1..]);
    let l = &b.ledger;
    let r = l.render();
    let mut texts: Vec<Vec<u8>> = r.texts.iter().map(|t| t.clone().into_bytes()).collect();
    let mode = g.weighted(&[55, 20, 25]);
    let muts = &case.ops[half..];
    if mode != 2 {
        for t in muts {
            let mut g = G::new(t);
            let f = g.n(texts.len());
            mutate(&mut g, &mut texts[f]);
            if mode == 1 {
                break;
            }
        }
    }
    // an include of everything there is would not come to an end
    let risky = |t: &[u8]| {
        String::from_utf8_lossy(t).lines().any(|l| l.contains("include") && (l.contains('*') || l.contains('?') || l.contains('[') || l.contains("\"/")))
    };
    if texts.iter().any(|t| risky(t)) {
        return Ok(Eval::discard("include beyond the scratch directory"));
    }
    let dir = w.fresh();
    for (p, t) in l.paths.iter().zip(&texts) {
        let f = dir.join(p);
        std::fs::create_dir_all(f.parent().unwrap()).map_err(|e| HarnessError(e.to_string()))?;
        std::fs::write(&f, t).map_err(|e| HarnessError(e.to_string()))?;
    }
    let root = dir.join(&l.paths[0]);
    let mut lines: Vec<Vec<u8>> = vec![];
    for m in ["parser.directives", "book", "parser.options", "parser.plugins", "status"] {
        lines.push(line(&req(lines.len() as u64, m, None)));
    }
    let len = texts[0].len() as u64;
    let fixed = lines.len();
    for (k, t) in muts.iter().enumerate() {
        let mut g = G::new(&t[t.len() / 2..]);
        let g = &mut g;
        let v = match g.n(13) {
            10 => {
                // a request of no use, with texts of any length in it
                let t = wide_text(g);
                match g.n(7) {
                    0 | 1 => json!({"jsonrpc": "2.0", "id": k, "method": t}),
                    2 => json!({"jsonrpc": t, "id": k, "method": "status"}),
                    3 => json!({"jsonrpc": "2.0", "id": t, "method": "nope"}),
                    4 => json!({"jsonrpc": "2.0", "id": k, "method": "parser.resolve-spans", "params": t}),
                    5 => json!({"jsonrpc": "2.0", "id": k, "method": "parser.format-errors", "params": [{"message": t, "reason": t, "span": [0, 0, 0], "annotation": t}]}),
                    _ => json!(t),
                }
            }
            11 | 12 => {
                // directives passed in with a text of any length in place of some other
                let mut v = params_of(&l.sorted());
                let t = wide_text(g);
                let n = v.as_array().map(|a| a.len()).unwrap_or(0);
                if n > 0 {
                    let i = g.n(n);
                    replace_text(g, &mut v[i], &t);
                }
                json!({"jsonrpc": "2.0", "id": k, "method": "book", "params": v})
            }
            0 | 1 => {
                let n = g.n(4);
                json!({"jsonrpc": "2.0", "id": k, "method": "parser.resolve-spans", "params": (0..n).map(|_| span_params(g, len)).collect::<Vec<_>>()})
            }
            2 | 3 => {
                let m = if g.chance(50) { "parser.format-errors" } else { "parser.format-warnings" };
                let n = g.n(3);
                let reps: Vec<Value> = (0..n)
                    .map(|_| {
                        let mut x = json!({"message": "m", "reason": "r", "span": span_params(g, len)});
                        if g.chance(50) {
                            x["contexts"] = json!([["c", span_params(g, len)]]);
                        }
                        if g.chance(50) {
                            x["related"] = json!([["o", span_params(g, len)]]);
                        }
                        x
                    })
                    .collect();
                json!({"jsonrpc": "2.0", "id": k, "method": m, "params": reps})
            }
            4 => {
                let s = g.pick(TOKENS).to_string();
                let n = g.pick(TOKENS).to_string();
                json!({"jsonrpc": "2.0", "id": k, "method": "parser.create-synthetic-spans", "params": [{"name": n, "content": s}]})
            }
            5 => json!({"jsonrpc": "2.0", "id": k, "method": "book", "params": params_of(&l.sorted())}),
            _ => {
                // directives passed in, with something wrong
                let ds = l.sorted();
                let mut v = params_of(&ds);
                let n = v.as_array().map(|a| a.len()).unwrap_or(0);
                if n > 0 {
                    for _ in 0..1 + g.n(4) {
                        let i = g.n(n);
                        disturb(g, &mut v[i]);
                    }
                }
                json!({"jsonrpc": "2.0", "id": k, "method": "book", "params": v})
            }
        };
        let mut t = line(&v);
        if mode == 2 && g.chance(30) {
            for _ in 0..1 + g.n(3) {
                mutate(g, &mut t);
            }
            t.retain(|b| *b != b'\n');
        }
        lines.push(t);
    }
    let mut ev = Eval { key: hash_of(&(&texts, &lines)), ..Eval::default() };
    ev.detail = json!({
        "files": l.paths.iter().zip(&texts).map(|(p, t)| json!([p, String::from_utf8_lossy(t)])).collect::<Vec<_>>(),
        "lines": lines.iter().map(|t| String::from_utf8_lossy(t).to_string()).collect::<Vec<_>>(),
    });
    ev.sample = json!({"ledger": String::from_utf8_lossy(&texts[0]).chars().take(500).collect::<String>()});
    let out = w.serve(&root, &lines)?;
    if out.code == Some(101) && known_crash(&out) {
        return Ok(Eval::discard("crash of a known finding, by its call site"));
    }
    ev.nontrivial = !muts.is_empty();
    let v = match responses(&out, lines.len()) {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) => v,
    };
    let unread = texts.iter().take(1).any(|t| std::str::from_utf8(t).is_err());
    for (k, x) in v.iter().enumerate() {
        if let Some(e) = well_formed(x) {
            ev.bad("proto", format!("response {k}: {e}: {}", short(x)));
        }
        let code = x["error"]["code"].as_i64();
        if k < fixed {
            if x["id"] != json!(k) {
                ev.bad("proto", format!("response {k} has id {}", x["id"]));
            }
            match code {
                None => ev.hit("result"),
                Some(1) if unread => ev.hit("unreadable"),
                Some(2) if k != 4 => {
                    ev.hit(if k == 1 && v[0].get("result").is_some() { "booking refused" } else { "not parsed" });
                    let data = x["error"]["data"].as_array().cloned().unwrap_or_default();
                    if data.is_empty() {
                        ev.bad("reports", format!("response {k}: error without reports"));
                    }
                    for rep in &data {
                        let mut ss = vec![rep["span"].clone()];
                        for key in ["contexts", "related"] {
                            ss.extend(rep[key].as_array().into_iter().flatten().map(|c| c[1].clone()));
                        }
                        for s in ss {
                            let ok = span3(&s).is_some_and(|(f, a, b)| a <= b && (f > 0 && l.paths.len() > 1 || f == 0 && b <= len || f > 0 && texts.iter().any(|t| t.windows(7).any(|w| w == b"include"))));
                            if !ok {
                                ev.bad("span", format!("response {k}: report with span {s} in a ledger of {len} bytes"));
                            }
                        }
                        if rep["message"].as_str().is_none_or(|m| m.is_empty()) {
                            ev.bad("reports", format!("response {k}: report without message"));
                        }
                    }
                }
                _ => ev.bad("code", format!("response {k} is {}", short(x))),
            }
        } else {
            ev.hit(match code {
                None => "request answered",
                Some(-32700) => "request not understood",
                Some(3) => "booking of params refused",
                _ => "other error",
            });
        }
    }
    Ok(ev)
}

/// some text in the value replaced
fn replace_text(g: &mut G, v: &mut Value, t: &str) {
    match v {
        Value::Array(a) if !a.is_empty() => {
            let i = g.n(a.len());
            replace_text(g, &mut a[i], t)
        }
        Value::Object(o) if !o.is_empty() => {
            let i = g.n(o.len());
            if let Some(x) = o.values_mut().nth(i) {
                replace_text(g, x, t)
            }
        }
        _ => *v = json!(t),
    }
}

const META: &[&str] = &[
    "{\"null\":null}", "{\"null\":1}", "{\"units\":1}", "{\"units\":1,\"cur\":\"USD\"}", "{\"cur\":\"USD\",\"units\":1}", "{\"units\":1,\"cur\":\"USD\",\"x\":1}", "{\"cur\":\"USD\",\"units\":\"x\"}", "{\"cur\":\"USD\",\"string\":\"x\"}",
    "{\"units\":1,\"string\":\"x\"}", "{\"units\":null,\"cur\":null}", "{\"date\":\"x\"}", "{\"date\":\"2020-02-30\"}", "{\"date\":null}", "{\"date\":\"2020-02-29\"}", "{\"bool\":1}", "{\"bool\":false}", "{\"number\":\"5\"}", "{\"number\":1e30}", "{\"number\":-0.0}",
    "{\"tag\":1}", "{\"tag\":\"\"}", "{\"link\":null}", "{\"string\":null}", "{\"string\":\"\"}", "{\"acc\":\"\"}", "{\"acc\":\"x\"}", "{\"x\":1}", "{}", "[]", "\"x\"", "1", "true", "null", "[null]", "{\"string\":\"a\",\"tag\":\"b\"}", "{\"cur\":\"USD\",\"cur2\":1}",
];

fn nodes(v: &Value) -> usize {
    1 + match v {
        Value::Object(m) => m.values().map(nodes).sum(),
        Value::Array(a) => a.iter().map(nodes).sum(),
        _ => 0,
    }
}
fn node(v: &mut Value, mut i: usize) -> &mut Value {
    if i == 0 {
        return v;
    }
    i -= 1;
    let inner: Vec<&mut Value> = match v {
        Value::Object(m) => m.values_mut().collect(),
        Value::Array(a) => a.iter_mut().collect(),
        _ => unreachable!(),
    };
    for x in inner {
        let n = nodes(x);
        if i < n {
            return node(x, i);
        }
        i -= n;
    }
    unreachable!()
}

/// a JSON value with something else in some place
fn disturb(g: &mut G, v: &mut Value) {
    if g.chance(20) {
        // metadata of any kind, on the directive or the values of a custom one
        let x: Value = serde_json::from_str(g.pick(META)).unwrap();
        let to = match v.get_mut("values").or(None) {
            Some(Value::Array(a)) => {
                a.push(x);
                return;
            }
            _ => v,
        };
        let to = match to.get("postings").and_then(|p| p.as_array()).map(|p| p.len()) {
            Some(n) if n > 0 && g.chance(50) => {
                let k = g.n(n);
                &mut to["postings"][k]
            }
            _ => to,
        };
        if let Some(o) = to.as_object_mut() {
            let m = o.entry("metadata").or_insert(json!({}));
            if let Some(m) = m.as_object_mut() {
                m.insert(g.pick(&["key", "a", "KEY", "", "lineno", "é"]).to_string(), x);
            }
        }
        return;
    }
    if g.chance(50) {
        // anywhere alike; or among the values of metadata
        let k = g.n(nodes(v));
        let at = match v.get_mut("metadata") {
            Some(m) if g.chance(40) => {
                let k = g.n(nodes(m));
                node(m, k)
            }
            _ => node(v, k),
        };
        disturb_at(g, at);
        return;
    }
    disturb_at(g, v)
}
fn disturb_at(g: &mut G, v: &mut Value) {
    let odd = |g: &mut G| {
        g.pick(&["null", "\"\"", "\"x\"", "0", "-1", "1.5", "true", "[]", "{}", "\"Assets:Bank\"", "\"USD\"", "\"2020-01-01\"", "\"0000-01-01\"", "\"9999-12-31\"", "\"é\"", "\":\"", "\"Assets\"", "[null]", "1e3", "\"fifo\"", "\"-0\"", "{\"number\":1}", "{\"null\":null}", "{\"null\":1}", "{\"bool\":true}", "{\"tag\":\"x\"}", "{\"amount\":{}}", "{\"amount\":null}", "{\"x\":1,\"y\":2}"])
            .parse::<Value>()
            .unwrap()
    };
    match v {
        Value::Object(m) => {
            let ks: Vec<String> = m.keys().cloned().collect();
            if ks.is_empty() {
                *v = odd(g);
                return;
            }
            let k = g.pick(&ks).clone();
            match g.n(6) {
                0 => {
                    m.remove(&k);
                }
                1 => {
                    m.insert(k, odd(g));
                }
                2 => {
                    let x = m[&k].clone();
                    let k2 = g.pick(&ks).clone();
                    m.insert(k2, x);
                }
                _ => disturb_at(g, m.get_mut(&k).unwrap()),
            }
        }
        Value::Array(a) => {
            if a.is_empty() {
                a.push(odd(g));
                return;
            }
            let i = g.n(a.len());
            match g.n(5) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let x = a[i].clone();
                    a.push(x);
                }
                2 => a[i] = odd(g),
                _ => disturb_at(g, &mut a[i]),
            }
        }
        v => *v = odd(g),
    }
}

fn c30(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let half = case.ops.len() / 2;
    let (mut b, ex) = pick(case, &PROFILES.c17, half);
    let mut g = G::new(&ex[1..]);
    let l = &mut b.ledger;
    if settled(l, &l.sorted()).is_none() {
        return Ok(Eval::discard("booking crate's hash order decides"));
    }
    if g.chance(15) {
        let at = g.n(l.files[0].len() + 1);
        let it = breakage(&mut g);
        l.files[0].insert(at, it);
    }
    let sorted = l.sorted();
    let r = l.render();
    let dir = w.fresh();
    let mut root = write_ledger(&dir, &l.paths, &r.texts)?;
    if g.chance(10) {
        root = dir.join("no such file");
    }
    let cwd = dir.join("cwd");
    std::fs::create_dir_all(cwd.join("logs")).map_err(|e| HarnessError(e.to_string()))?;
    // what the log holds already
    let before = match g.n(5) {
        3 => "x\n".repeat(1 << 20),
        4 => format!("x\n{}", "no end of line"),
        2 => format!("x\n{}", "y".repeat(100_000)),
        _ => "x\n".to_string(),
    };
    std::fs::write(cwd.join("plain"), &before).map_err(|e| HarnessError(e.to_string()))?;
    let made: Vec<(Vec<u8>, Exp, &'static str)> = case.ops[half..].iter().enumerate().map(|(k, t)| make_line(t, k, &sorted)).collect();
    let mut input = vec![];
    for (t, _, _) in &made {
        input.extend_from_slice(t);
        input.push(b'\n');
    }
    let c = cwd.to_string_lossy().to_string();
    // the setting, whether the file must be writable, and where the log is
    type L = (Option<String>, Option<bool>, Option<PathBuf>);
    let log: L = match g.n(16) {
        0 | 1 | 2 => (Some(format!("{c}/pod.log")), Some(true), Some(cwd.join("pod.log"))),
        3 => (Some(format!("{c}/logs/deep.log")), Some(true), Some(cwd.join("logs/deep.log"))),
        4 => (Some("bare.log".into()), None, Some(cwd.join("bare.log"))),
        5 => (Some("logs/rel.log".into()), Some(true), Some(cwd.join("logs/rel.log"))),
        6 => (Some(format!("{c}/plain")), Some(true), Some(cwd.join("plain"))),
        7 => (Some(format!("{c}/missing/x.log")), None, None),
        8 => (Some(format!("{c}/plain/x.log")), Some(false), None),
        9 => (Some("".into()), None, None),
        10 => (Some("..".into()), None, None),
        11 => (Some("/dev/full".into()), None, None),
        12 => (Some("/dev/null".into()), Some(true), None),
        13 => (Some(format!("{c}/logs")), Some(false), None),
        14 => (Some(format!("{c}/log é 日.txt")), Some(true), Some(cwd.join("log é 日.txt"))),
        _ => (Some(format!("{c}/logs/")), None, None),
    };
    let level = g.pick(&[None, None, Some("debug"), Some("trace"), Some("info"), Some("off"), Some("error"), Some(""), Some("garbage!!"), Some("limabean=debug"), Some("limabean=trace,other=off"), Some("5"), Some("limabean::api[x]=warn"), Some(",,,"), Some("a=b=c"), Some("limabean=verbose"), Some("["), Some("verbose=1,debug=2"), Some("[{x=\"("), Some("é")]);
    let level = level.map(|s| s.to_string());
    let mut ev = Eval { key: hash_of(&(&input, &r.texts, &log.0, &level)), ..Eval::default() };
    ev.detail = json!({"ledger": texts_json(&l.paths, &r.texts), "log": log.0, "level": level, "input": String::from_utf8_lossy(&input)});
    ev.sample = json!({"log": log.0, "level": level, "lines": made.len()});
    ev.nontrivial = log.0.is_some();
    ev.hit(&format!("log {}", log.0.as_deref().unwrap_or("unset").replace(&c, "DIR")));
    ev.hit(&format!("level {level:?}"));
    let run = |w: &mut Worker, with: bool| {
        let mut cmd = w.cmd("limabean-pod");
        cmd.arg("serve").arg(&root).current_dir(&cwd);
        if with {
            if let Some(p) = &log.0 {
                cmd.env("LIMABEAN_POD_LOG", p);
            }
        }
        if let Some(v) = &level {
            cmd.env("LIMABEAN_POD_LOG_LEVEL", v);
        }
        w.run(cmd, &input)
    };
    let base = run(w, false)?;
    let bv = match responses(&base, made.len()) {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) => v,
    };
    let out = run(w, true)?;
    if out.code != Some(0) {
        ev.hit("refused");
        if out.signal.is_some() || !out.stdout.is_empty() || out.stderr.trim().is_empty() {
            ev.bad("refusal", format!("ended with {:?}/{:?}, {} bytes on stdout and {:?}", out.code, out.signal, out.stdout.len(), out.stderr.chars().take(200).collect::<String>()));
        } else if log.1 == Some(true) {
            ev.bad("refusal", format!("refused though the log can be written: {:?}", out.stderr.chars().take(300).collect::<String>()));
        }
        return Ok(ev);
    }
    ev.hit("ran");
    let v = match responses(&out, made.len()) {
        Err(mut d) => {
            ev.bad.append(&mut d);
            return Ok(ev);
        }
        Ok(v) => v,
    };
    for (k, (x, y)) in bv.iter().zip(&v).enumerate() {
        if canon(&norm_resp(x)) != canon(&norm_resp(y)) {
            ev.bad("differ", format!("response {k} is {} with logging and {} without", short(y), short(x)));
        }
    }
    if out.stderr.contains("\"jsonrpc\"") || base.stderr.contains("\"jsonrpc\"") {
        ev.bad("stderr", format!("requests or responses on standard error: {:?}", out.stderr.chars().take(300).collect::<String>()));
    }
    // documented: messages are logged at level DEBUG, which is the default
    if let (Some(p), Some(true)) = (&log.2, log.1) {
        let text = std::fs::read(p).map(|t| String::from_utf8_lossy(&t).to_string()).unwrap_or_default();
        let on = matches!(level.as_deref(), None | Some("debug") | Some("trace") | Some("limabean=debug"));
        let off = matches!(level.as_deref(), Some("off"));
        for (t, _, what) in made.iter().filter(|m| m.2 == "valid" || m.2 == "version") {
            let t = String::from_utf8_lossy(t).trim().to_string();
            if !t.is_ascii() || t.contains('\u{7f}') {
                continue;
            }
            if on && !text.contains(&t) {
                ev.bad("log", format!("request ({what}) {t:?} is not in the log"));
            }
            if off && text.contains(&t) {
                ev.bad("log", format!("request {t:?} is in the log though that is off"));
            }
        }
        if p.ends_with("plain") && !text.starts_with(&before) {
            ev.bad("log", "what was in the file before is gone");
        }
    }
    Ok(ev)
}

pub fn checks() -> Vec<Box<dyn Check>> {
    let mk = |id, quick, ops, rule, f| -> Box<dyn Check> {
        Box::new(FnCheck { id, rule, cfg: 256, ops, genes: 56, quick, f, fixed: no_fixed, assumptions: &["limabean-booking 0.10.4 and beancount-parser-lima 0.16.3 are as pinned"] })
    };
    let _ = (needs_params as fn(&str) -> bool, Path::new(""));
    vec![
        mk("C17", 4500, (0, 24), "random sequences of valid and invalid request lines to a pod with a ledger that is fine, does not parse or cannot be read; non-trivial: at least two lines", c17),
        mk("C20", 3500, (1, 30), "random histories of making synthetic spans, resolving them and the ledger's own, and formatting; non-trivial: at least two spans made", c20),
        mk("C21", 4000, (1, 18), "lists of the pod's own reports and of random ones over random spans of the ledger and synthetic ones; non-trivial: at least two reports", c21),
        mk("C22", 5000, (1, 16), "mutated ledgers, requests and parameters; non-trivial: something was mutated", c22),
        mk("C30", 3500, (0, 12), "random requests and ledgers with random logging settings, and without; non-trivial: logging is set", c30),
    ]
}
