//! The command line of the Clojure half (J12) and loading again and again (J13).
use super::clj::*;
use super::common::*;
use super::meta::extra;
use super::plug::{g_faulty, ledger};
use crate::clj::host::Host;
use crate::clj::value::V;
use crate::clj::value::Obj;
use crate::compare::*;
use crate::genes::{Case, G};
use crate::pod::*;
use crate::runner::*;
use serde_json::{json, Value};
use std::path::Path;

/// expressions, what they need not have been qualified for, and whether they end badly
const EXPRS: &[(&str, &str)] = &[
    ("(print (count *directives*))", "(print (count limabean.user/*directives*))"),
    ("(show (inventory))", "(limabean.user/show (limabean.user/inventory))"),
    ("(show (journal (f/date>= 2020)))", "(limabean.user/show (limabean.user/journal (limabean.core.filters/date>= 2020)))"),
    ("(do (show (balances)) (show (income-statement)))", "(do (limabean.user/show (limabean.user/balances)) (limabean.user/show (limabean.user/income-statement)))"),
    ("(print (:name-assets *options*) \"and no more\")", "(print (:name-assets limabean.user/*options*) \"and no more\")"),
    ("(show (rollup (inventory (f/cur \"USD\"))))", "(limabean.user/show (limabean.user/rollup (limabean.user/inventory (limabean.core.filters/cur \"USD\"))))"),
    ("(do (def mine 17) (print (+ mine 4)))", "(print 21)"),
    ("(let [n (count (keep :payee *directives*))] (println n))", "(let [n (count (keep :payee limabean.user/*directives*))] (println n))"),
    ("nil", "nil"),
    ("(print (= 1 1) \"-v --help\")", "(print true \"-v --help\")"),
];
const BAD: &[(&str, &str)] = &[
    ("(throw (ex-info \"of the user's own making\" {:a 1}))", "of the user's own making"),
    ("(let [missing nil] (missing 1))", ""),
    ("(print (count *directives*)", ""),
    ("(do (print \"as far as this\") (/ 1 0))", ""),
];

/// J12: arguments, environment and exit status
fn j12(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut e = Eval::default();
    let x = extra(case);
    let mut g = G::new(&x);
    let l = ledger(case, &mut g, g_faulty(case));
    let r = l.render();
    let dir = w.fresh();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    let other = dir.join("other ledger.beancount");
    let put = |p: &Path, t: &str| std::fs::write(p, t).map_err(|e| HarnessError(e.to_string()));
    put(&other, "2020-01-01 event \"another\" \"ledger\"\n")?;
    let version = format!("{}.{}.{}", g.n(10), g.n(20), g.n(3));
    let has_version = g.chance(60);
    if has_version {
        let d = dir.join("src/META-INF/maven/io.github.tesujimath/limabean");
        std::fs::create_dir_all(&d).map_err(|e| HarnessError(e.to_string()))?;
        put(&d.join("pom.properties"), &format!("#Generated\nartifactId=limabean\nversion={version}\n"))?;
    }
    let name = |p: &Path| p.to_string_lossy().to_string();
    // where the ledger is looked for
    let places = [name(&root), name(&root), name(&root), name(&other), name(&dir.join("missing.beancount")), name(&dir)];
    let which = |g: &mut G| if g.chance(75) { 0 } else { g.n(places.len()) };
    let (a, b) = (which(&mut g), which(&mut g));
    let (by_arg, by_env) = *g.pick(&[(true, false), (true, false), (true, false), (false, true), (false, true), (true, true), (false, false)]);
    let mut args: Vec<Vec<String>> = vec![];
    let mut put_opt = |g: &mut G, k: &str, v: &str| {
        if g.chance(50) {
            args.push(vec![format!("{k}={v}")]);
        } else {
            args.push(vec![k.into(), v.into()]);
        }
    };
    if by_arg {
        put_opt(&mut g, "--beanfile", &places[a]);
    }
    // (what is before an = may not have spaces)
    let eval = match g.weighted(&[6, 2, 2]) {
        0 => Some((*g.pick(EXPRS), true)),
        1 => Some((*g.pick(BAD), false)),
        _ => None,
    };
    if let Some(((x, _), _)) = eval {
        put_opt(&mut g, "--eval", x);
    }
    if g.chance(20) {
        args.push(vec![g.pick(&["-v", "--verbose"]).to_string()]);
    }
    let special = g.weighted(&[14, 2, 2, 2, 2, 2]);
    let mut errors: Vec<&str> = vec![];
    match special {
        1 => args.push(vec![g.pick(&["-h", "--help", "-vh"]).to_string()]),
        2 => args.push(vec!["--version".into()]),
        3 => {
            for _ in 0..1 + g.n(2) {
                let t = *g.pick(&["--beanfil", "--evaluate", "-x", "--no-such=thing", "-q"]);
                args.push(vec![t.into()]);
                errors.push(t.split('=').next().unwrap_or(t));
            }
        }
        4 => {
            let t = if by_arg { "--eval" } else { "--beanfile" };
            errors.push(t);
        }
        _ => {}
    }
    // any order
    for i in (1..args.len()).rev() {
        args.swap(i, g.n(i + 1));
    }
    let mut args: Vec<String> = args.concat();
    let mut more: Vec<&str> = vec![];
    match special {
        4 => args.push(errors[0].into()),
        5 => {
            for _ in 0..1 + g.n(2) {
                more.push(*g.pick(&["superfluous", "a b", "other.beancount"]));
            }
            if g.chance(40) {
                args.push("--".into());
                more.push("--eval");
            }
            args.extend(more.iter().map(|t| t.to_string()));
        }
        _ => {}
    }
    let place = if by_arg {
        Some(a)
    } else if by_env {
        Some(b)
    } else {
        None
    };
    e.detail = json!({"ledger": texts_json(&l.paths, &r.texts), "args": args, "LIMABEAN_BEANFILE": by_env.then(|| places[b].clone())});
    e.sample = json!({"args": args, "LIMABEAN_BEANFILE": by_env.then(|| places[b].clone())});
    e.key = hash_of(&format!("{args:?}{by_env}{b}{}", r.texts[0]).replace(&name(&dir), ""));
    e.nontrivial = args.len() > 2;
    let env = places[b].clone();
    let env: Vec<(&str, &str)> = if by_env { vec![("LIMABEAN_BEANFILE", &env)] } else { vec![] };
    let s = Session::bare(w, &dir, &env);
    let Some(s) = settle(&mut e, "starting", s) else { return Ok(e) };
    let Some(_) = settle(&mut e, "requiring limabean.main", s.eval("(require 'limabean.main)")) else { return Ok(e) };
    s.c.in_ns("user");
    let call = format!("(limabean.main/-main {})", args.iter().map(|t| quoted(t)).collect::<Vec<_>>().join(" "));
    let status = match s.eval(&call) {
        Ok(_) => 0,
        Err(Stop::Thrown(t)) => match t.strip_prefix("lbverif.Exit: Some(\"").and_then(|t| t.trim_end_matches("\")").parse::<i64>().ok()) {
            Some(n) => n,
            None => {
                e.bad("thrown", format!("running limabean: {t}"));
                return Ok(e);
            }
        },
        Err(x) => {
            settle::<()>(&mut e, "running limabean", Err(x));
            return Ok(e);
        }
    };
    s.c.in_ns("user");
    let (out, err) = (Host::take(&s.c.host.out), Host::take(&s.c.host.err));
    e.detail["status"] = json!(status);
    e.detail["stdout"] = json!(out);
    e.detail["stderr"] = json!(err);
    let refuse = |e: &mut Eval, what: &str, says: &[&str]| {
        e.hit(what);
        if status == 0 {
            e.bad("status", format!("{what}: status 0"));
        }
        for t in says {
            if !err.contains(t) {
                e.bad("message", format!("{what}: nothing is said of {t}"));
            }
        }
        if !s.c.host.pods.borrow().is_empty() {
            e.bad("went on", format!("{what}, yet a ledger was loaded"));
        }
    };
    if special == 1 {
        e.hit("help");
        if status != 0 {
            e.bad("status", format!("help: status {status}"));
        }
        let said = format!("{out}{err}");
        for t in ["-h, --help", "-v, --verbose", "--version", "--beanfile PATH", "--eval EXPR", "$LIMABEAN_BEANFILE"] {
            if !said.contains(t) {
                e.bad("help", format!("nothing is said of {t}"));
            }
        }
        return Ok(e);
    }
    if !errors.is_empty() {
        refuse(&mut e, "wrong options", &errors);
        return Ok(e);
    }
    if special == 2 {
        e.hit("version");
        if status != 0 {
            e.bad("status", format!("version: status {status}"));
        }
        let want = if has_version { &version } else { "unknown" };
        if out.trim() != format!("limabean.clj {want}") {
            e.bad("version", format!("{out:?} is not version {want}"));
        }
        return Ok(e);
    }
    let Some(place) = place else {
        refuse(&mut e, "no beanfile", &["--beanfile", "$LIMABEAN_BEANFILE"]);
        return Ok(e);
    };
    if place > 3 {
        refuse(&mut e, "no such beanfile", &[&places[place]]);
        return Ok(e);
    }
    if special == 5 {
        refuse(&mut e, "superfluous arguments", &more);
        return Ok(e);
    }
    let unread = matches!(eval, Some(((x, _), false)) if x.matches('(').count() != x.matches(')').count());
    let n = s.answers("parser.directives").pop().map(|x| list(&x.1["result"]["directives"]).len()).unwrap_or(0);
    let first = format!("[limabean] {n} directives loaded from {}", places[place]);
    if !unread && !err.lines().any(|t| t == first) {
        e.bad("loading", format!("{:?} rather than: {first}", err.lines().next()));
    }
    if place == 3 && !unread && n != 1 {
        e.bad("loading", format!("{n} directives of the other ledger, which has one"));
    }
    match eval {
        None => {
            e.hit("session");
            let n = s.json("@rebel-readline.clojure.main/entered");
            let Some(n) = settle(&mut e, "sessions", n) else { return Ok(e) };
            if n != json!(1) || status != 0 {
                e.bad("session", format!("{n} interactive sessions, status {status}"));
            }
        }
        Some(((x, says), false)) => {
            e.hit("evaluation fails");
            if status == 0 {
                e.bad("status", format!("{x} fails, but the status is 0"));
            }
            if !err.contains("Exception") || !err.contains(says) {
                e.bad("message", format!("{x} fails without saying so"));
            }
            if x.contains("as far") && !out.contains("as far as this") {
                e.bad("output", "what was printed before the exception is lost");
            }
        }
        Some(((x, plain), true)) => {
            e.hit("evaluation");
            if status != 0 {
                e.bad("status", format!("{x}: status {status}"));
            }
            let Some(want) = settle(&mut e, plain, s.shown(plain)) else { return Ok(e) };
            if out != want {
                e.bad("output", format!("{x} prints {out:?}, not {want:?}"));
            }
            if s.json("@rebel-readline.clojure.main/entered").is_ok_and(|n| n != json!(0)) {
                e.bad("session", "there is a session after --eval");
            }
        }
    }
    Ok(e)
}

/// what is added to a file, in turn
const EDITS: &[(&str, &str)] = &[
    ("event", "2040-01-01 event \"a\" \"b\"\n"),
    ("payment", "2040-01-01 open Assets:Late\n2040-01-02 * \"Late\"\n  Assets:Late 7 USD\n  Assets:Late -7 USD\n"),
    ("syntax error", "2040-01-01 ope Assets:Other\n"),
    ("booking error", "2040-01-01 close Assets:No:Such\n"),
    ("unbalanced", "2040-01-01 open Assets:Odd\n2040-01-01 * \"Odd\"\n  Assets:Odd 7 USD\n"),
    ("missing include", "include \"no-such-file\"\n"),
    ("price", "2040-01-01 price USD 1.2 EUR\n"),
    ("plugin error", "plugin \"no.such.plugin\"\n"),
    ("option", "option \"title\" \"Changed\"\n"),
];

/// J13: every load is as if it were the first
fn j13(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut e = Eval::default();
    let x = extra(case);
    let mut g = G::new(&x);
    let l = ledger(case, &mut g, g_faulty(case));
    let r = l.render();
    let dir = w.fresh();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    let other = dir.join("other.beancount");
    let mut texts = r.texts.clone();
    let mut second = "2020-01-01 open Assets:Else\n2020-01-02 open Income:Else\n2020-01-03 * \"x\" \"y\"\n  Assets:Else 3 XYZ\n  Income:Else\n".to_string();
    let put = |p: &Path, t: &str| std::fs::write(p, t).map_err(|e| HarnessError(e.to_string()));
    put(&other, &second)?;
    let mut told = vec![json!("load")];
    let n = 2 + g.n(5);
    let s = Session::open(w, &dir, &root, &[], "nil");
    e.detail = json!({"ledger": texts_json(&l.paths, &r.texts)});
    e.key = hash_of(&(r.texts.clone(), &x));
    let Some(s) = settle(&mut e, "loading the ledger", s) else { return Ok(e) };
    let mut at = root.clone();
    let (mut good, mut bad) = (0, 0);
    for i in 0..=n {
        if i > 0 {
            at = match g.weighted(&[6, 2, 1]) {
                0 => root.clone(),
                1 => other.clone(),
                _ => dir.join("nowhere.beancount"),
            };
            // what happened to the files in between
            match g.n(5) {
                0 => {}
                1 => {
                    for (p, t) in l.paths.iter().zip(&r.texts) {
                        put(&dir.join(p), t)?;
                    }
                    texts = r.texts.clone();
                    told.push(json!("restore"));
                }
                2 => {
                    second = format!("{}2020-02-0{} event \"n\" \"{i}\"\n", second, 1 + i);
                    put(&other, &second)?;
                    told.push(json!("edit the other"));
                }
                _ => {
                    let k = g.n(texts.len());
                    let (name, t) = *g.pick(EDITS);
                    let t = format!("\n{t}");
                    if g.chance(80) || texts[k].is_empty() {
                        texts[k].push_str(&t);
                    } else {
                        texts[k] = t[1..].to_string();
                    }
                    put(&dir.join(&l.paths[k]), &texts[k])?;
                    told.push(json!(format!("{name} in {}", l.paths[k])));
                }
            }
            told.push(json!(format!("load {}", at.file_name().unwrap_or_default().to_string_lossy())));
            Host::take(&s.c.host.err);
            s.c.host.talk.borrow_mut().clear();
            let ok = s.json(&format!("(load-beanfile {})", quoted(&at.to_string_lossy())));
            if !at.exists() {
                e.hit("nowhere");
                // (an exception, or an error printed)
                if let Err(Stop::Undecided(_)) = ok {
                    settle(&mut e, "loading again", ok);
                    return Ok(e);
                }
                bad += 1;
                let none = s.json("[(count *directives*) (count (journal)) (count (inventory))]");
                let Some(none) = settle(&mut e, "queries", none) else { return Ok(e) };
                if none != json!([0, 0, 0]) {
                    e.bad("state", format!("after {told:?}, of nothing: {none}"));
                    return Ok(e);
                }
                continue;
            }
            let Some(ok) = settle(&mut e, "loading again", ok) else { return Ok(e) };
            if ok != json!("ok") {
                e.bad("loaded", format!("load-beanfile gives {ok}"));
            }
        }
        let err = Host::take(&s.c.host.err);
        e.detail["history"] = json!(told);
        e.detail["stderr"] = json!(err);
        // what a pod of our own has to say
        let rs = match ask(w, &at, &[req(1, "parser.directives", None), req(2, "book", None), req(3, "parser.options", None), req(4, "parser.plugins", None)])? {
            Ok(r) => r,
            Err(d) => {
                e.bad = d;
                return Ok(e);
            }
        };
        let raw = list(&rs[0]["result"]["directives"]).len();
        let unplugged = list(&rs[3]["result"]).iter().any(|p| p["module_name"] == "no.such.plugin" || short(p).contains("no.such.plugin"));
        let booked = (rs[1]["result"].is_object() && !unplugged).then(|| list(&rs[1]["result"]["directives"]));
        let p = at.to_string_lossy().to_string();
        let raw_said = if unplugged { err.lines().next().unwrap_or("").to_string() } else { format!("[limabean] {raw} directives loaded from {p}") };
        if !err.lines().any(|t| t == raw_said) || !raw_said.ends_with(&p) {
            e.bad("said", format!("{:?} rather than: {raw_said}", err.lines().next()));
        }
        let result = err.lines().find(|t| t.ends_with("directives resulting from booking and running plugins")).map(|t| t.to_string());
        let want = booked.as_ref().map(|b| format!("[limabean] {} directives resulting from booking and running plugins", b.len()));
        if result != want {
            e.bad("said", format!("{result:?} rather than {want:?}"));
        }
        match &booked {
            Some(_) => good += 1,
            None => {
                bad += 1;
                if err.lines().count() < 2 {
                    e.bad("error", "no error was printed");
                }
            }
        }
        let b = booked.unwrap_or_default();
        let got = s.json("[(count *directives*) (count (journal)) (:title *options*) (count (distinct (map :acc (journal)))) (= *registry* (:registry *beans*))]");
        let Some(got) = settle(&mut e, "queries", got) else { return Ok(e) };
        let ps: Vec<Value> = b.iter().flat_map(|d| list(&d["postings"])).collect();
        let accs: std::collections::BTreeSet<&str> = ps.iter().filter_map(|p| p["acc"].as_str()).collect();
        let equity = if got[2].is_null() { json!(null) } else { rs[2]["result"]["title"].clone() };
        let want = json!([b.len(), ps.len(), equity, accs.len(), true]);
        if got != want {
            e.bad("state", format!("after {told:?}: directives, postings, title, accounts, registry: {got}, not {want}"));
        }
        // earlier pods have ended
        let left = s.c.host.pods.borrow().iter().filter(|p| alive(p)).count();
        if left > 1 {
            e.bad("pods", format!("{left} pods are running"));
        }
        if !e.bad.is_empty() {
            return Ok(e);
        }
    }
    e.sample = json!({"ledger": r.texts[0], "history": told});
    e.nontrivial = good > 0 && good + bad > 2;
    if bad > 0 && good > 1 {
        e.hit("good and bad");
    }
    Ok(e)
}
fn alive(p: &V) -> bool {
    match p {
        V::Obj(o) => match &**o {
            Obj::Process(c) => c.borrow_mut().try_wait().is_ok_and(|x| x.is_none()),
            _ => false,
        },
        _ => false,
    }
}
fn list(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}

pub fn checks() -> Vec<Box<dyn Check>> {
    vec![
        mk("J12", 400, (1, 8), "arguments and environments of the command, with ledgers good and bad; non-trivial: more than two arguments", |c, w| inside(c, w, j12)),
        mk("J13", 150, (1, 10), "histories of edits and loads in one session; non-trivial: three loads or more, one of them good", |c, w| inside(c, w, j13)),
    ]
}
