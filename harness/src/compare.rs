//! Differences between what the pod answered and what the model says, each put in a class.
use crate::ast::*;
use crate::model::*;
use serde_json::Value;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Disc {
    pub class: String,
    pub msg: String,
    /// the directive it is about
    pub at: Option<usize>,
}
impl Disc {
    pub fn at(mut self, i: usize) -> Disc {
        self.at = Some(i);
        self
    }
}
pub fn disc(class: impl Into<String>, msg: impl Into<String>) -> Disc {
    Disc { class: class.into(), msg: msg.into(), at: None }
}

/// sets in any order; spans are looked at on their own
pub fn normalise(v: &mut Value) {
    normalise_but(v, false)
}
pub fn normalise_but(v: &mut Value, spans: bool) {
    match v {
        Value::Object(m) => {
            if !spans {
                m.shift_remove("span");
            }
            for (k, x) in m.iter_mut() {
                if matches!(k.as_str(), "tags" | "links" | "currencies" | "documents" | "operating-currency") {
                    if let Value::Array(a) = x {
                        a.sort_by_key(|e| e.to_string());
                    }
                }
                // metadata keys are the ledger's own: below them nothing is named by us
                if k == "metadata" {
                    continue;
                }
                if spans && k == "reason" {
                    if let Value::String(s) = x {
                        *s = norm_reason(s);
                    }
                }
                normalise_but(x, spans);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| normalise_but(x, spans)),
        // zero has no sign
        Value::Number(n) => {
            let t = n.to_string();
            if t.starts_with('-') && t.bytes().all(|b| matches!(b, b'-' | b'0' | b'.')) {
                *v = serde_json::from_str(&t[1..]).unwrap();
            }
        }
        _ => {}
    }
}

/// a whole response: with its spans, and reasons that list things in any order put in one
pub fn norm_resp(v: &Value) -> Value {
    let mut v = v.clone();
    normalise_but(&mut v, true);
    v
}
pub fn norm(v: &Value) -> Value {
    let mut v = v.clone();
    normalise(&mut v);
    v
}

pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 1500 {
        let mut k = 1500;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}…", &s[..k])
    } else {
        s
    }
}

pub fn reason_class(reason: &str, kind: &str) -> &'static str {
    let r = reason;
    if r.starts_with("account already opened") || r == "account was already closed" {
        "open"
    } else if r == "account not open" || r == "account was closed" {
        if kind == "open" || kind == "close" {
            "open"
        } else {
            "acct"
        }
    } else if r.starts_with("currency incompatible") {
        "cur"
    } else if r.starts_with("accumulated") {
        "bal"
    } else if r.starts_with("unused") {
        "pad"
    } else if r.starts_with("unbalanced transaction") {
        "unbal"
    } else if r.starts_with("not enough lots")
        || r.starts_with("no position matches")
        || r.starts_with("ambiguous matches")
        || r.starts_with("multiple currencies in cost")
    {
        "lot"
    } else {
        "interp"
    }
}

fn diff_fields(e: &Value, g: &Value, class: &str, fields: &[&str], at: &str, out: &mut Vec<Disc>) {
    for f in fields {
        if e.get(f) != g.get(f) {
            out.push(disc(
                class,
                format!(
                    "{at}: {f} is {} instead of {}",
                    g.get(f).map(short).unwrap_or("absent".into()),
                    e.get(f).map(short).unwrap_or("absent".into())
                ),
            ));
        }
    }
}

pub fn diff_booked(exp: &[Booked], got: &Value) -> Vec<Disc> {
    let mut out = vec![];
    let Some(got) = got.as_array() else { return vec![disc("proto", "directives is not a list")] };
    if got.len() != exp.len() {
        out.push(disc("count", format!("{} booked directives instead of {}", got.len(), exp.len())));
    }
    for (e, g) in exp.iter().zip(got) {
        let ej = norm(&e.json);
        let gj = norm(g);
        if ej == gj {
            continue;
        }
        let at = format!("directive {} ({})", e.idx, e.kind);
        let n0 = out.len();
        if ej.get("idx") != gj.get("idx") || ej.get("dct") != gj.get("dct") {
            out.push(disc("order", format!("{at}: got {} instead of {}", short(&gj), short(&ej))));
            if out.len() > 20 {
                break;
            }
            continue;
        }
        if e.kind != "txn" {
            out.push(disc(
                if matches!(e.kind, "balance" | "pad") { "pass-bp" } else { "pass" },
                format!("{at}: got {} instead of {}", short(&gj), short(&ej)),
            ));
            continue;
        }
        if e.pad_fill {
            // however many zeros the amounts end in
            let plain = |v: &Value| {
                let mut v = v.clone();
                for p in v["postings"].as_array_mut().into_iter().flatten() {
                    if let Some(u) = p.get_mut("units") {
                        *u = Value::from(plain_number(&u.to_string()));
                    }
                }
                v
            };
            if plain(&ej) == plain(&gj) {
                continue;
            }
            out.push(disc("pad-txn", format!("{at}: got {} instead of {}", short(&gj), short(&ej))));
            continue;
        }
        diff_fields(
            &ej,
            &gj,
            "txn-head",
            &["date", "tags", "links", "metadata", "flag", "payee", "narration"],
            &at,
            &mut out,
        );
        let empty = vec![];
        let ep = ej["postings"].as_array().unwrap_or(&empty);
        let gp = gj["postings"].as_array().unwrap_or(&empty);
        if ep.len() != gp.len() {
            let cost = ep.iter().any(|p| p.get("cost").is_some());
            out.push(disc(
                if cost { "txn-lots" } else { "txn-posts" },
                format!("{at}: got postings {} instead of {}", short(&gj["postings"]), short(&ej["postings"])),
            ));
        } else {
            for (i, (a, b)) in ep.iter().zip(gp).enumerate() {
                let at = format!("{at} posting {i}");
                diff_fields(a, b, "txn-posts", &["idx", "acc", "flag", "tags", "links", "metadata"], &at, &mut out);
                diff_fields(
                    a,
                    b,
                    if a.get("cost").is_some() { "txn-lots" } else { "txn-units" },
                    &["units", "cur"],
                    &at,
                    &mut out,
                );
                diff_fields(a, b, "txn-cost", &["cost"], &at, &mut out);
                diff_fields(a, b, "txn-price", &["price"], &at, &mut out);
            }
        }
        if out.len() == n0 {
            out.push(disc("txn-head", format!("{at}: got {} instead of {}", short(&gj), short(&ej))));
        }
        for d in &mut out[n0..] {
            d.at = Some(e.idx);
        }
    }
    out
}

#[derive(Clone, Debug)]
pub struct GotFault {
    pub at: El,
    pub reason: String,
    pub related: Vec<El>,
    pub annotation: Option<String>,
}

fn el_of(v: &Value) -> Option<El> {
    let a = v.as_array()?;
    let d = a.first()?.as_u64()? as usize;
    Some((d, a.get(1).and_then(|x| x.as_u64()).map(|x| x as usize)))
}

/// reports of error code 3
pub fn indexed_faults(data: &Value) -> Result<Vec<GotFault>, String> {
    let mut v = vec![];
    for r in data.as_array().ok_or("data is not a list")? {
        let at = el_of(&r["idx"]).ok_or(format!("bad idx in {}", short(r)))?;
        let mut related = vec![];
        if let Some(rs) = r.get("related") {
            for x in rs.as_array().ok_or("bad related")? {
                related.push(el_of(x).ok_or("bad related idx")?);
            }
        }
        v.push(GotFault {
            at,
            reason: r["reason"].as_str().ok_or("no reason")?.to_string(),
            related,
            annotation: r.get("annotation").and_then(|a| a.as_str()).map(|s| s.to_string()),
        });
    }
    Ok(v)
}

/// where each span is, from the parser's own response
pub struct SpanMap(pub HashMap<(u64, u64, u64), El>);
pub fn span3(v: &Value) -> Option<(u64, u64, u64)> {
    let a = v.as_array()?;
    if a.len() != 3 {
        return None;
    }
    Some((a[0].as_u64()?, a[1].as_u64()?, a[2].as_u64()?))
}
impl SpanMap {
    pub fn of(dirs: &Value) -> SpanMap {
        let mut m = HashMap::new();
        for (i, d) in dirs.as_array().into_iter().flatten().enumerate() {
            if let Some(s) = span3(&d["span"]) {
                m.insert(s, (i, None));
            }
            for (j, p) in d.get("postings").and_then(|p| p.as_array()).into_iter().flatten().enumerate() {
                if let Some(s) = span3(&p["span"]) {
                    m.insert(s, (i, Some(j)));
                }
            }
        }
        SpanMap(m)
    }
    fn el(&self, v: &Value) -> Result<El, Disc> {
        span3(v)
            .and_then(|s| self.0.get(&s).copied())
            .ok_or_else(|| disc("fault-span", format!("span {} is not that of any directive or posting", short(v))))
    }
}

/// reports of error code 2, for the ledger's own directives
pub fn span_faults(data: &Value, sm: &SpanMap, dirs: &[Dir]) -> (Vec<GotFault>, Vec<Disc>) {
    let mut v = vec![];
    let mut out = vec![];
    let Some(rs) = data.as_array() else { return (v, vec![disc("proto", "data is not a list")]) };
    let kind = |e: &El| -> &'static str {
        if e.1.is_some() {
            "posting"
        } else {
            dirs.get(e.0).map(|d| d.report_kind()).unwrap_or("?")
        }
    };
    for r in rs {
        let at = match sm.el(&r["span"]) {
            Ok(e) => e,
            Err(d) => {
                out.push(d);
                continue;
            }
        };
        let want = format!("invalid {}", kind(&at));
        if r["message"].as_str() != Some(&want) {
            out.push(disc("fault-msg", format!("message {} instead of {want:?}", r["message"])));
        }
        let ctx = r.get("contexts").and_then(|c| c.as_array()).cloned().unwrap_or_default();
        if at.1.is_some() {
            let ok = ctx.len() == 1
                && ctx[0][0].as_str() == Some(kind(&(at.0, None)))
                && sm.el(&ctx[0][1]).ok() == Some((at.0, None));
            if !ok {
                out.push(disc("fault-context", format!("context of a posting is {}", short(&r["contexts"]))));
            }
        } else if !ctx.is_empty() {
            out.push(disc("fault-context", format!("context {} for a directive", short(&r["contexts"]))));
        }
        let mut related = vec![];
        for x in r.get("related").and_then(|c| c.as_array()).into_iter().flatten() {
            match sm.el(&x[1]) {
                Ok(e) => {
                    if x[0].as_str() != Some(kind(&e)) {
                        out.push(disc("fault-related", format!("label {} for a {}", x[0], kind(&e))));
                    }
                    related.push(e)
                }
                Err(d) => out.push(d),
            }
        }
        v.push(GotFault {
            at,
            reason: r["reason"].as_str().unwrap_or("").to_string(),
            related,
            annotation: r.get("annotation").and_then(|a| a.as_str()).map(|s| s.to_string()),
        });
    }
    (v, out)
}

fn ann_ok(e: &Option<Vec<String>>, g: &Option<String>) -> bool {
    match (e, g) {
        (None, None) => true,
        (Some(e), Some(g)) => {
            let gl: Vec<String> = g.lines().map(collapse).filter(|l| !l.is_empty()).collect();
            // a description may itself have line ends
            gl == *e || (gl.len() != e.len() && collapse(g) == collapse(&e.join(" ")))
        }
        _ => false,
    }
}

fn split_bal(r: &str) -> Option<(String, String)> {
    let (a, m) = r.strip_prefix("accumulated ")?.split_once(", error ")?;
    Some((plain_number(a), plain_number(m)))
}

/// the number that the text begins with without zeros at its end: how many there are depends on
/// the order in which numbers were added, which nothing promises
fn plain_number(t: &str) -> String {
    let (n, rest) = t.split_once(' ').unwrap_or((t, ""));
    match n.parse::<rust_decimal::Decimal>() {
        Ok(d) => format!("{} {rest}", d.normalize()),
        Err(_) => t.to_string(),
    }
}

pub fn diff_faults(exp: &[Fault], got: &[GotFault], dirs: &[Dir]) -> Vec<Disc> {
    let mut out = vec![];
    let kind = |e: &El| dirs.get(e.0).map(|d| d.kind()).unwrap_or("?");
    let mut e: Vec<&Fault> = exp.iter().collect();
    let mut g: Vec<&GotFault> = got.iter().collect();
    let reason_ok = |f: &Fault, g: &GotFault| {
        let got = norm_reason(&g.reason);
        f.reasons.iter().any(|r| *r == got || split_bal(r).is_some_and(|r| Some(r) == split_bal(&got)))
    };
    let full = |f: &Fault, x: &GotFault| {
        f.at == x.at && reason_ok(f, x) && f.related == x.related && ann_ok(&f.annotation, &x.annotation)
    };
    let mut take = |pred: &dyn Fn(&Fault, &GotFault) -> bool, say: &mut dyn FnMut(&Fault, &GotFault)| {
        let mut i = 0;
        while i < e.len() {
            if let Some(j) = g.iter().position(|x| pred(e[i], x)) {
                say(e[i], g[j]);
                e.remove(i);
                g.remove(j);
            } else {
                i += 1;
            }
        }
    };
    take(&full, &mut |_, _| {});
    take(&|f, x| f.at == x.at && reason_ok(f, x), &mut |f, x| {
        if f.related != x.related {
            out.push(disc(
                format!("related:{}", reason_class(&x.reason, kind(&x.at))),
                format!("{:?} {:?}: related {:?} instead of {:?}", x.at, x.reason, x.related, f.related),
            ).at(x.at.0));
        } else {
            out.push(disc(
                "annot",
                format!("{:?} {:?}: annotation {:?} instead of {:?}", x.at, x.reason, x.annotation, f.annotation),
            ).at(x.at.0));
        }
    });
    take(
        &|f, x| f.at == x.at && split_bal(&f.reasons[0]).is_some() && split_bal(&x.reason).is_some(),
        &mut |f, x| {
            let (ea, em) = split_bal(&f.reasons[0]).unwrap();
            let (ga, gm) = split_bal(&x.reason).unwrap();
            if em != gm {
                out.push(disc("bal-margin", format!("{:?}: {:?} instead of {:?}", x.at, x.reason, f.reasons[0])).at(x.at.0));
            }
            if ea != ga {
                out.push(disc("annot", format!("{:?}: {:?} instead of {:?}", x.at, x.reason, f.reasons[0])).at(x.at.0));
            }
        },
    );
    take(&|f, x| reason_ok(f, x), &mut |f, x| {
        out.push(disc(
            format!("loc:{}", reason_class(&x.reason, kind(&f.at))),
            format!("{:?} reported at {:?} instead of {:?}", x.reason, x.at, f.at),
        ).at(f.at.0));
    });
    for f in e {
        out.push(disc(
            format!("missing:{}", reason_class(&f.reasons[0], kind(&f.at))),
            format!("no report of {:?} {:?} ({})", f.at, f.reasons, kind(&f.at)),
        ).at(f.at.0));
    }
    for x in g {
        out.push(disc(
            format!("extra:{}", reason_class(&x.reason, kind(&x.at))),
            format!("report of {:?} {:?} ({})", x.at, x.reason, kind(&x.at)),
        ).at(x.at.0));
    }
    out
}

/// the raw directives response
pub fn diff_raw(dirs: &[Dir], got: &Value) -> Vec<Disc> {
    let mut out = vec![];
    let Some(got) = got.as_array() else { return vec![disc("proto", "directives is not a list")] };
    if got.len() != dirs.len() {
        out.push(disc("raw-count", format!("{} directives instead of {}", got.len(), dirs.len())));
    }
    let exp: Vec<Value> = dirs.iter().map(|d| norm(&d.json())).collect();
    let gotn: Vec<Value> = got.iter().map(norm).collect();
    // the same directives in another order is a matter of order
    let mut es: Vec<String> = exp.iter().map(canon).collect();
    let mut gs: Vec<String> = gotn.iter().map(canon).collect();
    let same_in_place = es == gs;
    if !same_in_place {
        es.sort();
        gs.sort();
        if es == gs {
            let i = exp.iter().zip(&gotn).position(|(a, b)| a != b).unwrap_or(0);
            out.push(disc(
                "raw-order",
                format!("directive {i} is {} instead of {}", short(&gotn[i]), short(&exp[i])),
            ));
            return out;
        }
    }
    for (i, (e, g)) in exp.iter().zip(&gotn).enumerate() {
        if e != g {
            out.push(disc("raw", format!("directive {i}: got {} instead of {}", short(g), short(e))));
            if out.len() > 5 {
                break;
            }
        }
    }
    out
}

/// text with keys sorted
pub fn canon(v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            ks.sort();
            let s: Vec<String> = ks.iter().map(|k| format!("{:?}:{}", k, canon(&m[*k]))).collect();
            format!("{{{}}}", s.join(","))
        }
        Value::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        v => v.to_string(),
    }
}
