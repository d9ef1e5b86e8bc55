//! The Clojure half, run by the interpreter of crate::clj against the real pod.
use super::common::*;
use super::meta::{extra, settled};
use super::raw::shapes;
use super::tools::{draw, gaps, lay, texts, trimmed, Cell};
use crate::ast::*;
use crate::clj::host::Host;
use crate::clj::lib;
use crate::clj::value::{items, Dec, Ex, R, V};
use crate::clj::Clj;
use crate::compare::*;
use crate::gen::{self, Profile};
use crate::genes::{Case, G};
use crate::model::*;
use crate::pod::*;
use crate::runner::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

/// evaluation needs a deep stack
pub(super) fn inside(case: &Case, w: &mut Worker, f: fn(&Case, &mut Worker) -> Result<Eval, HarnessError>) -> Result<Eval, HarnessError> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn_scoped(s, || f(case, w))
            .map_err(|e| HarnessError(e.to_string()))?
            .join()
            .unwrap_or_else(|_| Err(HarnessError("the interpreter panicked".into())))
    })
}

// ---- ledgers that load without complaint

/// the ledger without what its booking would reject
pub(super) fn accepted(mut l: Ledger) -> Option<(Ledger, Vec<Dir>, Model)> {
    for _ in 0..8 {
        let order = l.order();
        let sorted = l.sorted();
        let m = settled(&l, &sorted)?;
        if m.faults.is_empty() {
            return Some((l, sorted, m));
        }
        let gone: BTreeSet<usize> = m.faults.iter().map(|f| order[f.at.0]).collect();
        let mut at = vec![None; l.dirs.len()];
        let mut dirs = vec![];
        for (i, d) in l.dirs.drain(..).enumerate() {
            if !gone.contains(&i) {
                at[i] = Some(dirs.len());
                dirs.push(d);
            }
        }
        l.dirs = dirs;
        for f in &mut l.files {
            f.retain_mut(|it| match it {
                Item::D(i) => match at[*i] {
                    Some(k) => {
                        *i = k;
                        true
                    }
                    None => false,
                },
                _ => true,
            });
            // (a heading cannot be what a file starts with)
            while matches!(f.first(), Some(Item::Line(t)) if t.starts_with('*')) {
                f.remove(0);
            }
        }
    }
    None
}

/// AVERAGE is not supported by reports
pub(super) fn no_average(l: &mut Ledger) {
    if l.opts.booking.as_deref() == Some("AVERAGE") {
        l.opts.booking = Some("FIFO".into());
        for it in l.files.iter_mut().flatten() {
            if let Item::Line(t) = it {
                *t = t.replace("\"AVERAGE\"", "\"FIFO\"");
            }
        }
    }
    for d in &mut l.dirs {
        if let Var::Open { booking, .. } = &mut d.var {
            if booking.as_deref() == Some("AVERAGE") {
                *booking = Some("STRICT".into());
            }
        }
    }
}

// ---- sessions

pub(super) struct Session {
    pub c: Clj,
}
impl Drop for Session {
    fn drop(&mut self) {
        self.c.host.reap();
    }
}
#[derive(Debug)]
pub(super) enum Stop {
    Undecided(String),
    Thrown(String),
}
impl From<Ex> for Stop {
    fn from(e: Ex) -> Stop {
        match e {
            Ex::Undecided(m) => Stop::Undecided(m),
            e => Stop::Thrown(format!("{e:?}")),
        }
    }
}

impl Session {
    /// limabean with the beanfile loaded, as far as the given expression
    pub fn open(w: &mut Worker, dir: &Path, root: &Path, env: &[(&str, &str)], expr: &str) -> Result<Session, Stop> {
        let s = Session::bare(w, dir, env)?;
        s.c.eval_text("(require 'limabean.app)", "requiring")?;
        let e = format!("(limabean.app/run {{:beanfile {} :eval {}}})", quoted(&root.to_string_lossy()), quoted(expr));
        s.c.eval_text(&e, "running")?;
        s.c.in_ns("user");
        Ok(s)
    }
    pub fn bare(w: &mut Worker, dir: &Path, env: &[(&str, &str)]) -> Result<Session, Stop> {
        w.runs += 1;
        let mut h = Host::new(w.bin.clone(), dir.to_path_buf());
        for (k, v) in env {
            h.env.insert(k.to_string(), v.to_string());
        }
        // what a class path would have besides
        let mut roots = crate::clj::roots();
        roots.push(dir.join("src"));
        Ok(Session { c: Clj::new(roots, h)? })
    }
    pub fn eval(&self, x: &str) -> Result<V, Stop> {
        self.c.fresh_steps();
        Ok(self.c.eval_text(x, "expression")?)
    }
    pub fn json(&self, x: &str) -> Result<Value, Stop> {
        let v = self.eval(x)?;
        Ok(js(&self.c, &v)?)
    }
    /// what it prints
    pub fn shown(&self, x: &str) -> Result<String, Stop> {
        Host::take(&self.c.host.out);
        self.eval(x)?;
        Ok(Host::take(&self.c.host.out))
    }
    /// the answers of pods to requests of this method
    pub fn answers(&self, method: &str) -> Vec<(Value, Value)> {
        let mut v = vec![];
        let mut req: Option<Value> = None;
        for (sent, l) in self.c.host.talk.borrow().iter() {
            for l in l.lines().filter(|l| !l.is_empty()) {
                let Ok(x) = serde_json::from_str::<Value>(l) else { continue };
                if *sent {
                    req = (x["method"] == method).then_some(x);
                } else if let Some(r) = req.take() {
                    v.push((r, x));
                }
            }
        }
        v
    }
}

/// as a Clojure string
pub(super) fn quoted(t: &str) -> String {
    format!("\"{}\"", t.replace('\\', "\\\\").replace('"', "\\\""))
}

/// data as JSON: keywords and dates as strings, sets sorted
pub(super) fn js(c: &Clj, v: &V) -> R<Value> {
    let list = |xs: Vec<V>| -> R<Vec<Value>> { xs.iter().map(|x| js(c, x)).collect() };
    Ok(match v {
        V::Nil => Value::Null,
        V::Bool(b) => json!(b),
        V::Int(i) => json!(i),
        V::Dec(d) => serde_json::from_str(&d.plain()).unwrap_or(Value::Null),
        V::Str(t) => json!(&**t),
        V::Kw(k) => json!(&**k),
        V::Char(x) => json!(x.to_string()),
        V::Date(_) => json!(lib::string(c, v)?),
        V::Set(_) => {
            let mut x = list(items(v)?)?;
            x.sort_by_key(canon);
            Value::Array(x)
        }
        V::Vec(_) | V::List(_) | V::Lazy(_) | V::Empty => Value::Array(list(items(v)?)?),
        V::Map(m) => {
            let mut o = Map::new();
            for (k, x) in &m.v {
                let k = match k {
                    V::Str(t) => t.to_string(),
                    V::Kw(k) => k.to_string(),
                    k => lib::string(c, k)?,
                };
                o.insert(k, js(c, x)?);
            }
            Value::Object(o)
        }
        _ => json!("(not data)"),
    })
}

/// equal as data, numbers by value
pub(super) fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (Dec::parse(&x.to_string()), Dec::parse(&y.to_string())) {
            (Some(x), Some(y)) => Dec::cmp(x, y).is_ok_and(|o| o.is_eq()),
            _ => x == y,
        },
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w))),
        _ => a == b,
    }
}

// ---- filters

#[derive(Debug, Clone)]
enum F {
    /// before, not after, after, not before; as written; the date
    Date(u8, String, String),
    Between(String, String, String),
    Acc(Vec<String>),
    Sub(Vec<String>),
    Cur(String),
    Payee(&'static str),
    Narr(&'static str),
    Every(Vec<F>),
    Some(Vec<F>),
    None(Vec<F>),
}
const RES: &[&str] = &["Shop", "^X$", "(?i)SHOP", "[0-9]", "a.c", "", "cash|rent", "^$", "y$", "\\s", "o+", "%"];

impl F {
    fn text(&self) -> String {
        let strs = |v: &[String]| v.iter().map(|s| format!(" {}", quoted(s))).collect::<String>();
        let many = |n: &str, v: &[F]| format!("(f/{n}{})", v.iter().map(|f| format!(" {}", f.text())).collect::<String>());
        match self {
            F::Date(op, a, _) => format!("(f/date{} {a})", ["<", "<=", ">", ">="][*op as usize]),
            F::Between(a, ..) => format!("(f/date>=< {a})"),
            F::Acc(v) => format!("(f/acc{})", strs(v)),
            F::Sub(v) => format!("(f/sub-acc{})", strs(v)),
            F::Cur(c) => format!("(f/cur {})", quoted(c)),
            F::Payee(r) => format!("(f/payee-match #\"{r}\")"),
            F::Narr(r) => format!("(f/narration-match #\"{r}\")"),
            F::Every(v) => many("every-f", v),
            F::Some(v) => many("some-f", v),
            F::None(v) => many("none-f", v),
        }
    }
    fn selects(&self, p: &Value) -> bool {
        let field = |k: &str| p[k].as_str();
        match self {
            // (written alike, dates compare as text)
            F::Date(op, _, d) => field("date").is_some_and(|x| match op {
                0 => x < &d[..],
                1 => x <= &d[..],
                2 => x > &d[..],
                _ => x >= &d[..],
            }),
            F::Between(_, b, e) => field("date").is_some_and(|x| x >= &b[..] && x < &e[..]),
            F::Acc(v) => field("acc").is_some_and(|x| v.iter().any(|a| a == x)),
            F::Sub(v) => field("acc").is_some_and(|x| v.iter().any(|a| is_sub(a, x))),
            F::Cur(c) => field("cur") == Some(c),
            F::Payee(r) | F::Narr(r) => {
                field(if matches!(self, F::Payee(_)) { "payee" } else { "narration" }).is_some_and(|x| regex::Regex::new(r).expect("regular expression").is_match(x))
            }
            F::Every(v) => v.iter().all(|f| f.selects(p)),
            F::Some(v) => v.iter().any(|f| f.selects(p)),
            F::None(v) => !v.iter().any(|f| f.selects(p)),
        }
    }
}

struct Pool {
    dates: Vec<String>,
    accs: Vec<String>,
    curs: Vec<String>,
}
impl Pool {
    fn of(posts: &[Value], l: &Ledger) -> Pool {
        let mut dates = BTreeSet::new();
        let mut accs = BTreeSet::new();
        let mut curs = BTreeSet::new();
        for p in posts {
            dates.insert(p["date"].as_str().unwrap_or("").to_string());
            let a = p["acc"].as_str().unwrap_or("");
            accs.insert(a.to_string());
            for (i, _) in a.match_indices(':') {
                accs.insert(a[..i].to_string());
            }
            // what an account starts with need not be above it
            accs.insert(a.chars().take(a.chars().count().saturating_sub(2)).collect());
            curs.insert(p["cur"].as_str().unwrap_or("").to_string());
        }
        for d in &l.dirs {
            dates.insert(date_str(d.date));
        }
        let mut p = Pool { dates: dates.into_iter().collect(), accs: accs.into_iter().collect(), curs: curs.into_iter().collect() };
        p.accs.push("Assets:Nope".into());
        p.curs.push("NOPE".into());
        p
    }
    fn date(&self, g: &mut G) -> String {
        if self.dates.is_empty() || g.chance(10) {
            return ["2020-01-01", "1999-12-31", "2024-02-29"][g.n(3)].into();
        }
        g.pick(&self.dates).clone()
    }
    /// how many of year, month and day are written out; as written; the date meant
    fn spelled(&self, g: &mut G, parts: Option<usize>) -> (usize, String, String) {
        let d = self.date(g);
        let f: Vec<i64> = d.split('-').map(|x| x.parse().unwrap_or(1)).collect();
        let k = match parts {
            Some(k) => k,
            None => 1 + g.n(3),
        };
        match (k, g.n(3)) {
            (1, 0) => (1, format!("{}", f[0]), format!("{:04}-01-01", f[0])),
            (1, 1) => (1, quoted(&d), d),
            (1, _) => (1, format!("(java.time.LocalDate/of {} {} {})", f[0], f[1], f[2]), d),
            (2, _) => (2, format!("{} {}", f[0], f[1]), format!("{:04}-{:02}-01", f[0], f[1])),
            _ => (3, format!("{} {} {}", f[0], f[1], f[2]), d),
        }
    }
    fn filter(&self, g: &mut G, depth: usize) -> F {
        let accs = |g: &mut G| -> Vec<String> { (0..g.weighted(&[1, 12, 6, 3])).map(|_| g.pick(&self.accs).clone()).collect() };
        match g.weighted(&[5, 3, 4, 4, 4, 3, 3, depth as u32 * 2, depth as u32 * 3, depth as u32 * 3]) {
            0 => {
                let op = g.n(4) as u8;
                let (_, a, d) = self.spelled(g, None);
                F::Date(op, a, d)
            }
            1 => {
                let (k, a, b) = self.spelled(g, None);
                let (_, c, e) = self.spelled(g, Some(k));
                F::Between(format!("{a} {c}"), b, e)
            }
            2 => F::Acc(accs(g)),
            3 => F::Sub(accs(g)),
            4 => F::Cur(g.pick(&self.curs).clone()),
            5 => F::Payee(RES[g.n(RES.len())]),
            6 => F::Narr(RES[g.n(RES.len())]),
            k => {
                let v: Vec<F> = (0..g.weighted(&[1, 5, 10, 5])).map(|_| self.filter(g, depth - 1)).collect();
                match k {
                    7 => F::Every(v),
                    8 => F::Some(v),
                    _ => F::None(v),
                }
            }
        }
    }
    fn filters(&self, g: &mut G) -> Vec<F> {
        let n = g.weighted(&[4, 6, 3, 1]);
        (0..n).map(|_| self.filter(g, 2)).collect()
    }
}
fn call(f: &str, fs: &[F]) -> String {
    format!("({f}{})", fs.iter().map(|f| format!(" {}", f.text())).collect::<String>())
}
fn chosen(posts: &[Value], fs: &[F]) -> Vec<Value> {
    posts.iter().filter(|p| fs.iter().all(|f| f.selects(p))).cloned().collect()
}

// ---- what reports must say

/// the postings of booked directives, with what they have of their transaction
fn postings(booked: &Value) -> Vec<Value> {
    let mut v = vec![];
    for d in booked.as_array().into_iter().flatten().filter(|d| d["dct"] == "txn") {
        for p in d["postings"].as_array().into_iter().flatten() {
            let mut m = Map::new();
            for k in ["date", "payee", "narration"] {
                if let Some(x) = d.get(k) {
                    m.insert(k.into(), x.clone());
                }
            }
            for (k, x) in p.as_object().into_iter().flatten() {
                m.insert(k.clone(), x.clone());
            }
            v.push(Value::Object(m));
        }
    }
    v
}

fn number(v: &Value) -> R<Dec> {
    Dec::parse(&v.to_string()).map_or_else(|| Err(Ex::Undecided(format!("number {v}"))), Ok)
}

#[derive(Debug, Clone)]
struct Pos {
    units: Dec,
    cur: String,
    cost: Option<Value>,
}

/// how positions of an account are put together: by cost, or not at all when at cost
fn appends(directives: &Value, options: &Value, acc: &str) -> bool {
    let own = directives.as_array().into_iter().flatten().filter(|d| d["dct"] == "open" && d["acc"] == acc).filter_map(|d| d["booking"].as_str()).last();
    own.or(options["booking-method"].as_str()) == Some("none")
}

fn cost_cmp(a: &Option<Value>, b: &Option<Value>) -> R<std::cmp::Ordering> {
    let (a, b) = match (a, b) {
        (None, None) => return Ok(std::cmp::Ordering::Equal),
        (None, _) => return Ok(std::cmp::Ordering::Less),
        (_, None) => return Ok(std::cmp::Ordering::Greater),
        (Some(a), Some(b)) => (a, b),
    };
    let t = |v: &Value, k: &str| v[k].as_str().map(|s| s.to_string());
    let pu = Dec::cmp(number(&a["per-unit"])?, number(&b["per-unit"])?)?;
    Ok(t(a, "date").cmp(&t(b, "date")).then(t(a, "cur").cmp(&t(b, "cur"))).then(pu).then(t(a, "label").cmp(&t(b, "label"))).then(a["merge"].as_bool().cmp(&b["merge"].as_bool())))
}

fn inventory(posts: &[Value], directives: &Value, options: &Value) -> R<BTreeMap<String, Vec<Pos>>> {
    let mut m: BTreeMap<String, BTreeMap<String, Vec<Pos>>> = BTreeMap::new();
    for p in posts {
        let acc = p["acc"].as_str().unwrap_or("").to_string();
        let cur = p["cur"].as_str().unwrap_or("").to_string();
        let app = appends(directives, options, &acc);
        let v = m.entry(acc).or_default().entry(cur.clone()).or_default();
        let pos = Pos { units: number(&p["units"])?, cur, cost: p.get("cost").cloned() };
        let mut at = None;
        for (i, x) in v.iter().enumerate() {
            if cost_cmp(&x.cost, &pos.cost)?.is_eq() && !(app && pos.cost.is_some()) {
                at = Some(i);
            }
        }
        match at {
            Some(i) => v[i].units = Dec::add(v[i].units, pos.units)?,
            // without cost comes first
            None if pos.cost.is_none() => v.insert(0, pos),
            None => v.push(pos),
        }
    }
    let mut out = BTreeMap::new();
    for (acc, curs) in m {
        let app = appends(directives, options, &acc);
        let mut ps = vec![];
        for (_, mut v) in curs {
            if !app {
                let mut err = None;
                v.sort_by(|a, b| {
                    cost_cmp(&a.cost, &b.cost).unwrap_or_else(|e| {
                        err = Some(e);
                        std::cmp::Ordering::Equal
                    })
                });
                if let Some(e) = err {
                    return Err(e);
                }
            }
            ps.extend(v.into_iter().filter(|p| p.units.m != 0));
        }
        if !ps.is_empty() {
            out.insert(acc, ps);
        }
    }
    Ok(out)
}

/// `cost`: of a posting or report, less what a merged position cannot tell
fn cost_key(c: &Value) -> Value {
    let mut c = c.clone();
    if let Some(o) = c.as_object_mut() {
        o.remove("total");
    }
    c
}
fn pos_json(p: &Pos) -> Value {
    let mut m = Map::new();
    m.insert("units".into(), serde_json::from_str(&p.units.plain()).unwrap_or(Value::Null));
    m.insert("cur".into(), json!(p.cur));
    if let Some(c) = &p.cost {
        m.insert("cost".into(), cost_key(c));
    }
    Value::Object(m)
}
fn inv_json(inv: &BTreeMap<String, Vec<Pos>>) -> Value {
    Value::Object(inv.iter().map(|(a, ps)| (a.clone(), Value::Array(ps.iter().map(pos_json).collect()))).collect())
}
/// an inventory or positions as returned, without what only serves printing
fn bared(v: &Value) -> Value {
    match v {
        Value::Object(o) => {
            let mut m = Map::new();
            for (k, x) in o {
                if k == "cell/type" {
                    continue;
                }
                m.insert(k.clone(), if k == "cost" { cost_key(&bared(x)) } else { bared(x) });
            }
            Value::Object(m)
        }
        Value::Array(a) => Value::Array(a.iter().map(bared).collect()),
        v => v.clone(),
    }
}

fn journal(posts: &[Value]) -> R<Vec<(Value, Vec<(String, Dec)>)>> {
    let mut bal: BTreeMap<String, Dec> = BTreeMap::new();
    let mut v = vec![];
    for p in posts {
        let u = number(&p["units"])?;
        let b = bal.entry(p["cur"].as_str().unwrap_or("").into()).or_insert(Dec { m: 0, s: u.s });
        *b = Dec::add(*b, u)?;
        v.push((p.clone(), bal.iter().filter(|(_, d)| d.m != 0).map(|(c, d)| (c.clone(), *d)).collect()));
    }
    Ok(v)
}
const ENTRY: &[&str] = &["date", "acc", "payee", "narration", "flag", "units", "cur", "price"];
fn pick(v: &Value, keys: &[&str]) -> Value {
    Value::Object(keys.iter().filter(|k| v.get(**k).is_some_and(|x| !x.is_null())).map(|k| (k.to_string(), v[*k].clone())).collect())
}

/// currencies that most accounts hold
fn primary(inv: &BTreeMap<String, Vec<Pos>>) -> Vec<String> {
    let mut n: BTreeMap<&str, usize> = BTreeMap::new();
    for ps in inv.values() {
        for c in ps.iter().map(|p| &p.cur[..]).collect::<BTreeSet<_>>() {
            *n.entry(c).or_default() += 1;
        }
    }
    let top = n.values().max().copied().unwrap_or(0);
    n.into_iter().filter(|(_, k)| *k == top).map(|(c, _)| c.to_string()).collect()
}

// ---- what is shown

fn left(s: &str) -> Cell {
    Cell::Text(s.into(), 0)
}
fn maybe(v: &Value) -> Cell {
    v.as_str().map(left).unwrap_or(Cell::Empty)
}
fn num(d: &Dec) -> Cell {
    let t = d.to_string();
    let i = t.find('.').unwrap_or(t.len()) - 1;
    Cell::Num(t, i)
}
fn list(mut v: Vec<Cell>) -> Cell {
    match v.len() {
        0 => Cell::Empty,
        1 => v.remove(0),
        _ => Cell::Stack(v),
    }
}
fn pos_cell(p: &Pos) -> R<Cell> {
    let mut row = vec![Cell::Row(vec![num(&p.units), left(&p.cur)], " ".into())];
    if let Some(c) = &p.cost {
        row.push(Cell::Row(
            vec![maybe(&c["date"]), maybe(&c["cur"]), num(&number(&c["per-unit"])?), maybe(&c["label"]), if c["merge"] == true { left("*") } else { Cell::Empty }],
            " ".into(),
        ));
    }
    Ok(Cell::Row(row, "  ".into()))
}
fn table(v: Vec<(String, Cell)>) -> Cell {
    Cell::Stack(v.into_iter().map(|(k, c)| Cell::Row(vec![left(&k), c], "  ".into())).collect())
}
fn inv_cell(inv: &BTreeMap<String, Vec<Pos>>) -> R<Cell> {
    let mut rows = vec![];
    for (a, ps) in inv {
        rows.push((a.clone(), list(ps.iter().map(pos_cell).collect::<R<_>>()?)));
    }
    Ok(table(rows))
}
fn journal_cell(j: &[(Value, Vec<(String, Dec)>)]) -> R<Cell> {
    let mut rows = vec![];
    for (p, bal) in j {
        let bal = bal.iter().map(|(c, d)| Cell::Row(vec![Cell::Row(vec![num(d), left(c)], " ".into())], "  ".into())).collect();
        rows.push(Cell::Row(
            vec![maybe(&p["date"]), maybe(&p["acc"]), maybe(&p["payee"]), maybe(&p["narration"]), maybe(&p["flag"]), num(&number(&p["units"])?), maybe(&p["cur"]), list(bal)],
            "  ".into(),
        ));
    }
    Ok(list(rows))
}
type Rolled = BTreeMap<String, (Option<Dec>, Dec)>;
fn rolled(inv: &BTreeMap<String, Vec<Pos>>, cur: &str) -> R<Rolled> {
    let mut m: Rolled = BTreeMap::new();
    for (a, ps) in inv {
        let mut sum = Dec::int(0);
        for p in ps.iter().filter(|p| p.cur == cur) {
            sum = Dec::add(sum, p.units)?;
        }
        if sum.m == 0 {
            continue;
        }
        let ends: Vec<usize> = a.match_indices(':').map(|(i, _)| i).chain([a.len()]).collect();
        for e in ends {
            let x = m.entry(a[..e].to_string()).or_insert((None, Dec::int(0)));
            x.1 = Dec::add(x.1, sum)?;
            if e == a.len() {
                x.0 = Some(sum);
            }
        }
    }
    Ok(m)
}
fn depth(a: &str) -> usize {
    a.matches(':').count()
}
fn rollup_cell(m: &Rolled) -> R<Cell> {
    let deepest = m.iter().filter(|(_, x)| x.0.is_some()).map(|(a, _)| depth(a)).max().unwrap_or(0);
    let mut rows = vec![];
    for (a, (item, total)) in m {
        let mut row = vec![];
        let differs = match item {
            Some(i) => !Dec::cmp(*i, *total)?.is_eq(),
            None => true,
        };
        if differs {
            row.extend((0..depth(a)).map(|_| Cell::Empty));
            row.push(num(total));
        }
        if let Some(i) = item {
            while row.len() < deepest {
                row.push(Cell::Empty);
            }
            row.push(num(i));
        }
        rows.push((a.clone(), Cell::Row(row, "  ".into())));
    }
    Ok(table(rows))
}

/// whether this is the printed form of the cell; None where that is not known
fn printed(c: &Cell, got: &str) -> Option<Result<(), String>> {
    let mut t = vec![];
    texts(c, &mut t);
    if t.iter().any(|t| t.contains('E') && t.parse::<f64>().is_ok()) {
        return None;
    }
    let l = lay(&[c]);
    let want = draw(c, &l).join("\n");
    if l.spread && gaps(c, &l, false) {
        // the words at least
        let words = |s: &str| s.split_whitespace().map(|w| w.to_string()).collect::<Vec<_>>();
        return Some(if words(&want) == words(got) { Ok(()) } else { Err(want) });
    }
    Some(if trimmed(&want) == trimmed(got) { Ok(()) } else { Err(want) })
}

// ---- the checks

static PROFILES: std::sync::LazyLock<Vec<Profile>> = std::sync::LazyLock::new(|| {
    let b = Profile::base;
    let plain = || Profile { rich: 0, meta: 4, opt_booking: 20, booking: 25, preopen: (4, 10), ..b() };
    vec![
        Profile { multi: 30, prices: 20, ..plain() },
        Profile { ops: (3, 26), w: [1, 0, 30, 2, 0, 0, 0, 0, 0, 0, 0, 0], costs: 75, prices: 5, multi: 3, booking: 40, opt_booking: 30, near_tol: 2, preopen: (3, 6), ..plain() },
        Profile { w: [2, 0, 16, 14, 12, 0, 0, 0, 0, 0, 0, 0], pad_focus: true, costs: 0, rollup_focus: true, ..plain() },
        Profile { rename: 100, costs: 30, w: [3, 2, 30, 4, 3, 2, 1, 1, 1, 1, 1, 1], ..plain() },
        Profile { costs: 60, booking: 70, opt_booking: 50, elide: 40, ..plain() },
    ]
});

struct Loaded {
    s: Session,
    l: Ledger,
    m: Model,
    booked: Value,
    options: Value,
    posts: Vec<Value>,
    detail: Value,
}

/// a generated ledger, loaded by limabean; or why there is none
fn loaded(case: &Case, w: &mut Worker, e: &mut Eval, adjust: fn(&mut Ledger)) -> Result<Option<Loaded>, HarnessError> {
    let x = extra(case);
    let mut g = G::new(&x);
    let p = &PROFILES[g.n(PROFILES.len())];
    let mut l = gen::build(case, p).ledger;
    no_average(&mut l);
    adjust(&mut l);
    let Some((l, sorted, m)) = accepted(l) else {
        e.discard = Some("no settled ledger");
        return Ok(None);
    };
    let r = l.render();
    let dir = w.fresh();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    e.detail = json!({"ledger": texts_json(&l.paths, &r.texts)});
    let s = match Session::open(w, &dir, &root, &[], "nil") {
        Ok(s) => s,
        Err(Stop::Undecided(_)) => {
            e.discard = Some("undecided");
            return Ok(None);
        }
        Err(Stop::Thrown(t)) => {
            e.bad("thrown", format!("loading the ledger: {t}"));
            return Ok(None);
        }
    };
    let _ = sorted;
    let book = s.answers("book");
    let opts = s.answers("parser.options");
    let (Some((_, b)), Some((_, o))) = (book.last(), opts.last()) else {
        e.discard = Some("no booking seen");
        return Ok(None);
    };
    let booked = b["result"]["directives"].clone();
    if booked.is_null() {
        // (other checks judge whether that should have been)
        e.discard = Some("not booked");
        return Ok(None);
    }
    let posts = postings(&booked);
    let detail = e.detail.clone();
    Ok(Some(Loaded { s, l, m, booked, options: o["result"].clone(), posts, detail }))
}
/// every other directive has its costs written with more places
fn respelled(l: &mut Ledger) {
    // and some that buy at cost are there twice
    let again: Vec<usize> = (0..l.dirs.len())
        .filter(|i| i % 3 == 0)
        .filter(|i| matches!(&l.dirs[*i].var, Var::Txn { postings, .. } if postings.iter().any(|p| p.cost.as_ref().is_some_and(|c| c.per_unit.is_some()))))
        .take(4)
        .collect();
    for i in again {
        let k = l.dirs.len();
        let mut d = l.dirs[i].clone();
        longer(&mut d);
        l.dirs.push(d);
        for f in &mut l.files {
            if let Some(at) = f.iter().position(|it| matches!(it, Item::D(x) if *x == i)) {
                f.insert(at + 1, Item::D(k));
            }
        }
    }
    for d in l.dirs.iter_mut().skip(1).step_by(2) {
        longer(d);
    }
}
fn longer(d: &mut Dir) {
    {
        if let Var::Txn { postings, .. } = &mut d.var {
            for n in postings.iter_mut().filter_map(|p| p.cost.as_mut()?.per_unit.as_mut()) {
                let k = n.v.scale() + 2;
                if k <= 6 {
                    let mut v = n.v;
                    v.rescale(k);
                    *n = Num::of(v);
                }
            }
        }
    }
}

/// true to go on
pub(super) fn settle<T>(e: &mut Eval, what: &str, r: Result<T, Stop>) -> Option<T> {
    match r {
        Ok(x) => Some(x),
        Err(Stop::Undecided(m)) => {
            if std::env::var_os("LBVERIF_UNDECIDED").is_some() {
                eprintln!("undecided: {what}: {m}");
            }
            e.hit("undecided");
            if e.bad.is_empty() {
                e.discard = Some("undecided");
            }
            None
        }
        Err(Stop::Thrown(t)) => {
            e.bad("thrown", format!("{what}: {t}"));
            None
        }
    }
}
fn known<T>(e: &mut Eval, r: R<T>) -> Option<T> {
    match r {
        Ok(x) => Some(x),
        Err(_) => {
            e.discard = Some("numbers out of range");
            None
        }
    }
}

/// J01: inventories
fn j01(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut e = Eval::default();
    let Some(x) = loaded(case, w, &mut e, respelled)? else { return Ok(e) };
    let pool = Pool::of(&x.posts, &x.l);
    let genes = extra(case);
    let mut g = G::new(&genes[1..]);
    let mut asked = vec![];
    for k in 0..4 {
        let fs = if k == 0 { vec![] } else { pool.filters(&mut g) };
        let which = g.weighted(&[5, 2, 2]);
        let f = ["inventory", "balances", "income-statement"][which];
        let roots: Vec<String> = match which {
            0 => vec![],
            1 => vec!["name-assets", "name-liabilities"],
            _ => vec!["name-income", "name-expenses"],
        }
        .iter()
        .map(|k: &&str| x.options[*k].as_str().unwrap_or("?").to_string())
        .collect();
        let mut sel = chosen(&x.posts, &fs);
        if which > 0 {
            sel.retain(|p| roots.iter().any(|r| is_sub(r, p["acc"].as_str().unwrap_or(""))));
        }
        let Some(inv) = known(&mut e, inventory(&sel, &x.booked, &x.options)) else { return Ok(e) };
        let text = call(f, &fs);
        asked.push(json!(text));
        let Some(got) = settle(&mut e, &text, x.s.json(&text)) else { break };
        let want = inv_json(&inv);
        if !same(&bared(&got), &want) {
            e.bad("inventory", format!("{text} gives {}, not {}", short(&bared(&got)), short(&want)));
        }
        e.hit(f);
        if !fs.is_empty() && sel.len() != x.posts.len() && !sel.is_empty() {
            e.hit("part of the postings");
        }
        for ps in inv.values() {
            if ps.len() > 1 {
                e.hit("several positions");
            }
            if ps.iter().any(|p| p.cost.is_some()) {
                e.hit("at cost");
            }
        }
        if x.posts.iter().any(|p| appends(&x.booked, &x.options, p["acc"].as_str().unwrap_or("")) && p.get("cost").is_some()) {
            e.hit("at cost, booking none");
        }
        e.nontrivial |= !inv.is_empty();
    }
    finish(&mut e, &x, asked);
    Ok(e)
}
fn finish(e: &mut Eval, x: &Loaded, asked: Vec<Value>) {
    e.key = hash_of(&format!("{}{asked:?}", x.detail));
    e.sample = json!({"ledger": x.detail["ledger"], "asked": asked});
    e.detail = e.sample.clone();
    let _ = &x.m;
}

/// J02: journals
fn j02(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut e = Eval::default();
    let Some(x) = loaded(case, w, &mut e, respelled)? else { return Ok(e) };
    let pool = Pool::of(&x.posts, &x.l);
    let genes = extra(case);
    let mut g = G::new(&genes[1..]);
    let mut asked = vec![];
    for k in 0..4 {
        let fs = if k == 0 { vec![] } else { pool.filters(&mut g) };
        let sel = chosen(&x.posts, &fs);
        let Some(j) = known(&mut e, journal(&sel)) else { return Ok(e) };
        let text = call("journal", &fs);
        asked.push(json!(text));
        let Some(got) = settle(&mut e, &text, x.s.json(&text)) else { break };
        let rows = got.as_array().cloned().unwrap_or_default();
        if rows.len() != j.len() {
            e.bad("entries", format!("{text}: {} entries, not {}", rows.len(), j.len()));
        }
        for (i, ((p, bal), r)) in j.iter().zip(&rows).enumerate() {
            let (a, b) = (pick(r, ENTRY), pick(p, ENTRY));
            if !same(&a, &b) {
                e.bad("entry", format!("{text}: entry {i} is {}, not {}", short(&a), short(&b)));
            }
            let want = Value::Array(bal.iter().map(|(c, d)| pos_json(&Pos { units: *d, cur: c.clone(), cost: None })).collect());
            if !same(&bared(&r["bal"]), &want) {
                e.bad("bal", format!("{text}: after entry {i} the balance is {}, not {}", short(&bared(&r["bal"])), short(&want)));
            }
            if r.get("cost").is_some() {
                e.bad("entry", format!("{text}: entry {i} has a cost"));
            }
            if bal.len() > 1 {
                e.hit("several currencies");
            }
            if bal.is_empty() {
                e.hit("nothing left");
            }
        }
        if !fs.is_empty() && sel.len() != x.posts.len() && !sel.is_empty() {
            e.hit("part of the postings");
        }
        e.nontrivial |= j.len() > 1;
    }
    finish(&mut e, &x, asked);
    Ok(e)
}

/// J03: rollups, as shown
fn j03(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut e = Eval::default();
    let Some(x) = loaded(case, w, &mut e, respelled)? else { return Ok(e) };
    let pool = Pool::of(&x.posts, &x.l);
    let genes = extra(case);
    let mut g = G::new(&genes[1..]);
    let mut asked = vec![];
    for k in 0..4 {
        let mut fs = if k == 0 { vec![] } else { pool.filters(&mut g) };
        if k == 1 {
            fs.push(F::Cur(g.pick(&pool.curs).clone()));
        }
        let Some(inv) = known(&mut e, inventory(&chosen(&x.posts, &fs), &x.booked, &x.options)) else { return Ok(e) };
        let text = format!("(show (rollup {}))", call("inventory", &fs));
        asked.push(json!(text));
        let Some(got) = settle(&mut e, &text, x.s.shown(&text)) else { break };
        let mut first = None;
        let mut ok = false;
        let curs = primary(&inv);
        for c in if curs.is_empty() { vec![String::new()] } else { curs.clone() } {
            let Some(m) = known(&mut e, rolled(&inv, &c)) else { return Ok(e) };
            let Some(cell) = known(&mut e, rollup_cell(&m)) else { return Ok(e) };
            match printed(&cell, &got) {
                None | Some(Ok(())) => ok = true,
                Some(Err(t)) => {
                    first.get_or_insert(t);
                }
            }
            if m.values().any(|v| v.0.is_none()) {
                e.hit("above other accounts");
            }
            if m.iter().any(|(a, v)| v.0.is_some() && m.keys().any(|b| b != a && is_sub(a, b))) {
                e.hit("holding and above");
            }
            e.nontrivial |= m.len() > 2;
        }
        if !ok {
            e.bad("rollup", format!("{text} shows\n{got}\nnot\n{}", first.unwrap_or_default()));
        }
        if curs.len() > 1 {
            e.hit("tied");
        }
        if inv.is_empty() {
            e.hit("nothing held");
        }
    }
    finish(&mut e, &x, asked);
    Ok(e)
}

/// J04: filters, over postings and over directives
fn j04(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut e = Eval::default();
    let Some(x) = loaded(case, w, &mut e, |l| {
        // payees and narrations worth matching
        for (i, d) in l.dirs.iter_mut().enumerate() {
            if let Var::Txn { payee, narration, .. } = &mut d.var {
                match i % 5 {
                    0 => *payee = Some("".into()),
                    1 => *narration = Some("abc 17".into()),
                    _ => {}
                }
                // a payee comes with a narration
                if payee.is_some() && narration.is_none() {
                    *narration = Some("X".into());
                }
            }
        }
    })?
    else {
        return Ok(e);
    };
    let pool = Pool::of(&x.posts, &x.l);
    let genes = extra(case);
    let mut g = G::new(&genes[1..]);
    let mut asked = vec![];
    let all = Value::Array(x.posts.clone());
    let dirs = x.booked.as_array().cloned().unwrap_or_default();
    for _ in 0..7 {
        let f = pool.filter(&mut g, 2);
        let of_dirs = g.chance(40);
        let list: &[Value] = if of_dirs { &dirs } else { x.posts.as_slice() };
        let src = if of_dirs { "*directives*" } else { "(journal)" };
        let text = format!("(let [f {}] (vec (keep-indexed (fn [i x] (when (f x) i)) {src})))", f.text());
        asked.push(json!(text));
        let Some(got) = settle(&mut e, &text, x.s.json(&text)) else { break };
        let want: Vec<usize> = (0..list.len()).filter(|i| f.selects(&list[*i])).collect();
        if got != json!(want) {
            e.bad("filter", format!("{text} selects {}, not {want:?}", short(&got)));
        }
        e.hit(match &f {
            F::Date(..) => "date",
            F::Between(..) => "dates between",
            F::Acc(_) => "acc",
            F::Sub(_) => "sub-acc",
            F::Cur(_) => "cur",
            F::Payee(_) => "payee",
            F::Narr(_) => "narration",
            F::Every(_) => "every",
            F::Some(_) => "some",
            F::None(_) => "none",
        });
        if !want.is_empty() && want.len() < list.len() {
            e.hit("some selected");
            e.nontrivial = true;
        }
    }
    let _ = all;
    finish(&mut e, &x, asked);
    Ok(e)
}

/// J05: what is shown
fn j05(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut e = Eval::default();
    let Some(x) = loaded(case, w, &mut e, respelled)? else { return Ok(e) };
    let pool = Pool::of(&x.posts, &x.l);
    let genes = extra(case);
    let mut g = G::new(&genes[1..]);
    let mut asked = vec![];
    for _ in 0..4 {
        let fs = pool.filters(&mut g);
        let sel = chosen(&x.posts, &fs);
        let (text, cell) = match g.n(3) {
            0 => (call("inventory", &fs), inventory(&sel, &x.booked, &x.options).and_then(|i| inv_cell(&i))),
            1 => (call("journal", &fs), journal(&sel).and_then(|j| journal_cell(&j))),
            _ => {
                let k = kind(&mut g, 2);
                let (t, c) = data(&mut g, k, 3, true);
                (t, Ok(c))
            }
        };
        let text = format!("(show {text})");
        let Some(cell) = known(&mut e, cell) else { return Ok(e) };
        asked.push(json!(text));
        let Some(got) = settle(&mut e, &text, x.s.shown(&text)) else { break };
        match printed(&cell, &got) {
            None => e.hit("not judged"),
            Some(Ok(())) => {}
            Some(Err(want)) => e.bad("shown", format!("{text} shows\n{got}\nnot\n{want}")),
        }
        e.hit(["inventory", "journal", "data"][if text.starts_with("(show (inv") { 0 } else if text.starts_with("(show (jou") { 1 } else { 2 }]);
        e.nontrivial |= got.lines().count() > 2;
    }
    finish(&mut e, &x, asked);
    Ok(e)
}

/// what may stand in a column: texts, numbers, or rows
#[derive(Clone, Copy)]
enum Kind {
    Text,
    Num,
    Map(u8),
}
fn kind(g: &mut G, deep: u8) -> Kind {
    match g.weighted(&[3, 3, if deep > 0 { 4 } else { 0 }]) {
        0 => Kind::Text,
        1 => Kind::Num,
        _ => Kind::Map(deep),
    }
}
/// plain data and the cell it is shown as
fn data(g: &mut G, k: Kind, deep: u8, nil: bool) -> (String, Cell) {
    const WORDS: &[&str] = &["a", "two words", "", "é", "x:y", "0.5", "q\"uote", "back\\slash"];
    const KEYS: &[&str] = &["aa", "b", "key-1", "zz", "acc", "Z"];
    if deep > 0 && g.chance(30) {
        let v: Vec<(String, Cell)> = (0..1 + g.n(4)).map(|_| data(g, k, deep - 1, false)).collect();
        let t = v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" ");
        let t = if g.chance(30) { format!("(list {t})") } else { format!("[{t}]") };
        return (t, list(v.into_iter().map(|x| x.1).collect()));
    }
    if g.chance(6) && nil {
        return ("nil".into(), Cell::Empty);
    }
    match k {
        Kind::Num => {
            let (t, v) = *g.pick(&[("5", "5"), ("-12.50M", "-12.50"), ("0.001M", "0.001"), ("100M", "100"), ("-7", "-7"), ("1234567.89M", "1234567.89")]);
            (t.into(), num(&Dec::parse(v).expect("number")))
        }
        Kind::Text => match g.weighted(&[5, 2, 1, 1, 1]) {
            0 => {
                let w = *g.pick(WORDS);
                (quoted(w), left(w))
            }
            1 => {
                let k = *g.pick(KEYS);
                (format!(":{k}"), left(&format!(":{k}")))
            }
            2 => {
                let b = g.chance(50);
                (b.to_string(), left(&b.to_string()))
            }
            3 => {
                let (y, m, d) = (2000 + g.n(40), 1 + g.n(12), 1 + g.n(28));
                (format!("(java.time.LocalDate/of {y} {m} {d})"), left(&format!("{y:04}-{m:02}-{d:02}")))
            }
            _ => {
                let mut ks: Vec<&str> = (0..1 + g.n(4)).map(|_| *g.pick(KEYS)).collect();
                ks.sort();
                ks.dedup();
                let t = ks.iter().rev().map(|k| quoted(k)).collect::<Vec<_>>().join(" ");
                (format!("#{{{t}}}"), list(ks.into_iter().map(left).collect()))
            }
        },
        Kind::Map(d) => {
            let kw = g.chance(50);
            let mut ks: Vec<&str> = (0..1 + g.n(4)).map(|_| *g.pick(KEYS)).collect();
            let mut seen = BTreeSet::new();
            ks.retain(|k| seen.insert(*k));
            // the values of all maps in a column are in one column
            let inner = if d > 1 { Kind::Map(d - 1) } else if d % 2 == 1 { Kind::Num } else { Kind::Text };
            let mut v: Vec<(&str, (String, Cell))> = ks.into_iter().map(|k| (k, data(g, inner, deep.saturating_sub(1), true))).collect();
            let name = |k: &str| if kw { format!(":{k}") } else { quoted(k) };
            let t = v.iter().map(|(k, x)| format!("{} {}", name(k), x.0)).collect::<Vec<_>>().join(", ");
            v.sort_by_key(|x| x.0);
            (format!("{{{t}}}"), table(v.into_iter().map(|(k, x)| (if kw { format!(":{k}") } else { k.to_string() }, x.1)).collect()))
        }
    }
}

// ---- directives as text

/// parsed directives less what their text need not tell
pub(super) fn parsed(v: &Value) -> Value {
    match v {
        Value::Object(o) => {
            let mut m = Map::new();
            for (k, x) in o {
                let mut x = parsed(x);
                match &k[..] {
                    "span" => continue,
                    "tags" | "links" | "currencies" => {
                        if let Some(a) = x.as_array_mut() {
                            a.sort_by_key(canon);
                        }
                    }
                    // only one of these is printed
                    "cost-spec" | "price-spec" => {
                        if let Some(c) = x.as_object_mut() {
                            if c.contains_key("per-unit") {
                                c.remove("total");
                            }
                        }
                    }
                    _ => {}
                }
                m.insert(k.clone(), x);
            }
            Value::Object(m)
        }
        Value::Array(a) => Value::Array(a.iter().map(parsed).collect()),
        v => v.clone(),
    }
}

/// J06: directives printed and read again
fn j06(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut e = Eval::default();
    let x = extra(case);
    let mut g = G::new(&x);
    let ps = &super::book::PROFILES.c13;
    let mut l = gen::build(case, &ps[g.n(ps.len())]).ledger;
    for f in &mut l.files {
        f.retain(|it| !matches!(it, Item::Line(t) if t.starts_with("plugin ")));
    }
    // the smallest numbers too
    for (i, d) in l.dirs.iter_mut().enumerate().skip(2).step_by(3) {
        let tiny = |n: &mut Num| *n = Num::of(rust_decimal::Decimal::new(3 * i as i64 + 1, 6 + (i % 5) as u32));
        match &mut d.var {
            Var::Txn { postings, .. } => {
                if let Some(p) = postings.first_mut() {
                    p.units.iter_mut().chain(p.cost.iter_mut().filter_map(|c| c.per_unit.as_mut())).chain(p.price.iter_mut().filter_map(|c| c.total.as_mut())).for_each(tiny);
                }
            }
            Var::Price { per_unit, .. } => tiny(per_unit),
            Var::Balance { units, tol, .. } => {
                tiny(units);
                tol.iter_mut().for_each(tiny);
            }
            Var::Custom { values, .. } => values.iter_mut().for_each(|v| {
                if let Mv::Num(n) | Mv::Amount(n, _) = v {
                    tiny(n)
                }
            }),
            _ => {}
        }
    }
    let r = l.render();
    let dir = w.fresh();
    let root = write_ledger(&dir, &l.paths, &r.texts)?;
    e.detail = json!({"ledger": texts_json(&l.paths, &r.texts)});
    e.key = hash_of(&r.texts);
    let s = Session::open(w, &dir, &root, &[], "nil");
    let Some(s) = settle(&mut e, "loading the ledger", s) else { return Ok(e) };
    let t = s.shown("(print (pr-str (:raw-directives *beans*)))");
    let Some(t) = settle(&mut e, "printing directives", t) else { return Ok(e) };
    let first = s.answers("parser.directives");
    let Some((_, first)) = first.last() else {
        e.discard = Some("no directives seen");
        return Ok(e);
    };
    let first = parsed(&first["result"]["directives"]);
    let Some(a) = first.as_array() else {
        e.discard = Some("not parsed");
        return Ok(e);
    };
    e.nontrivial = shapes(&mut e, &l.sorted()) > 3;
    e.sample = json!({"printed": t});
    e.detail["printed"] = json!(t);
    // how names are read depends on options
    let text = format!("{}\n{t}", l.opts.lines().into_iter().filter(|x| !x.starts_with("plugin ")).collect::<Vec<_>>().join("\n"));
    let again = dir.join("again.beancount");
    std::fs::write(&again, text).map_err(|e| HarnessError(e.to_string()))?;
    match ask(w, &again, &[req(1, "parser.directives", None)])? {
        Err(d) => e.bad = d,
        Ok(v) if v[0]["error"].is_object() => e.bad("reread", format!("printed directives are not read: {}", short(&v[0]["error"]["data"]))),
        Ok(v) => {
            let second = parsed(&v[0]["result"]["directives"]);
            let b = second.as_array().cloned().unwrap_or_default();
            if a.len() != b.len() {
                e.bad("reread-count", format!("{} directives read back, not {}", b.len(), a.len()));
            }
            if let Some((x, y)) = a.iter().zip(&b).find(|(x, y)| !same(x, y)) {
                e.bad("reread-as", format!("{} is read back as {}", short(x), short(y)));
            }
        }
    }
    Ok(e)
}

type CaseFn = fn(&Case, &mut Worker) -> Result<Eval, HarnessError>;
pub(super) fn mk(id: &'static str, quick: usize, ops: (usize, usize), rule: &'static str, f: CaseFn) -> Box<dyn Check> {
    Box::new(FnCheck {
        id,
        rule,
        cfg: 256,
        ops,
        genes: 56,
        quick,
        f,
        fixed: no_fixed,
        assumptions: &["the Clojure sources are run by the interpreter in harness/src/clj, written for this purpose, as there is no Clojure here; what it does not know leaves a case undecided"],
    })
}

pub fn checks() -> Vec<Box<dyn Check>> {
    vec![
        mk("J01", 700, (1, 24), "ledgers loaded by limabean, four inventories, balances and income statements each, with generated filters; non-trivial: an inventory that is not empty", |c, w| inside(c, w, j01)),
        mk("J02", 700, (1, 24), "ledgers loaded by limabean, four journals each, with generated filters; non-trivial: a journal of several entries", |c, w| inside(c, w, j02)),
        mk("J03", 700, (1, 24), "ledgers loaded by limabean, four rollups each of inventories with generated filters; non-trivial: a rollup of more than two accounts", |c, w| inside(c, w, j03)),
        mk("J04", 700, (1, 24), "ledgers loaded by limabean, seven generated filters each, over postings or directives; non-trivial: a filter that selects some but not all", |c, w| inside(c, w, j04)),
        mk("J05", 700, (1, 20), "ledgers loaded by limabean, four inventories, journals or other data each, shown; non-trivial: more than two lines", |c, w| inside(c, w, j05)),
        mk("J06", 700, (1, 24), "ledgers of all kinds of directives loaded by limabean, printed and parsed again; non-trivial: more than three kinds of parts", |c, w| inside(c, w, j06)),
    ]
}
