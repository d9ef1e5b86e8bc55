//! The reference model: what booking a list of directives must give.
//! Written from the documentation and properties; lot matching and interpolation within one
//! transaction are decided by the (external, pinned) limabean-booking crate called directly.
use crate::ast::*;
use limabean_booking as lb;
use rust_decimal::Decimal;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use time::Date;

#[derive(Clone, Debug)]
pub struct BT;
impl lb::BookingTypes for BT {
    type Account = String;
    type Date = Date;
    type Currency = String;
    type Number = Decimal;
    type Label = String;
}
impl lb::PostingSpec for Posting {
    type Types = BT;
    type CostSpec = CostSpec;
    type PriceSpec = PriceSpec;
    fn account(&self) -> String {
        self.acc.clone()
    }
    fn units(&self) -> Option<Decimal> {
        self.units.as_ref().map(|n| n.v)
    }
    fn currency(&self) -> Option<String> {
        self.cur.clone()
    }
    fn cost(&self) -> Option<&CostSpec> {
        self.cost.as_ref()
    }
    fn price(&self) -> Option<&PriceSpec> {
        self.price.as_ref()
    }
}
impl lb::CostSpec for CostSpec {
    type Types = BT;
    fn date(&self) -> Option<Date> {
        self.date
    }
    fn per_unit(&self) -> Option<Decimal> {
        self.per_unit.as_ref().map(|n| n.v)
    }
    fn total(&self) -> Option<Decimal> {
        self.total.as_ref().map(|n| n.v)
    }
    fn currency(&self) -> Option<String> {
        self.cur.clone()
    }
    fn label(&self) -> Option<String> {
        self.label.clone()
    }
    fn merge(&self) -> bool {
        self.merge
    }
}
impl lb::PriceSpec for PriceSpec {
    type Types = BT;
    fn per_unit(&self) -> Option<Decimal> {
        self.per_unit.as_ref().map(|n| n.v)
    }
    fn total(&self) -> Option<Decimal> {
        self.total.as_ref().map(|n| n.v)
    }
    fn currency(&self) -> Option<String> {
        self.cur.clone()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Tol {
    pub default: HashMap<String, Decimal>,
    pub fallback: Option<Decimal>,
    pub mult: Option<Decimal>,
}
impl lb::Tolerance for Tol {
    type Types = BT;
    fn inferred_tolerance_default(&self, cur: &String) -> Option<Decimal> {
        self.default.get(cur).copied().or(self.fallback)
    }
    fn inferred_tolerance_multiplier(&self) -> Option<Decimal> {
        self.mult
    }
}

pub type Pos = lb::Positions<BT>;
/// directive and posting index
pub type El = (usize, Option<usize>);

#[derive(Clone, Debug)]
pub struct Fault {
    pub at: El,
    /// any of these (more than one only where the booking crate itself is not deterministic)
    pub reasons: Vec<String>,
    pub related: Vec<El>,
    pub annotation: Option<Vec<String>>, // lines, white space collapsed
    pub class: &'static str,
}

#[derive(Clone, Debug)]
pub struct BPost {
    pub acc: String,
    pub units: Decimal,
    pub cur: String,
    pub cost: bool,
}

#[derive(Clone, Debug)]
pub struct Booked {
    pub json: Value,
    pub idx: usize,
    pub kind: &'static str,
    pub pad_fill: bool,
    pub date: Date,
    pub posts: Vec<BPost>,
    pub desc: Option<String>,
    pub bal: Option<(String, String, Decimal)>, // account, currency, units
}

#[derive(Clone, Debug)]
pub struct Acc {
    pub curs: BTreeSet<String>,
    pub pos: Pos,
    pub opened: usize,
    pub pad: Option<(usize, usize)>, // position in booked, directive index
    pub booking: lb::Booking,
    /// per currency: position in booked of the last assertion
    pub last_bal: HashMap<String, usize>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats(pub BTreeMap<&'static str, u32>);
impl Stats {
    pub fn hit(&mut self, k: &'static str) {
        *self.0.entry(k).or_default() += 1;
    }
    pub fn get(&self, k: &str) -> u32 {
        self.0.get(k).copied().unwrap_or(0)
    }
}

#[derive(Clone)]
pub struct Model {
    pub open: BTreeMap<String, usize>,
    pub closed: BTreeMap<String, usize>,
    pub accs: BTreeMap<String, Acc>,
    pub default_booking: lb::Booking,
    pub tol: Tol,
    pub booked: Vec<Booked>,
    pub faults: Vec<Fault>,
    pub ambiguous: bool,
    pub thorough: bool,
    pub st: Stats,
}

pub fn booking_of(s: &str) -> lb::Booking {
    use lb::Booking::*;
    match s {
        "STRICT" => Strict,
        "STRICT_WITH_SIZE" => StrictWithSize,
        "NONE" => None,
        "FIFO" => Fifo,
        "LIFO" => Lifo,
        "HIFO" => Hifo,
        "AVERAGE" => Strict, // not supported: strict
        _ => Strict,
    }
}

pub fn is_sub(base: &str, cand: &str) -> bool {
    cand == base || (cand.len() > base.len() && cand.starts_with(base) && cand.as_bytes()[base.len()] == b':')
}

pub fn collapse(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

struct TxnOut {
    posts: Vec<(Decimal, String, Option<Vec<(String, lb::PostingCost<BT>)>>, Option<lb::Price<BT>>)>,
    inv: BTreeMap<String, Pos>,
}

fn reason_key(r: &str) -> String {
    // the list of buckets comes in hash order
    if let Some(rest) = r.strip_prefix("can't have auto-post with multiple currencies ") {
        let mut v: Vec<&str> = rest.split(',').collect();
        v.sort();
        format!("can't have auto-post with multiple currencies {}", v.join(","))
    } else {
        r.to_string()
    }
}
pub fn norm_reason(r: &str) -> String {
    reason_key(r)
}

impl Model {
    pub fn new(o: &Opts) -> Model {
        let mut tol = Tol::default();
        for (c, n) in &o.tol_default {
            if c == "*" {
                tol.fallback = Some(n.v)
            } else {
                tol.default.insert(c.clone(), n.v);
            }
        }
        tol.mult = o.tol_mult.as_ref().map(|n| n.v);
        Model {
            open: Default::default(),
            closed: Default::default(),
            accs: Default::default(),
            default_booking: o.booking.as_deref().map(booking_of).unwrap_or(lb::Booking::Strict),
            tol,
            booked: vec![],
            faults: vec![],
            ambiguous: false,
            thorough: true,
            st: Stats::default(),
        }
    }

    pub fn run(o: &Opts, dirs: &[Dir]) -> Model {
        let mut m = Model::new(o);
        for (i, d) in dirs.iter().enumerate() {
            m.apply(i, d);
        }
        m.finish();
        m
    }

    pub fn finish(&mut self) {
        let mut v: Vec<usize> = self.accs.values().filter_map(|a| a.pad.map(|p| p.1)).collect();
        v.sort();
        for i in v {
            self.fault((i, None), "unused, no balance directive", "pad");
        }
    }

    fn fault(&mut self, at: El, reason: &str, class: &'static str) {
        self.faults.push(Fault { at, reasons: vec![reason.into()], related: vec![], annotation: None, class });
    }
    fn fault_rel(&mut self, at: El, reason: &str, class: &'static str, rel: El) {
        self.faults.push(Fault { at, reasons: vec![reason.into()], related: vec![rel], annotation: None, class });
    }

    /// true if open
    fn check_open(&mut self, acc: &str, at: El) -> bool {
        if self.open.contains_key(acc) {
            true
        } else if let Some(c) = self.closed.get(acc).copied() {
            self.fault_rel(at, "account was closed", "acct", (c, None));
            false
        } else {
            self.fault(at, "account not open", "acct");
            false
        }
    }
    fn check_cur(&mut self, acc: &str, cur: &str, at: El) -> bool {
        let a = &self.accs[acc];
        if a.curs.is_empty() || a.curs.contains(cur) {
            true
        } else {
            let o = a.opened;
            self.fault_rel(at, "currency incompatible with account", "cur", (o, None));
            false
        }
    }

    pub fn units(&self, acc: &str, cur: &str) -> Decimal {
        let mut s = Decimal::ZERO;
        if let Some(a) = self.accs.get(acc) {
            for p in a.pos.iter() {
                if p.currency == cur {
                    s += p.units;
                }
            }
        }
        s
    }
    pub fn rollup(&self, acc: &str, cur: &str) -> Decimal {
        let mut s = Decimal::ZERO;
        // in the order of opening
        let mut subs: Vec<_> = self.accs.iter().filter(|(n, _)| is_sub(acc, n)).collect();
        subs.sort_by_key(|(_, a)| a.opened);
        for (n, _) in subs {
            s += self.units(n, cur);
        }
        s
    }
    /// tolerance of a balance assertion
    pub fn bal_tol(&self, units: &Decimal, tol: Option<Decimal>) -> Decimal {
        match tol {
            Some(t) => t,
            None => {
                let s = units.scale();
                if s == 0 {
                    Decimal::ZERO
                } else {
                    Decimal::new(1, s) * self.tol.mult.unwrap_or(Decimal::new(5, 1)) * Decimal::TWO
                }
            }
        }
    }

    fn adjust(&mut self, acc: &str, cur: &str, by: Decimal) {
        self.accs.get_mut(acc).unwrap().pos.accumulate(by, cur.to_string(), None, lb::Booking::Strict);
    }

    fn push(&mut self, idx: usize, d: &Dir, json: Value) {
        self.booked.push(Booked {
            json,
            idx,
            kind: d.kind(),
            pad_fill: false,
            date: d.date,
            posts: vec![],
            desc: None,
            bal: None,
        });
    }

    pub fn head(idx: usize, d: &Dir, dct: &str) -> Map<String, Value> {
        let mut m = Map::new();
        m.insert("idx".into(), json!(idx));
        m.insert("date".into(), json!(date_str(d.date)));
        m.extend(meta_fields(&d.meta));
        m.insert("dct".into(), json!(dct));
        m
    }

    /// accounts and currencies the bookings of this transaction could be held under, tried in
    /// several hash orders
    fn book_txn(&mut self, date: Date, postings: &[Posting]) -> Result<TxnOut, Vec<(String, Option<usize>)>> {
        let refs: Vec<&Posting> = postings.iter().collect();
        let curs: BTreeSet<&Option<String>> = postings.iter().map(|p| &p.cur).collect();
        let simple = curs.len() <= 2 && postings.iter().all(|p| p.cost.is_none() && p.price.is_none());
        let reps = if !self.thorough {
            1
        } else if simple {
            2
        } else {
            10
        };
        let mut ok: Vec<(String, TxnOut)> = vec![];
        let mut errs: BTreeSet<(String, Option<usize>)> = BTreeSet::new();
        for _ in 0..reps {
            let r = lb::book(
                date,
                &refs,
                &self.tol,
                |a| self.accs.get(&a).map(|x| &x.pos),
                |a| self.accs.get(&a).map(|x| x.booking).unwrap_or(self.default_booking),
            );
            match r {
                Ok(b) => {
                    let posts: Vec<_> = b
                        .interpolated_postings
                        .into_iter()
                        .map(|i| {
                            (
                                i.units,
                                i.currency.clone(),
                                i.cost.map(|c| c.into_currency_costs().collect::<Vec<_>>()),
                                i.price,
                            )
                        })
                        .collect();
                    let inv: BTreeMap<String, Pos> = b.updated_inventory.into_iter().collect();
                    let key = format!("{posts:?} {inv:?}");
                    if ok.iter().all(|(k, _)| *k != key) {
                        ok.push((key, TxnOut { posts, inv }));
                    }
                }
                Err(e) => {
                    let (reason, p) = match &e {
                        lb::BookingError::Transaction(e) => (e.to_string(), None),
                        lb::BookingError::Posting(i, e) => (format!("{e} on posting {i}"), Some(*i)),
                    };
                    errs.insert((reason_key(&reason), p));
                }
            }
        }
        if ok.len() > 1 || (!ok.is_empty() && !errs.is_empty()) {
            self.ambiguous = true;
        }
        if !ok.is_empty() && errs.is_empty() {
            Ok(ok.swap_remove(0).1)
        } else {
            if errs.len() > 1 {
                self.st.hit("ambiguous-reason");
            }
            Err(errs.into_iter().collect())
        }
    }

    /// the booked amounts a transaction would get, for filling in gaps
    pub fn peek(&mut self, date: Date, postings: &[Posting]) -> Option<Vec<(Decimal, String)>> {
        let t = self.thorough;
        self.thorough = false;
        let amb = self.ambiguous;
        let r = self.book_txn(date, postings).ok().map(|o| o.posts.into_iter().map(|(u, c, _, _)| (u, c)).collect());
        self.thorough = t;
        self.ambiguous = amb;
        r
    }

    pub fn apply(&mut self, idx: usize, d: &Dir) -> bool {
        let n = self.faults.len();
        let at = (idx, None);
        match &d.var {
            Var::Txn { flag, payee, narration, postings } => self.txn(idx, d, flag, payee, narration, postings),
            Var::Open { acc, curs, booking } => {
                if let Some(o) = self.open.get(acc).copied() {
                    self.fault_rel(at, "account already opened", "open", (o, None));
                } else if let Some(c) = self.closed.get(acc).copied() {
                    self.fault_rel(at, "account was closed", "open", (c, None));
                } else {
                    self.open.insert(acc.clone(), idx);
                    let b = booking.as_deref().map(booking_of).unwrap_or(self.default_booking);
                    if booking.is_some() {
                        self.st.hit("open-booking");
                    }
                    self.accs.insert(
                        acc.clone(),
                        Acc {
                            curs: curs.iter().cloned().collect(),
                            pos: Pos::default(),
                            opened: idx,
                            pad: None,
                            booking: b,
                            last_bal: Default::default(),
                        },
                    );
                    self.plain(idx, d);
                }
            }
            Var::Close { acc } => {
                if self.open.remove(acc).is_some() {
                    self.closed.insert(acc.clone(), idx);
                    self.st.hit("close");
                    self.plain(idx, d);
                } else if let Some(c) = self.closed.get(acc).copied() {
                    self.fault_rel(at, "account was already closed", "open", (c, None));
                } else {
                    self.fault(at, "account not open", "open");
                }
            }
            Var::Pad { acc, source } => {
                if self.check_open(acc, at) && self.check_open(source, at) {
                    if let Some((_, p)) = self.accs.get_mut(acc).unwrap().pad.take() {
                        self.fault_rel((p, None), "unused, second pad encountered", "pad", at);
                        self.st.hit("second-pad");
                        return false;
                    }
                    self.accs.get_mut(acc).unwrap().pad = Some((self.booked.len(), idx));
                    self.plain(idx, d);
                    let mut m = Model::head(idx, d, "txn");
                    m.insert("flag".into(), json!("'P"));
                    m.insert("postings".into(), json!([]));
                    self.booked.push(Booked {
                        json: Value::Object(m),
                        idx,
                        kind: "txn",
                        pad_fill: true,
                        date: d.date,
                        posts: vec![],
                        desc: None,
                        bal: None,
                    });
                }
            }
            Var::Balance { acc, units, cur, tol } => self.balance(idx, d, acc, &units.v, cur, tol.as_ref().map(|t| t.v)),
            _ => self.plain(idx, d),
        }
        n == self.faults.len()
    }

    fn plain(&mut self, idx: usize, d: &Dir) {
        let mut m = Model::head(idx, d, d.kind());
        d.variant_fields(&mut m);
        self.push(idx, d, Value::Object(m));
    }

    fn balance(&mut self, idx: usize, d: &Dir, acc: &str, units: &Decimal, cur: &str, tol: Option<Decimal>) {
        let at = (idx, None);
        let t = self.bal_tol(units, tol);
        if !self.check_open(acc, at) || !self.check_cur(acc, cur, at) {
            return;
        }
        let margin = units - self.rollup(acc, cur);
        let need = margin.abs() > t;
        if !margin.is_zero() && !need {
            self.st.hit("bal-within-tol");
        }
        if margin.abs() == t && !t.is_zero() {
            self.st.hit("bal-at-tol");
        }
        let pad = self.accs.get_mut(acc).unwrap().pad.take();
        let prev = self.accs.get_mut(acc).unwrap().last_bal.insert(cur.to_string(), self.booked.len());
        if self.accs.keys().any(|k| k != acc && is_sub(acc, k)) {
            self.st.hit("bal-parent");
        }
        match (need, pad) {
            (false, None) => {
                self.st.hit("bal-ok");
            }
            (false, Some((_, p))) => {
                self.fault((p, None), "unused, no balance adjustment required", "pad");
            }
            (true, None) => {
                self.st.hit("bal-fail");
                let (total, lines) = self.diagnose(acc, cur, prev);
                self.adjust(acc, cur, margin);
                self.faults.push(Fault {
                    at,
                    reasons: vec![format!("accumulated {total}, error {margin} {cur}")],
                    related: vec![],
                    annotation: Some(lines),
                    class: "bal",
                });
            }
            (true, Some((b, _p))) => {
                self.st.hit("pad-fill");
                let Value::String(source) = self.booked[b].json["source"].clone() else { unreachable!() };
                self.adjust(acc, cur, margin);
                self.adjust(&source, cur, -margin);
                let posts = [(acc.to_string(), margin), (source, -margin)];
                self.booked[b + 1].json["postings"] = Value::Array(
                    posts
                        .iter()
                        .map(|(a, u)| json!({"flag": "'P", "acc": a, "units": jnum(u), "cur": cur}))
                        .collect(),
                );
                self.booked[b + 1].posts = posts
                    .into_iter()
                    .map(|(acc, units)| BPost { acc, units, cur: cur.to_string(), cost: false })
                    .collect();
            }
        }
        let mut m = Model::head(idx, d, "balance");
        d.variant_fields(&mut m);
        self.push(idx, d, Value::Object(m));
        self.booked.last_mut().unwrap().bal = Some((acc.to_string(), cur.to_string(), *units));
    }

    fn diagnose(&mut self, acc: &str, cur: &str, prev: Option<usize>) -> (Decimal, Vec<String>) {
        let (start, mut total) = match prev {
            Some(p) => (p, self.booked[p].bal.as_ref().unwrap().2),
            None => (0, Decimal::ZERO),
        };
        let mut rows = vec![];
        let mut names = BTreeSet::new();
        for b in &self.booked[start..] {
            for p in &b.posts {
                if is_sub(acc, &p.acc) && p.cur == cur {
                    total += p.units;
                    names.insert(p.acc.clone());
                    rows.push((b.date, p.acc[acc.len()..].to_string(), p.units, total, b.desc.clone()));
                }
            }
        }
        self.st.hit(match rows.len() {
            0 => "diag-0",
            1 => "diag-1",
            2..=4 => "diag-2-4",
            _ => "diag-5+",
        });
        if names.len() > 1 {
            self.st.hit("diag-multi");
        }
        if prev.is_some() {
            self.st.hit("diag-prev");
        }
        let multi = names.len() > 1;
        let lines = rows
            .into_iter()
            .map(|(d, a, u, t, desc)| {
                collapse(&format!(
                    "{} {} {} {} {}",
                    date_str(d),
                    if multi { a } else { String::new() },
                    u,
                    t,
                    desc.unwrap_or_default()
                ))
            })
            .collect();
        (total, lines)
    }

    fn txn(
        &mut self,
        idx: usize,
        d: &Dir,
        flag: &str,
        payee: &Option<String>,
        narration: &Option<String>,
        postings: &[Posting],
    ) {
        let at = (idx, None);
        let out = match self.book_txn(d.date, postings) {
            Ok(o) => o,
            Err(es) => {
                self.faults.push(Fault {
                    at,
                    reasons: es.into_iter().map(|e| e.0).collect(),
                    related: vec![],
                    annotation: None,
                    class: "book",
                });
                return;
            }
        };
        for (i, p) in postings.iter().enumerate() {
            if !self.check_open(&p.acc, (idx, Some(i))) || !self.check_cur(&p.acc, &out.posts[i].1, (idx, Some(i))) {
                return;
            }
        }
        let mut m = Model::head(idx, d, "txn");
        m.insert("flag".into(), json!(flag));
        if let Some(p) = payee {
            m.insert("payee".into(), json!(p));
        }
        if let Some(n) = narration {
            m.insert("narration".into(), json!(n));
        }
        let mut ps = vec![];
        let mut bposts = vec![];
        for (i, (p, (units, cur, costs, price))) in postings.iter().zip(out.posts).enumerate() {
            let mk = |u: &Decimal| {
                let mut m = Map::new();
                m.insert("idx".into(), json!(i));
                if let Some(f) = &p.flag {
                    m.insert("flag".into(), json!(f));
                }
                m.insert("acc".into(), json!(p.acc));
                m.insert("units".into(), jnum(u));
                m.insert("cur".into(), json!(cur));
                m
            };
            if p.units.is_none() {
                self.st.hit("interp-units");
            }
            if let Some(costs) = costs {
                if costs.len() > 1 {
                    self.st.hit("multi-lot");
                }
                self.st.hit("at-cost");
                for (ccur, c) in costs {
                    let mut m = mk(&c.units);
                    let mut cm = Map::new();
                    cm.insert("date".into(), json!(date_str(c.date)));
                    cm.insert("per-unit".into(), jnum(&c.per_unit));
                    cm.insert("total".into(), jnum(&c.total));
                    cm.insert("cur".into(), json!(ccur));
                    if let Some(l) = &c.label {
                        cm.insert("label".into(), json!(l));
                    }
                    if c.merge {
                        cm.insert("merge".into(), json!(true));
                    }
                    m.insert("cost".into(), Value::Object(cm));
                    m.extend(meta_fields(&p.meta));
                    ps.push(Value::Object(m));
                    bposts.push(BPost { acc: p.acc.clone(), units: c.units, cur: cur.clone(), cost: true });
                }
            } else {
                let mut m = mk(&units);
                if let Some(pr) = price {
                    self.st.hit("at-price");
                    let mut pm = Map::new();
                    pm.insert("per-unit".into(), jnum(&pr.per_unit));
                    if let Some(t) = &pr.total {
                        pm.insert("total".into(), jnum(t));
                    }
                    pm.insert("cur".into(), json!(pr.currency));
                    m.insert("price".into(), Value::Object(pm));
                }
                m.extend(meta_fields(&p.meta));
                ps.push(Value::Object(m));
                bposts.push(BPost { acc: p.acc.clone(), units, cur, cost: false });
            }
        }
        m.insert("postings".into(), Value::Array(ps));
        self.st.hit("txn-ok");
        self.push(idx, d, Value::Object(m));
        let b = self.booked.last_mut().unwrap();
        b.posts = bposts;
        b.desc = payee.clone().or(narration.clone());
        for (a, p) in out.inv {
            self.accs.get_mut(&a).unwrap().pos = p;
        }
    }

    pub fn expected(&self) -> Vec<Value> {
        self.booked.iter().map(|b| b.json.clone()).collect()
    }
}
