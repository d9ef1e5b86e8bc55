//! Builds ledgers from gene tapes.  A guide model (the reference model, fed with what has been
//! built so far) is asked what accounts hold, so that interesting cases come by construction.
use crate::ast::*;
use crate::genes::*;
use crate::model::*;
use rust_decimal::Decimal;
use std::collections::BTreeSet;
use time::{Date, Duration, Month};

pub mod f {
    pub const UNBAL: u32 = 1;
    pub const NOTOPEN: u32 = 2;
    pub const CUR: u32 = 4;
    pub const OPEN: u32 = 8; // double open, reopen, double close, close unopened
    pub const LOT: u32 = 16;
    pub const PADSRC: u32 = 32;
    pub const ALL: u32 = 63;
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub ops: (usize, usize),
    // open close txn balance pad | price commodity document note event query custom
    pub w: [u32; 12],
    pub costs: u32,
    pub prices: u32,
    pub elide: u32,
    pub multi: u32, // transactions of several currencies or odd shapes
    pub fault: u32,
    pub faults: u32,
    pub curlists: u32,
    pub booking: u32,
    pub opt_booking: u32,
    pub tol_opts: u32,
    pub near_tol: u32,
    pub bal_fail: u32,
    pub meta: u32,
    pub rich: u32, // unusual strings
    pub style: u32,
    pub files: u32,
    pub shuffle: u32,
    pub samedate: u32,
    pub all_opts: u32,
    pub rename: u32,
    pub push: u32,
    pub preopen: (usize, usize),
    pub unusual_nums: u32,
    pub pad_focus: bool,
    /// how often refused transactions are left out
    pub mend: u32,
    pub rollup_focus: bool,
    /// transactions of any shape the grammar has, whether or not they make sense
    pub wild: u32,
    /// many more directives than usual, or a transaction of many postings
    pub bulk: u32,
    /// now and then many directives of no consequence before all others
    pub before: bool,
}

impl Profile {
    pub fn base() -> Profile {
        Profile {
            ops: (1, 24),
            w: [3, 1, 30, 8, 2, 1, 1, 1, 1, 1, 1, 1],
            costs: 25,
            prices: 10,
            elide: 30,
            multi: 15,
            fault: 0,
            faults: f::ALL,
            curlists: 10,
            booking: 20,
            opt_booking: 25,
            tol_opts: 25,
            near_tol: 15,
            bal_fail: 0,
            meta: 10,
            rich: 5,
            style: 10,
            files: 0,
            shuffle: 10,
            samedate: 10,
            all_opts: 0,
            rename: 0,
            push: 0,
            preopen: (4, 14),
            unusual_nums: 10,
            pad_focus: false,
            mend: 0,
            rollup_focus: false,
            wild: 0,
            bulk: 0,
            before: false,
        }
    }
}

pub const CASH: &[&str] = &[
    "Assets:Bank",
    "Expenses:Food",
    "Assets:Bank:Checking",
    "Income:Job",
    "Assets:BankX",
    "Equity:Opening",
    "Assets:Bank:Checking:Deep",
    "Liabilities:Card",
    "Expenses:Food:Groceries",
    "Assets:Cash",
    "Income:Job:Bonus-2",
    "Assets:Épargne-x",
    "Liabilities:Card:9Lives",
    "Expenses:Ünï:Öde1",
];
/// put among the others in some ledgers: names that are nearly those of others
pub const NEAR: &[&str] = &[
    "Assets:BANK",
    "Assets:Bank2",
    "Assets:Bank-2",
    "Assets:Bank:CHECKING",
    "Assets:Bank:Checking2",
    "Assets:B",
    "Expenses:Bank",
    "Assets:Other:Bank",
    "Assets:Bank-2:Checking",
    "Assets:Bank:Bank",
    // deep, and long
    "Assets:Bank:A:B:C:D:E:F",
    "Assets:Bank:Checking:Something-With-A-Name-That-Goes-On-For-A-Good-While-Longer-Than-Anybody-Would-Think",
    "Liabilities:Card:X1:Y2:Z3:X1:Y2:Z3:X1:Y2:Z3",
    "Assets:Bank:A:B:C:D",
    "Assets:Bank:A",
    "Assets:Bank:Checking:Ünnötig-Länglich-Überlang-Und-Noch-Länger-Äußerst-Übermäßig:Öde1",
];
pub const BROKER: &[&str] = &["Assets:Broker", "Assets:Broker:Sub", "Assets:Pension", "Liabilities:Short", "Income:Vest"];
pub const MONEY: &[&str] = &["USD", "EUR", "GBP", "JPY"];
/// currencies whose names others begin or end with
pub const ALIKE: &[&str] = &["USDT", "US", "USD2", "USD.X", "SD", "ABCDEFGHIJKLMNOPQRSTUVWX", "USD-AND-A-LONGER-NAME-X"];
pub const STOCK: &[&str] = &["AAPL", "VTI", "B.C'D-E_F2", "/ESM24", "X9"];
pub const ROOTS: &[&str] = &["Assets", "Liabilities", "Equity", "Income", "Expenses"];
pub const NEWROOTS: &[&str] = &["Aktiva", "Passiva", "Kapital", "Ertrag", "Aufwand"];
pub const BOOKINGS: &[&str] = &["STRICT", "FIFO", "LIFO", "HIFO", "NONE", "STRICT_WITH_SIZE", "AVERAGE"];
pub const TAGS: &[&str] = &["trip", "a", "tax-2020", "x_y/z.1", "0", "Q", "a-tag-with-a-name-that-goes-on-for-a-good-while-longer-than-anybody-would-think-of-typing/it.in", "A", "Trip", "q"];
pub const LINKS: &[&str] = &["inv-1", "b", "ref_2/3.4", "7", "L", "a-link-with-a-name-that-goes-on-for-a-good-while-longer-than-anybody-would-think-of-typing/it.in", "B", "INV-1"];
pub const KEYS: &[&str] = &["note", "aa", "refNo", "refno", "k9_z", "file-name", "price", "date", "span", "acc", "zz", "a-key-with-a-name-that-goes-on-for-a-good-while-longer-than-anybody-would-think-of-typing"];
const WORDS: &[&str] = &["Shop", "rent", "monthly pay", "Tea & cake", "X", "a b c", "50% off", "cash-back", "no. 7", "end."];
const ODD: &[&str] = &[
    "say \"hi\"",
    "back\\slash",
    "tab\there",
    "Käse und Brot",
    "日本語 text",
    "semi; colon",
    "2020-01-01 open Assets:Bank",
    "#tag ^link",
    "{\"json\": [1,2]}",
    "\\n not newline",
    " lead and trail ",
    "😀 emoji",
    "'quoted'",
    "a\u{a0}b",
    "\u{7f}del",
    "very long string that goes on and on and on and on and on and on and on and on and on and on and on and on and on, to the end",
];

#[derive(Clone, Debug)]
pub struct Built {
    pub ledger: Ledger,
    /// indices into ledger.dirs in build order
    pub stats: Stats,
}

pub struct B<'p> {
    pub p: &'p Profile,
    pub guide: Model,
    pub dirs: Vec<Dir>,
    pub date: Date,
    last_rank: u8,
    pub names: [Option<String>; 5],
    crlf: bool,
    pub st: Stats,
    ordered_units: std::collections::BTreeMap<String, String>,
    last_pad: Option<String>,
    cash: Vec<&'static str>,
    mend: bool,
}

fn d(y: i32, m: u8, dd: u8) -> Date {
    Date::from_calendar_date(y, Month::try_from(m).unwrap(), dd).unwrap()
}

pub fn dec(m: i64, s: u32) -> Decimal {
    Decimal::new(m, s)
}

/// words of characters of every width, of a length that bears no relation to their bytes
fn long_text(g: &mut G) -> String {
    let set: &[char] = *g.pick(&[&['a', 'é', '語', '😀'][..], &['é'], &['語'], &['😀'], &['x', 'y', 'Z', '-', '.', ' ', 'ß'], &['a']]);
    let mut n = 20 + g.n(100);
    let mut s = ".".repeat(g.n(4));
    let mut x = g.u() as u32;
    // some much longer than any buffer or line one would think of
    if x % 8 == 5 {
        n *= 1 + x as usize / 2048;
    }
    while s.chars().count() < n {
        x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        s.push(set[(x >> 16) as usize % set.len()]);
    }
    // never at the end of a span: see C19
    s.push('.');
    s
}

pub fn string(g: &mut G, rich: u32, crlf: bool) -> String {
    if g.chance(rich) {
        if g.chance(15) {
            return long_text(g);
        }
        let mut s = g.pick(ODD).to_string();
        if g.chance(20) {
            s.push_str(g.pick(ODD));
        }
        if !crlf && g.chance(15) {
            s.push_str("\nsecond line\n  2020-02-02 * \"x\"");
        }
        s
    } else {
        let a = g.pick(WORDS).to_string();
        if g.chance(30) {
            format!("{a} {}", g.pick(WORDS))
        } else {
            a
        }
    }
}

/// one that may be empty
fn maybe(g: &mut G, rich: u32, crlf: bool) -> String {
    if g.chance(6) { String::new() } else { string(g, rich, crlf) }
}

/// a written form of the value
pub fn num(g: &mut G, v: Decimal, style: u32) -> Num {
    let plain = v.to_string();
    if v.is_zero() && plain.starts_with('-') {
        return Num { v: Decimal::new(0, v.scale()), t: plain[1..].to_string() };
    }
    // expressions are worked out with small numbers only
    if !g.chance(style) || v.mantissa().abs() > 1_000_000_000_000 {
        return Num { v, t: plain };
    }
    match g.n(6) {
        0 | 1 => {
            // thousands separators
            let neg = plain.starts_with('-');
            let body = plain.trim_start_matches('-');
            let (i, fr) = match body.split_once('.') {
                Some((i, f)) => (i, format!(".{f}")),
                None => (body, String::new()),
            };
            let b = i.as_bytes();
            let mut o = String::new();
            for (k, c) in b.iter().enumerate() {
                if k > 0 && (b.len() - k) % 3 == 0 {
                    o.push(',');
                }
                o.push(*c as char);
            }
            Num { v, t: format!("{}{o}{fr}", if neg { "-" } else { "" }) }
        }
        2 => Num { v, t: format!("({plain})") },
        3 if !v.is_sign_negative() => {
            // a sum of two parts, same scale
            let a = Decimal::new((v.mantissa() / 3) as i64, v.scale());
            Num { v, t: format!("({} + {})", a, v - a) }
        }
        4 => {
            let a = Decimal::new(125, v.scale());
            Num { v, t: format!("({} - {})", v + a, a) }
        }
        _ => {
            if !v.is_sign_negative() && v.mantissa() % 2 == 0 {
                let h = Decimal::new((v.mantissa() / 2) as i64, v.scale());
                Num { v, t: format!("({h} * 2)") }
            } else {
                Num { v, t: plain }
            }
        }
    }
}

fn scale_of(cur: &str) -> u32 {
    match cur {
        "JPY" => 0,
        "USD" | "EUR" | "GBP" => 2,
        "VTI" => 3,
        _ => 0,
    }
}

const fn day(y: i32, m: Month, d: u8) -> Date {
    match Date::from_calendar_date(y, m, d) {
        Ok(x) => x,
        Err(_) => panic!(),
    }
}
const AGES: [Date; 16] = [
    day(30, Month::December, 28),
    day(98, Month::February, 27),
    day(999, Month::December, 25),
    day(1582, Month::October, 3),
    day(1899, Month::December, 30),
    day(1900, Month::February, 26),
    day(1969, Month::December, 20),
    day(1999, Month::December, 24),
    day(2000, Month::February, 27),
    day(2004, Month::February, 28),
    day(2023, Month::December, 30),
    day(2024, Month::February, 26),
    day(2038, Month::January, 17),
    day(2099, Month::December, 29),
    day(2262, Month::April, 10),
    day(9850, Month::January, 1),
];
const FAR: [Date; 6] = [day(0, Month::January, 1), day(1, Month::January, 1), day(987, Month::June, 5), day(1000, Month::January, 1), day(9999, Month::December, 31), day(2000, Month::February, 29)];

impl<'p> B<'p> {
    pub fn new(p: &'p Profile, opts: &Opts) -> B<'p> {
        let mut guide = Model::new(opts);
        guide.thorough = false;
        B {
            p,
            guide,
            dirs: vec![],
            date: d(2019, 12, 20),
            last_rank: 0,
            names: opts.names.clone(),
            crlf: false,
            st: Stats::default(),
            ordered_units: Default::default(),
            last_pad: None,
            cash: CASH.to_vec(),
            mend: false,
        }
    }

    pub fn root(&self, a: &str) -> String {
        for (i, r) in ROOTS.iter().enumerate() {
            if let (Some(n), Some(rest)) = (&self.names[i], a.strip_prefix(r)) {
                return format!("{n}{rest}");
            }
        }
        a.to_string()
    }

    fn num(&self, g: &mut G, v: Decimal) -> Num {
        num(g, v, self.p.style)
    }

    pub fn meta(&mut self, g: &mut G, header: bool) -> Meta {
        let mut m = Meta::default();
        if !g.chance(self.p.meta) {
            return m;
        }
        let mut tags: Vec<&str> = TAGS.to_vec();
        let mut links: Vec<&str> = LINKS.to_vec();
        let mut keys: Vec<&str> = KEYS.to_vec();
        for _ in 0..1 + g.n(4) {
            match g.n(6) {
                0 if header && !tags.is_empty() => {
                    let i = g.n(tags.len());
                    m.htags.push(tags.remove(i).into())
                }
                1 if header && !links.is_empty() => {
                    let i = g.n(links.len());
                    m.hlinks.push(links.remove(i).into())
                }
                2 if !tags.is_empty() => {
                    let i = g.n(tags.len());
                    m.tags.push(tags.remove(i).into())
                }
                3 if !links.is_empty() => {
                    let i = g.n(links.len());
                    m.links.push(links.remove(i).into())
                }
                _ => {
                    let i = g.n(keys.len());
                    let k = keys.remove(i).to_string();
                    let v = self.mv(g, true);
                    m.kv.push((k, v))
                }
            }
        }
        // and now and then far more of them than anybody writes
        let x = g.u() as usize;
        if x > 64_800 {
            let n = 5 + x % 61;
            for i in 0..n {
                match (x / 61 + i / (1 + x % 7)) % 5 {
                    0 if header => m.htags.push(format!("h{i}")),
                    0 | 1 => m.tags.push(format!("t{i}")),
                    2 if header => m.hlinks.push(format!("h{i}")),
                    2 | 3 => m.links.push(format!("t{i}")),
                    _ => m.kv.push((format!("kk{i}"), Mv::Num(Num::of(dec(i as i64, 0))))),
                }
            }
            self.st.hit("much metadata");
        }
        m
    }

    pub fn mv(&mut self, g: &mut G, in_meta: bool) -> Mv {
        match g.n(if in_meta { 11 } else { 10 }) {
            0 => Mv::Str(maybe(g, self.p.rich.max(20), self.crlf)),
            1 => {
                let c = self.anycur(g);
                let v = self.anynum(g);
                Mv::Amount(self.num(g, v), c)
            }
            2 => Mv::Cur(self.anycur(g)),
            3 => Mv::Acc(self.anyacc(g)),
            4 => Mv::Tag(g.pick(TAGS).to_string()),
            5 => Mv::Link(g.pick(LINKS).to_string()),
            6 => Mv::Date(match g.n(8) {
                0 => FAR[g.n(FAR.len())],
                _ => self.date + Duration::days(g.n(4000) as i64 - 2000),
            }),
            7 => Mv::Bool(g.chance(50)),
            8 => {
                let v = self.anynum(g);
                Mv::Num(self.num(g, v))
            }
            9 => Mv::Null,
            _ => Mv::Empty,
        }
    }
    fn anycur(&self, g: &mut G) -> String {
        if g.chance(70) {
            g.pick(MONEY).to_string()
        } else {
            g.pick(STOCK).to_string()
        }
    }
    fn anyacc(&self, g: &mut G) -> String {
        let a = if g.chance(70) { *g.pick(&self.cash) } else { *g.pick(BROKER) };
        self.root(a)
    }
    pub fn anynum(&self, g: &mut G) -> Decimal {
        let s = g.n(6) as u32;
        let m = match g.n(5) {
            0 => g.n(100) as i64,
            1 => g.n(10_000) as i64,
            2 => -(g.n(100_000) as i64),
            3 => 0,
            _ => g.u() as i64 * g.u() as i64 * 7919,
        };
        dec(m, s)
    }

    /// positive amount in a currency
    fn amount(&self, g: &mut G, cur: &str) -> Decimal {
        let mut s = scale_of(cur);
        if g.chance(self.p.unusual_nums) {
            s = g.n(7) as u32;
        }
        let m = match g.n(8) {
            0 => 1 + g.n(20) as i64,
            1..=5 => 1 + g.n(5_000) as i64,
            6 => 100 * (1 + g.n(50) as i64),
            _ => 1 + g.n(60_000) as i64 * 13,
        };
        // mostly whole numbers of units for the small ones
        dec(m, s)
    }

    fn next_date(&mut self, g: &mut G, rank: u8) -> Date {
        let step = match g.n(16) {
            0..=6 => 0,
            7..=11 => 1,
            12 | 13 => 2 + g.n(5) as i64,
            14 => 25 + g.n(20) as i64,
            _ => 300 + g.n(100) as i64,
        };
        let same = g.chance(self.p.samedate);
        let mut dt = self.date + Duration::days(step);
        if dt == self.date && rank < self.last_rank && !same {
            dt += Duration::days(1);
        }
        if dt != self.date {
            self.last_rank = 0;
        }
        self.last_rank = self.last_rank.max(rank);
        self.date = dt;
        dt
    }

    pub fn add(&mut self, g: &mut G, var: Var) {
        let header = !matches!(var, Var::Custom { .. });
        let dd = Dir { date: self.date, var, meta: Meta::default(), style: vec![] };
        let rank = dd.rank();
        let date = self.next_date(g, rank);
        let meta = self.meta(g, header);
        let styled = g.chance(self.p.style * 3);
        let style = if styled { g.take(14) } else { vec![] };
        let dd = Dir { date, meta, style, ..dd };
        let i = self.dirs.len();
        if self.p.wild == 0 {
            let before = self.guide.faults.len();
            self.guide.apply(i, &dd);
            if self.mend && self.guide.faults.len() > before && matches!(dd.var, Var::Txn { .. }) {
                // leave out what is refused, so that the whole may be accepted
                self.guide.faults.truncate(before);
                self.st.hit("mended");
                return;
            }
        } else if let Var::Open { acc, .. } = &dd.var {
            self.guide.open.insert(acc.clone(), i);
        }
        self.dirs.push(dd);
    }

    /// directives of no consequence, by the hundred or thousand
    fn before(&mut self, n: usize) {
        self.st.hit("before");
        let date = self.date;
        self.date -= Duration::days(1);
        for i in 0..n {
            self.push(match i % 3 {
                0 => Var::Event { typ: "counter".into(), desc: format!("{i}") },
                1 => Var::Commodity { cur: "HOOL".into() },
                _ => Var::Price { cur: "HOOL".into(), per_unit: Num::of(dec(i as i64, 2)), pcur: "USD".into() },
            });
        }
        self.date = date;
    }

    /// directives by the dozen or hundred, and transactions of as many postings
    fn bulk(&mut self, n: usize, which: usize) {
        let faulty = self.p.fault > 0 && self.p.wild == 0;
        self.st.hit("bulk");
        let acc = |b: &Self, i: usize| b.root(&format!("Assets:Bulk{i}"));
        let eq = self.root("Equity:Bulk");
        let usd = |k: usize| Some(Num::of(dec(k as i64 * 100 + 25, 2)));
        let post = |acc: String, units: Option<Num>| Posting { acc, cur: units.as_ref().map(|_| "USD".to_string()), units, ..Default::default() };
        for a in [acc(self, 0), acc(self, 1), acc(self, 2), eq.clone()] {
            self.push(Var::Open { acc: a, curs: vec![], booking: None });
        }
        match which {
            0 | 1 => {
                for i in 0..n {
                    if i % 3 == 0 {
                        self.date += Duration::days(1);
                    }
                    let var = match (i + which) % 4 {
                        0 if faulty => Var::Close { acc: acc(self, 10 + i) },
                        1 if faulty => Var::Open { acc: acc(self, i % 3), curs: vec![], booking: None },
                        0 => Var::Note { acc: acc(self, i % 3), comment: format!("note {i}") },
                        1 => Var::Event { typ: "counter".into(), desc: format!("{i}") },
                        2 => Var::Txn {
                            flag: "*".into(),
                            payee: None,
                            narration: Some(format!("number {i}")),
                            postings: vec![post(acc(self, i % 3), usd(i)), post(if faulty && i % 8 == 2 { acc(self, 99) } else { eq.clone() }, None)],
                        },
                        _ => Var::Price { cur: "HOOL".into(), per_unit: Num::of(dec(1000 + i as i64, 2)), pcur: "USD".into() },
                    };
                    self.push(var);
                }
            }
            2 => {
                // all of one account and day
                for i in 0..n {
                    let postings = vec![post(acc(self, 0), usd(i)), post(eq.clone(), None)];
                    self.push(Var::Txn { flag: "!".into(), payee: Some(format!("p{}", i % 7)), narration: Some(format!("n{}", i % 5)), postings });
                }
            }
            5 => {
                // many accounts of a tree, all in one transaction; in some, each with a pad
                let n = n.min(150);
                let one = |b: &Self, i: usize| b.root(&format!("Assets:Bulk0:T{}:Leaf{i}", i % 4));
                for i in 0..n {
                    let a = one(self, i);
                    self.push(Var::Open { acc: a, curs: vec![], booking: None });
                }
                if faulty || self.p.pad_focus {
                    for i in 0..n {
                        let a = one(self, i);
                        self.push(Var::Pad { acc: a, source: eq.clone() });
                    }
                }
                let mut postings: Vec<Posting> = (0..n).map(|i| post(one(self, i), usd(i))).collect();
                postings.push(post(eq.clone(), None));
                self.push(Var::Txn { flag: "*".into(), payee: Some("all leaves".into()), narration: None, postings });
                self.date += Duration::days(1);
                for i in (0..n).step_by(7) {
                    let a = one(self, i);
                    let off = (faulty || self.p.pad_focus) as i64 * (i % 2) as i64;
                    self.push(Var::Balance { acc: a, units: Num::of(dec(i as i64 * 100 + 25 + off, 2)), cur: "USD".into(), tol: None });
                }
                // the tree as a whole: the sum of i + 0.25
                let sum = (n * n.saturating_sub(1) / 2 * 100 + 25 * n) as i64;
                let a = acc(self, 0);
                self.push(Var::Balance { acc: a, units: Num::of(dec(sum, 2)), cur: "USD".into(), tol: None });
            }
            6 | 7 if self.p.costs > 0 => {
                // many lots, sold at a stroke
                let n = n.min(60);
                let br = self.root("Assets:BulkLots");
                let booking = [None, Some("FIFO"), Some("LIFO"), Some("HIFO")][n % 4].map(String::from);
                let all = booking.is_none();
                self.push(Var::Open { acc: br.clone(), curs: vec![], booking });
                for i in 0..n {
                    if i % 5 == 0 || !all {
                        self.date += Duration::days(1);
                    }
                    let mut p = post(br.clone(), Some(Num::of(dec(1 + i as i64 % 3, 0))));
                    p.cur = Some("HOOL".into());
                    // no two of the same price
                    p.cost = Some(CostSpec { per_unit: Some(Num::of(dec(1000 + i as i64 * 7, 2))), cur: Some("USD".into()), ..Default::default() });
                    self.push(Var::Txn { flag: "*".into(), payee: None, narration: Some(format!("lot {i}")), postings: vec![p, post(eq.clone(), None)] });
                }
                let held: i64 = (0..n as i64).map(|i| 1 + i % 3).sum();
                self.date += Duration::days(1);
                let mut p = post(br.clone(), Some(Num::of(dec(-(if all { held } else { held - 2 }), 0))));
                p.cur = Some("HOOL".into());
                p.cost = Some(CostSpec::default());
                self.push(Var::Txn { flag: "*".into(), payee: None, narration: Some("all gone".into()), postings: vec![p, post(eq.clone(), None)] });
            }
            8 => {
                // deep below
                let mut a = acc(self, 0);
                for i in 0..n.min(25) {
                    a = format!("{a}:Level{i}");
                    self.push(Var::Open { acc: a.clone(), curs: vec![], booking: None });
                    self.push(Var::Txn { flag: "*".into(), payee: None, narration: Some(format!("at {i}")), postings: vec![post(a.clone(), usd(i)), post(eq.clone(), None)] });
                }
            }
            _ => {
                let mut postings: Vec<Posting> = (0..n).map(|i| post(acc(self, i % 3), usd(i))).collect();
                postings.push(post(if faulty && which == 3 { acc(self, 99) } else { eq.clone() }, None));
                postings.extend((0..n / 9).map(|i| post(acc(self, i % 3), usd(i))));
                self.push(Var::Txn { flag: "*".into(), payee: None, narration: Some("many postings".into()), postings });
            }
        }
        if self.p.bal_fail > 0 {
            self.date += Duration::days(1);
            self.push(Var::Balance { acc: acc(self, 0), units: Num::of(dec(1, 2)), cur: "USD".into(), tol: None });
        }
    }
    fn push(&mut self, var: Var) {
        let dd = Dir { date: self.date, var, meta: Meta::default(), style: vec![] };
        let i = self.dirs.len();
        if self.p.wild == 0 {
            self.guide.apply(i, &dd);
        } else if let Var::Open { acc, .. } = &dd.var {
            self.guide.open.insert(acc.clone(), i);
        }
        self.dirs.push(dd);
    }
    pub fn open_accounts(&self) -> Vec<String> {
        self.guide.open.keys().cloned().collect()
    }
    fn open_cash(&self) -> Vec<String> {
        let c: BTreeSet<String> = self.cash.iter().map(|a| self.root(a)).collect();
        self.guide.open.keys().filter(|a| c.contains(*a)).cloned().collect()
    }
    fn open_broker(&self) -> Vec<String> {
        let c: BTreeSet<String> = BROKER.iter().map(|a| self.root(a)).collect();
        self.guide.open.keys().filter(|a| c.contains(*a)).cloned().collect()
    }
    fn accepts(&self, acc: &str, cur: &str) -> bool {
        self.guide.accs.get(acc).is_none_or(|a| a.curs.is_empty() || a.curs.contains(cur))
    }
    /// an account for an amount in cur: open and accepting, unless a fault is wanted
    fn acc_for(&mut self, g: &mut G, cur: &str, fault: bool) -> String {
        if fault {
            match g.n(3) {
                0 if self.p.faults & f::NOTOPEN != 0 => {
                    let all: Vec<String> =
                        self.cash.iter().map(|a| self.root(a)).filter(|a| !self.guide.open.contains_key(a)).collect();
                    if !all.is_empty() {
                        self.st.hit("aim-notopen");
                        return g.pick(&all).clone();
                    }
                }
                1 if self.p.faults & f::NOTOPEN != 0 => {
                    let all: Vec<String> = self.guide.closed.keys().cloned().collect();
                    if !all.is_empty() {
                        self.st.hit("aim-closed");
                        return g.pick(&all).clone();
                    }
                }
                _ => {}
            }
            if self.p.faults & f::CUR != 0 {
                let all: Vec<String> =
                    self.open_cash().into_iter().filter(|a| !self.accepts(a, cur)).collect();
                if !all.is_empty() {
                    self.st.hit("aim-cur");
                    return g.pick(&all).clone();
                }
            }
        }
        let ok: Vec<String> = self.open_cash().into_iter().filter(|a| self.accepts(a, cur)).collect();
        if ok.is_empty() {
            let any = self.open_cash();
            if any.is_empty() {
                return self.root(self.cash[0]);
            }
            return g.pick(&any).clone();
        }
        // familiar accounts more often
        if self.p.rollup_focus && g.chance(60) {
            let b: Vec<String> = ok.iter().filter(|a| a.contains(":Bank")).cloned().collect();
            if !b.is_empty() {
                return g.pick(&b).clone();
            }
        }
        g.pick(&ok).clone()
    }

    fn is_ordered(&self, acc: &str) -> bool {
        use limabean_booking::Booking::*;
        let b = self.guide.accs.get(acc).map(|a| a.booking).unwrap_or(self.guide.default_booking);
        matches!(b, Fifo | Lifo | Hifo)
    }

    fn money(&self, g: &mut G) -> String {
        let k = g.n(9);
        match k {
            0..=4 => MONEY[0],
            5..=7 => MONEY[k - 4],
            _ => g.pick(ALIKE),
        }
        .to_string()
    }

    pub fn posting(acc: String, units: Option<Num>, cur: Option<String>) -> Posting {
        Posting { acc, units, cur, ..Default::default() }
    }

    fn flag(&self, g: &mut G) -> String {
        match g.n(12) {
            0..=8 => "*".into(),
            9 | 10 => "!".into(),
            _ => g.pick(&["&", "#", "?", "%", "'S", "'Z", "'P"]).to_string(),
        }
    }

    /// any transaction the grammar allows
    fn wild(&mut self, g: &mut G) {
        let opt_num = |b: &B, g: &mut G, pc: u32| -> Option<Num> {
            if g.chance(pc) {
                let mut v = b.anynum(g);
                if g.chance(60) {
                    v = v.abs();
                }
                Some(b.num(g, v))
            } else {
                None
            }
        };
        let mut postings = vec![];
        for _ in 0..g.n(5) {
            let mut p = Posting { acc: self.anyacc(g), ..Default::default() };
            if g.chance(25) {
                p.flag = Some(g.pick(&["*", "!", "&", "#", "?", "%", "'A", "'P", "'Z"]).to_string());
            }
            p.units = opt_num(self, g, 75);
            if g.chance(80) {
                p.cur = Some(self.anycur(g));
            }
            if g.chance(35) {
                let mut c = CostSpec { per_unit: opt_num(self, g, 55), total: opt_num(self, g, 25), ..Default::default() };
                if g.chance(65) {
                    c.cur = Some(self.anycur(g));
                }
                if g.chance(35) {
                    c.date = Some(self.date - Duration::days(g.n(9000) as i64));
                }
                if g.chance(35) {
                    c.label = Some(string(g, 40, self.crlf));
                }
                c.merge = g.chance(15);
                p.cost = Some(c);
            }
            if g.chance(30) {
                let mut c = PriceSpec::default();
                match g.n(5) {
                    0 | 1 => c.per_unit = opt_num(self, g, 100),
                    2 | 3 => c.total = opt_num(self, g, 100),
                    _ => {}
                }
                if g.chance(75) {
                    c.cur = Some(self.anycur(g));
                }
                p.price = Some(c);
            }
            p.meta = self.meta(g, false);
            postings.push(p);
        }
        let flag = if g.chance(50) {
            self.flag(g)
        } else {
            g.pick(&["*", "!", "&", "#", "?", "%", "'A", "'M", "'P", "'Z"]).to_string()
        };
        let payee = if g.chance(40) { Some(string(g, self.p.rich, self.crlf)) } else { None };
        let narration = if g.chance(75) { Some(string(g, self.p.rich, self.crlf)) } else { None };
        self.add(g, Var::Txn { flag, payee, narration, postings });
    }

    fn txn(&mut self, g: &mut G) {
        if self.p.wild > 0 {
            return self.wild(g);
        }
        let fault = g.chance(self.p.fault);
        let shape = g.u() as u32 * 100 >> 16;
        let mut postings;
        let (c, p, m) = (self.p.costs, self.p.prices, self.p.multi);
        if shape >= 100 - c.min(100) && !self.open_broker().is_empty() {
            postings = self.trade(g, fault);
        } else if shape >= 100u32.saturating_sub(c + p) && p > 0 {
            postings = self.priced(g, fault);
        } else if shape >= 100u32.saturating_sub(c + p + m) && m > 0 {
            postings = self.odd(g, fault);
        } else {
            postings = self.transfer(g, fault);
        }
        // fill in what was left out, as it would be booked
        if g.chance(100 - self.p.elide) {
            if let Some(filled) = self.guide.peek(self.date, &postings) {
                for (q, (u, cur)) in postings.iter_mut().zip(filled) {
                    if q.units.is_none() && (q.cost.is_none()) {
                        q.units = Some(self.num(g, u));
                        q.cur = Some(cur);
                    }
                }
            }
        } else if let Some(filled) = self.guide.peek(self.date, &postings) {
            // drop just the currency or just the number of one posting
            if g.chance(20) {
                let i = g.n(postings.len());
                let np = postings.len();
                let q = &mut postings[i];
                if q.units.is_none() && q.cost.is_none() && q.price.is_none() {
                    q.cur = Some(filled[i].1.clone());
                } else if q.cost.is_none() && g.chance(50) && np > 1 {
                    q.cur = None;
                }
            }
        }
        if fault && self.p.faults & f::UNBAL != 0 && g.chance(60) {
            self.unbalance(g, &mut postings);
        } else if g.chance(self.p.near_tol) {
            self.near(g, &mut postings);
        }
        if g.chance(30) && postings.len() > 1 {
            let k = g.n(postings.len());
            postings.rotate_left(k);
        }
        for q in &mut postings {
            if g.chance(6) {
                q.flag = Some(self.flag(g));
            }
            q.meta = self.meta(g, false);
        }
        let (payee, narration) = match g.n(8) {
            0..=2 => (None, Some(string(g, self.p.rich, self.crlf))),
            3..=5 => (Some(string(g, self.p.rich, self.crlf)), Some(string(g, self.p.rich, self.crlf))),
            6 => (None, None),
            _ => (Some(string(g, self.p.rich, self.crlf)), None),
        };
        let flag = self.flag(g);
        self.add(g, Var::Txn { flag, payee, narration, postings });
    }

    fn unbalance(&mut self, g: &mut G, ps: &mut [Posting]) {
        let k: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].units.is_some()).collect();
        if k.is_empty() {
            return;
        }
        let i = *g.pick(&k);
        let n = ps[i].units.as_ref().unwrap().v;
        let by = dec(1 + g.n(300) as i64, n.scale());
        ps[i].units = Some(Num::of(n + by));
        self.st.hit("aim-unbal");
    }

    /// a residual about the size of the tolerance
    fn near(&mut self, g: &mut G, ps: &mut [Posting]) {
        let k: Vec<usize> =
            (0..ps.len()).filter(|i| ps[*i].units.is_some() && ps[*i].cost.is_none() && ps[*i].price.is_none()).collect();
        if k.is_empty() {
            return;
        }
        let i = *g.pick(&k);
        let n = ps[i].units.as_ref().unwrap().v;
        let mins = ps
            .iter()
            .filter_map(|p| p.units.as_ref())
            .map(|n| n.v.scale())
            .filter(|s| *s > 0)
            .min()
            .unwrap_or(0);
        let mult = self.guide.tol.mult.unwrap_or(dec(5, 1));
        let cur = ps[i].cur.clone().unwrap_or_default();
        let tol = if mins > 0 {
            dec(1, mins) * mult
        } else {
            self.guide.tol.default.get(&cur).copied().or(self.guide.tol.fallback).unwrap_or(Decimal::ZERO)
        };
        let ulp = dec(1, (tol.scale() + 1).min(9));
        let by = match g.n(6) {
            0 => tol,
            1 => tol - ulp,
            2 => tol + ulp,
            3 => ulp,
            4 => tol * dec(5, 1),
            _ => tol + tol,
        };
        let by = if g.chance(50) { by } else { -by };
        let v = n + by;
        if v.is_zero() {
            return;
        }
        ps[i].units = Some(Num::of(v));
        self.st.hit("aim-near");
    }

    fn transfer(&mut self, g: &mut G, fault: bool) -> Vec<Posting> {
        let cur = self.money(g);
        let n = match g.n(10) {
            0..=5 => 2,
            6 | 7 => 3,
            8 => 4,
            _ => 5 + g.n(6),
        };
        let bad = if fault { g.n(n) } else { usize::MAX };
        let mut ps = vec![];
        for i in 0..n - 1 {
            let v = self.amount(g, &cur);
            let v = if g.chance(35) { -v } else { v };
            let a = self.acc_for(g, &cur, i == bad);
            ps.push(B::posting(a, Some(self.num(g, v)), Some(cur.clone())));
        }
        let a = self.acc_for(g, &cur, n - 1 == bad);
        ps.push(B::posting(a, None, None));
        if g.chance(3) {
            // all zero
            for q in &mut ps[..n - 1] {
                q.units = Some(Num::of(Decimal::new(0, g.n(3) as u32)));
            }
        }
        ps
    }

    fn priced(&mut self, g: &mut G, fault: bool) -> Vec<Posting> {
        let cur = MONEY[1 + g.n(3)].to_string();
        let pcur = "USD".to_string();
        let u = self.amount(g, &cur);
        let u = if g.chance(30) { -u } else { u };
        let a = self.acc_for(g, &cur, fault);
        let mut q = B::posting(a, Some(self.num(g, u)), Some(cur));
        let rate = dec(1 + g.n(2_000) as i64, g.n(5) as u32);
        let total = dec(1 + g.n(200_000) as i64, 2);
        let (rate, total) = match g.n(40) {
            38 => (-rate, -total),
            39 => (Decimal::new(0, rate.scale()), Decimal::new(0, 2)),
            _ => (rate, total),
        };
        let mut ps = PriceSpec::default();
        match g.n(8) {
            0..=3 => ps.per_unit = Some(self.num(g, rate)),
            4 | 5 => ps.total = Some(self.num(g, total)),
            _ => {}
        }
        if g.chance(92) {
            ps.cur = Some(pcur.clone());
        }
        let known = ps.per_unit.is_some() || ps.total.is_some();
        q.price = Some(ps);
        let b = self.acc_for(g, &pcur, false);
        let mut v = vec![q];
        if known {
            v.push(B::posting(b, None, None));
        } else {
            v.push(B::posting(b, Some(self.num(g, if u.is_sign_negative() { total } else { -total })), Some(pcur)));
        }
        v
    }

    /// several currencies, several gaps, one posting, no posting
    fn odd(&mut self, g: &mut G, fault: bool) -> Vec<Posting> {
        match g.n(10) {
            0..=5 => {
                // two or three currencies, each balanced
                let k = 2 + g.n(2);
                let mut ps = vec![];
                for i in 0..k {
                    let cur = MONEY[i].to_string();
                    let v = self.amount(g, &cur);
                    let a = self.acc_for(g, &cur, fault && i == 0);
                    let b = self.acc_for(g, &cur, fault && i == 1);
                    ps.push(B::posting(a, Some(self.num(g, v)), Some(cur.clone())));
                    let num = if g.chance(80) { Some(self.num(g, -v)) } else { None };
                    ps.push(B::posting(b, num, Some(cur.clone())));
                }
                ps
            }
            6 => {
                // gap in a transaction of two currencies
                let a = self.acc_for(g, "USD", fault);
                let b = self.acc_for(g, "EUR", false);
                let c = self.acc_for(g, "EUR", false);
                let v = self.amount(g, "USD");
                let w = self.amount(g, "EUR");
                vec![
                    B::posting(a, Some(self.num(g, v)), Some("USD".into())),
                    B::posting(b, Some(self.num(g, w)), Some("EUR".into())),
                    B::posting(c, None, None),
                ]
            }
            7 => {
                // two gaps
                let cur = self.money(g);
                let a = self.acc_for(g, &cur, fault);
                let b = self.acc_for(g, &cur, false);
                let c = self.acc_for(g, &cur, false);
                let v = self.amount(g, &cur);
                let w = if g.chance(50) { Some(cur.clone()) } else { None };
                vec![
                    B::posting(a, Some(self.num(g, v)), Some(cur)),
                    B::posting(b, None, w.clone()),
                    B::posting(c, None, w),
                ]
            }
            8 => {
                let cur = self.money(g);
                let a = self.acc_for(g, &cur, fault);
                let v = self.amount(g, &cur);
                match g.n(3) {
                    0 => vec![B::posting(a, Some(self.num(g, Decimal::ZERO)), Some(cur))],
                    1 => vec![B::posting(a, Some(self.num(g, v)), Some(cur))],
                    _ => vec![B::posting(a, None, None)],
                }
            }
            _ => {
                // numbers without any currency: inferred from the account or the others
                let cur = self.money(g);
                let a = self.acc_for(g, &cur, fault);
                let b = self.acc_for(g, &cur, false);
                let v = self.amount(g, &cur);
                let c = if g.chance(60) { Some(cur) } else { None };
                vec![B::posting(a, Some(self.num(g, v)), c), B::posting(b, Some(self.num(g, -v)), None)]
            }
        }
    }

    fn trade(&mut self, g: &mut G, fault: bool) -> Vec<Posting> {
        let brokers = self.open_broker();
        let acc = g.pick(&brokers).clone();
        let lots: Vec<(Decimal, String, limabean_booking::Cost<BT>)> = self.guide.accs[&acc]
            .pos
            .iter()
            .filter(|p| p.cost.is_some() && !p.units.is_zero())
            .map(|p| (p.units, p.currency.clone(), p.cost.clone().unwrap()))
            .collect();
        let short = acc.ends_with("Short");
        let sell = !lots.is_empty() && g.chance(55);
        if sell {
            return self.sell(g, acc, lots, fault);
        }
        // buy
        let mut cur = STOCK[g.n(10).min(STOCK.len() + 4) % STOCK.len()].to_string();
        if let Some(a) = self.guide.accs.get(&acc) {
            if !a.curs.is_empty() {
                let ok: Vec<&str> = STOCK.iter().copied().filter(|c| a.curs.contains(*c)).collect();
                if !ok.is_empty() && !(fault && self.p.faults & f::CUR != 0) {
                    cur = g.pick(&ok).to_string();
                }
            }
        }
        if self.is_ordered(&acc) {
            cur = self.ordered_units.entry(acc.clone()).or_insert(cur).clone();
        }
        let k = g.chance(self.p.unusual_nums);
        let s = if k { g.n(4) as u32 } else { 0 };
        let u = dec(1 + g.n(if s == 0 { 20 } else { 3000 }) as i64, s);
        let u = if short { -u } else { u };
        let ccur = if g.chance(85) { "USD".to_string() } else { "EUR".to_string() };
        let top = if g.chance(40) { 8 } else { 20_000 };
        let per_m = 1 + g.n(top) as i64;
        let per = dec(per_m, if g.chance(80) { 2 } else { g.n(4) as u32 });
        let mut cs = CostSpec { cur: Some(ccur.clone()), ..Default::default() };
        let mut cash_known = false;
        match g.n(10) {
            0..=6 => {
                let v = match g.n(50) {
                    48 => -per,
                    49 => Decimal::new(0, per.scale()),
                    _ => per,
                };
                cs.per_unit = Some(self.num(g, v));
            }
            7 | 8 => {
                let v = dec(1 + g.n(50_000) as i64, 2);
                let v = match g.n(50) {
                    48 => -v,
                    49 => Decimal::new(0, 2),
                    _ => v,
                };
                cs.total = Some(self.num(g, v));
            }
            _ => {
                // cost to be worked out from the cash
                cash_known = true;
            }
        }
        if g.chance(25) {
            cs.date = Some(self.date - Duration::days(g.n(400) as i64));
        }
        if g.chance(25) {
            cs.label = Some(g.pick(&["lot1", "lot-2", "x y", "ä1"]).to_string());
        }
        if g.chance(3) {
            cs.merge = true;
        }
        let mut q = B::posting(acc, Some(self.num(g, u)), Some(cur));
        if g.chance(8) {
            q.price = Some(PriceSpec {
                per_unit: Some(self.num(g, per + dec(5, 1))),
                total: None,
                cur: Some(ccur.clone()),
            });
        }
        q.cost = Some(cs);
        self.st.hit("buy");
        let a = self.acc_for(g, &ccur, fault);
        let mut ps = vec![q];
        if cash_known {
            let v = dec(1 + g.n(50_000) as i64, 2);
            ps.push(B::posting(a, Some(self.num(g, if short { v } else { -v })), Some(ccur)));
        } else if g.chance(12) {
            let fee = dec(1 + g.n(900) as i64, 2);
            let b = self.acc_for(g, &ccur, false);
            ps.push(B::posting(b, Some(self.num(g, fee)), Some(ccur)));
            ps.push(B::posting(a, None, None));
        } else {
            ps.push(B::posting(a, None, None));
        }
        ps
    }

    fn sell(&mut self, g: &mut G, acc: String, lots: Vec<(Decimal, String, limabean_booking::Cost<BT>)>, fault: bool) -> Vec<Posting> {
        let (lu, cur, cost) = g.pick(&lots).clone();
        let same: Vec<_> = lots.iter().filter(|l| l.1 == cur).collect();
        let total: Decimal = same.iter().map(|l| l.0).sum();
        let mut cs = CostSpec::default();
        match g.n(8) {
            0..=2 => {}
            3 => cs.date = Some(cost.date),
            4 => {
                cs.per_unit = Some(Num::of(cost.per_unit));
                cs.cur = Some(cost.currency.clone())
            }
            5 => cs.label = cost.label.clone(),
            6 => {
                cs.date = Some(cost.date);
                cs.per_unit = Some(Num::of(cost.per_unit));
                cs.cur = Some(cost.currency.clone());
                cs.label = cost.label.clone();
            }
            _ => cs.cur = Some(cost.currency.clone()),
        }
        if cs.per_unit.as_ref().is_some_and(|n| n.v.scale() > 8 || n.v.is_zero()) {
            cs.per_unit = None;
        }
        let ulp = dec(1, lu.scale());
        let one = if lu.is_sign_negative() { -ulp } else { ulp };
        let mut u = match g.n(10) {
            0 | 1 => lu,
            2 | 3 => total,
            4 | 5 => {
                // part of the lot
                let m = lu.mantissa() as i64;
                dec(m.signum() * (1 + g.n(m.unsigned_abs().max(1) as usize) as i64), lu.scale())
            }
            6 | 7 => {
                let m = total.mantissa() as i64;
                dec(m.signum() * (1 + g.n(m.unsigned_abs().clamp(1, 60_000) as usize) as i64), total.scale())
            }
            8 => lu + one,
            _ => total - one,
        };
        if fault && self.p.faults & f::LOT != 0 {
            match g.n(4) {
                0 => u = total + one,
                1 => cs.label = Some("nosuch".into()),
                2 => cs.date = Some(cost.date + Duration::days(1)),
                _ => {
                    cs.per_unit = Some(Num::of(dec(77, 3)));
                    cs.cur = Some(cost.currency.clone())
                }
            }
            self.st.hit("aim-lot");
        }
        if u.is_zero() {
            u = lu;
        }
        self.st.hit("sell");
        let mut q = B::posting(acc, Some(self.num(g, -u)), Some(cur));
        q.cost = Some(cs);
        let ccur = cost.currency.clone();
        if g.chance(25) {
            q.price = Some(PriceSpec {
                per_unit: Some(Num::of(dec(1 + g.n(20_000) as i64, 2))),
                total: None,
                cur: Some(ccur.clone()),
            });
        }
        let a = self.acc_for(g, &ccur, fault);
        let b = self.acc_for(g, &ccur, false);
        let mut ps = vec![q];
        if g.chance(60) {
            let v = dec(1 + g.n(50_000) as i64, 2);
            ps.push(B::posting(a, Some(self.num(g, if u.is_sign_negative() { -v } else { v })), Some(ccur)));
            ps.push(B::posting(b, None, None));
        } else {
            ps.push(B::posting(a, None, None));
        }
        ps
    }

    fn open(&mut self, g: &mut G, acc: Option<String>) {
        let fault = acc.is_none() && g.chance(self.p.fault) && self.p.faults & f::OPEN != 0;
        let acc = acc.unwrap_or_else(|| {
            let pool: Vec<String> = self.cash.iter().chain(BROKER).map(|a| self.root(a)).collect();
            if fault {
                let bad: Vec<String> = if g.chance(50) {
                    self.guide.closed.keys().cloned().collect()
                } else {
                    self.guide.open.keys().cloned().collect()
                };
                if !bad.is_empty() {
                    self.st.hit("aim-open");
                    return g.pick(&bad).clone();
                }
            }
            let fresh: Vec<String> = pool
                .iter()
                .filter(|a| !self.guide.open.contains_key(*a) && !self.guide.closed.contains_key(*a))
                .cloned()
                .collect();
            // one above others opened earlier
            let above: Vec<String> = if self.p.rollup_focus {
                let is_above = |a: &str| self.guide.open.keys().any(|o| o.strip_prefix(a).is_some_and(|x| x.starts_with(':')));
                fresh.iter().filter(|a| is_above(a)).cloned().collect()
            } else {
                vec![]
            };
            if !above.is_empty() && g.chance(60) {
                self.st.hit("opened above");
                g.pick(&above).clone()
            } else if fresh.is_empty() {
                // another subaccount
                let base = g.pick(&pool).clone();
                let k = self.dirs.len();
                format!("{base}:S{k}")
            } else {
                g.pick(&fresh).clone()
            }
        });
        let is_broker = BROKER.iter().any(|b| self.root(b) == acc);
        let mut curs: Vec<String> = vec![];
        if g.chance(self.p.curlists) {
            if is_broker {
                for c in STOCK {
                    if g.chance(50) {
                        curs.push(c.to_string());
                    }
                }
                if curs.is_empty() {
                    curs.push(STOCK[0].into());
                }
            } else {
                curs.push("USD".into());
                for c in &MONEY[1..] {
                    if g.chance(30) {
                        curs.push(c.to_string());
                    }
                }
                if g.chance(25) && curs.len() > 1 {
                    curs.remove(0);
                }
                if g.chance(30) {
                    curs.reverse();
                }
            }
            let x = g.u() as usize;
            if x > 63_000 {
                let mut more: Vec<String> = (0..5 + x % 60).map(|i| format!("OTHER{i}")).collect();
                if x % 3 == 0 {
                    curs.append(&mut more);
                } else {
                    more.append(&mut curs);
                    curs = more;
                }
                self.st.hit("many currencies");
            }
        }
        let booking = if g.chance(if is_broker { self.p.booking } else { self.p.booking / 4 }) {
            Some(BOOKINGS[1 + g.n(6)].to_string())
        } else if g.chance(self.p.booking / 4) {
            Some("STRICT".into())
        } else {
            None
        };
        self.add(g, Var::Open { acc, curs, booking });
    }

    fn close(&mut self, g: &mut G) {
        let fault = g.chance(self.p.fault) && self.p.faults & f::OPEN != 0;
        let open = self.open_accounts();
        let acc = if fault || open.len() <= 3 {
            let pool: Vec<String> = if g.chance(50) && !self.guide.closed.is_empty() {
                self.guide.closed.keys().cloned().collect()
            } else {
                self.cash.iter().chain(BROKER).map(|a| self.root(a)).filter(|a| !self.guide.open.contains_key(a)).collect()
            };
            if !fault || pool.is_empty() {
                return self.note(g);
            }
            self.st.hit("aim-close");
            g.pick(&pool).clone()
        } else {
            // where balances matter one which holds something, below another
            let full: Vec<String> = open
                .iter()
                .filter(|a| {
                    a.rsplit_once(':').is_some_and(|(p, _)| self.guide.open.contains_key(p))
                        && MONEY.iter().any(|c| !self.guide.rollup(a, c).is_zero())
                })
                .cloned()
                .collect();
            // or what a pad that waits is to take from
            let sources: Vec<String> = self
                .dirs
                .iter()
                .filter_map(|d| match &d.var {
                    Var::Pad { acc, source } if self.guide.accs.get(acc).is_some_and(|a| a.pad.is_some()) => Some(source),
                    _ => None,
                })
                .filter(|s| self.guide.open.contains_key(*s))
                .cloned()
                .collect();
            if self.p.pad_focus && !sources.is_empty() && g.chance(50) {
                g.pick(&sources).clone()
            } else if self.p.rollup_focus && !full.is_empty() && g.chance(60) {
                g.pick(&full).clone()
            } else {
                g.pick(&open).clone()
            }
        };
        self.add(g, Var::Close { acc });
    }

    fn note(&mut self, g: &mut G) {
        let acc = self.anyacc(g);
        let comment = maybe(g, self.p.rich, self.crlf);
        self.add(g, Var::Note { acc, comment });
    }

    fn any_bal_acc(&mut self, g: &mut G, cur: &str, fault: bool) -> String {
        if fault {
            return self.acc_for(g, cur, true);
        }
        let mut open = self.open_accounts();
        if self.p.rollup_focus && g.chance(70) {
            let v: Vec<String> = open.iter().filter(|a| a.contains(":Bank")).cloned().collect();
            if !v.is_empty() {
                open = v;
            }
        }
        let ok: Vec<String> = open.iter().filter(|a| self.accepts(a, cur)).cloned().collect();
        let with: Vec<String> = ok.iter().filter(|a| !self.guide.rollup(a, cur).is_zero()).cloned().collect();
        if self.p.rollup_focus {
            // one that came to have something before it was opened
            let accs = &self.guide.accs;
            let before = |a: &str| {
                accs.iter().any(|(o, x)| x.opened < accs[a].opened && o.strip_prefix(a).is_some_and(|s| s.starts_with(':')))
            };
            let v: Vec<String> = with.iter().filter(|a| accs.contains_key(*a) && !accs[*a].last_bal.contains_key(cur) && before(a)).cloned().collect();
            if !v.is_empty() && g.chance(60) {
                self.st.hit("had before opened");
                return g.pick(&v).clone();
            }
        }
        if !with.is_empty() && g.chance(75) {
            return g.pick(&with).clone();
        }
        if ok.is_empty() {
            return self.acc_for(g, cur, false);
        }
        g.pick(&ok).clone()
    }

    fn balance(&mut self, g: &mut G, on: Option<String>) {
        let fault = on.is_none() && g.chance(self.p.fault) && self.p.faults & (f::NOTOPEN | f::CUR) != 0 && g.chance(40);
        let mut cur = self.money(g);
        let acc = match on {
            Some(a) => a,
            None => {
                if g.chance(self.p.costs / 3) {
                    cur = g.pick(STOCK).to_string();
                }
                self.any_bal_acc(g, &cur, fault)
            }
        };
        if let Some(a) = self.guide.accs.get(&acc) {
            if !fault && !a.curs.is_empty() && !a.curs.contains(&cur) {
                let v: Vec<String> = a.curs.iter().cloned().collect();
                cur = g.pick(&v).clone();
            }
        }
        let held = self.guide.rollup(&acc, &cur);
        let s = match g.n(6) {
            0..=3 => held.scale().min(6),
            4 => 2,
            _ => g.n(5) as u32,
        };
        let tol = if g.chance(25) {
            Some(match g.n(6) {
                0 => Decimal::ZERO,
                1 => dec(1, 2),
                2 => dec(5, 2),
                3 => dec(1 + g.n(500) as i64, g.n(5) as u32),
                4 => dec(1 + g.n(20) as i64, 0),
                _ => Decimal::new(0, 2),
            })
        } else {
            None
        };
        let mut v = held;
        v.rescale(s);
        let t = self.guide.bal_tol(&v, tol);
        let exact = v == held;
        let pad = self.guide.accs.get(&acc).is_some_and(|a| a.pad.is_some());
        let ulp = dec(1, t.scale().max(s).min(8));
        let off = if g.chance(self.p.near_tol) {
            self.st.hit("bal-near");
            match g.n(5) {
                0 => t,
                1 => t + ulp,
                2 => t - ulp,
                3 => dec(1, s),
                _ => -t,
            }
        } else if g.chance(if pad { 75 } else { self.p.bal_fail }) {
            let k = dec(1 + g.n(50_000) as i64, s);
            if g.chance(50) {
                k
            } else {
                -k
            }
        } else {
            Decimal::ZERO
        };
        let off = if g.chance(30) { -off } else { off };
        let mut v = if off.is_zero() && exact { v } else { v + off };
        // stay faithful to the scale that was chosen where tolerance comes from it
        if tol.is_none() && v.scale() != s && g.chance(50) {
            let mut w = v;
            w.rescale(s);
            v = w;
        }
        let units = self.num(g, v);
        let tol = tol.map(Num::of);
        self.add(g, Var::Balance { acc, units, cur, tol });
    }

    fn pad(&mut self, g: &mut G) {
        let fault = g.chance(self.p.fault);
        let waiting: Vec<String> =
            self.guide.accs.iter().filter(|(_, a)| a.pad.is_some()).map(|(n, _)| n.clone()).collect();
        let second = g.chance(if self.p.pad_focus { 12 } else { 4 }) && !waiting.is_empty();
        let acc = if second {
            g.pick(&waiting).clone()
        } else if fault && self.p.faults & f::NOTOPEN != 0 && g.chance(50) {
            self.acc_for(g, "USD", true)
        } else {
            let open: Vec<String> = self.open_cash().into_iter().filter(|a| !waiting.contains(a)).collect();
            if open.is_empty() {
                return self.note(g);
            }
            g.pick(&open).clone()
        };
        let source = if fault && self.p.faults & f::PADSRC != 0 && g.chance(50) {
            self.st.hit("aim-padsrc");
            self.acc_for(g, "USD", true)
        } else if g.chance(50) && self.guide.open.contains_key(&self.root("Equity:Opening")) {
            self.root("Equity:Opening")
        } else {
            self.acc_for(g, "USD", false)
        };
        if !second {
            self.last_pad = Some(acc.clone());
        }
        self.add(g, Var::Pad { acc, source });
    }

    fn other(&mut self, g: &mut G, k: usize) {
        let rich = self.p.rich;
        let var = match k {
            5 => {
                let cur = self.anycur(g);
                let v = self.anynum(g);
                let pcur = self.money(g);
                Var::Price { cur, per_unit: self.num(g, v), pcur }
            }
            6 => Var::Commodity { cur: self.anycur(g) },
            7 => {
                let acc = self.anyacc(g);
                let path = g.pick(&["doc.pdf", "/abs/a b.pdf", "sub/x.txt", "../up.pdf", "dé.pdf", "./here.pdf", "two//slashes/", " blanks .pdf ", "a/path/of/many/directories/below/others/and/a/name/that/goes/on/for/a good while/longer/than/anybody/would/type.pdf"]).to_string();
                Var::Document { acc, path }
            }
            8 => return self.note(g),
            9 => {
                let typ = string(g, rich, self.crlf);
                Var::Event { typ, desc: maybe(g, rich, self.crlf) }
            }
            10 => {
                let name = string(g, rich, self.crlf);
                let content = if g.chance(50) {
                    "SELECT account, sum(position) WHERE date > 2020-01-01".into()
                } else {
                    maybe(g, rich, self.crlf)
                };
                Var::Query { name, content }
            }
            _ => {
                let typ = string(g, rich, self.crlf);
                let n = 1 + g.n(4);
                let mut values: Vec<Mv> = vec![];
                for _ in 0..n {
                    let mut v = self.mv(g, false);
                    // "1 -2" is a subtraction
                    if let (Some(Mv::Num(_)), Mv::Num(x) | Mv::Amount(x, _)) = (values.last(), &mut v) {
                        if x.t.starts_with(['-', '(']) {
                            *x = Num::of(x.v.abs());
                        }
                    }
                    // and "1 USD" an amount
                    if let (Some(Mv::Num(_)), Mv::Cur(_)) = (values.last(), &v) {
                        v = Mv::Bool(true);
                    }
                    values.push(v);
                }
                let x = g.u() as usize;
                if x > 63_000 {
                    for i in 0..5 + x % 50 {
                        values.push(match (x / 50 + i) % 4 {
                            0 => Mv::Str(format!("v{i}")),
                            1 => Mv::Bool(i % 3 == 0),
                            2 => Mv::Tag(format!("t{i}")),
                            _ => Mv::Amount(Num::of(dec(i as i64, 1)), MONEY[i % 3].into()),
                        });
                    }
                    self.st.hit("many values");
                }
                Var::Custom { typ, values }
            }
        };
        self.add(g, var);
    }

    /// the directive before once more, all equal
    fn again(&mut self) -> bool {
        let Some(d) = self.dirs.last() else { return false };
        let plain = match &d.var {
            Var::Txn { postings, .. } => postings.iter().all(|p| p.cost.is_none()),
            Var::Open { .. } | Var::Close { .. } | Var::Pad { .. } | Var::Commodity { .. } => false,
            _ => true,
        };
        if plain && self.p.wild == 0 {
            let d = d.clone();
            let i = self.dirs.len();
            let before = self.guide.faults.len();
            self.guide.apply(i, &d);
            if self.mend && self.guide.faults.len() > before && matches!(d.var, Var::Txn { .. }) {
                self.guide.faults.truncate(before);
                return true;
            }
            self.dirs.push(d);
            self.st.hit("repeated");
        }
        plain
    }

    pub fn op(&mut self, genes: &[u16]) {
        if genes.len() > 3 && genes[genes.len() - 1] % 1000 > 965 && self.again() {
            return;
        }
        let mut g = G::new(genes);
        let mut k = g.weighted(&{
            // transactions first, so that 0 is one
            let w = &self.p.w;
            [w[2], w[0], w[1], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10], w[11]]
        });
        if let Some(a) = self.last_pad.take() {
            if self.p.pad_focus && g.chance(45) && self.guide.open.contains_key(&a) {
                return self.balance(&mut g, Some(a));
            }
            self.last_pad = if k == 0 { Some(a) } else { None };
        }
        if k == 0 && self.guide.open.len() < 2 {
            k = 1;
        }
        match k {
            0 => self.txn(&mut g),
            1 => self.open(&mut g, None),
            2 => self.close(&mut g),
            3 => self.balance(&mut g, None),
            4 => self.pad(&mut g),
            k => self.other(&mut g, k),
        }
    }
}

pub fn opts(g: &mut G, p: &Profile) -> Opts {
    let mut o = Opts::default();
    if g.chance(p.rename) {
        for i in 0..5 {
            if g.chance(60) {
                o.names[i] = Some(NEWROOTS[i].into());
            }
        }
    }
    if g.chance(p.tol_opts) {
        if g.chance(65) {
            let v = *g.pick(&[dec(5, 1), dec(1, 0), dec(11, 1), dec(2, 1), dec(2, 0), dec(0, 0), dec(75, 2), dec(105, 2), dec(50, 2), dec(100, 2), dec(10, 1)]);
            o.tol_mult = Some(Num::of(v));
        }
        if g.chance(50) {
            for c in MONEY.iter().chain(&STOCK[..2]) {
                if g.chance(35) {
                    let v = *g.pick(&[dec(5, 3), dec(1, 2), dec(1, 0), dec(0, 0), dec(25, 1), dec(5, 0)]);
                    o.tol_default.push((c.to_string(), Num::of(v)));
                }
            }
        }
        if g.chance(40) {
            let v = *g.pick(&[dec(5, 3), dec(1, 2), dec(1, 0), dec(0, 0), dec(15, 1)]);
            o.tol_default.push(("*".into(), Num::of(v)));
        }
    }
    if g.chance(p.opt_booking) {
        o.booking = Some(g.pick(BOOKINGS).to_string());
    }
    if p.all_opts > 0 {
        let a = p.all_opts;
        if g.chance(a) {
            o.title = Some(if g.chance(8) { String::new() } else { string(g, 40, true) });
        }
        for (n, ex) in [
            ("account_previous_balances", "Opening-Balances"),
            ("account_previous_earnings", "Earnings:Previous"),
            ("account_previous_conversions", "Conversions:Previous"),
            ("account_current_earnings", "Earnings:Current"),
            ("account_current_conversions", "Conversions:Current"),
            ("account_unrealized_gains", "Unrealized"),
            ("account_rounding", "Rounding"),
            ("conversion_currency", "NOTHING"),
        ] {
            if g.chance(a / 2) {
                let v = if n == "conversion_currency" {
                    g.pick(&["NOTHING", "XXX", "N.A"]).to_string()
                } else {
                    g.pick(&[ex, "Other:Place", "X9"]).to_string()
                };
                o.strs.push((n.into(), v));
            }
        }
        if g.chance(a / 2) {
            o.infer_from_cost = Some(g.chance(50));
        }
        if g.chance(a / 2) {
            o.render_commas = Some(g.chance(50));
        }
        if g.chance(a / 2) {
            o.plugin_mode = Some(g.pick(&["default", "raw"]).to_string());
        }
        if g.chance(a) {
            for dd in ["docs", "/abs/docs", "more/docs", "x y", "with//slash/", "./here"] {
                if g.chance(40) {
                    o.documents.push(dd.into());
                }
            }
        }
        if g.chance(a) {
            for c in ["USD", "EUR", "/ESM24", "X9"] {
                if g.chance(45) {
                    o.operating.push(c.into());
                }
            }
        }
        for i in 0..g.n(5) {
            let n = g.pick(&["limabean.auto", "my.plugin", "a", "beancount.plugins.auto_accounts", "x y"]).to_string();
            let n = if g.chance(50) { format!("{n}{i}") } else { n };
            let c = match g.n(7) {
                0 | 1 | 2 => None,
                3 | 4 | 5 => Some(string(g, 40, true)),
                _ => Some(String::new()),
            };
            o.plugins.push((n, c));
        }
        // a good many of everything that may be given more than once
        let x = g.u() as usize;
        if x > 60_000 {
            let n = 6 + x % 70;
            match x / 70 % 5 {
                0 => o.documents.extend((0..n).map(|i| format!("dir{i}/docs"))),
                1 => o.operating.extend((0..n).map(|i| format!("OTHER{i}"))),
                2 => o.tol_default.extend((0..n).map(|i| (format!("OTHER{i}"), Num::of(dec(i as i64, 3))))),
                _ => o.plugins.extend((0..n).map(|i| (format!("plugin.no{i}"), if i % 3 == 0 { None } else { Some(format!("config {i}")) }))),
            }
        }
    }
    o
}

pub fn build(case: &Case, p: &Profile) -> Built {
    let mut g = G::new(&case.cfg);
    let o = opts(&mut g, p);
    let crlf = g.chance(p.style / 3);
    let mut b = B::new(p, &o);
    // now and then a ledger of another age
    let age = g.n(100);
    if age >= 84 {
        b.date = AGES[age - 84];
    }
    b.crlf = crlf;
    let before = g.u();
    if p.before && before > 65_000 {
        b.before(if before > 65_528 { 66_000 } else { [255, 256, 257, 300, 600, 1100, 2100, 80][before as usize % 8] });
    }
    b.mend = g.chance(p.mend);
    let bulk = g.chance(p.bulk);
    let many = [23, 30, 44, 70, 129, 257, 520, 900][g.n(8)];
    let which = g.n(9);
    let near = g.n(100);
    if near >= 70 {
        for k in 0..1 + near % 3 {
            let at = 1 + (near / 3 + 2 * k) % 5;
            b.cash.insert(at, NEAR[(near / 3 * (k + 1) + k) % NEAR.len()]);
        }
        b.cash.dedup();
        let mut seen = BTreeSet::new();
        b.cash.retain(|a| seen.insert(*a));
    }
    let pre = p.preopen.0 + g.n(p.preopen.1 - p.preopen.0 + 1);
    // the broker accounts come early where trades are wanted
    let nb = if p.costs > 0 { 1 + g.n(BROKER.len()) } else { g.n(2) };
    for i in 0..nb {
        let a = b.root(BROKER[i]);
        let genes = g.take(8);
        let mut gg = G::new(&genes);
        let mut v: Vec<u16> = vec![0];
        v.extend((0..7).map(|_| gg.u()));
        b.open(&mut G::new(&v), Some(a));
    }
    for i in 0..pre {
        let a = b.root(b.cash[i % b.cash.len()]);
        if b.guide.open.contains_key(&a) {
            continue;
        }
        let genes = g.take(6);
        b.open(&mut G::new(&genes), Some(a));
    }
    for op in &case.ops {
        b.op(op);
    }
    if bulk {
        b.bulk(many, which);
    }
    let mut stats = b.st.clone();
    let dirs = std::mem::take(&mut b.dirs);
    // layout has genes of its own at the end of the configuration
    let tail: Vec<u16> = {
        let n = case.cfg.len();
        case.cfg[n.saturating_sub(64)..].to_vec()
    };
    let ledger = layout(&mut G::new(&tail), p, o, dirs, crlf, &mut stats);
    Built { ledger, stats }
}

pub fn layout(g: &mut G, p: &Profile, opts: Opts, mut dirs: Vec<Dir>, crlf: bool, st: &mut Stats) -> Ledger {
    if g.chance(p.shuffle) && dirs.len() > 1 {
        // swaps; equal keys keep whatever order this gives: it is the file order
        for _ in 0..1 + g.n(12) {
            let i = g.n(dirs.len());
            let j = g.n(dirs.len());
            let x = dirs.remove(i);
            dirs.insert(j.min(dirs.len()), x);
        }
        st.hit("shuffled");
    }
    let n = dirs.len();
    let mut l = Ledger { opts, dirs, crlf, ..Default::default() };
    let mut nfiles = if g.chance(p.files) { 1 + g.n(5) } else { 1 };
    if nfiles > 1 {
        // sometimes one for every month
        let x = g.u() as usize;
        if x > 63_500 {
            nfiles = 7 + x % 30;
        }
    }
    let names = ["main.beancount", "inc1.beancount", "sub/inc2.bean", "sub/deep/inc3.b", "other dir/inc4.beancount", "inc5"];
    let mut names: Vec<String> = names.iter().map(|s| s.to_string()).collect();
    names.extend((names.len()..nfiles).map(|i| format!("{}/f{i}.beancount", ["months", "a/b/c/d", "sub"][i % 3])));
    l.paths = names[..nfiles].to_vec();
    l.files = vec![vec![]; nfiles];
    for s in l.opts.lines() {
        l.files[0].push(Item::Line(s));
    }
    // parents
    let mut kids: Vec<Vec<usize>> = vec![vec![]; nfiles];
    for i in 1..nfiles {
        let par = g.n(i);
        kids[par].push(i);
    }
    if nfiles > 1 {
        st.hit("multi-file");
    }
    let push = nfiles == 1 && g.chance(p.push);
    fill(g, p, &mut l, 0, 0, n, &kids);
    if push {
        pragmas(g, &mut l);
        st.hit("pragmas");
    }
    l.no_final_newline = g.chance(p.style / 2);
    let x = g.u() as usize;
    if p.style > 0 && x > 65_000 {
        // a file beyond what 16 bits count
        let f = x % nfiles;
        let first = if f == 0 { l.opts.lines().len() } else { 0 };
        let at = if x % 3 == 0 { first } else { first + x / 3 % (l.files[f].len() - first + 1) };
        let lines = if x % 2 == 0 { 700 } else { 70 };
        let line = format!("; {}", "a long remark about nothing ".repeat(if lines == 70 { 36 } else { 4 }));
        l.files[f].splice(at..at, (0..lines).map(|_| Item::Line(line.clone())));
        st.hit("long file");
    }
    l
}

fn noise(g: &mut G, p: &Profile, l: &mut Ledger, file: usize) {
    if g.chance(p.style) {
        let s = *g.pick(&["", "; comment", "* Heading", "", "** sub heading #x", "   ", ";; 2020-01-01 open Assets:Nope", "; é!"]);
        // (a heading cannot be what a file starts with)
        if l.files[file].iter().any(|x| matches!(x, Item::D(_))) {
            l.files[file].push(Item::Line(s.into()));
        }
    }
}

fn fill(g: &mut G, p: &Profile, l: &mut Ledger, file: usize, a: usize, b: usize, kids: &[Vec<usize>]) {
    let mut at = a;
    for k in &kids[file] {
        let left = b - at;
        let skip = g.n(left + 1);
        for i in at..at + skip {
            l.files[file].push(Item::D(i));
            noise(g, p, l, file);
        }
        at += skip;
        let take = g.n(b - at + 1);
        l.files[file].push(Item::Include(*k));
        fill(g, p, l, *k, at, at + take, kids);
        at += take;
    }
    for i in at..b {
        l.files[file].push(Item::D(i));
        noise(g, p, l, file);
    }
}

fn pragmas(g: &mut G, l: &mut Ledger) {
    let items = std::mem::take(&mut l.files[0]);
    let mut out = vec![];
    let mut tags: Vec<String> = vec![];
    let mut kv: Vec<(String, Mv)> = vec![];
    let mut k = 0;
    for it in items {
        if let Item::D(i) = &it {
            if k < 40 && g.chance(35) {
                match g.n(4) {
                    0 => {
                        let t = format!("pt{k}");
                        k += 1;
                        out.push(Item::Line(format!("pushtag #{t}")));
                        tags.push(t);
                    }
                    1 if !tags.is_empty() => {
                        let j = g.n(tags.len());
                        let t = tags.remove(j);
                        out.push(Item::Line(format!("poptag #{t}")));
                    }
                    2 => {
                        let key = format!("pm{k}");
                        k += 1;
                        let v = match g.n(4) {
                            0 => Mv::Str("pushed".into()),
                            1 => Mv::Num(Num::of(dec(1250, 2))),
                            2 => Mv::Cur("EUR".into()),
                            _ => Mv::Bool(true),
                        };
                        out.push(Item::Line(format!("pushmeta {key}: {}", v.text())));
                        kv.push((key, v));
                    }
                    _ if !kv.is_empty() => {
                        let j = g.n(kv.len());
                        let (key, _) = kv.remove(j);
                        out.push(Item::Line(format!("popmeta {key}:")));
                    }
                    _ => {}
                }
            }
            l.dirs[*i].meta.itags = tags.clone();
            l.dirs[*i].meta.ikv = kv.clone();
        }
        out.push(it);
    }
    for t in tags {
        out.push(Item::Line(format!("poptag #{t}")));
    }
    for (key, _) in kv {
        out.push(Item::Line(format!("popmeta {key}:")));
    }
    l.files[0] = out;
}
