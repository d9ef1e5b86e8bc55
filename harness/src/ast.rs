//! The harness's own picture of a ledger, its rendering as beancount text, and the
//! JSON that a faithful parse of it must give.  Nothing here uses the code under test.
use crate::genes::G;
use rust_decimal::Decimal;
use serde_json::{json, Map, Value};
use time::Date;

#[derive(Clone, Debug, PartialEq)]
pub struct Num {
    pub v: Decimal,
    pub t: String,
}
impl Num {
    pub fn of(v: Decimal) -> Num {
        Num { v, t: v.to_string() }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mv {
    Amount(Num, String),
    Str(String),
    Cur(String),
    Acc(String),
    Tag(String),
    Link(String),
    Date(Date),
    Bool(bool),
    Num(Num),
    Null,
    Empty, // key with nothing after the colon: null as well
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Meta {
    pub htags: Vec<String>, // on the header line
    pub hlinks: Vec<String>,
    pub tags: Vec<String>, // on lines of their own
    pub links: Vec<String>,
    pub kv: Vec<(String, Mv)>,
    // inherited from pushtag/pushmeta, not rendered with the directive
    pub itags: Vec<String>,
    pub ikv: Vec<(String, Mv)>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct CostSpec {
    pub per_unit: Option<Num>,
    pub total: Option<Num>,
    pub cur: Option<String>,
    pub date: Option<Date>,
    pub label: Option<String>,
    pub merge: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct PriceSpec {
    pub per_unit: Option<Num>,
    pub total: Option<Num>,
    pub cur: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Posting {
    pub flag: Option<String>,
    pub acc: String,
    pub units: Option<Num>,
    pub cur: Option<String>,
    pub cost: Option<CostSpec>,
    pub price: Option<PriceSpec>,
    pub meta: Meta,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Var {
    Txn { flag: String, payee: Option<String>, narration: Option<String>, postings: Vec<Posting> },
    Price { cur: String, per_unit: Num, pcur: String },
    Balance { acc: String, units: Num, cur: String, tol: Option<Num> },
    Open { acc: String, curs: Vec<String>, booking: Option<String> },
    Close { acc: String },
    Commodity { cur: String },
    Pad { acc: String, source: String },
    Document { acc: String, path: String },
    Note { acc: String, comment: String },
    Event { typ: String, desc: String },
    Query { name: String, content: String },
    Custom { typ: String, values: Vec<Mv> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dir {
    pub date: Date,
    pub var: Var,
    pub meta: Meta,
    pub style: Vec<u16>,
}

impl Dir {
    pub fn rank(&self) -> u8 {
        match self.var {
            Var::Open { .. } => 0,
            Var::Balance { .. } => 1,
            _ => 2,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self.var {
            Var::Txn { .. } => "txn",
            Var::Price { .. } => "price",
            Var::Balance { .. } => "balance",
            Var::Open { .. } => "open",
            Var::Close { .. } => "close",
            Var::Commodity { .. } => "commodity",
            Var::Pad { .. } => "pad",
            Var::Document { .. } => "document",
            Var::Note { .. } => "note",
            Var::Event { .. } => "event",
            Var::Query { .. } => "query",
            Var::Custom { .. } => "custom",
        }
    }
    /// as named in reports
    pub fn report_kind(&self) -> &'static str {
        match self.kind() {
            "txn" => "transaction",
            k => k,
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Opts {
    pub title: Option<String>,
    /// assets, liabilities, equity, income, expenses
    pub names: [Option<String>; 5],
    /// the equity subaccounts and conversion currency, by option name
    pub strs: Vec<(String, String)>,
    pub tol_default: Vec<(String, Num)>, // currency or "*"
    pub tol_mult: Option<Num>,
    pub infer_from_cost: Option<bool>,
    pub documents: Vec<String>,
    pub operating: Vec<String>,
    pub render_commas: Option<bool>,
    pub booking: Option<String>, // as written, e.g. FIFO
    pub plugin_mode: Option<String>,
    pub plugins: Vec<(String, Option<String>)>,
}

pub fn date_str(d: Date) -> String {
    format!("{:04}-{:02}-{:02}", d.year(), d.month() as u8, d.day())
}

/// a JSON number with exactly the text of the decimal
pub fn jnum(d: &Decimal) -> Value {
    serde_json::from_str(&d.to_string()).unwrap()
}

/// FIFO -> fifo, STRICT_WITH_SIZE -> strict-with-size
pub fn booking_json(s: &str) -> String {
    s.to_lowercase().replace('_', "-")
}

impl Mv {
    pub fn json(&self) -> Value {
        match self {
            Mv::Amount(n, c) => json!({"units": jnum(&n.v), "cur": c}),
            Mv::Str(s) => json!({ "string": s }),
            Mv::Cur(s) => json!({ "cur": s }),
            Mv::Acc(s) => json!({ "acc": s }),
            Mv::Tag(s) => json!({ "tag": s }),
            Mv::Link(s) => json!({ "link": s }),
            Mv::Date(d) => json!({"date": date_str(*d)}),
            Mv::Bool(b) => json!({ "bool": b }),
            Mv::Num(n) => json!({"number": jnum(&n.v)}),
            Mv::Null | Mv::Empty => Value::Null,
        }
    }
    pub fn text(&self) -> String {
        match self {
            Mv::Amount(n, c) => format!("{} {}", n.t, c),
            Mv::Str(s) => quote(s),
            Mv::Cur(s) | Mv::Acc(s) => s.clone(),
            Mv::Tag(s) => format!("#{s}"),
            Mv::Link(s) => format!("^{s}"),
            Mv::Date(d) => date_str(*d),
            Mv::Bool(b) => (if *b { "TRUE" } else { "FALSE" }).into(),
            Mv::Num(n) => n.t.clone(),
            Mv::Null => "NULL".into(),
            Mv::Empty => "".into(),
        }
    }
}

pub fn quote(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\t' => r.push_str("\\t"),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn put_meta(m: &mut Map<String, Value>, meta: &Meta) {
    let mut tags: Vec<&String> =
        meta.htags.iter().chain(&meta.tags).chain(&meta.itags).collect();
    tags.sort();
    tags.dedup();
    let mut links: Vec<&String> = meta.hlinks.iter().chain(&meta.links).collect();
    links.sort();
    links.dedup();
    if !tags.is_empty() {
        m.insert("tags".into(), json!(tags));
    }
    if !links.is_empty() {
        m.insert("links".into(), json!(links));
    }
    if !meta.kv.is_empty() || !meta.ikv.is_empty() {
        let mut kv = Map::new();
        for (k, v) in meta.ikv.iter().chain(&meta.kv) {
            kv.insert(k.clone(), v.json());
        }
        m.insert("metadata".into(), Value::Object(kv));
    }
}

pub fn meta_fields(meta: &Meta) -> Map<String, Value> {
    let mut m = Map::new();
    put_meta(&mut m, meta);
    m
}

impl CostSpec {
    pub fn json(&self) -> Value {
        let mut m = Map::new();
        if let Some(n) = &self.per_unit {
            m.insert("per-unit".into(), jnum(&n.v));
        }
        if let Some(n) = &self.total {
            m.insert("total".into(), jnum(&n.v));
        }
        if let Some(c) = &self.cur {
            m.insert("cur".into(), json!(c));
        }
        if let Some(d) = &self.date {
            m.insert("date".into(), json!(date_str(*d)));
        }
        if let Some(l) = &self.label {
            m.insert("label".into(), json!(l));
        }
        if self.merge {
            m.insert("merge".into(), json!(true));
        }
        Value::Object(m)
    }
    fn text(&self, g: &mut G) -> String {
        let mut comps: Vec<String> = vec![];
        let amt = match (&self.per_unit, &self.total) {
            (Some(p), Some(t)) => Some(format!("{} # {}", p.t, t.t)),
            (Some(p), None) => Some(p.t.clone()),
            (None, Some(t)) => Some(format!("# {}", t.t)),
            (None, None) => None,
        };
        match (amt, &self.cur) {
            (Some(a), Some(c)) => {
                // amount and currency may be separate components
                if g.chance(12) {
                    comps.push(a);
                    comps.push(c.clone());
                } else {
                    comps.push(format!("{a} {c}"))
                }
            }
            (Some(a), None) => comps.push(a),
            (None, Some(c)) => comps.push(c.clone()),
            _ => {}
        }
        if let Some(d) = &self.date {
            comps.push(date_str(*d))
        }
        if let Some(l) = &self.label {
            comps.push(quote(l))
        }
        if self.merge {
            comps.push("*".into())
        }
        if comps.len() > 1 && g.chance(30) {
            let k = g.n(comps.len());
            comps.rotate_left(k);
        }
        let sep = if g.chance(20) { " , " } else { ", " };
        let pad = if g.chance(20) { " " } else { "" };
        format!("{{{pad}{}{pad}}}", comps.join(sep))
    }
}

impl PriceSpec {
    pub fn json(&self) -> Value {
        let mut m = Map::new();
        if let Some(n) = &self.per_unit {
            m.insert("per-unit".into(), jnum(&n.v));
        }
        if let Some(n) = &self.total {
            m.insert("total".into(), jnum(&n.v));
        }
        if let Some(c) = &self.cur {
            m.insert("cur".into(), json!(c));
        }
        Value::Object(m)
    }
    fn text(&self) -> String {
        let mut s = String::from(if self.total.is_some() { "@@" } else { "@" });
        if let Some(n) = self.total.as_ref().or(self.per_unit.as_ref()) {
            s.push(' ');
            s.push_str(&n.t);
        }
        if let Some(c) = &self.cur {
            s.push(' ');
            s.push_str(c);
        }
        s
    }
}

impl Posting {
    pub fn json(&self) -> Value {
        let mut m = Map::new();
        if let Some(f) = &self.flag {
            m.insert("flag".into(), json!(f));
        }
        m.insert("acc".into(), json!(self.acc));
        if let Some(n) = &self.units {
            m.insert("units".into(), jnum(&n.v));
        }
        if let Some(c) = &self.cur {
            m.insert("cur".into(), json!(c));
        }
        if let Some(c) = &self.cost {
            m.insert("cost-spec".into(), c.json());
        }
        if let Some(p) = &self.price {
            m.insert("price-spec".into(), p.json());
        }
        put_meta(&mut m, &self.meta);
        Value::Object(m)
    }
    pub fn text(&self, g: &mut G, sep: &str) -> String {
        let mut parts = vec![];
        if let Some(f) = &self.flag {
            parts.push(f.clone());
        }
        parts.push(self.acc.clone());
        if let Some(n) = &self.units {
            parts.push(n.t.clone());
        }
        if let Some(c) = &self.cur {
            parts.push(c.clone());
        }
        if let Some(c) = &self.cost {
            parts.push(c.text(g));
        }
        if let Some(p) = &self.price {
            parts.push(p.text());
        }
        parts.join(sep)
    }
}

impl Dir {
    /// what the raw directives response must contain, less spans
    pub fn json(&self) -> Value {
        let mut m = Map::new();
        m.insert("date".into(), json!(date_str(self.date)));
        put_meta(&mut m, &self.meta);
        m.insert("dct".into(), json!(self.kind()));
        self.variant_fields(&mut m);
        Value::Object(m)
    }
    pub fn variant_fields(&self, m: &mut Map<String, Value>) {
        match &self.var {
            Var::Txn { flag, payee, narration, postings } => {
                m.insert("flag".into(), json!(flag));
                if let Some(p) = payee {
                    m.insert("payee".into(), json!(p));
                }
                if let Some(n) = narration {
                    m.insert("narration".into(), json!(n));
                }
                m.insert(
                    "postings".into(),
                    Value::Array(postings.iter().map(|p| p.json()).collect()),
                );
            }
            Var::Price { cur, per_unit, pcur } => {
                m.insert("cur".into(), json!(cur));
                m.insert("price".into(), json!({"per-unit": jnum(&per_unit.v), "cur": pcur}));
            }
            Var::Balance { acc, units, cur, tol } => {
                m.insert("acc".into(), json!(acc));
                m.insert("units".into(), jnum(&units.v));
                m.insert("cur".into(), json!(cur));
                if let Some(t) = tol {
                    m.insert("tolerance".into(), jnum(&t.v));
                }
            }
            Var::Open { acc, curs, booking } => {
                m.insert("acc".into(), json!(acc));
                if !curs.is_empty() {
                    let mut c = curs.clone();
                    c.sort();
                    m.insert("currencies".into(), json!(c));
                }
                if let Some(b) = booking {
                    m.insert("booking".into(), json!(booking_json(b)));
                }
            }
            Var::Close { acc } => {
                m.insert("acc".into(), json!(acc));
            }
            Var::Commodity { cur } => {
                m.insert("cur".into(), json!(cur));
            }
            Var::Pad { acc, source } => {
                m.insert("acc".into(), json!(acc));
                m.insert("source".into(), json!(source));
            }
            Var::Document { acc, path } => {
                m.insert("acc".into(), json!(acc));
                m.insert("path".into(), json!(path));
            }
            Var::Note { acc, comment } => {
                m.insert("acc".into(), json!(acc));
                m.insert("comment".into(), json!(comment));
            }
            Var::Event { typ, desc } => {
                m.insert("type".into(), json!(typ));
                m.insert("description".into(), json!(desc));
            }
            Var::Query { name, content } => {
                m.insert("name".into(), json!(name));
                m.insert("content".into(), json!(content));
            }
            Var::Custom { typ, values } => {
                m.insert("type".into(), json!(typ));
                m.insert("values".into(), Value::Array(values.iter().map(|v| v.json()).collect()));
            }
        }
    }

    /// The text of the directive, with the relative byte ranges of its postings.
    /// The text ends with the newline of its last line.
    pub fn text(&self, plain: bool, crlf: bool) -> (String, Vec<(usize, usize)>) {
        let empty = vec![];
        let mut g = G::new(if plain { &empty } else { &self.style });
        let sep = *g.pick(&[" ", "  ", "\t", "   \t "]);
        let nl = if crlf { "\r\n" } else { "\n" };
        let mut s = String::new();
        let mut spans = vec![];
        s.push_str(&if g.chance(8) { date_str(self.date).replace('-', "/") } else { date_str(self.date) });
        let w = |s: &mut String, x: &str| {
            s.push_str(sep);
            s.push_str(x);
        };
        let kw = match self.kind() {
            "txn" => "".to_string(),
            k => k.to_string(),
        };
        if !kw.is_empty() {
            w(&mut s, &kw);
        }
        match &self.var {
            Var::Txn { flag, payee, narration, .. } => {
                if flag == "*" && g.chance(15) {
                    w(&mut s, "txn");
                } else {
                    w(&mut s, flag);
                }
                match (payee, narration) {
                    (None, None) => match g.n(6) {
                        4 => w(&mut s, "\"\""),
                        5 => w(&mut s, "\"\" \"\""),
                        _ => {}
                    },
                    (None, Some(n)) => {
                        if g.chance(20) {
                            w(&mut s, "\"\"");
                        }
                        w(&mut s, &quote(n));
                    }
                    (Some(p), n) => {
                        w(&mut s, &quote(p));
                        w(&mut s, &quote(n.as_deref().unwrap_or("")));
                    }
                }
            }
            Var::Price { cur, per_unit, pcur } => {
                w(&mut s, cur);
                w(&mut s, &per_unit.t);
                w(&mut s, pcur);
            }
            Var::Balance { acc, units, cur, tol } => {
                w(&mut s, acc);
                w(&mut s, &units.t);
                if let Some(t) = tol {
                    w(&mut s, "~");
                    w(&mut s, &t.t);
                }
                w(&mut s, cur);
            }
            Var::Open { acc, curs, booking } => {
                w(&mut s, acc);
                if !curs.is_empty() {
                    let j = if g.chance(30) { " , " } else { "," };
                    w(&mut s, &curs.join(j));
                }
                if let Some(b) = booking {
                    w(&mut s, &quote(b));
                }
            }
            Var::Close { acc } => w(&mut s, acc),
            Var::Commodity { cur } => w(&mut s, cur),
            Var::Pad { acc, source } => {
                w(&mut s, acc);
                w(&mut s, source);
            }
            Var::Document { acc, path } => {
                w(&mut s, acc);
                w(&mut s, &quote(path));
            }
            Var::Note { acc, comment } => {
                w(&mut s, acc);
                w(&mut s, &quote(comment));
            }
            Var::Event { typ, desc } => {
                w(&mut s, &quote(typ));
                w(&mut s, &quote(desc));
            }
            Var::Query { name, content } => {
                w(&mut s, &quote(name));
                w(&mut s, &quote(content));
            }
            Var::Custom { typ, values } => {
                w(&mut s, &quote(typ));
                for v in values {
                    w(&mut s, &v.text());
                }
            }
        }
        for t in &self.meta.htags {
            w(&mut s, &format!("#{t}"));
        }
        for l in &self.meta.hlinks {
            w(&mut s, &format!("^{l}"));
        }
        let eol = |s: &mut String, g: &mut G| {
            match g.n(12) {
                9 => s.push_str(" "),
                10 => s.push_str(" ; a comment: 1 USD"),
                11 => s.push_str("\t;"),
                _ => {}
            }
            s.push_str(nl);
        };
        eol(&mut s, &mut g);
        let indent = *g.pick(&["  ", "    ", "\t", " "]);
        let metalines = |s: &mut String, g: &mut G, m: &Meta, indent: &str| {
            for (k, v) in &m.kv {
                s.push_str(indent);
                s.push_str(k);
                s.push(':');
                let t = v.text();
                if !t.is_empty() {
                    s.push_str(sep);
                    s.push_str(&t);
                }
                eol(s, g);
            }
            for t in &m.tags {
                s.push_str(indent);
                s.push('#');
                s.push_str(t);
                eol(s, g);
            }
            for l in &m.links {
                s.push_str(indent);
                s.push('^');
                s.push_str(l);
                eol(s, g);
            }
        };
        metalines(&mut s, &mut g, &self.meta, indent);
        if let Var::Txn { postings, .. } = &self.var {
            let pindent = *g.pick(&["  ", "    ", "\t", " "]);
            for p in postings {
                s.push_str(pindent);
                let start = s.len();
                let t = p.text(&mut g, sep);
                s.push_str(&t);
                spans.push((start, s.len()));
                eol(&mut s, &mut g);
                let mi = if g.chance(50) { "    " } else { "\t\t" };
                metalines(&mut s, &mut g, &p.meta, mi);
            }
        }
        (s, spans)
    }
}

impl Opts {
    /// the option and plugin lines
    pub fn lines(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let mut o = |n: &str, x: &str| v.push(format!("option {} {}", quote(n), quote(x)));
        let ns = ["name_assets", "name_liabilities", "name_equity", "name_income", "name_expenses"];
        for (n, x) in ns.iter().zip(&self.names) {
            if let Some(x) = x {
                o(n, x);
            }
        }
        if let Some(t) = &self.title {
            o("title", t);
        }
        for (n, x) in &self.strs {
            o(n, x);
        }
        for (c, n) in &self.tol_default {
            o("inferred_tolerance_default", &format!("{}:{}", c, n.t));
        }
        if let Some(n) = &self.tol_mult {
            o("inferred_tolerance_multiplier", &n.t);
        }
        if let Some(b) = self.infer_from_cost {
            o("infer_tolerance_from_cost", if b { "TRUE" } else { "FALSE" });
        }
        for d in &self.documents {
            o("documents", d);
        }
        for c in &self.operating {
            o("operating_currency", c);
        }
        if let Some(b) = self.render_commas {
            o("render_commas", if b { "TRUE" } else { "FALSE" });
        }
        if let Some(b) = &self.booking {
            o("booking_method", b);
        }
        if let Some(b) = &self.plugin_mode {
            o("plugin_processing_mode", &b.to_uppercase());
        }
        for (m, c) in &self.plugins {
            v.push(match c {
                Some(c) => format!("plugin {} {}", quote(m), quote(c)),
                None => format!("plugin {}", quote(m)),
            });
        }
        v
    }
    pub fn json(&self, dir: &str) -> Value {
        let mut m = Map::new();
        let ns = ["name-assets", "name-liabilities", "name-equity", "name-income", "name-expenses"];
        let ds = ["Assets", "Liabilities", "Equity", "Income", "Expenses"];
        for i in 0..5 {
            m.insert(ns[i].into(), json!(self.names[i].as_deref().unwrap_or(ds[i])));
        }
        if let Some(t) = &self.title {
            m.insert("title".into(), json!(t));
        }
        for (n, x) in &self.strs {
            // account options are subaccounts of the equity account
            m.insert(n.replace('_', "-"), json!(x));
        }
        let mut defs = Map::new();
        for (c, n) in &self.tol_default {
            if c == "*" {
                m.insert("inferred-tolerance-default-fallback".into(), jnum(&n.v));
            } else {
                defs.insert(c.clone(), jnum(&n.v));
            }
        }
        if !defs.is_empty() {
            m.insert("inferred-tolerance-default".into(), Value::Object(defs));
        }
        if let Some(n) = &self.tol_mult {
            m.insert("inferred-tolerance-multiplier".into(), jnum(&n.v));
        }
        if let Some(b) = self.infer_from_cost {
            m.insert("infer-tolerance-from-cost".into(), json!(b));
        }
        if !self.documents.is_empty() {
            let mut d: Vec<String> = self
                .documents
                .iter()
                .map(|d| if d.starts_with('/') { d.clone() } else { format!("{dir}/{d}") })
                .collect();
            d.sort();
            m.insert("documents".into(), json!(d));
        }
        if !self.operating.is_empty() {
            let mut d = self.operating.clone();
            d.sort();
            m.insert("operating-currency".into(), json!(d));
        }
        if let Some(b) = self.render_commas {
            m.insert("render-commas".into(), json!(b));
        }
        if let Some(b) = &self.booking {
            m.insert("booking-method".into(), json!(booking_json(b)));
        }
        if let Some(b) = &self.plugin_mode {
            m.insert("plugin-processing-mode".into(), json!(b));
        }
        Value::Object(m)
    }
    pub fn plugins_json(&self) -> Value {
        Value::Array(self.plugins.iter().map(|(n, c)| json!({"name": n, "config": c})).collect())
    }
}

/// One chunk of a source file
#[derive(Clone, Debug)]
pub enum Item {
    Line(String),      // option, plugin, pragma, comment, blank, ignored heading
    D(usize),          // directive, index into Ledger.dirs
    Include(usize),    // file number
}

#[derive(Clone, Debug, Default)]
pub struct Ledger {
    pub opts: Opts,
    /// in file order (the order in which a reader following includes meets them)
    pub dirs: Vec<Dir>,
    /// files[0] is the root
    pub files: Vec<Vec<Item>>,
    /// path of each file relative to the root's directory
    pub paths: Vec<String>,
    pub crlf: bool,
    pub plain: bool,
    pub no_final_newline: bool,
}

#[derive(Clone, Debug)]
pub struct Loc {
    pub file: usize,
    pub start: usize,
    pub end: usize,
    pub start_line: usize,
    pub end_line: usize,
    pub text: String,
}

pub struct Rendered {
    pub texts: Vec<String>,
    /// per directive in file order
    pub dlocs: Vec<Loc>,
    pub plocs: Vec<Vec<Loc>>,
}

/// comments on lines of their own may be taken as part of what is before them
pub fn same_text(want: &str, got: &str) -> bool {
    got.strip_prefix(want).is_some_and(|rest| {
        let rest = rest.trim_start_matches([' ', '\t']);
        rest.is_empty() || rest.starts_with(['\n', '\r']) && rest.lines().all(|l| l.trim().is_empty() || l.trim_start().starts_with(';') || l.starts_with('*'))
    })
}

/// where the lines of a text begin
fn line_starts(text: &str) -> Vec<usize> {
    std::iter::once(0).chain(text.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1)).collect()
}

impl Ledger {
    /// indices of dirs in processing order
    pub fn order(&self) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.dirs.len()).collect();
        v.sort_by_key(|i| (self.dirs[*i].date, self.dirs[*i].rank()));
        v
    }
    pub fn sorted(&self) -> Vec<Dir> {
        self.order().into_iter().map(|i| self.dirs[i].clone()).collect()
    }
    pub fn render(&self) -> Rendered {
        let nl = if self.crlf { "\r\n" } else { "\n" };
        let dummy = Loc { file: 0, start: 0, end: 0, start_line: 0, end_line: 0, text: String::new() };
        let mut dlocs = vec![dummy; self.dirs.len()];
        let mut plocs = vec![vec![]; self.dirs.len()];
        let mut texts = vec![];
        for (fi, items) in self.files.iter().enumerate() {
            let mut s = String::new();
            let mut raw: Vec<(usize, usize, usize, Vec<(usize, usize)>)> = vec![];
            for it in items {
                match it {
                    Item::Line(l) => {
                        s.push_str(l);
                        s.push_str(nl);
                    }
                    Item::Include(f) => {
                        // relative to the including file's directory
                        let here = std::path::Path::new(&self.paths[fi]).parent().unwrap();
                        let there = std::path::Path::new(&self.paths[*f]);
                        let rel = there.strip_prefix(here).map(|p| p.to_string_lossy().to_string()).unwrap_or_else(|_| {
                            let ups = here.components().count();
                            format!("{}{}", "../".repeat(ups), self.paths[*f])
                        });
                        s.push_str(&format!("include {}{}", quote(&rel), nl));
                    }
                    Item::D(i) => {
                        let (t, ps) = self.dirs[*i].text(self.plain, self.crlf);
                        let st = s.len();
                        s.push_str(&t);
                        raw.push((*i, st, s.len(), ps.iter().map(|(a, b)| (st + a, st + b)).collect()));
                    }
                }
            }
            // a heading needs its newline, and a comment is part of what is before it only if followed by one
            let last = s.trim_end_matches(['\n', '\r']).rsplit('\n').next().unwrap_or("");
            if self.no_final_newline && fi == 0 && !last.trim().is_empty() && !last.contains(';') && !last.starts_with('*') {
                while s.ends_with('\n') || s.ends_with('\r') {
                    s.pop();
                }
            }
            let starts = line_starts(&s);
            let line_of = |at: usize| starts.partition_point(|start| *start <= at);
            for (i, st, en, ps) in raw {
                let en = en.min(s.len());
                let mk = |a: usize, b: usize| {
                    let b = b.min(s.len());
                    let t = s[a..b].trim_end();
                    Loc {
                        file: fi,
                        start: a,
                        end: b,
                        start_line: line_of(a),
                        end_line: line_of(a + t.len()),
                        text: t.to_string(),
                    }
                };
                dlocs[i] = mk(st, en);
                plocs[i] = ps.iter().map(|(a, b)| mk(*a, *b)).collect();
            }
            texts.push(s);
        }
        Rendered { texts, dlocs, plocs }
    }
}
