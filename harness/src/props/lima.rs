//! What the parser finds in a text, asked of the parser itself, against what the pod says of it.
use super::common::*;
use super::book::PROFILES;
use super::rpc::{known_crash, mutate, pick, TOKENS};
use crate::compare::*;
use crate::genes::{Case, G};
use crate::pod::*;
use crate::runner::*;
use beancount_parser_lima as lp;
use lp::Report as _;
use serde_json::{json, Map, Value};
use std::cell::Cell;
use std::panic::AssertUnwindSafe;
use std::path::Path;
use std::sync::Once;

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// the value, or nothing where the parser panics (silently)
pub fn quietly<T>(f: impl FnOnce() -> T) -> Option<T> {
    static HOOK: Once = Once::new();
    HOOK.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if !QUIET.with(|q| q.get()) {
                old(i)
            }
        }));
    });
    QUIET.with(|q| q.set(true));
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    r.ok()
}

#[derive(Clone, Debug)]
pub struct Accepted {
    pub directives: Vec<Value>,
    pub options: Value,
    pub plugins: Value,
}

#[derive(Clone, Debug)]
pub struct Seen {
    pub result: Result<Accepted, Vec<Value>>,
    /// the reports of the errors for people, all and one by one
    pub text: Vec<String>,
    /// spans met, and what is there
    pub places: Vec<(Value, Value)>,
}

fn date(d: &time::Date) -> Value {
    json!(crate::ast::date_str(*d))
}
fn num(e: &lp::ExprValue) -> Value {
    crate::ast::jnum(&e.value())
}
fn span(s: lp::Span) -> Value {
    json!([s.source, s.start, s.end])
}
fn s<'a, T>(x: &'a T) -> Value
where
    &'a str: From<&'a T>,
{
    json!(<&'a str>::from(x))
}

fn flag(f: &lp::Flag) -> Value {
    json!(match f {
        lp::Flag::Asterisk => "*".to_string(),
        lp::Flag::Exclamation => "!".into(),
        lp::Flag::Ampersand => "&".into(),
        lp::Flag::Hash => "#".into(),
        lp::Flag::Question => "?".into(),
        lp::Flag::Percent => "%".into(),
        lp::Flag::Letter(l) => format!("'{}", l.char()),
    })
}

fn booking(b: lp::Booking) -> Value {
    json!(match b {
        lp::Booking::Strict => "strict",
        lp::Booking::StrictWithSize => "strict-with-size",
        lp::Booking::None => "none",
        lp::Booking::Average => "average",
        lp::Booking::Fifo => "fifo",
        lp::Booking::Lifo => "lifo",
        lp::Booking::Hifo => "hifo",
    })
}

fn meta_value(v: &lp::MetaValue) -> Value {
    use lp::SimpleValue as S;
    match v {
        lp::MetaValue::Amount(a) => json!({"units": num(a.number().item()), "cur": s(a.currency().item())}),
        lp::MetaValue::Simple(v) => match v {
            S::String(x) => json!({ "string": x }),
            S::Currency(x) => json!({"cur": s(x)}),
            S::Account(x) => json!({"acc": x.to_string()}),
            S::Tag(x) => json!({"tag": s(x)}),
            S::Link(x) => json!({"link": s(x)}),
            S::Date(x) => json!({"date": date(x)}),
            S::Bool(x) => json!({ "bool": x }),
            S::Expr(x) => json!({"number": num(x)}),
            S::Null => Value::Null,
        },
    }
}

fn put_meta(m: &mut Map<String, Value>, x: &lp::Metadata) {
    let mut t: Vec<String> = x.tags().map(|t| <&str>::from(t.item()).to_string()).collect();
    t.sort();
    if !t.is_empty() {
        m.insert("tags".into(), json!(t));
    }
    let mut t: Vec<String> = x.links().map(|t| <&str>::from(t.item()).to_string()).collect();
    t.sort();
    if !t.is_empty() {
        m.insert("links".into(), json!(t));
    }
    let kv: Map<String, Value> = x.key_values().map(|(k, v)| (<&str>::from(k.item()).to_string(), meta_value(v.item()))).collect();
    if !kv.is_empty() {
        m.insert("metadata".into(), Value::Object(kv));
    }
}

fn cost(c: &lp::CostSpec) -> Value {
    let mut m = Map::new();
    let mut put = |k: &str, v: Option<Value>| {
        if let Some(v) = v {
            m.insert(k.into(), v);
        }
    };
    put("per-unit", c.per_unit().map(|x| num(x.item())));
    put("total", c.total().map(|x| num(x.item())));
    put("cur", c.currency().map(|x| s(x.item())));
    put("date", c.date().map(|x| date(x.item())));
    put("label", c.label().map(|x| json!(x.item())));
    put("merge", c.merge().then_some(json!(true)));
    Value::Object(m)
}

fn price(p: &lp::PriceSpec) -> Value {
    use lp::PriceSpec as P;
    use lp::ScopedExprValue as E;
    let e = |e: &E| match e {
        E::PerUnit(x) => ("per-unit", num(x)),
        E::Total(x) => ("total", num(x)),
    };
    let mut m = Map::new();
    match p {
        P::Unspecified => (),
        P::BareCurrency(c) => {
            m.insert("cur".into(), s(c));
        }
        P::BareAmount(a) => {
            let (k, v) = e(a);
            m.insert(k.into(), v);
        }
        P::CurrencyAmount(a, c) => {
            let (k, v) = e(a);
            m.insert(k.into(), v);
            m.insert("cur".into(), s(c));
        }
    }
    Value::Object(m)
}

fn posting(p: &lp::Spanned<lp::Posting>) -> Value {
    let mut m = Map::new();
    m.insert("span".into(), span(*p.span()));
    let mut put = |k: &str, v: Option<Value>| {
        if let Some(v) = v {
            m.insert(k.into(), v);
        }
    };
    put("flag", p.flag().map(|x| flag(x.item())));
    put("acc", Some(json!(p.account().item().to_string())));
    put("units", p.amount().map(|x| num(x.item())));
    put("cur", p.currency().map(|x| s(x.item())));
    put("cost-spec", p.cost_spec().map(|x| cost(x.item())));
    put("price-spec", p.price_annotation().map(|x| price(x.item())));
    put_meta(&mut m, p.metadata());
    Value::Object(m)
}

fn directive(d: &lp::Spanned<lp::Directive>) -> Value {
    use lp::DirectiveVariant as D;
    let mut m = Map::new();
    m.insert("span".into(), span(*d.span()));
    m.insert("date".into(), date(d.date().item()));
    let acc = |a: &lp::Spanned<lp::Account>| json!(a.item().to_string());
    let mut put = |k: &str, v: Value| m.insert(k.into(), v);
    let kind = match d.variant() {
        D::Transaction(t) => {
            put("flag", flag(t.flag().item()));
            if let Some(x) = t.payee() {
                put("payee", json!(x.item()));
            }
            if let Some(x) = t.narration() {
                put("narration", json!(x.item()));
            }
            put("postings", Value::Array(t.postings().map(posting).collect()));
            "txn"
        }
        D::Price(p) => {
            put("cur", s(p.currency().item()));
            let a = p.amount();
            put("price", json!({"per-unit": num(a.number().item()), "cur": s(a.currency().item())}));
            "price"
        }
        D::Balance(b) => {
            put("acc", acc(b.account()));
            let a = b.atol().amount();
            put("units", num(a.number().item()));
            put("cur", s(a.currency().item()));
            if let Some(t) = b.atol().tolerance() {
                put("tolerance", crate::ast::jnum(t.item()));
            }
            "balance"
        }
        D::Open(o) => {
            put("acc", acc(o.account()));
            let mut c: Vec<String> = o.currencies().map(|c| c.item().to_string()).collect();
            c.sort();
            c.dedup();
            if !c.is_empty() {
                put("currencies", json!(c));
            }
            if let Some(b) = o.booking() {
                put("booking", booking(*b.item()));
            }
            "open"
        }
        D::Close(c) => {
            put("acc", acc(c.account()));
            "close"
        }
        D::Commodity(c) => {
            put("cur", s(c.currency().item()));
            "commodity"
        }
        D::Pad(p) => {
            put("acc", acc(p.account()));
            put("source", acc(p.source()));
            "pad"
        }
        D::Document(x) => {
            put("acc", acc(x.account()));
            put("path", json!(x.path().item()));
            "document"
        }
        D::Note(x) => {
            put("acc", acc(x.account()));
            put("comment", json!(x.comment().item()));
            "note"
        }
        D::Event(x) => {
            put("type", json!(x.event_type().item()));
            put("description", json!(x.description().item()));
            "event"
        }
        D::Query(x) => {
            put("name", json!(x.name().item()));
            put("content", json!(x.content().item()));
            "query"
        }
        D::Custom(x) => {
            put("type", json!(x.type_().item()));
            put("values", Value::Array(x.values().map(|v| meta_value(v.item())).collect()));
            "custom"
        }
    };
    put("dct", json!(kind));
    put_meta(&mut m, d.metadata());
    Value::Object(m)
}

fn options(o: &lp::Options) -> Value {
    use lp::AccountType as A;
    let mut m = Map::new();
    for (k, a) in [("name-assets", A::Assets), ("name-liabilities", A::Liabilities), ("name-equity", A::Equity), ("name-income", A::Income), ("name-expenses", A::Expenses)] {
        m.insert(k.into(), json!(o.account_type_name(a).to_string()));
    }
    let mut put = |k: &str, v: Option<Value>| {
        if let Some(v) = v {
            m.insert(k.into(), v);
        }
    };
    put("title", o.title().map(|x| json!(x.item())));
    put("account-previous-balances", o.account_previous_balances().map(|x| json!(x.item().to_string())));
    put("account-previous-earnings", o.account_previous_earnings().map(|x| json!(x.item().to_string())));
    put("account-previous-conversions", o.account_previous_conversions().map(|x| json!(x.item().to_string())));
    put("account-current-earnings", o.account_current_earnings().map(|x| json!(x.item().to_string())));
    put("account-current-conversions", o.account_current_conversions().map(|x| json!(x.item().to_string())));
    put("account-unrealized-gains", o.account_unrealized_gains().map(|x| json!(x.item().to_string())));
    put("account-rounding", o.account_rounding().map(|x| json!(x.item().to_string())));
    put("conversion-currency", o.conversion_currency().map(|x| s(x.item())));
    let mut defaults = Map::new();
    let mut fallback = None;
    for (c, t) in o.inferred_tolerance_defaults() {
        match c {
            Some(c) => {
                defaults.insert(c.to_string(), crate::ast::jnum(&t));
            }
            None => fallback = Some(crate::ast::jnum(&t)),
        }
    }
    put("inferred-tolerance-default", (!defaults.is_empty()).then_some(Value::Object(defaults)));
    put("inferred-tolerance-default-fallback", fallback);
    put("inferred-tolerance-multiplier", o.inferred_tolerance_multiplier().map(|x| crate::ast::jnum(x.item())));
    put("infer-tolerance-from-cost", o.infer_tolerance_from_cost().map(|x| json!(x.item())));
    let sorted = |mut v: Vec<String>| {
        v.sort();
        v.dedup();
        (!v.is_empty()).then_some(json!(v))
    };
    put("documents", sorted(o.documents().map(|p| p.to_string_lossy().to_string()).collect()));
    put("operating-currency", sorted(o.operating_currency().map(|c| c.to_string()).collect()));
    put("render-commas", o.render_commas().map(|x| json!(x.item())));
    put("booking-method", o.booking_method().map(|x| booking(*x.item())));
    put(
        "plugin-processing-mode",
        o.plugin_processing_mode().map(|x| {
            json!(match x.item() {
                lp::PluginProcessingMode::Default => "default",
                lp::PluginProcessingMode::Raw => "raw",
            })
        }),
    );
    Value::Object(m)
}

fn report(e: &lp::Error) -> Value {
    let mut v = json!({"message": e.message(), "reason": e.reason(), "span": span(e.span())});
    let c: Vec<Value> = e.contexts().map(|(c, x)| json!([c, span(x)])).collect();
    if !c.is_empty() {
        v["contexts"] = Value::Array(c);
    }
    let c: Vec<Value> = e.related().map(|(c, x)| json!([c, span(x)])).collect();
    if !c.is_empty() {
        v["related"] = Value::Array(c);
    }
    v
}

fn spans_of(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                if k == "span" {
                    out.push(x.clone());
                } else if k == "contexts" || k == "related" {
                    out.extend(x.as_array().into_iter().flatten().map(|c| c[1].clone()));
                } else if k == "postings" {
                    spans_of(x, out);
                }
            }
        }
        Value::Array(a) => a.iter().for_each(|x| spans_of(x, out)),
        _ => (),
    }
}

/// the parser's own view of the ledger; nothing where it panics or cannot read it
pub fn observe(root: &Path) -> Option<Seen> {
    quietly(|| {
        let sources = lp::BeancountSources::try_from(root).ok()?;
        let parser = lp::BeancountParser::new(&sources);
        let syn = lp::SyntheticSources::new(&sources);
        let parsed = parser.parse();
        let mut text = vec![];
        let result = match parsed {
            Ok(p) => Ok(Accepted {
                directives: p.directives.iter().map(directive).collect(),
                options: options(&p.options),
                plugins: Value::Array(p.plugins.iter().map(|p| json!({"name": p.module_name().item(), "config": p.config().map(|c| c.item())})).collect()),
            }),
            Err(p) => {
                for e in &p.errors {
                    let mut b = vec![];
                    syn.write_report::<_, lp::types::ErrorKind, _>(&mut b, e).ok()?;
                    text.push(String::from_utf8_lossy(&b).to_string());
                }
                Err(p.errors.iter().map(report).collect::<Vec<_>>())
            }
        };
        let mut spans = vec![];
        match &result {
            Ok(a) => a.directives.iter().for_each(|d| spans_of(d, &mut spans)),
            Err(r) => r.iter().for_each(|d| spans_of(d, &mut spans)),
        }
        spans.sort_by_key(|s| s.to_string());
        spans.dedup();
        let places = spans
            .into_iter()
            .map(|s| {
                let n = |i: usize| s[i].as_u64().unwrap_or(0) as usize;
                let r = syn.resolve_span(&lp::Span { source: n(0), start: n(1), end: n(2) });
                let mut v = json!({"start-line": r.start_line, "end-line": r.end_line, "content": r.content});
                if let Some(f) = r.file_name {
                    v["file-name"] = json!(f);
                }
                (s, v)
            })
            .collect();
        Some(Seen { result, text, places })
    })
    .flatten()
}

/// the same value, whatever order sets are in
fn norm(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            ks.sort();
            Value::Object(
                ks.into_iter()
                    .map(|k| {
                        let mut x = norm(&m[k]);
                        if ["tags", "links", "currencies", "documents", "operating-currency"].contains(&k.as_str()) {
                            if let Value::Array(a) = &mut x {
                                a.sort_by_key(|v| v.to_string());
                            }
                        }
                        (k.clone(), x)
                    })
                    .collect(),
            )
        }
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        Value::Number(n) => {
            // a zero has no sign
            let t = n.to_string();
            if t.starts_with('-') && t.chars().all(|c| "-0.".contains(c)) {
                return serde_json::from_str(&t[1..]).unwrap_or(v.clone());
            }
            v.clone()
        }
        v => v.clone(),
    }
}

const CORPUS: &str = include_str!("../corpus.txt");
pub fn corpus() -> Vec<&'static str> {
    CORPUS.split("=====\n").collect()
}

/// lines that are in order, or nearly
const LINES: &[&str] = &[
    "2020-01-01 query \"cash\" \"SELECT account WHERE x ~ 'y'\"",
    "2020-03-04 custom \"budget\" Assets:Bank \"weekly\" 1.50 USD TRUE -3 USD 2020-02-29 NULL",
    "2020-03-04 custom \"c\" #tag ^link EUR (1+2)*3 USD",
    "2020-03-04 custom \"c\"",
    "pushtag #trip",
    "poptag #trip",
    "pushmeta place: \"here\"",
    "popmeta place:",
    "pushmeta nn: 5",
    "popmeta nn:",
    "option \"title\" \"A title\"",
    "option \"operating_currency\" \"USD\"",
    "option \"operating_currency\" \"GBP\"",
    "option \"inferred_tolerance_default\" \"USD:0.01\"",
    "option \"inferred_tolerance_default\" \"*:0.1\"",
    "option \"inferred_tolerance_multiplier\" \"1.2\"",
    "option \"account_rounding\" \"Rounding\"",
    "option \"conversion_currency\" \"NOTHING\"",
    "option \"render_commas\" \"TRUE\"",
    "option \"booking_method\" \"STRICT_WITH_SIZE\"",
    "option \"plugin_processing_mode\" \"RAW\"",
    "option \"long_string_maxlines\" \"2\"",
    "option \"infer_tolerance_from_cost\" \"TRUE\"",
    "option \"documents\" \"docs\"",
    "option \"name_assets\" \"Wealth\"",
    "plugin \"a.b\"",
    "plugin \"a.b\" \"{'x': 1}\"",
    "plugin \"limabean.auto\" \"\"",
    "include \"other.beancount\"",
    "2021-05-06 * \"payee\" \"narration\" #a #b ^c",
    "2021-05-06 ! \"only\"",
    "2021-05-06 txn",
    "2021-05-06 'P \"flagged\"",
    "2021-05-06 & \"\" \"\"",
    "  Assets:Bank  -10.00 USD",
    "  Assets:Bank",
    "  ! Assets:Bank  10 USD @ 2 EUR",
    "  'S Assets:Broker  10 HOOL {5.00 USD, 2020-01-01, \"lot\", *} @@ 60 USD",
    "  Assets:Broker  -10 HOOL {}",
    "  Assets:Broker  -10 HOOL {# 5 USD}",
    "  Assets:Broker  -10 HOOL {1 # 5 USD}",
    "  Assets:Broker  HOOL {USD} @ EUR",
    "  Assets:Broker  5 @",
    "  Assets:Broker  USD",
    "  Assets:Broker  (4 / 3 - 1) * -2.5 USD",
    "  Assets:Bank  1,234,567.89 USD",
    "    key: \"value\"",
    "    key: 5 USD",
    "    key: 5",
    "    key: Assets:Bank",
    "    key: USD",
    "    key: TRUE",
    "    key: 2020-01-01",
    "    key: #tag",
    "    key: ^link",
    "    key: NULL",
    "    key:",
    "  #tag",
    "  ^link",
    "2020-01-01 open Assets:Bank USD,EUR \"FIFO\"",
    "2020-01-01 open Assets:Bank USD , USD",
    "2020-01-01 open Assets:Broker \"HIFO\"",
    "2020-01-01 open Assets:Élan:日本",
    "2020-12-31 close Assets:Bank",
    "2020/06/01 balance Assets:Bank 5 ~ 0.01 USD",
    "2020-06-01 balance Assets:Bank -5*2 USD",
    "2020-05-01 pad Assets:Bank Equity:Opening",
    "2020-05-01 price HOOL 10.50 USD",
    "2020-05-01 commodity HOOL",
    "2020-05-01 note Assets:Bank \"a note\" #t ^l",
    "2020-05-01 document Assets:Bank \"/a/b.pdf\"",
    "2020-05-01 event \"place\" \"somewhere\"",
    "2020-02-29 commodity USD ; comment",
    "; comment",
    "* heading",
    "   ",
    "\t",
];

const WRONG: &[&str] = &[
    "option \"render_commas\" \"maybe\"",
    "option \"booking_method\" \"SOME\"",
    "option \"no such option\" \"1\"",
    "option \"name_income\" \"bad\"",
    "include \"missing.beancount\"",
    "2020-01-01 open Assets:Broker \"sometimes\"",
    "2020-01-01 open Nowhere:Bank",
    "2020-02-30 open Assets:Bank",
    "popmeta xx:",
    "poptag #never",
    "pushtag #left",
];

/// an insertion that keeps the text well-formed, mostly
fn insert(g: &mut G, t: &mut Vec<u8>) {
    let mut ls = lines_of(t);
    let new = g.pick(LINES);
    let inner = new.starts_with([' ', '\t']);
    let posting = inner && !new.starts_with("    ");
    // below a transaction or another indented line; or before a line that is not indented
    let ok: Vec<usize> = (0..=ls.len())
        .filter(|i| {
            let text = |k: usize| String::from_utf8_lossy(&ls[k]).to_string();
            if inner {
                *i > 0 && {
                    let l = text(*i - 1);
                    let txn = l.starts_with(|c: char| c.is_ascii_digit()) && (l.contains('*') || l.contains(" txn") || l.contains(" ! "));
                    txn || l.starts_with([' ', '\t']) && !l.trim().is_empty() && (!posting || !l.contains('\"'))
                        || !posting && l.starts_with(|c: char| c.is_ascii_digit())
                }
            } else {
                *i == ls.len() || !text(*i).starts_with([' ', '\t']) && text(*i).trim().len() > 1
            }
        })
        .collect();
    if !ok.is_empty() {
        let i = *g.pick(&ok);
        ls.insert(i, format!("{new}\n").into_bytes());
    }
    *t = ls.concat();
}

/// other blanks and comments
fn respace(g: &mut G, t: &mut Vec<u8>) {
    let mut ls = lines_of(t);
    if ls.is_empty() {
        return;
    }
    let at = g.n(ls.len());
    let l = String::from_utf8_lossy(&ls[at]).to_string();
    let r = *g.pick(&["  ", "\t", " \t "]);
    ls[at] = match g.n(5) {
        0 => l.replace(' ', r),
        1 => l.replace('\n', "\r\n"),
        2 => l.replace('\n', "  ; c\n"),
        3 => l.replace('\n', " \n"),
        _ => format!("{}{l}", g.pick(&["; comment\n", "\n", "* heading\n", "  ; c\n", "\n\n"])),
    }
    .into_bytes();
    *t = ls.concat();
}

/// a number, date, word or string for another
fn reword(g: &mut G, t: &mut Vec<u8>) {
    let s = String::from_utf8_lossy(t).to_string();
    let kinds: [(&str, &[&str]); 6] = [
        (r"\b\d+(\.\d+)?\b", &["0", "0.00", "1", "12345678901234567890.12", "0.000000000001", "3.0", "1,000", "007"]),
        (r"\b\d{4}[-/]\d\d[-/]\d\d\b", &["2020-02-29", "0001-01-01", "9999-12-31", "2020/01/31", "1970-01-01"]),
        (r"\b[A-Z]{2,4}\b", &["EUR", "A", "X.Y-Z'1", "/ESM24", "USD", "TRUE", "NULL", "ABCDEFGHIJKLMNOPQRSTUVWX"]),
        (r#""[^"\n]*""#, &["\"\"", "\"é日😀\"", "\"\\\"q\\\" \\\\ \\n\\t\"", "\"two\nlines\"", "\"  \"", "\"; #x\"", "\"1 USD\"", "\"words and words and words and words and words and words and words and words and words and words and words and words and words and words and words and words\""]),
        (r"\b[A-Z]\w+(:[A-Z]\w*)+", &["Assets:Bank", "Assets:B:C:D", "Assets:Élan:日本", "Expenses:1:2", "Liabilities:A-b", "Assets:Bank:A:B:C:D:E:F:G:H:I:J:K", "Assets:A-Name-That-Goes-On-For-A-Good-While-Longer-Than-Anybody-Would-Think-Of-Typing"]),
        (r"(?m)^\s+[a-z][a-zA-Z0-9_-]+:", &["  aa:", "    k-1_x:", "  lineno:", "    filename:", "  a-key-that-goes-on-for-a-good-while-longer-than-anybody-would-think-of-typing:"]),
    ];
    let (re, by) = g.pick(&kinds);
    let re = regex::Regex::new(re).unwrap();
    let all: Vec<_> = re.find_iter(&s).map(|m| m.range()).collect();
    if all.is_empty() {
        return;
    }
    let r = g.pick(&all).clone();
    let mut o = s;
    o.replace_range(r, g.pick(by));
    *t = o.into_bytes();
}

fn lines_of(t: &[u8]) -> Vec<Vec<u8>> {
    t.split_inclusive(|b| *b == b'\n').map(|l| l.to_vec()).collect()
}

/// changes that leave lines whole
fn rearrange(g: &mut G, t: &mut Vec<u8>, corpus: &[&str]) {
    let mut ls = lines_of(t);
    let at = g.n(ls.len() + 1);
    match g.n(7) {
        0..=2 => {
            let l = if g.chance(30) { g.pick(WRONG) } else { g.pick(LINES) };
            ls.insert(at, format!("{l}\n").into_bytes())
        }
        3 => {
            // some lines of another text
            let c: Vec<&str> = g.pick(corpus).split_inclusive('\n').collect();
            let i = g.n(c.len());
            let n = 1 + g.n(6);
            for (k, x) in c[i..(i + n).min(c.len())].iter().enumerate() {
                ls.insert(at + k, x.as_bytes().to_vec());
            }
        }
        4 if at < ls.len() => {
            ls.remove(at);
        }
        5 if at < ls.len() => {
            let l = ls[at].clone();
            let j = g.n(ls.len() + 1);
            ls.insert(j, l);
        }
        _ if at < ls.len() => {
            // one word for another
            let l = String::from_utf8_lossy(&ls[at]).to_string();
            let mut w: Vec<&str> = l.split_inclusive(' ').collect();
            if w.len() > 1 {
                let i = g.n(w.len() - 1);
                let t = format!("{} ", g.pick(TOKENS));
                w[i] = &t;
                ls[at] = w.concat().into_bytes();
            }
        }
        _ => ls.push(format!("{}\n", g.pick(LINES)).into_bytes()),
    }
    *t = ls.concat();
}

/// an include of everything there is would not come to an end
pub fn risky(t: &[u8]) -> bool {
    String::from_utf8_lossy(t).lines().any(|l| l.contains("include") && (l.contains('*') || l.contains('?') || l.contains('[') || l.contains("\"/") || l.contains("..")))
}

/// how many faults booking of the text has, as far as can be said
fn faults(t: &[u8]) -> Option<usize> {
    let t = std::str::from_utf8(t).ok()?;
    quietly(|| {
        let sources = lp::BeancountSources::from(t);
        let parser = lp::BeancountParser::new(&sources);
        let p = parser.parse().ok()?;
        let dirs = p.directives.iter().map(|d| to_dir(&directive(d))).collect::<Option<Vec<_>>>()?;
        let m = crate::model::Model::run(&to_opts(&options(&p.options))?, &dirs);
        // (accounts that were never opened may be opened later on)
        Some(m.faults.iter().filter(|f| !f.reasons.iter().any(|r| r == "account not open")).count())
    })?
}

/// whether the parser accepts the text on its own
fn accepts(t: &[u8]) -> bool {
    let Ok(t) = std::str::from_utf8(t) else { return false };
    t.bytes().filter(|b| *b == b'(').count() < 60 && quietly(|| lp::BeancountParser::new(&lp::BeancountSources::from(t)).parse().is_ok()) == Some(true)
}

/// texts: of the ledger generator or the corpus, rearranged or damaged
pub fn texts(case: &Case, damage: [u32; 5], book: bool) -> Option<(Vec<String>, Vec<Vec<u8>>)> {
    let half = case.ops.len() / 2;
    let (b, ex) = pick(case, &PROFILES.c22, half);
    let mut g = G::new(&ex[1..]);
    let all = corpus();
    let (paths, mut ts) = if g.chance(45) {
        let mut p = vec!["main.beancount".to_string()];
        let mut t = vec![g.pick(&all).as_bytes().to_vec()];
        let mut tries = 0;
        while damage[0] > 20 && tries < 6 && !accepts(&t[0]) {
            tries += 1;
            t = vec![g.pick(&all).as_bytes().to_vec()];
        }
        if g.chance(30) {
            p.push("other.beancount".into());
            let mut x = b"include \"other.beancount\"\n".to_vec();
            x.extend_from_slice(&t[0]);
            t[0] = x;
            t.push(g.pick(&all).as_bytes().to_vec());
        }
        (p, t)
    } else {
        let r = b.ledger.render();
        (b.ledger.paths.clone(), r.texts.into_iter().map(|t| t.into_bytes()).collect())
    };
    for t in &case.ops[half..] {
        let mut g = G::new(t);
        let f = g.n(ts.len());
        // (where it is to be accepted, a change to that end is taken back)
        let before = (damage[0] > 20 && !ts[f].windows(7).any(|w| w == b"include") && accepts(&ts[f])).then(|| ts[f].clone());
        match g.weighted(&[damage[0], damage[1], damage[2], damage[3], damage[4]]) {
            0 => insert(&mut g, &mut ts[f]),
            1 => respace(&mut g, &mut ts[f]),
            2 => reword(&mut g, &mut ts[f]),
            3 => rearrange(&mut g, &mut ts[f], &all),
            _ => mutate(&mut g, &mut ts[f]),
        }
        if let Some(b) = before {
            if !accepts(&ts[f]) || book && g.chance(80) && faults(&ts[f]) > faults(&b) {
                ts[f] = b;
            }
        }
    }
    if ts.iter().any(|t| risky(t)) {
        return None;
    }
    // (a stack overflow in the parser is a known finding, and would take this program with it)
    if ts.iter().any(|t| t.iter().filter(|b| **b == b'(').count() > 60) {
        return None;
    }
    Some((paths, ts))
}

fn write(w: &mut Worker, paths: &[String], ts: &[Vec<u8>]) -> Result<std::path::PathBuf, HarnessError> {
    let dir = w.fresh();
    for (p, t) in paths.iter().zip(ts) {
        let f = dir.join(p);
        std::fs::create_dir_all(f.parent().unwrap()).map_err(|e| HarnessError(e.to_string()))?;
        std::fs::write(&f, t).map_err(|e| HarnessError(e.to_string()))?;
    }
    Ok(dir.join(&paths[0]))
}

fn multiset(v: &[Value]) -> Vec<String> {
    let mut x: Vec<String> = v.iter().map(|r| norm(r).to_string()).collect();
    x.sort();
    x
}

/// differences between what the parser saw and what the pod answered (directives, options, plugins)
fn differences(seen: &Seen, r: &[Value], ordered: bool) -> Vec<Disc> {
    let mut out = vec![];
    match &seen.result {
        Ok(a) => {
            let d = &r[0]["result"]["directives"];
            match d.as_array() {
                None => out.push(disc("accepted", format!("directives are {}", short(&r[0])))),
                Some(ds) => {
                    if ds.len() != a.directives.len() {
                        out.push(disc("directives", format!("{} directives instead of {}", ds.len(), a.directives.len())));
                    }
                    for (i, (x, y)) in ds.iter().zip(&a.directives).enumerate() {
                        if norm(x) != norm(y) {
                            out.push(disc("directives", format!("directive {i} is {} instead of {}", norm(x), norm(y))));
                            break;
                        }
                    }
                }
            }
            if norm(&r[1]["result"]) != norm(&a.options) {
                out.push(disc("options", format!("options are {} instead of {}", norm(&r[1]), norm(&a.options))));
            }
            if norm(&r[2]["result"]) != norm(&a.plugins) {
                out.push(disc("plugins", format!("plugins are {} instead of {}", r[2], a.plugins)));
            }
        }
        Err(es) => {
            for (k, m) in [(0, "parser.directives"), (1, "parser.options"), (2, "parser.plugins"), (3, "book")] {
                let e = &r[k]["error"];
                if e["code"] != 2 {
                    out.push(disc("code", format!("{m} answers {}", short(&r[k]))));
                    continue;
                }
                let got = e["data"].as_array().cloned().unwrap_or_default();
                if got.len() != es.len() {
                    out.push(disc("count", format!("{m}: {} reports instead of {}: {} instead of {}", got.len(), es.len(), short(&e["data"]), short(&json!(es)))));
                    continue;
                }
                let same = if ordered { got.iter().zip(es).all(|(a, b)| norm(a) == norm(b)) } else { multiset(&got) == multiset(es) };
                if !same {
                    let (a, b) = got.iter().zip(es).find(|(a, b)| norm(a) != norm(b)).unwrap_or((&got[0], &es[0]));
                    out.push(disc("report", format!("{m}: {a} instead of {b}")));
                }
            }
        }
    }
    out
}

fn strip(t: &str) -> String {
    regex::Regex::new("\x1b\\[[0-9;]*m").unwrap().replace_all(t, "").to_string()
}

fn lima(case: &Case, w: &mut Worker, refused: bool) -> Result<Eval, HarnessError> {
    let Some((paths, ts)) = texts(case, if refused { [10, 5, 5, 30, 50] } else { [40, 18, 22, 14, 6] }, false) else {
        return Ok(Eval::discard("include beyond the scratch directory, or very deep nesting"));
    };
    let root = write(w, &paths, &ts)?;
    let mut ev = Eval { key: hash_of(&ts), ..Eval::default() };
    let files: Vec<Value> = paths.iter().zip(&ts).map(|(p, t)| json!([p, String::from_utf8_lossy(t)])).collect();
    ev.detail = json!({ "files": files });
    ev.sample = json!({"ledger": String::from_utf8_lossy(&ts[0]).chars().take(500).collect::<String>()});
    let Some(seen) = observe(&root) else {
        return Ok(Eval::discard("the parser itself cannot read it, or panics"));
    };
    let empty = vec![];
    let (spans, places): (Vec<Value>, Vec<Value>) = seen.places.iter().cloned().unzip();
    let errors = seen.result.as_ref().err().unwrap_or(&empty);
    let reqs = [
        req(0, "parser.directives", None),
        req(1, "parser.options", None),
        req(2, "parser.plugins", None),
        req(3, "book", None),
        req(4, "parser.resolve-spans", Some(Value::Array(spans))),
        req(5, "parser.format-errors", Some(Value::Array(errors.clone()))),
    ];
    let lines: Vec<Vec<u8>> = reqs.iter().map(line).collect();
    let out = w.serve(&root, &lines)?;
    if out.code == Some(101) && known_crash(&out) {
        return Ok(Eval::discard("crash of a known finding, by its call site"));
    }
    let r = match responses(&out, lines.len()) {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) => v,
    };
    match &seen.result {
        Ok(a) => {
            ev.hit("accepted");
            ev.nontrivial = !refused && a.directives.len() > 1;
        }
        Err(es) => {
            ev.hit("refused");
            ev.nontrivial = refused;
            for e in es {
                ev.hit("reports");
                if es.len() > 1 {
                    ev.hit("reports beside others");
                }
                if e.get("contexts").is_some() {
                    ev.hit("contexts");
                }
                if e["contexts"].as_array().is_some_and(|a| a.len() > 1) {
                    ev.hit("several contexts");
                }
                if e.get("related").is_some() {
                    ev.hit("related");
                }
            }
        }
    }
    // either outcome is judged by one property only
    if seen.result.is_err() != refused {
        ev.bad.clear();
        ev.nontrivial = false;
        return Ok(ev);
    }
    let ordered = paths.len() == 1 && !ts.iter().any(|t| t.windows(7).any(|w| w == b"include") || t.windows(4).any(|w| w == b"push"));
    let mut bad = differences(&seen, &r, ordered);
    // the parser's own hash order: files are parsed in no particular one
    let mut tries = 0;
    while !bad.is_empty() && !ordered && tries < 40 {
        tries += 1;
        match observe(&root) {
            Some(s) if s.result.is_err() != refused => return Ok(Eval::discard("the parser's hash order decides")),
            Some(s) => bad = differences(&s, &r, ordered),
            None => (),
        }
    }
    ev.bad.extend(bad);
    if tries == 0 {
        let got = r[4]["result"].as_array().cloned().unwrap_or_default();
        if got.len() != places.len() {
            ev.bad("places", format!("{} places instead of {}", got.len(), places.len()));
        }
        for (i, (x, y)) in got.iter().zip(&places).enumerate() {
            if norm(x) != norm(y) {
                ev.bad("places", format!("span {} is at {x} instead of {y}", seen.places[i].0));
                break;
            }
        }
        if !errors.is_empty() {
            let want = strip(&seen.text.join("\n"));
            match r[5]["result"].as_str() {
                Some(t) if strip(t) == want => (),
                _ => ev.bad("text", format!("reports for people are {} instead of {want:?}", r[5])),
            }
        }
    }
    Ok(ev)
}

fn c31(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    lima(case, w, true)
}
fn c32(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    lima(case, w, false)
}

pub fn checks() -> Vec<Box<dyn Check>> {
    let mk = |id, quick, ops, rule, f| -> Box<dyn Check> {
        Box::new(FnCheck {
            id,
            rule,
            cfg: 160,
            ops,
            genes: 48,
            quick,
            f,
            fixed: no_fixed,
            assumptions: &[
                "The parsing library itself (beancount-parser-lima, the version /repo locks) is the oracle: called directly on the same files, in the same scratch directory",
                "Where the library's own hash order decides (several files, pushed tags or metadata), any of the outcomes of 40 runs of the library is right, and reports are compared as a set",
            ],
        })
    };
    vec![
        mk("C31", 5000, (2, 24), "texts of the ledger generator and of the parser's and the repository's own test ledgers, damaged; every answer against the parser called directly; non-trivial: the parser refuses the text", c31),
        mk("C32", 5000, (2, 20), "texts of the ledger generator and of the parser's and the repository's own test ledgers, rearranged, with unusual lines; every answer against the parser called directly; non-trivial: the parser accepts the text, with at least two directives", c32),
        mk("C33", 5000, (2, 20), "texts of the ledger generator and of the parser's and the repository's own test ledgers, rearranged, with unusual lines; booking of what the parser finds in them against the model; non-trivial: at least two transactions or balance assertions", c33),
    ]
}

// booking of whatever the parser accepts

fn to_num(v: &Value) -> Option<crate::ast::Num> {
    use std::str::FromStr;
    let t = v.as_number()?.to_string();
    Some(crate::ast::Num { v: rust_decimal::Decimal::from_str_exact(&t).or_else(|_| rust_decimal::Decimal::from_str(&t)).ok()?, t })
}
fn to_date(v: &Value) -> Option<time::Date> {
    let t = v.as_str()?;
    let n = |r: std::ops::Range<usize>| t.get(r)?.parse::<u16>().ok();
    time::Date::from_calendar_date(n(0..4)? as i32, time::Month::try_from(n(5..7)? as u8).ok()?, n(8..10)? as u8).ok()
}
fn to_s(v: &Value) -> Option<String> {
    v.as_str().map(|s| s.to_string())
}
fn to_strs(v: &Value) -> Vec<String> {
    v.as_array().into_iter().flatten().filter_map(to_s).collect()
}
fn to_mv(v: &Value) -> Option<crate::ast::Mv> {
    use crate::ast::Mv;
    let Value::Object(m) = v else { return Some(Mv::Null) };
    if m.len() == 2 {
        return Some(Mv::Amount(to_num(&v["units"])?, to_s(&v["cur"])?));
    }
    let (k, x) = m.iter().next()?;
    Some(match k.as_str() {
        "string" => Mv::Str(to_s(x)?),
        "cur" => Mv::Cur(to_s(x)?),
        "acc" => Mv::Acc(to_s(x)?),
        "tag" => Mv::Tag(to_s(x)?),
        "link" => Mv::Link(to_s(x)?),
        "date" => Mv::Date(to_date(x)?),
        "bool" => Mv::Bool(x.as_bool()?),
        _ => Mv::Num(to_num(x)?),
    })
}
fn to_meta(v: &Value) -> Option<crate::ast::Meta> {
    let mut m = crate::ast::Meta { tags: to_strs(&v["tags"]), links: to_strs(&v["links"]), ..Default::default() };
    for (k, x) in v["metadata"].as_object().into_iter().flatten() {
        m.kv.push((k.clone(), to_mv(x)?));
    }
    Some(m)
}
/// what is there must be understood
fn opt<T>(v: &Value, f: impl Fn(&Value) -> Option<T>) -> Option<Option<T>> {
    if v.is_null() {
        Some(None)
    } else {
        Some(Some(f(v)?))
    }
}
fn to_posting(v: &Value) -> Option<crate::ast::Posting> {
    Some(crate::ast::Posting {
        flag: to_s(&v["flag"]),
        acc: to_s(&v["acc"])?,
        units: opt(&v["units"], to_num)?,
        cur: to_s(&v["cur"]),
        cost: opt(&v["cost-spec"], |c| {
            Some(crate::ast::CostSpec {
                per_unit: opt(&c["per-unit"], to_num)?,
                total: opt(&c["total"], to_num)?,
                cur: to_s(&c["cur"]),
                date: opt(&c["date"], to_date)?,
                label: to_s(&c["label"]),
                merge: c["merge"] == true,
            })
        })?,
        price: opt(&v["price-spec"], |c| {
            Some(crate::ast::PriceSpec { per_unit: opt(&c["per-unit"], to_num)?, total: opt(&c["total"], to_num)?, cur: to_s(&c["cur"]) })
        })?,
        meta: to_meta(v)?,
    })
}
fn to_booking(v: &Value) -> Option<String> {
    Some(v.as_str()?.to_uppercase().replace('-', "_"))
}
fn to_dir(v: &Value) -> Option<crate::ast::Dir> {
    use crate::ast::Var;
    let t = |k: &str| to_s(&v[k]);
    let var = match v["dct"].as_str()? {
        "txn" => Var::Txn {
            flag: t("flag")?,
            payee: t("payee"),
            narration: t("narration"),
            postings: v["postings"].as_array()?.iter().map(to_posting).collect::<Option<_>>()?,
        },
        "price" => Var::Price { cur: t("cur")?, per_unit: to_num(&v["price"]["per-unit"])?, pcur: to_s(&v["price"]["cur"])? },
        "balance" => Var::Balance { acc: t("acc")?, units: to_num(&v["units"])?, cur: t("cur")?, tol: opt(&v["tolerance"], to_num)? },
        "open" => Var::Open { acc: t("acc")?, curs: to_strs(&v["currencies"]), booking: opt(&v["booking"], to_booking)? },
        "close" => Var::Close { acc: t("acc")? },
        "commodity" => Var::Commodity { cur: t("cur")? },
        "pad" => Var::Pad { acc: t("acc")?, source: t("source")? },
        "document" => Var::Document { acc: t("acc")?, path: t("path")? },
        "note" => Var::Note { acc: t("acc")?, comment: t("comment")? },
        "event" => Var::Event { typ: t("type")?, desc: t("description")? },
        "query" => Var::Query { name: t("name")?, content: t("content")? },
        _ => Var::Custom { typ: t("type")?, values: v["values"].as_array()?.iter().map(to_mv).collect::<Option<_>>()? },
    };
    Some(crate::ast::Dir { date: to_date(&v["date"])?, var, meta: to_meta(v)?, style: vec![] })
}
fn to_opts(v: &Value) -> Option<crate::ast::Opts> {
    let mut o = crate::ast::Opts { booking: opt(&v["booking-method"], to_booking)?, ..Default::default() };
    for (k, x) in v["inferred-tolerance-default"].as_object().into_iter().flatten() {
        o.tol_default.push((k.clone(), to_num(x)?));
    }
    if let Some(x) = to_num(&v["inferred-tolerance-default-fallback"]) {
        o.tol_default.push(("*".into(), x));
    }
    o.tol_mult = opt(&v["inferred-tolerance-multiplier"], to_num)?;
    o.infer_from_cost = v["infer-tolerance-from-cost"].as_bool();
    for (i, k) in ["name-assets", "name-liabilities", "name-equity", "name-income", "name-expenses"].iter().enumerate() {
        o.names[i] = to_s(&v[*k]);
    }
    Some(o)
}

/// accounts that are used without being opened are opened
fn open_all(t: &mut Vec<u8>, dirs: &[crate::ast::Dir]) {
    use crate::ast::Var;
    let mut used = std::collections::BTreeSet::new();
    let mut opened = std::collections::BTreeSet::new();
    for d in dirs {
        match &d.var {
            Var::Open { acc, .. } => {
                opened.insert(acc.clone());
            }
            Var::Txn { postings, .. } => used.extend(postings.iter().map(|p| p.acc.clone())),
            Var::Balance { acc, .. } => {
                used.insert(acc.clone());
            }
            Var::Pad { acc, source } => used.extend([acc.clone(), source.clone()]),
            _ => (),
        }
    }
    let first = dirs.iter().map(|d| d.date).min().map(crate::ast::date_str).unwrap_or_default();
    if t.last().is_some_and(|b| *b != b'\n') {
        t.push(b'\n');
    }
    for a in used.difference(&opened) {
        t.extend_from_slice(format!("{first} open {a}\n").as_bytes());
    }
}

/// without the directives that have faults
fn cure(t: &mut Vec<u8>) {
    for _ in 0..4 {
        let Ok(text) = std::str::from_utf8(t) else { return };
        let cuts = quietly(|| {
            let sources = lp::BeancountSources::from(text);
            let parser = lp::BeancountParser::new(&sources);
            let p = parser.parse().ok()?;
            let dirs = p.directives.iter().map(|d| to_dir(&directive(d))).collect::<Option<Vec<_>>>()?;
            let m = crate::model::Model::run(&to_opts(&options(&p.options))?, &dirs);
            let mut cuts: Vec<(usize, usize)> = m.faults.iter().map(|f| (p.directives[f.at.0].span().start, p.directives[f.at.0].span().end)).collect();
            cuts.sort();
            cuts.dedup();
            Some(cuts)
        })
        .flatten()
        .unwrap_or_default();
        if cuts.is_empty() {
            return;
        }
        for (a, b) in cuts.into_iter().rev() {
            if a <= b && b <= t.len() {
                t.splice(a..b, b"\n".iter().copied());
            }
        }
    }
}

fn c33(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    use crate::model::Model;
    let Some((paths, mut ts)) = texts(case, [40, 18, 22, 14, 6], true) else {
        return Ok(Eval::discard("include beyond the scratch directory, or very deep nesting"));
    };
    let root = write(w, &paths, &ts)?;
    let open = case.ops.last().is_some_and(|t| G::new(&t[t.len() / 2..]).n(10) < 8);
    if let (true, Some(Seen { result: Ok(a), .. })) = (open, observe(&root)) {
        if let Some(ds) = a.directives.iter().map(to_dir).collect::<Option<Vec<_>>>() {
            open_all(&mut ts[0], &ds);
            if paths.len() == 1 && case.ops.first().is_some_and(|t| t[0] % 10 < 6) {
                cure(&mut ts[0]);
            }
        }
    }
    let root = write(w, &paths, &ts)?;
    let mut ev = Eval { key: hash_of(&ts), ..Eval::default() };
    ev.detail = json!({ "files": paths.iter().zip(&ts).map(|(p, t)| json!([p, String::from_utf8_lossy(t)])).collect::<Vec<_>>() });
    ev.sample = json!({"ledger": String::from_utf8_lossy(&ts[0]).chars().take(500).collect::<String>()});
    let Some(Seen { result: Ok(a), .. }) = observe(&root) else { return Ok(Eval::discard("not accepted by the parser")) };
    let (Some(dirs), Some(opts)) = (a.directives.iter().map(to_dir).collect::<Option<Vec<_>>>(), to_opts(&a.options)) else {
        return Ok(Eval::discard("not expressible"));
    };
    let Some(m) = quietly(|| Model::run(&opts, &dirs)) else { return Ok(Eval::discard("arithmetic beyond the range of decimals")) };
    if m.ambiguous || m.st.get("ambiguous-reason") > 0 {
        return Ok(Eval::discard("booking crate's hash order decides"));
    }
    let params: Vec<Value> = a
        .directives
        .iter()
        .map(|d| {
            let mut d = d.clone();
            if let Some(o) = d.as_object_mut() {
                o.remove("span");
            }
            d
        })
        .collect();
    let reqs = [req(0, "parser.directives", None), req(1, "book", None), req(2, "book", Some(Value::Array(params)))];
    let lines: Vec<Vec<u8>> = reqs.iter().map(line).collect();
    let out = w.serve(&root, &lines)?;
    if out.code == Some(101) && known_crash(&out) {
        return Ok(Eval::discard("crash of a known finding, by its call site"));
    }
    let resp = match responses(&out, lines.len()) {
        Err(d) => {
            ev.bad = d;
            return Ok(ev);
        }
        Ok(v) => v,
    };
    if resp[0].get("result").is_none() && paths.len() > 1 {
        return Ok(Eval::discard("the parser's hash order decides"));
    }
    ev.hit(if m.faults.is_empty() { "booked" } else { "refused" });
    for f in &m.faults {
        ev.hit(&format!("refused: {}", f.reasons[0].split(' ').take(4).collect::<Vec<_>>().join(" ")));
    }
    ev.nontrivial = dirs.iter().filter(|d| matches!(d.var, crate::ast::Var::Txn { .. } | crate::ast::Var::Balance { .. })).count() > 1;
    let sm = SpanMap::of(&resp[0]["result"]["directives"]);
    let judge = |m: &Model| {
        let mut v = diff_book_own(m, &dirs, &resp[1], &sm);
        v.extend(diff_book_params(m, &dirs, &resp[2]).into_iter().map(|mut d| {
            d.class = format!("p:{}", d.class);
            d
        }));
        v
    };
    let mut bad = judge(&m);
    for _ in 0..model_tries() {
        if bad.is_empty() {
            break;
        }
        match quietly(|| Model::run(&opts, &dirs)) {
            Some(m) if m.ambiguous => return Ok(Eval::discard("booking crate's hash order decides")),
            Some(m) => {
                let v = judge(&m);
                if v.is_empty() {
                    bad = v;
                }
            }
            None => (),
        }
    }
    ev.bad = bad;
    Ok(ev)
}
