//! Values of the little Clojure that the repository's Clojure sources are run with.
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::rc::Rc;

/// what ends an evaluation early
#[derive(Clone)]
pub enum Ex {
    /// a Clojure exception
    Throw(V),
    /// `recur` on its way to its loop
    Recur(Vec<V>),
    /// something this interpreter does not have: no verdict
    Undecided(String),
}
pub type R<T> = Result<T, Ex>;
impl std::fmt::Debug for Ex {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Ex::Throw(V::Exc(e)) => write!(f, "{}: {:?}", e.class, e.msg),
            Ex::Throw(_) => write!(f, "thrown"),
            Ex::Recur(_) => write!(f, "recur outside of a loop"),
            Ex::Undecided(m) => write!(f, "undecided: {m}"),
        }
    }
}

#[derive(Clone)]
pub enum V {
    Nil,
    Bool(bool),
    Int(i64),
    Dec(Dec),
    Dbl(f64),
    Char(char),
    Str(Rc<str>),
    /// without the colon, with its namespace
    Kw(Rc<str>),
    Sym(Rc<Sym>),
    Re(Rc<regex::Regex>),
    Vec(Rc<Coll>),
    Set(Rc<Coll>),
    Map(Rc<Map>),
    Empty,
    List(Rc<Cons>),
    Lazy(Rc<RefCell<Lazy>>),
    Fn(Rc<Func>),
    Var(Rc<Var>),
    Ns(Rc<Ns>),
    Atom(Rc<RefCell<V>>),
    Volatile(Rc<RefCell<V>>),
    Delay(Rc<RefCell<Lazy>>),
    Transient(Rc<RefCell<V>>),
    Reduced(Rc<V>),
    Multi(Rc<Multi>),
    Date(Date),
    Exc(Rc<Exc>),
    Class(Rc<str>),
    Obj(Rc<Obj>),
}

pub struct Sym {
    pub name: Rc<str>,
    pub meta: V,
}
pub struct Coll {
    pub v: Vec<V>,
    pub meta: V,
    pub id: i64,
}
pub struct Map {
    pub v: Vec<(V, V)>,
    pub meta: V,
    pub id: i64,
}
pub struct Cons {
    pub first: V,
    pub rest: V,
    pub meta: V,
}
pub enum Lazy {
    Todo(Box<dyn FnOnce() -> R<V>>),
    Done(V),
    Failed(Ex),
    Busy,
}
pub type Native = dyn Fn(&super::Clj, &[V]) -> R<V>;
pub enum FuncKind {
    Native(Box<Native>),
    Closure { arities: Rc<Vec<super::Arity>>, env: super::Env, named: bool },
}
pub struct Func {
    pub name: String,
    pub kind: FuncKind,
    pub meta: V,
}
pub struct Var {
    pub ns: Rc<str>,
    pub name: Rc<str>,
    pub root: RefCell<Option<V>>,
    pub bound: RefCell<Vec<V>>,
    pub is_macro: Cell<bool>,
}
impl Var {
    pub fn get(&self) -> Option<V> {
        if let Some(v) = self.bound.borrow().last() {
            return Some(v.clone());
        }
        self.root.borrow().clone()
    }
}
pub struct Ns {
    pub name: Rc<str>,
    pub vars: RefCell<std::collections::HashMap<Rc<str>, Rc<Var>>>,
    pub refers: RefCell<std::collections::HashMap<Rc<str>, Rc<Var>>>,
    pub aliases: RefCell<std::collections::HashMap<Rc<str>, Rc<str>>>,
}
pub struct Multi {
    pub name: String,
    pub dispatch: V,
    pub methods: RefCell<Vec<(V, V)>>,
    pub default: V,
}
pub struct Exc {
    pub class: String,
    pub msg: Option<String>,
    pub data: V,
    pub cause: V,
}
pub enum Obj {
    Writer(RefCell<String>),
    /// to a child's stdin
    Pipe(RefCell<Option<std::process::ChildStdin>>),
    Reader(RefCell<super::host::LineReader>),
    Process(RefCell<std::process::Child>),
    File(String),
    /// to a file
    Out(RefCell<Option<std::fs::File>>),
    Props(RefCell<std::collections::BTreeMap<String, String>>),
    Unit(String),
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Date {
    pub y: i32,
    pub m: u32,
    pub d: u32,
}
impl Date {
    pub fn new(y: i64, m: i64, d: i64) -> Option<Date> {
        if !(-999_999_999..=999_999_999).contains(&y) || !(1..=12).contains(&m) || d < 1 {
            return None;
        }
        let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
        let n = match m {
            2 => 28 + leap as i64,
            4 | 6 | 9 | 11 => 30,
            _ => 31,
        };
        (d <= n).then_some(Date { y: y as i32, m: m as u32, d: d as u32 })
    }
    pub fn parse(s: &str) -> Option<Date> {
        let b = s.as_bytes();
        if b.len() != 10 || b[4] != b'-' || b[7] != b'-' || !s.bytes().enumerate().all(|(i, c)| i == 4 || i == 7 || c.is_ascii_digit()) {
            return None;
        }
        Date::new(s[..4].parse().ok()?, s[5..7].parse().ok()?, s[8..].parse().ok()?)
    }
    pub fn days(&self) -> i64 {
        let (y, m) = if self.m <= 2 { (self.y as i64 - 1, self.m as i64 + 9) } else { (self.y as i64, self.m as i64 - 3) };
        let era = y.div_euclid(400);
        let yoe = y.rem_euclid(400);
        let doy = (153 * m + 2) / 5 + self.d as i64 - 1;
        era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
    }
    pub fn from_days(z: i64) -> Date {
        let z = z + 719_468;
        let era = z.div_euclid(146_097);
        let doe = z.rem_euclid(146_097);
        let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
        let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
        let mp = (5 * doy + 2) / 153;
        let d = doy - (153 * mp + 2) / 5 + 1;
        let m = if mp < 10 { mp + 3 } else { mp - 9 };
        Date { y: (yoe + era * 400 + (m <= 2) as i64) as i32, m: m as u32, d: d as u32 }
    }
}
impl std::fmt::Display for Date {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:04}-{:02}-{:02}", self.y, self.m, self.d)
    }
}

/// java.math.BigDecimal, as far as its digits fit
#[derive(Clone, Copy, Debug)]
pub struct Dec {
    pub m: i128,
    pub s: i32,
}
impl Dec {
    pub fn parse(t: &str) -> Option<Dec> {
        let (t, e) = match t.find(['e', 'E']) {
            Some(i) => (&t[..i], t[i + 1..].trim_start_matches('+').parse::<i32>().ok()?),
            None => (t, 0),
        };
        let (neg, u) = match t.strip_prefix('-') {
            Some(u) => (true, u),
            None => (false, t.strip_prefix('+').unwrap_or(t)),
        };
        let (a, b) = u.split_once('.').unwrap_or((u, ""));
        if a.is_empty() && b.is_empty() || !a.bytes().chain(b.bytes()).all(|c| c.is_ascii_digit()) {
            return None;
        }
        let m: i128 = format!("{a}{b}").parse().ok()?;
        Some(Dec { m: if neg { -m } else { m }, s: b.len() as i32 - e })
    }
    pub fn int(i: i64) -> Dec {
        Dec { m: i as i128, s: 0 }
    }
    fn align(a: Dec, b: Dec) -> R<(i128, i128, i32)> {
        let s = a.s.max(b.s);
        let up = |d: Dec| 10i128.checked_pow((s - d.s) as u32).and_then(|p| d.m.checked_mul(p)).ok_or_else(|| Ex::Undecided("number out of range".into()));
        Ok((up(a)?, up(b)?, s))
    }
    pub fn add(a: Dec, b: Dec) -> R<Dec> {
        let (x, y, s) = Dec::align(a, b)?;
        Ok(Dec { m: x.checked_add(y).ok_or_else(|| Ex::Undecided("number out of range".into()))?, s })
    }
    pub fn neg(self) -> Dec {
        Dec { m: -self.m, s: self.s }
    }
    pub fn mul(a: Dec, b: Dec) -> R<Dec> {
        Ok(Dec { m: a.m.checked_mul(b.m).ok_or_else(|| Ex::Undecided("number out of range".into()))?, s: a.s + b.s })
    }
    pub fn cmp(a: Dec, b: Dec) -> R<Ordering> {
        let (x, y, _) = Dec::align(a, b)?;
        Ok(x.cmp(&y))
    }
    pub fn strip(self) -> Dec {
        if self.m == 0 {
            return Dec { m: 0, s: 0 };
        }
        let mut d = self;
        while d.m % 10 == 0 {
            d.m /= 10;
            d.s -= 1;
        }
        d
    }
    pub fn plain(&self) -> String {
        let neg = self.m < 0;
        let mut t = self.m.unsigned_abs().to_string();
        if self.s <= 0 {
            if self.m != 0 {
                t.push_str(&"0".repeat((-self.s) as usize));
            }
        } else {
            let s = self.s as usize;
            if t.len() <= s {
                t = format!("{}{t}", "0".repeat(s + 1 - t.len()));
            }
            t.insert(t.len() - s, '.');
        }
        if neg {
            t.insert(0, '-');
        }
        t
    }
}
/// as java.math.BigDecimal.toString
impl std::fmt::Display for Dec {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let t = self.m.unsigned_abs().to_string();
        let adj = -self.s + t.len() as i32 - 1;
        if self.s >= 0 && adj >= -6 {
            return f.write_str(&self.plain());
        }
        if self.m < 0 {
            f.write_str("-")?;
        }
        f.write_str(&t[..1])?;
        if t.len() > 1 {
            write!(f, ".{}", &t[1..])?;
        }
        if adj != 0 {
            write!(f, "E{}{}", if adj > 0 { "+" } else { "" }, adj)?;
        }
        Ok(())
    }
}

thread_local! {
    static NEXT_ID: Cell<i64> = const { Cell::new(1) };
}
pub fn next_id() -> i64 {
    NEXT_ID.with(|n| {
        n.set(n.get() + 1);
        n.get()
    })
}

pub fn s(t: impl Into<Rc<str>>) -> V {
    V::Str(t.into())
}
pub fn kw(t: &str) -> V {
    V::Kw(t.into())
}
pub fn sym(t: &str) -> V {
    V::Sym(Rc::new(Sym { name: t.into(), meta: V::Nil }))
}
pub fn vector(v: Vec<V>) -> V {
    vector_m(v, V::Nil)
}
pub fn vector_m(v: Vec<V>, meta: V) -> V {
    V::Vec(Rc::new(Coll { v, meta, id: next_id() }))
}
pub fn set_m(v: Vec<V>, meta: V) -> V {
    V::Set(Rc::new(Coll { v, meta, id: next_id() }))
}
pub fn map_m(v: Vec<(V, V)>, meta: V) -> V {
    V::Map(Rc::new(Map { v, meta, id: next_id() }))
}
pub fn map(v: Vec<(V, V)>) -> V {
    map_m(v, V::Nil)
}
pub fn cons(first: V, rest: V) -> V {
    V::List(Rc::new(Cons { first, rest, meta: V::Nil }))
}
pub fn list(v: Vec<V>) -> V {
    let mut l = V::Empty;
    for x in v.into_iter().rev() {
        l = cons(x, l);
    }
    l
}
pub fn lazy(f: impl FnOnce() -> R<V> + 'static) -> V {
    V::Lazy(Rc::new(RefCell::new(Lazy::Todo(Box::new(f)))))
}
pub fn native(name: &str, f: impl Fn(&super::Clj, &[V]) -> R<V> + 'static) -> V {
    V::Fn(Rc::new(Func { name: name.into(), kind: FuncKind::Native(Box::new(f)), meta: V::Nil }))
}
pub fn exception(class: &str, msg: impl Into<String>) -> V {
    V::Exc(Rc::new(Exc { class: class.into(), msg: Some(msg.into()), data: V::Nil, cause: V::Nil }))
}
pub fn throw<T>(class: &str, msg: impl Into<String>) -> R<T> {
    Err(Ex::Throw(exception(class, msg)))
}
pub fn undecided<T>(what: impl Into<String>) -> R<T> {
    Err(Ex::Undecided(what.into()))
}

pub fn truthy(v: &V) -> bool {
    !matches!(v, V::Nil | V::Bool(false))
}

/// the value of a lazy sequence or delay
pub fn force(l: &Rc<RefCell<Lazy>>) -> R<V> {
    let st = std::mem::replace(&mut *l.borrow_mut(), Lazy::Busy);
    match st {
        Lazy::Done(v) => {
            *l.borrow_mut() = Lazy::Done(v.clone());
            Ok(v)
        }
        Lazy::Failed(e) => {
            *l.borrow_mut() = Lazy::Failed(e.clone());
            Err(e)
        }
        Lazy::Busy => undecided("a lazy value that needs itself"),
        Lazy::Todo(f) => match f() {
            Ok(v) => {
                *l.borrow_mut() = Lazy::Done(v.clone());
                Ok(v)
            }
            Err(e) => {
                *l.borrow_mut() = Lazy::Failed(e.clone());
                Err(e)
            }
        },
    }
}

/// nil or a List
pub fn seq(v: &V) -> R<V> {
    match v {
        V::Nil | V::Empty => Ok(V::Nil),
        V::List(_) => Ok(v.clone()),
        V::Lazy(l) => {
            let mut x = force(l)?;
            while let V::Lazy(m) = &x {
                x = force(&m.clone())?;
            }
            seq(&x)
        }
        V::Vec(c) | V::Set(c) => Ok(if c.v.is_empty() { V::Nil } else { list(c.v.clone()) }),
        V::Map(m) => Ok(if m.v.is_empty() { V::Nil } else { list(m.v.iter().map(|(k, v)| vector(vec![k.clone(), v.clone()])).collect()) }),
        V::Str(t) => Ok(if t.is_empty() { V::Nil } else { list(t.chars().map(V::Char).collect()) }),
        _ => throw("java.lang.IllegalArgumentException", format!("Don't know how to create ISeq from: {}", type_name(v))),
    }
}

/// all of a collection
pub fn items(v: &V) -> R<Vec<V>> {
    match v {
        V::Vec(c) | V::Set(c) => Ok(c.v.clone()),
        _ => {
            let mut out = vec![];
            let mut x = seq(v)?;
            while let V::List(c) = &x {
                out.push(c.first.clone());
                x = seq(&c.rest)?;
            }
            Ok(out)
        }
    }
}

pub fn type_name(v: &V) -> &'static str {
    match v {
        V::Nil => "nil",
        V::Bool(_) => "java.lang.Boolean",
        V::Int(_) => "java.lang.Long",
        V::Dec(_) => "java.math.BigDecimal",
        V::Dbl(_) => "java.lang.Double",
        V::Char(_) => "java.lang.Character",
        V::Str(_) => "java.lang.String",
        V::Kw(_) => "clojure.lang.Keyword",
        V::Sym(_) => "clojure.lang.Symbol",
        V::Re(_) => "java.util.regex.Pattern",
        V::Vec(_) => "clojure.lang.PersistentVector",
        V::Set(_) => "clojure.lang.PersistentHashSet",
        V::Map(_) => "clojure.lang.PersistentArrayMap",
        V::Empty => "clojure.lang.PersistentList$EmptyList",
        V::List(_) => "clojure.lang.PersistentList",
        V::Lazy(_) => "clojure.lang.LazySeq",
        V::Fn(_) => "clojure.lang.AFunction",
        V::Var(_) => "clojure.lang.Var",
        V::Ns(_) => "clojure.lang.Namespace",
        V::Atom(_) => "clojure.lang.Atom",
        V::Volatile(_) => "clojure.lang.Volatile",
        V::Delay(_) => "clojure.lang.Delay",
        V::Transient(_) => "clojure.lang.ATransientMap",
        V::Reduced(_) => "clojure.lang.Reduced",
        V::Multi(_) => "clojure.lang.MultiFn",
        V::Date(_) => "java.time.LocalDate",
        V::Exc(_) => "java.lang.Exception",
        V::Class(_) => "java.lang.Class",
        V::Obj(_) => "java.lang.Object",
    }
}

pub fn identical(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Nil, V::Nil) | (V::Empty, V::Empty) => true,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Int(x), V::Int(y)) => x == y,
        (V::Char(x), V::Char(y)) => x == y,
        (V::Str(x), V::Str(y)) => Rc::ptr_eq(x, y),
        (V::Kw(x), V::Kw(y)) => x == y,
        (V::Vec(x), V::Vec(y)) | (V::Set(x), V::Set(y)) => Rc::ptr_eq(x, y),
        (V::Map(x), V::Map(y)) => Rc::ptr_eq(x, y),
        (V::List(x), V::List(y)) => Rc::ptr_eq(x, y),
        (V::Lazy(x), V::Lazy(y)) => Rc::ptr_eq(x, y),
        (V::Fn(x), V::Fn(y)) => Rc::ptr_eq(x, y),
        (V::Var(x), V::Var(y)) => Rc::ptr_eq(x, y),
        (V::Class(x), V::Class(y)) => x == y,
        (V::Exc(x), V::Exc(y)) => Rc::ptr_eq(x, y),
        (V::Obj(x), V::Obj(y)) => Rc::ptr_eq(x, y),
        (V::Multi(x), V::Multi(y)) => Rc::ptr_eq(x, y),
        (V::Atom(x), V::Atom(y)) | (V::Volatile(x), V::Volatile(y)) | (V::Transient(x), V::Transient(y)) => Rc::ptr_eq(x, y),
        (V::Delay(x), V::Delay(y)) => Rc::ptr_eq(x, y),
        _ => false,
    }
}

pub fn eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Dec(x), V::Dec(y)) => Dec::cmp(*x, *y).map(|o| o == Ordering::Equal).unwrap_or(false),
        (V::Dbl(x), V::Dbl(y)) => x == y,
        (V::Str(x), V::Str(y)) => x == y,
        (V::Sym(x), V::Sym(y)) => x.name == y.name,
        (V::Date(x), V::Date(y)) => x == y,
        (V::Ns(x), V::Ns(y)) => x.name == y.name,
        (V::Vec(x), V::Vec(y)) => x.v.len() == y.v.len() && x.v.iter().zip(&y.v).all(|(p, q)| eq(p, q)),
        (V::Vec(_) | V::List(_) | V::Lazy(_) | V::Empty, V::Vec(_) | V::List(_) | V::Lazy(_) | V::Empty) => {
            let (Ok(x), Ok(y)) = (items(a), items(b)) else { return false };
            x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| eq(p, q))
        }
        (V::Map(x), V::Map(y)) => x.v.len() == y.v.len() && x.v.iter().all(|(k, v)| y.get(k).is_some_and(|w| eq(v, w))),
        (V::Set(x), V::Set(y)) => x.v.len() == y.v.len() && x.v.iter().all(|v| y.v.iter().any(|w| eq(v, w))),
        _ => identical(a, b),
    }
}

impl Map {
    pub fn pos(&self, k: &V) -> Option<usize> {
        if let V::Kw(n) = k {
            return self.v.iter().position(|(x, _)| matches!(x, V::Kw(m) if m == n));
        }
        self.v.iter().position(|(x, _)| eq(x, k))
    }
    pub fn get(&self, k: &V) -> Option<&V> {
        self.pos(k).map(|i| &self.v[i].1)
    }
}

/// the ordering of `compare`
pub fn compare(a: &V, b: &V) -> R<Ordering> {
    use Ordering::*;
    Ok(match (a, b) {
        (V::Nil, V::Nil) => Equal,
        (V::Nil, _) => Less,
        (_, V::Nil) => Greater,
        (V::Int(_) | V::Dec(_) | V::Dbl(_), V::Int(_) | V::Dec(_) | V::Dbl(_)) => num_cmp(a, b)?,
        (V::Str(x), V::Str(y)) => utf16_cmp(x, y),
        // (symbols and keywords: those without namespace first)
        (V::Kw(x), V::Kw(y)) => (x.contains('/') && x.len() > 1, x).cmp(&(y.contains('/') && y.len() > 1, y)),
        (V::Sym(x), V::Sym(y)) => x.name.cmp(&y.name),
        (V::Bool(x), V::Bool(y)) => x.cmp(y),
        (V::Char(x), V::Char(y)) => x.cmp(y),
        (V::Date(x), V::Date(y)) => x.cmp(y),
        (V::Vec(x), V::Vec(y)) => {
            let n = x.v.len().cmp(&y.v.len());
            if n != Equal {
                return Ok(n);
            }
            for (p, q) in x.v.iter().zip(&y.v) {
                let c = compare(p, q)?;
                if c != Equal {
                    return Ok(c);
                }
            }
            Equal
        }
        _ => return throw("java.lang.ClassCastException", format!("class {} cannot be cast to class {}", type_name(a), type_name(b))),
    })
}
pub fn utf16_cmp(x: &str, y: &str) -> Ordering {
    x.encode_utf16().cmp(y.encode_utf16())
}
pub fn num_cmp(a: &V, b: &V) -> R<Ordering> {
    match (a, b) {
        (V::Int(x), V::Int(y)) => Ok(x.cmp(y)),
        (V::Dbl(_), _) | (_, V::Dbl(_)) => {
            let f = |v: &V| match v {
                V::Int(i) => *i as f64,
                V::Dec(d) => d.plain().parse().unwrap_or(f64::NAN),
                V::Dbl(d) => *d,
                _ => f64::NAN,
            };
            f(a).partial_cmp(&f(b)).ok_or_else(|| Ex::Undecided("NaN".into()))
        }
        _ => Dec::cmp(dec(a)?, dec(b)?),
    }
}
pub fn dec(v: &V) -> R<Dec> {
    match v {
        V::Int(i) => Ok(Dec::int(*i)),
        V::Dec(d) => Ok(*d),
        V::Dbl(_) => undecided("floating point"),
        V::Nil => throw("java.lang.NullPointerException", "number expected"),
        _ => throw("java.lang.ClassCastException", format!("class {} cannot be cast to class java.lang.Number", type_name(v))),
    }
}
