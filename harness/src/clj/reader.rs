//! Text to forms.
use super::value::*;
use std::collections::HashMap;
use std::rc::Rc;

pub struct Reader<'a> {
    c: Vec<char>,
    i: usize,
    /// resolves the alias of `::alias/x`, and symbols under a syntax quote
    ns: &'a dyn Names,
    /// parameters of the `#()` being read
    pct: Option<HashMap<i32, V>>,
    gens: Vec<HashMap<String, V>>,
    edn: bool,
}
pub trait Names {
    fn current(&self) -> Rc<str>;
    fn alias(&self, a: &str) -> Option<Rc<str>>;
    fn qualify(&self, s: &str) -> String;
    fn tagged(&self, _tag: &str, _v: V) -> Option<R<V>> {
        None
    }
}
type Out<T> = R<T>;

fn bad<T>(m: &str) -> Out<T> {
    throw("java.lang.RuntimeException", m)
}

thread_local! {
    static GEN: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub fn gensym(p: &str) -> V {
    GEN.with(|g| {
        g.set(g.get() + 1);
        sym(&format!("{p}__{}__auto__", g.get()))
    })
}

impl<'a> Reader<'a> {
    pub fn new(t: &str, ns: &'a dyn Names, edn: bool) -> Reader<'a> {
        Reader { c: t.chars().collect(), i: 0, ns, pct: None, gens: vec![], edn }
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn skip(&mut self) -> Out<()> {
        loop {
            match self.peek() {
                Some(c) if c.is_whitespace() || c == ',' => self.i += 1,
                Some(';') => {
                    while self.peek().is_some_and(|c| c != '\n') {
                        self.i += 1;
                    }
                }
                Some('#') if self.c.get(self.i + 1) == Some(&'_') => {
                    self.i += 2;
                    self.form()?;
                }
                Some('#') if self.c.get(self.i + 1) == Some(&'!') => {
                    while self.peek().is_some_and(|c| c != '\n') {
                        self.i += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    /// the next form, if there is one
    pub fn next(&mut self) -> Out<Option<V>> {
        self.skip()?;
        if self.i >= self.c.len() {
            return Ok(None);
        }
        self.form().map(Some)
    }
    fn seq_until(&mut self, end: char) -> Out<Vec<V>> {
        let mut v = vec![];
        loop {
            self.skip()?;
            match self.peek() {
                None => return bad("EOF while reading"),
                Some(c) if c == end => {
                    self.i += 1;
                    return Ok(v);
                }
                _ => v.push(self.form()?),
            }
        }
    }
    fn token(&mut self) -> String {
        let mut s = String::new();
        while let Some(c) = self.peek() {
            if c.is_whitespace() || "()[]{}\",;@^`~".contains(c) || (c == '\\' && !s.is_empty()) {
                break;
            }
            s.push(c);
            self.i += 1;
        }
        s
    }
    fn form(&mut self) -> Out<V> {
        self.skip()?;
        let Some(c) = self.peek() else { return bad("EOF while reading") };
        self.i += 1;
        match c {
            '(' => Ok(list(self.seq_until(')')?)),
            '[' => Ok(vector(self.seq_until(']')?)),
            '{' => {
                let v = self.seq_until('}')?;
                self.to_map(v)
            }
            ')' | ']' | '}' => bad(&format!("Unmatched delimiter: {c}")),
            '"' => self.string(),
            '\\' => {
                let Some(c) = self.peek() else { return bad("EOF while reading character") };
                self.i += 1;
                let mut t = String::from(c);
                while self.peek().is_some_and(|c| c.is_alphanumeric()) {
                    t.push(self.c[self.i]);
                    self.i += 1;
                }
                let mut cs = t.chars();
                if let (Some(c), None) = (cs.next(), cs.next()) {
                    return Ok(V::Char(c));
                }
                Ok(V::Char(match &t[..] {
                    "newline" => '\n',
                    "space" => ' ',
                    "tab" => '\t',
                    "return" => '\r',
                    "formfeed" => '\u{c}',
                    "backspace" => '\u{8}',
                    x if x.starts_with('u') && x.len() == 5 => char::from_u32(u32::from_str_radix(&x[1..], 16).unwrap_or(0)).unwrap_or('?'),
                    _ => return bad(&format!("Unsupported character: \\{t}")),
                }))
            }
            '\'' => Ok(list(vec![sym("quote"), self.form()?])),
            '@' => Ok(list(vec![sym("clojure.core/deref"), self.form()?])),
            '`' => {
                self.gens.push(HashMap::new());
                let f = self.form()?;
                let r = self.syntax_quote(&f);
                self.gens.pop();
                r
            }
            '~' => {
                if self.peek() == Some('@') {
                    self.i += 1;
                    return Ok(list(vec![sym("clojure.core/unquote-splicing"), self.form()?]));
                }
                Ok(list(vec![sym("clojure.core/unquote"), self.form()?]))
            }
            '^' => {
                let m = self.form()?;
                let x = self.form()?;
                let m = match m {
                    V::Kw(_) => map(vec![(m, V::Bool(true))]),
                    V::Sym(_) | V::Str(_) => map(vec![(kw("tag"), m)]),
                    m => m,
                };
                Ok(super::with_meta(&x, merge_meta(&super::meta_of(&x), &m)).unwrap_or(x))
            }
            '#' => self.dispatch(),
            _ => {
                self.i -= 1;
                let t = self.token();
                if t.is_empty() {
                    return bad("unreadable");
                }
                self.atom(&t)
            }
        }
    }
    fn to_map(&mut self, v: Vec<V>) -> Out<V> {
        if v.len() % 2 == 1 {
            return bad("Map literal must contain an even number of forms");
        }
        let mut m: Vec<(V, V)> = vec![];
        let mut it = v.into_iter();
        while let (Some(k), Some(x)) = (it.next(), it.next()) {
            if m.iter().any(|(j, _)| eq(j, &k)) {
                return bad("Duplicate key");
            }
            m.push((k, x));
        }
        Ok(map(m))
    }
    fn string(&mut self) -> Out<V> {
        let mut t = String::new();
        loop {
            let Some(c) = self.peek() else { return bad("EOF while reading string") };
            self.i += 1;
            match c {
                '"' => return Ok(s(t)),
                '\\' => {
                    let Some(c) = self.peek() else { return bad("EOF while reading string") };
                    self.i += 1;
                    t.push(match c {
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        'b' => '\u{8}',
                        'f' => '\u{c}',
                        '"' | '\\' => c,
                        'u' => {
                            let h: String = self.c[self.i..(self.i + 4).min(self.c.len())].iter().collect();
                            self.i += 4;
                            match u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                Some(c) => c,
                                None => return bad("Invalid unicode escape"),
                            }
                        }
                        _ => return bad(&format!("Unsupported escape character: \\{c}")),
                    })
                }
                c => t.push(c),
            }
        }
    }
    fn dispatch(&mut self) -> Out<V> {
        let Some(c) = self.peek() else { return bad("EOF while reading") };
        self.i += 1;
        match c {
            '{' => {
                let v = self.seq_until('}')?;
                let mut out: Vec<V> = vec![];
                for x in v {
                    if out.iter().any(|y| eq(&x, y)) {
                        return bad("Duplicate key");
                    }
                    out.push(x);
                }
                Ok(set_m(out, V::Nil))
            }
            '(' => {
                let outer = self.pct.replace(HashMap::new());
                let body = list(self.seq_until(')')?);
                let p = std::mem::replace(&mut self.pct, outer).unwrap_or_default();
                let n = p.keys().copied().max().unwrap_or(0).max(0);
                let mut ps: Vec<V> = (1..=n).map(|k| p.get(&k).cloned().unwrap_or_else(|| gensym("p"))).collect();
                if let Some(r) = p.get(&-1) {
                    ps.push(sym("&"));
                    ps.push(r.clone());
                }
                Ok(list(vec![sym("fn*"), vector(ps), body]))
            }
            '"' => {
                let mut t = String::new();
                loop {
                    let Some(c) = self.peek() else { return bad("EOF while reading regex") };
                    self.i += 1;
                    match c {
                        '"' => break,
                        '\\' => {
                            t.push('\\');
                            if let Some(c) = self.peek() {
                                t.push(c);
                                self.i += 1;
                            }
                        }
                        c => t.push(c),
                    }
                }
                super::regex_of(&t)
            }
            '\'' => Ok(list(vec![sym("var"), self.form()?])),
            '^' => {
                self.i -= 1;
                self.form()
            }
            '?' => {
                // reader conditional: the branch for :clj
                let splice = self.peek() == Some('@');
                if splice {
                    return undecided("reader conditional splicing");
                }
                let V::List(_) = self.peek().map(|_| self.form()).unwrap_or_else(|| bad("EOF"))?.clone() else { return undecided("reader conditional") };
                undecided("reader conditional")
            }
            '#' => undecided("symbolic value"),
            _ => {
                self.i -= 1;
                let tag = self.token();
                let v = self.form()?;
                match self.ns.tagged(&tag, v.clone()) {
                    Some(r) => r,
                    None if self.edn => bad(&format!("No reader function for tag {tag}")),
                    None if tag == "inst" => undecided("#inst"),
                    None => bad(&format!("No reader function for tag {tag}")),
                }
            }
        }
    }
    fn atom(&mut self, t: &str) -> Out<V> {
        match t {
            "nil" => return Ok(V::Nil),
            "true" => return Ok(V::Bool(true)),
            "false" => return Ok(V::Bool(false)),
            _ => {}
        }
        let b = t.as_bytes();
        let digit = b[0].is_ascii_digit() || (b.len() > 1 && (b[0] == b'-' || b[0] == b'+') && b[1].is_ascii_digit());
        if digit {
            if let Some(u) = t.strip_suffix('M') {
                return Dec::parse(u).map(V::Dec).map_or_else(|| bad(&format!("Invalid number: {t}")), Ok);
            }
            if let Ok(i) = t.trim_start_matches('+').parse::<i64>() {
                return Ok(V::Int(i));
            }
            if let Some(u) = t.strip_suffix('N') {
                return u.parse().map(V::Int).or_else(|_| undecided("big integer"));
            }
            if t.contains('.') || t.contains('e') {
                return t.parse().map(V::Dbl).or_else(|_| bad(&format!("Invalid number: {t}")));
            }
            return if t.contains('/') { undecided("ratio") } else { bad(&format!("Invalid number: {t}")) };
        }
        if let Some(k) = t.strip_prefix("::") {
            if self.edn {
                return bad(&format!("Invalid token: {t}"));
            }
            return match k.split_once('/') {
                Some((a, n)) => match self.ns.alias(a) {
                    Some(ns) => Ok(kw(&format!("{ns}/{n}"))),
                    None => bad(&format!("Invalid token: {t}")),
                },
                None => Ok(kw(&format!("{}/{k}", self.ns.current()))),
            };
        }
        if let Some(k) = t.strip_prefix(':') {
            if k.is_empty() {
                return bad("Invalid token: :");
            }
            return Ok(kw(k));
        }
        if let (Some(p), Some(u)) = (&mut self.pct, t.strip_prefix('%')) {
            let k = match u {
                "" => 1,
                "&" => -1,
                n => match n.parse() {
                    Ok(k) => k,
                    Err(_) => return bad("arg literal must be %, %& or %integer"),
                },
            };
            return Ok(p.entry(k).or_insert_with(|| gensym("p")).clone());
        }
        Ok(sym(t))
    }
    fn syntax_quote(&mut self, f: &V) -> Out<V> {
        let q = |v: V| list(vec![sym("quote"), v]);
        match f {
            V::Sym(x) => {
                let n = &x.name;
                if let Some(base) = n.strip_suffix('#') {
                    let m = self.gens.last_mut().expect("in a syntax quote");
                    let v = m.entry(base.to_string()).or_insert_with(|| gensym(base)).clone();
                    return Ok(q(v));
                }
                Ok(q(sym(&self.ns.qualify(n))))
            }
            V::List(c) => {
                if let V::Sym(h) = &c.first {
                    let rest = items(&c.rest)?;
                    match &h.name[..] {
                        "clojure.core/unquote" => return Ok(rest[0].clone()),
                        "clojure.core/unquote-splicing" => return bad("splice not in list"),
                        _ => {}
                    }
                }
                Ok(list(vec![sym("clojure.core/seq"), self.sq_items(items(f)?)?]))
            }
            V::Empty => Ok(list(vec![sym("clojure.core/list")])),
            V::Vec(c) => Ok(list(vec![sym("clojure.core/vec"), self.sq_items(c.v.clone())?])),
            V::Set(c) => Ok(list(vec![sym("clojure.core/set"), self.sq_items(c.v.clone())?])),
            V::Map(m) => {
                let flat = m.v.iter().flat_map(|(k, v)| [k.clone(), v.clone()]).collect();
                Ok(list(vec![sym("clojure.core/apply"), sym("clojure.core/hash-map"), self.sq_items(flat)?]))
            }
            V::Kw(_) | V::Int(_) | V::Str(_) | V::Nil | V::Bool(_) | V::Dec(_) | V::Char(_) => Ok(f.clone()),
            _ => Ok(q(f.clone())),
        }
    }
    fn sq_items(&mut self, v: Vec<V>) -> Out<V> {
        let mut out = vec![sym("clojure.core/quoted*")];
        for x in v {
            if let V::List(c) = &x {
                if let V::Sym(h) = &c.first {
                    if &*h.name == "clojure.core/unquote-splicing" {
                        out.push(items(&c.rest)?[0].clone());
                        continue;
                    }
                }
            }
            let y = self.syntax_quote(&x)?;
            out.push(list(vec![sym("clojure.core/list"), y]));
        }
        Ok(list(out))
    }
}

fn merge_meta(a: &V, b: &V) -> V {
    let (V::Map(x), V::Map(y)) = (a, b) else { return b.clone() };
    let mut v = x.v.clone();
    for (k, w) in &y.v {
        match v.iter().position(|(j, _)| eq(j, k)) {
            Some(i) => v[i].1 = w.clone(),
            None => v.push((k.clone(), w.clone())),
        }
    }
    map(v)
}
