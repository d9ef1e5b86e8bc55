//! Functions of clojure.core and of the libraries the sources require, as far as they are needed.
use super::host;
use super::reader::{gensym, Reader};
use super::value::*;
use super::{meta_of, regex_of, with_meta, Clj};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::rc::Rc;

fn arity<T>(n: &str, a: &[V]) -> R<T> {
    throw("clojure.lang.ArityException", format!("Wrong number of args ({}) passed to: {n}", a.len()))
}
fn cast<T>(v: &V, to: &str) -> R<T> {
    throw("java.lang.ClassCastException", format!("class {} cannot be cast to class {to}", type_name(v)))
}

// ---------------------------------------------------------------- collections

pub fn get(m: &V, k: &V, d: V) -> R<V> {
    Ok(match m {
        V::Map(x) => x.get(k).cloned().unwrap_or(d),
        V::Set(x) => x.v.iter().find(|y| eq(y, k)).cloned().unwrap_or(d),
        V::Vec(x) => match k {
            V::Int(i) if *i >= 0 => x.v.get(*i as usize).cloned().unwrap_or(d),
            _ => d,
        },
        V::Str(t) => match k {
            V::Int(i) if *i >= 0 => t.chars().nth(*i as usize).map(V::Char).unwrap_or(d),
            _ => d,
        },
        V::Transient(t) => return get(&t.borrow().clone(), k, d),
        _ => d,
    })
}
pub fn nth(v: &V, i: &V, d: Option<V>) -> R<V> {
    let n = match i {
        V::Int(n) => *n,
        V::Dec(_) => return undecided("index that is a decimal"),
        _ => return cast(i, "java.lang.Number"),
    };
    let out = |d: Option<V>| match d {
        Some(d) => Ok(d),
        None => throw("java.lang.IndexOutOfBoundsException", "index out of bounds"),
    };
    match v {
        V::Nil => Ok(d.unwrap_or(V::Nil)),
        V::Vec(c) => match c.v.get(n.max(-1) as usize) {
            Some(x) if n >= 0 => Ok(x.clone()),
            _ => out(d),
        },
        V::Str(t) => match t.chars().nth(n.max(0) as usize) {
            Some(x) if n >= 0 => Ok(V::Char(x)),
            _ => out(d),
        },
        V::Map(_) | V::Set(_) => throw("java.lang.UnsupportedOperationException", format!("nth not supported on this type: {}", type_name(v))),
        _ => {
            let mut x = seq(v)?;
            let mut k = 0;
            while let V::List(c) = &x {
                if k == n {
                    return Ok(c.first.clone());
                }
                k += 1;
                x = seq(&c.rest)?;
            }
            out(d)
        }
    }
}
pub fn count(v: &V) -> R<i64> {
    Ok(match v {
        V::Nil | V::Empty => 0,
        V::Vec(c) | V::Set(c) => c.v.len() as i64,
        V::Map(m) => m.v.len() as i64,
        V::Str(t) => t.encode_utf16().count() as i64,
        V::List(_) | V::Lazy(_) => items(v)?.len() as i64,
        V::Transient(t) => return count(&t.borrow().clone()),
        _ => return throw("java.lang.UnsupportedOperationException", format!("count not supported on this type: {}", type_name(v))),
    })
}
fn first(v: &V) -> R<V> {
    match v {
        V::Vec(c) | V::Set(c) => Ok(c.v.first().cloned().unwrap_or(V::Nil)),
        _ => match seq(v)? {
            V::List(c) => Ok(c.first.clone()),
            _ => Ok(V::Nil),
        },
    }
}
fn rest(v: &V) -> R<V> {
    match seq(v)? {
        V::List(c) => Ok(match &c.rest {
            V::Nil => V::Empty,
            r => r.clone(),
        }),
        _ => Ok(V::Empty),
    }
}
fn next(v: &V) -> R<V> {
    seq(&rest(v)?)
}
fn entry(v: &V) -> R<(V, V)> {
    match v {
        V::Vec(c) if c.v.len() == 2 => Ok((c.v[0].clone(), c.v[1].clone())),
        V::Vec(_) => throw("java.lang.IllegalArgumentException", "Vector arg to map conj must be a pair"),
        _ => cast(v, "java.util.Map$Entry"),
    }
}
fn put(v: &mut Vec<(V, V)>, k: V, x: V) {
    match v.iter().position(|(y, _)| eq(y, &k)) {
        Some(i) => v[i].1 = x,
        None => v.push((k, x)),
    }
}
pub fn assoc(m: &V, k: &V, x: &V) -> R<V> {
    match m {
        V::Nil => Ok(map(vec![(k.clone(), x.clone())])),
        V::Map(o) => {
            // (as in Clojure, nothing changes where the value is the same object)
            if let Some(i) = o.pos(k) {
                if identical(&o.v[i].1, x) {
                    return Ok(m.clone());
                }
            }
            let mut v = o.v.clone();
            put(&mut v, k.clone(), x.clone());
            Ok(map_m(v, o.meta.clone()))
        }
        V::Vec(c) => match k {
            V::Int(i) if *i >= 0 && *i as usize <= c.v.len() => {
                let mut v = c.v.clone();
                if *i as usize == v.len() {
                    v.push(x.clone());
                } else {
                    v[*i as usize] = x.clone();
                }
                Ok(vector_m(v, c.meta.clone()))
            }
            V::Int(_) => throw("java.lang.IndexOutOfBoundsException", "assoc"),
            _ => throw("java.lang.IllegalArgumentException", "Key must be integer"),
        },
        _ => cast(m, "clojure.lang.Associative"),
    }
}
fn dissoc(m: &V, k: &V) -> R<V> {
    match m {
        V::Nil => Ok(V::Nil),
        V::Map(o) => match o.pos(k) {
            None => Ok(m.clone()),
            Some(i) => {
                let mut v = o.v.clone();
                v.remove(i);
                Ok(map_m(v, o.meta.clone()))
            }
        },
        _ => cast(m, "clojure.lang.IPersistentMap"),
    }
}
pub fn conj(m: &V, x: &V) -> R<V> {
    match m {
        V::Nil | V::Empty => Ok(cons(x.clone(), V::Empty)),
        V::List(_) | V::Lazy(_) => Ok(cons(x.clone(), m.clone())),
        V::Vec(c) => {
            let mut v = Vec::with_capacity(c.v.len() + 1);
            v.extend_from_slice(&c.v);
            v.push(x.clone());
            Ok(vector_m(v, c.meta.clone()))
        }
        V::Set(c) => {
            if c.v.iter().any(|y| eq(y, x)) {
                return Ok(m.clone());
            }
            let mut v = c.v.clone();
            v.push(x.clone());
            Ok(set_m(v, c.meta.clone()))
        }
        V::Map(_) => match x {
            V::Nil => Ok(m.clone()),
            V::Map(o) => {
                let mut r = m.clone();
                for (k, v) in &o.v {
                    r = assoc(&r, k, v)?;
                }
                Ok(r)
            }
            _ => {
                let (k, v) = entry(x)?;
                assoc(m, &k, &v)
            }
        },
        _ => cast(m, "clojure.lang.IPersistentCollection"),
    }
}
/// in place, on what a transient or a growing result owns alone
fn conj_mut(m: &mut V, x: &V) -> R<()> {
    match m {
        V::Vec(c) => {
            if let Some(c) = Rc::get_mut(c) {
                c.v.push(x.clone());
                return Ok(());
            }
        }
        V::Map(c) => {
            if let (Some(c), V::Vec(_)) = (Rc::get_mut(c), x) {
                let (k, v) = entry(x)?;
                put(&mut c.v, k, v);
                return Ok(());
            }
        }
        _ => {}
    }
    *m = conj(m, x)?;
    Ok(())
}
fn contains(m: &V, k: &V) -> R<bool> {
    Ok(match m {
        V::Nil => false,
        V::Map(o) => o.get(k).is_some(),
        V::Set(c) => c.v.iter().any(|y| eq(y, k)),
        V::Vec(c) => matches!(k, V::Int(i) if *i >= 0 && (*i as usize) < c.v.len()),
        V::Str(t) => matches!(k, V::Int(i) if *i >= 0 && (*i as usize) < t.encode_utf16().count()),
        V::Transient(t) => return contains(&t.borrow().clone(), k),
        _ => return throw("java.lang.IllegalArgumentException", format!("contains? not supported on type: {}", type_name(m))),
    })
}
fn to_set(v: Vec<V>) -> V {
    let mut out: Vec<V> = vec![];
    for x in v {
        if !out.iter().any(|y| eq(y, &x)) {
            out.push(x);
        }
    }
    set_m(out, V::Nil)
}
fn to_map(v: &[V]) -> R<V> {
    if v.len() % 2 == 1 {
        return throw("java.lang.IllegalArgumentException", format!("No value supplied for key: {}", type_name(&v[v.len() - 1])));
    }
    let mut out = vec![];
    for p in v.chunks(2) {
        put(&mut out, p[0].clone(), p[1].clone());
    }
    Ok(map(out))
}
/// step through a collection without building it first
fn each(v: &V, mut f: impl FnMut(&V) -> R<bool>) -> R<()> {
    match v {
        V::Vec(c) | V::Set(c) => {
            for x in &c.v {
                if !f(x)? {
                    return Ok(());
                }
            }
        }
        _ => {
            let mut x = seq(v)?;
            while let V::List(c) = &x {
                if !f(&c.first)? {
                    return Ok(());
                }
                x = seq(&c.rest)?;
            }
        }
    }
    Ok(())
}
fn reduce(c: &Clj, f: &V, init: V, coll: &V) -> R<V> {
    let mut acc = init;
    each(coll, |x| {
        let a = std::mem::replace(&mut acc, V::Nil);
        let r = c.call(f, &[a, x.clone()])?;
        if let V::Reduced(r) = r {
            acc = (*r).clone();
            return Ok(false);
        }
        acc = r;
        Ok(true)
    })?;
    Ok(acc)
}
/// a comparator's opinion
fn order(c: &Clj, f: &V, a: &V, b: &V) -> R<Ordering> {
    match c.call(f, &[a.clone(), b.clone()])? {
        V::Int(i) => Ok(i.cmp(&0)),
        V::Bool(true) => Ok(Ordering::Less),
        V::Bool(false) => Ok(if truthy(&c.call(f, &[b.clone(), a.clone()])?) { Ordering::Greater } else { Ordering::Equal }),
        v => cast(&v, "java.lang.Number"),
    }
}
fn sort(mut v: Vec<V>, mut cmp: impl FnMut(&V, &V) -> R<Ordering>) -> R<Vec<V>> {
    let mut err = None;
    // (a merge sort, stable as Java's)
    fn merge(v: Vec<V>, cmp: &mut dyn FnMut(&V, &V) -> Ordering) -> Vec<V> {
        if v.len() < 2 {
            return v;
        }
        let b = merge(v[v.len() / 2..].to_vec(), cmp);
        let a = merge(v[..v.len() / 2].to_vec(), cmp);
        let (mut i, mut j, mut out) = (0, 0, Vec::with_capacity(v.len()));
        while i < a.len() && j < b.len() {
            if cmp(&b[j], &a[i]) == Ordering::Less {
                out.push(b[j].clone());
                j += 1;
            } else {
                out.push(a[i].clone());
                i += 1;
            }
        }
        out.extend_from_slice(&a[i..]);
        out.extend_from_slice(&b[j..]);
        out
    }
    v = merge(v, &mut |a, b| match cmp(a, b) {
        Ok(o) => o,
        Err(e) => {
            err.get_or_insert(e);
            Ordering::Equal
        }
    });
    match err {
        Some(e) => Err(e),
        None => Ok(v),
    }
}

// ---------------------------------------------------------------- numbers

fn arith(op: char, a: &V, b: &V) -> R<V> {
    match (a, b) {
        (V::Int(x), V::Int(y)) => {
            let r = match op {
                '+' => x.checked_add(*y),
                '-' => x.checked_sub(*y),
                _ => x.checked_mul(*y),
            };
            r.map(V::Int).map_or_else(|| throw("java.lang.ArithmeticException", "integer overflow"), Ok)
        }
        (V::Dbl(x), V::Dbl(y)) => Ok(V::Dbl(match op {
            '+' => x + y,
            '-' => x - y,
            _ => x * y,
        })),
        _ => {
            let (x, y) = (dec(a)?, dec(b)?);
            Ok(V::Dec(match op {
                '+' => Dec::add(x, y)?,
                '-' => Dec::add(x, y.neg())?,
                _ => Dec::mul(x, y)?,
            }))
        }
    }
}
fn divide(a: &V, b: &V) -> R<V> {
    let (x, y) = (dec(a)?, dec(b)?);
    if y.m == 0 {
        return throw("java.lang.ArithmeticException", "Divide by zero");
    }
    if let (V::Int(p), V::Int(q)) = (a, b) {
        return if p % q == 0 { Ok(V::Int(p / q)) } else { undecided("ratio") };
    }
    // (the exact quotient at the preferred scale or the smallest beyond it)
    let pref = x.s - y.s;
    let mut m = x.m;
    let mut s = pref;
    for _ in 0..30 {
        if m % y.m == 0 {
            return Ok(V::Dec(Dec { m: m / y.m, s }));
        }
        m = m.checked_mul(10).ok_or_else(|| Ex::Undecided("number out of range".into()))?;
        s += 1;
    }
    throw("java.lang.ArithmeticException", "Non-terminating decimal expansion; no exact representable decimal result.")
}
fn is_num(v: &V) -> bool {
    matches!(v, V::Int(_) | V::Dec(_) | V::Dbl(_))
}
fn sign(v: &V) -> R<i32> {
    num_cmp(v, &V::Int(0)).map(|o| o as i32).and_then(|o| if is_num(v) { Ok(o) } else { cast(v, "java.lang.Number") })
}
fn chain(name: &'static str, ok: fn(Ordering) -> bool) -> impl Fn(&Clj, &[V]) -> R<V> {
    move |_, a| {
        if a.is_empty() {
            return arity(name, a);
        }
        for w in a.windows(2) {
            for x in w {
                dec(x)?;
            }
            if !ok(num_cmp(&w[0], &w[1])?) {
                return Ok(V::Bool(false));
            }
        }
        Ok(V::Bool(true))
    }
}
fn int(v: &V) -> R<i64> {
    match v {
        V::Int(i) => Ok(*i),
        V::Dec(d) => {
            let p = d.plain();
            p.split('.').next().unwrap_or("").parse().map_err(|_| Ex::Undecided("number out of range".into()))
        }
        V::Char(x) => Ok(*x as i64),
        V::Dbl(x) => Ok(*x as i64),
        V::Nil => throw("java.lang.NullPointerException", "number expected"),
        _ => cast(v, "java.lang.Number"),
    }
}

// ---------------------------------------------------------------- text

fn esc(t: &str) -> String {
    let mut o = String::from("\"");
    for x in t.chars() {
        match x {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            '\u{c}' => o.push_str("\\f"),
            '\u{8}' => o.push_str("\\b"),
            x => o.push(x),
        }
    }
    o.push('"');
    o
}
pub fn dispatch_class(v: &V) -> V {
    if let V::Map(m) = meta_of(v) {
        if let Some(k @ V::Kw(_)) = m.get(&kw("type")) {
            return k.clone();
        }
    }
    V::Class(host::class_of(v).into())
}
pub fn pr(c: &Clj, v: &V, readable: bool) -> R<String> {
    let m = c.printers.borrow().clone();
    if let Some(m) = m {
        let d = dispatch_class(v);
        let f = m.methods.borrow().iter().find(|(k, _)| eq(k, &d)).map(|x| x.1.clone());
        if let Some(f) = f {
            let w = V::Obj(Rc::new(Obj::Writer(RefCell::new(String::new()))));
            c.call(&f, &[v.clone(), w.clone()])?;
            return Ok(host::Host::take(&w));
        }
    }
    let many = |c: &Clj, v: &[V], sep: &str| -> R<String> { Ok(v.iter().map(|x| pr(c, x, readable)).collect::<R<Vec<_>>>()?.join(sep)) };
    Ok(match v {
        V::Nil => "nil".into(),
        V::Bool(b) => b.to_string(),
        V::Int(i) => i.to_string(),
        V::Dec(d) => format!("{d}M"),
        V::Dbl(_) => return undecided("floating point printed"),
        V::Char(x) => match (readable, x) {
            (false, x) => x.to_string(),
            (_, '\n') => "\\newline".into(),
            (_, ' ') => "\\space".into(),
            (_, '\t') => "\\tab".into(),
            (_, x) => format!("\\{x}"),
        },
        V::Str(t) => {
            if readable {
                esc(t)
            } else {
                t.to_string()
            }
        }
        V::Kw(k) => format!(":{k}"),
        V::Sym(x) => x.name.to_string(),
        V::Re(r) => format!("#\"{}\"", r.as_str()),
        V::Vec(x) => format!("[{}]", many(c, &x.v, " ")?),
        V::Set(x) => format!("#{{{}}}", many(c, &x.v, " ")?),
        V::Map(m) => {
            let v: Vec<String> = m.v.iter().map(|(k, x)| Ok(format!("{} {}", pr(c, k, readable)?, pr(c, x, readable)?))).collect::<R<_>>()?;
            format!("{{{}}}", v.join(", "))
        }
        V::Empty => "()".into(),
        V::List(_) | V::Lazy(_) => format!("({})", many(c, &items(v)?, " ")?),
        V::Var(x) => format!("#'{}/{}", x.ns, x.name),
        V::Class(x) => x.to_string(),
        V::Date(d) => d.to_string(),
        V::Exc(e) => format!("#error {{{}}}", e.msg.as_deref().unwrap_or("")),
        V::Ns(n) => n.name.to_string(),
        _ => return undecided(format!("{} printed", type_name(v))),
    })
}
/// `str` of one value
pub fn string(c: &Clj, v: &V) -> R<String> {
    Ok(match v {
        V::Nil => String::new(),
        V::Str(t) => t.to_string(),
        V::Char(x) => x.to_string(),
        V::Dec(d) => d.to_string(),
        V::Date(d) => d.to_string(),
        V::Re(r) => r.as_str().into(),
        V::Class(x) => format!("class {x}"),
        V::Exc(e) => format!("{}{}", e.class, e.msg.as_ref().map(|m| format!(": {m}")).unwrap_or_default()),
        V::Lazy(_) => return undecided("str of a lazy sequence"),
        V::Obj(o) => match &**o {
            Obj::Writer(b) => b.borrow().clone(),
            Obj::File(f) => f.clone(),
            _ => return undecided("str of an object"),
        },
        V::Fn(_) | V::Atom(_) | V::Volatile(_) | V::Delay(_) | V::Transient(_) | V::Multi(_) | V::Reduced(_) => return undecided("str of a function or reference"),
        // (print-method is not consulted by str)
        _ => {
            let p = c.printers.borrow_mut().take();
            let r = pr(c, v, true);
            *c.printers.borrow_mut() = p;
            r?
        }
    })
}
fn strs(c: &Clj, a: &[V]) -> R<String> {
    Ok(a.iter().map(|x| string(c, x)).collect::<R<Vec<_>>>()?.concat())
}
pub fn out(c: &Clj) -> V {
    let v = c.var("clojure.core", "*out*").and_then(|v| v.get());
    v.unwrap_or_else(|| c.host.out.clone())
}
fn put_out(c: &Clj, t: &str) -> R<V> {
    host::write(c, &out(c), t)?;
    Ok(V::Nil)
}
fn printed(c: &Clj, a: &[V], readable: bool) -> R<String> {
    Ok(a.iter().map(|x| pr(c, x, readable)).collect::<R<Vec<_>>>()?.join(" "))
}
fn text<'a>(v: &'a V) -> R<&'a str> {
    match v {
        V::Str(t) => Ok(t),
        V::Nil => throw("java.lang.NullPointerException", "nil where a string is needed"),
        _ => cast(v, "java.lang.CharSequence"),
    }
}
fn format(c: &Clj, a: &[V]) -> R<String> {
    let f: Vec<char> = text(&a[0])?.chars().collect();
    let mut o = String::new();
    let (mut i, mut n) = (0, 1);
    while i < f.len() {
        if f[i] != '%' {
            o.push(f[i]);
            i += 1;
            continue;
        }
        i += 1;
        let (mut left, mut zero, mut w) = (false, false, 0usize);
        while i < f.len() && matches!(f[i], '-' | '0') {
            left |= f[i] == '-';
            zero |= f[i] == '0';
            i += 1;
        }
        while i < f.len() && f[i].is_ascii_digit() {
            w = w * 10 + f[i] as usize - '0' as usize;
            i += 1;
        }
        let k = f.get(i).copied();
        i += 1;
        let t = match k {
            Some('%') => "%".into(),
            Some('n') => "\n".into(),
            Some('s') | Some('d') => {
                let Some(v) = a.get(n) else { return throw("java.util.MissingFormatArgumentException", "Format specifier '%s'") };
                n += 1;
                match (k, v) {
                    (Some('s'), V::Nil) => "null".into(),
                    (Some('s'), v) => string(c, v)?,
                    (_, V::Int(i)) => i.to_string(),
                    (_, v) => return throw("java.util.IllegalFormatConversionException", format!("d != {}", type_name(v))),
                }
            }
            _ => return undecided("format directive"),
        };
        let pad = w.saturating_sub(t.encode_utf16().count());
        if left {
            o.push_str(&t);
            o.push_str(&" ".repeat(pad));
        } else {
            o.push_str(&(if zero { "0" } else { " " }).repeat(pad));
            o.push_str(&t);
        }
    }
    Ok(o)
}
fn re(v: &V) -> R<Rc<regex::Regex>> {
    match v {
        V::Re(r) => Ok(r.clone()),
        _ => cast(v, "java.util.regex.Pattern"),
    }
}
fn groups(m: &regex::Captures) -> V {
    if m.len() == 1 {
        return s(m[0].to_string());
    }
    vector(m.iter().map(|g| g.map(|g| s(g.as_str())).unwrap_or(V::Nil)).collect())
}
fn name_of(v: &V) -> R<&str> {
    let t: &str = match v {
        V::Kw(k) => k,
        V::Sym(x) => &x.name,
        V::Str(t) => return Ok(t),
        V::Nil => return throw("java.lang.NullPointerException", "name of nil"),
        _ => return cast(v, "clojure.lang.Named"),
    };
    Ok(match t.split_once('/') {
        Some((a, b)) if !a.is_empty() && !b.is_empty() => b,
        _ => t,
    })
}

// ---------------------------------------------------------------- JSON

fn json_str(t: &str, o: &mut String) {
    o.push('"');
    for x in t.chars() {
        match x {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            x if (x as u32) < 32 => o.push_str(&format!("\\u{:04X}", x as u32)),
            x => o.push(x),
        }
    }
    o.push('"');
}
fn to_json(c: &Clj, v: &V, o: &mut String) -> R<()> {
    match v {
        V::Nil => o.push_str("null"),
        V::Bool(b) => o.push_str(&b.to_string()),
        V::Int(i) => o.push_str(&i.to_string()),
        V::Dec(d) => o.push_str(&d.to_string()),
        V::Str(t) => json_str(t, o),
        V::Char(x) => json_str(&x.to_string(), o),
        V::Kw(k) => json_str(k, o),
        V::Sym(x) => json_str(&x.name, o),
        V::Date(d) => json_str(&d.to_string(), o),
        V::Map(m) => {
            o.push('{');
            for (i, (k, x)) in m.v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                match k {
                    V::Kw(k) => json_str(k, o),
                    k => json_str(&string(c, k)?, o),
                }
                o.push(':');
                to_json(c, x, o)?;
            }
            o.push('}');
        }
        V::Vec(_) | V::Set(_) | V::List(_) | V::Lazy(_) | V::Empty => {
            o.push('[');
            for (i, x) in items(v)?.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                to_json(c, x, o)?;
            }
            o.push(']');
        }
        V::Dbl(_) => return undecided("floating point written"),
        _ => return throw("com.fasterxml.jackson.core.JsonGenerationException", format!("Cannot JSON encode object of class: class {}", type_name(v))),
    }
    Ok(())
}
struct Json<'a> {
    c: &'a Clj,
    t: Vec<char>,
    i: usize,
    keywords: bool,
    keyf: V,
    arrays: V,
    big: bool,
}
impl Json<'_> {
    fn ws(&mut self) {
        while self.t.get(self.i).is_some_and(|c| " \t\r\n".contains(*c)) {
            self.i += 1;
        }
    }
    fn bad<T>(&self) -> R<T> {
        throw("com.fasterxml.jackson.core.JsonParseException", "Unexpected character")
    }
    fn string(&mut self) -> R<String> {
        self.i += 1;
        let mut o: Vec<u16> = vec![];
        loop {
            let Some(x) = self.t.get(self.i).copied() else { return self.bad() };
            self.i += 1;
            match x {
                '"' => return Ok(String::from_utf16_lossy(&o)),
                '\\' => {
                    let Some(x) = self.t.get(self.i).copied() else { return self.bad() };
                    self.i += 1;
                    o.push(match x {
                        'n' => 10,
                        't' => 9,
                        'r' => 13,
                        'b' => 8,
                        'f' => 12,
                        'u' => {
                            let h: String = self.t.iter().skip(self.i).take(4).collect();
                            self.i += 4;
                            match u16::from_str_radix(&h, 16) {
                                Ok(n) => n,
                                Err(_) => return self.bad(),
                            }
                        }
                        x => x as u16,
                    });
                }
                x => {
                    let mut b = [0; 2];
                    o.extend_from_slice(x.encode_utf16(&mut b));
                }
            }
        }
    }
    fn value(&mut self, field: Option<&str>) -> R<V> {
        self.ws();
        match self.t.get(self.i).copied() {
            Some('"') => Ok(s(self.string()?)),
            Some('{') => {
                self.i += 1;
                let mut v: Vec<(V, V)> = vec![];
                loop {
                    self.ws();
                    match self.t.get(self.i) {
                        Some('}') => {
                            self.i += 1;
                            return Ok(map(v));
                        }
                        Some(',') if !v.is_empty() => self.i += 1,
                        Some('"') => {}
                        _ => return self.bad(),
                    }
                    self.ws();
                    if self.t.get(self.i) != Some(&'"') {
                        return self.bad();
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.t.get(self.i) != Some(&':') {
                        return self.bad();
                    }
                    self.i += 1;
                    let x = self.value(Some(&k))?;
                    let key = if self.keywords {
                        kw(&k)
                    } else if truthy(&self.keyf) {
                        self.c.call(&self.keyf, &[s(k)])?
                    } else {
                        s(k)
                    };
                    put(&mut v, key, x);
                }
            }
            Some('[') => {
                self.i += 1;
                let mut out = match &self.arrays {
                    V::Nil => vector(vec![]),
                    f => self.c.call(f, &[field.map(s).unwrap_or(V::Nil)])?,
                };
                let mut n = 0;
                loop {
                    self.ws();
                    match self.t.get(self.i) {
                        Some(']') => {
                            self.i += 1;
                            return Ok(out);
                        }
                        Some(',') if n > 0 => self.i += 1,
                        Some(_) if n == 0 => {}
                        _ => return self.bad(),
                    }
                    let x = self.value(None)?;
                    conj_mut(&mut out, &x)?;
                    n += 1;
                }
            }
            Some('t') => self.word("true", V::Bool(true)),
            Some('f') => self.word("false", V::Bool(false)),
            Some('n') => self.word("null", V::Nil),
            Some(x) if x == '-' || x.is_ascii_digit() => {
                let b = self.i;
                while self.t.get(self.i).is_some_and(|c| c.is_ascii_digit() || "+-.eE".contains(*c)) {
                    self.i += 1;
                }
                let t: String = self.t[b..self.i].iter().collect();
                if t.contains(['.', 'e', 'E']) {
                    if !self.big {
                        return undecided("floating point read");
                    }
                    return Dec::parse(&t).map(V::Dec).ok_or_else(|| Ex::Undecided(format!("number {t}")));
                }
                t.parse().map(V::Int).map_err(|_| Ex::Undecided(format!("number {t}")))
            }
            _ => self.bad(),
        }
    }
    fn word(&mut self, w: &str, v: V) -> R<V> {
        let t: String = self.t.iter().skip(self.i).take(w.len()).collect();
        if t != w {
            return self.bad();
        }
        self.i += w.len();
        Ok(v)
    }
}

fn postwalk(c: &Clj, f: &V, v: &V) -> R<V> {
    let w = match v {
        V::Map(m) => {
            let mut o = vec![];
            for (k, x) in &m.v {
                let e = vector(vec![postwalk(c, f, k)?, postwalk(c, f, x)?]);
                let e = c.call(f, &[e])?;
                let (k, x) = entry(&e)?;
                put(&mut o, k, x);
            }
            map(o)
        }
        V::Vec(x) => vector(x.v.iter().map(|y| postwalk(c, f, y)).collect::<R<_>>()?),
        V::Set(x) => to_set(x.v.iter().map(|y| postwalk(c, f, y)).collect::<R<_>>()?),
        V::List(_) | V::Lazy(_) => list(items(v)?.iter().map(|y| postwalk(c, f, y)).collect::<R<_>>()?),
        _ => v.clone(),
    };
    c.call(f, &[w])
}

fn local_date(a: &[V]) -> R<V> {
    let bad = |m: String| {
        // as java-time's conversions do, the cause says what is wrong
        let cause = exception("java.time.DateTimeException", m.clone());
        Err(Ex::Throw(V::Exc(Rc::new(Exc { class: "java.time.DateTimeException".into(), msg: Some(m), data: V::Nil, cause }))))
    };
    let of = |y: i64, m: i64, d: i64| Date::new(y, m, d).map(V::Date).map_or_else(|| bad(format!("Invalid date {y}-{m}-{d}")), Ok);
    match a {
        [V::Date(d)] => Ok(V::Date(*d)),
        [V::Str(t)] => Date::parse(t).map(V::Date).map_or_else(|| bad(format!("Text '{t}' could not be parsed")), Ok),
        [V::Int(y)] => of(*y, 1, 1),
        [V::Int(y), V::Int(m)] => of(*y, *m, 1),
        [V::Int(y), V::Int(m), V::Int(d)] => of(*y, *m, *d),
        [] => undecided("today's date"),
        _ => bad("Conversion failed".into()),
    }
}

fn ex_map(c: &Clj, v: &V) -> R<V> {
    let V::Exc(e) = v else { return cast(v, "java.lang.Throwable") };
    let mut via = vec![];
    let mut x = v.clone();
    let mut last = e.clone();
    while let V::Exc(y) = &x {
        let mut m = vec![(kw("type"), sym(&y.class))];
        if let Some(t) = &y.msg {
            m.push((kw("message"), s(t.as_str())));
        }
        if truthy(&y.data) {
            m.push((kw("data"), y.data.clone()));
        }
        via.push(map(m));
        last = y.clone();
        let n = y.cause.clone();
        x = n;
    }
    let _ = c;
    let mut m = vec![(kw("via"), vector(via)), (kw("trace"), vector(vec![]))];
    if let Some(t) = &last.msg {
        m.push((kw("cause"), s(t.as_str())));
    }
    if truthy(&last.data) {
        m.push((kw("data"), last.data.clone()));
    }
    Ok(map(m))
}

// ---------------------------------------------------------------- the table

pub fn install(c: &Clj) {
    let core = c.in_ns("clojure.core");
    let cur = std::cell::RefCell::new(core);
    macro_rules! def {
        ($n:expr, $f:expr) => {{
            let n: &str = $n;
            let v = c.intern(&cur.borrow(), n);
            *v.root.borrow_mut() = Some(native(n, $f));
        }};
    }
    /// a predicate of one value
    macro_rules! is {
        ($n:expr, $p:pat) => {
            def!($n, |_, a| match a {
                [x] => Ok(V::Bool(matches!(x, $p))),
                _ => arity($n, a),
            })
        };
    }
    let val = |n: &str, x: V| {
        let v = c.intern(&cur.borrow(), n);
        *v.root.borrow_mut() = Some(x);
    };
    val("*out*", c.host.out.clone());
    val("*err*", c.host.err.clone());
    val("*command-line-args*", V::Nil);
    val("*1", V::Nil);
    def!("quoted*", |_, a| {
        let mut out = vec![];
        for x in a {
            out.extend(items(x)?);
        }
        Ok(list(out))
    });
    is!("nil?", V::Nil);
    is!("string?", V::Str(_));
    is!("keyword?", V::Kw(_));
    is!("symbol?", V::Sym(_));
    is!("char?", V::Char(_));
    is!("boolean?", V::Bool(_));
    is!("true?", V::Bool(true));
    is!("false?", V::Bool(false));
    is!("number?", V::Int(_) | V::Dec(_) | V::Dbl(_));
    is!("int?", V::Int(_));
    is!("integer?", V::Int(_));
    is!("decimal?", V::Dec(_));
    is!("float?", V::Dbl(_));
    is!("double?", V::Dbl(_));
    is!("rational?", V::Int(_) | V::Dec(_));
    is!("map?", V::Map(_));
    is!("vector?", V::Vec(_));
    is!("set?", V::Set(_));
    is!("list?", V::List(_) | V::Empty);
    is!("seq?", V::List(_) | V::Lazy(_) | V::Empty);
    is!("sequential?", V::List(_) | V::Lazy(_) | V::Empty | V::Vec(_));
    is!("coll?", V::List(_) | V::Lazy(_) | V::Empty | V::Vec(_) | V::Map(_) | V::Set(_));
    is!("seqable?", V::Nil | V::Str(_) | V::List(_) | V::Lazy(_) | V::Empty | V::Vec(_) | V::Map(_) | V::Set(_));
    is!("associative?", V::Vec(_) | V::Map(_));
    is!("fn?", V::Fn(_));
    is!("ifn?", V::Fn(_) | V::Kw(_) | V::Map(_) | V::Set(_) | V::Vec(_) | V::Sym(_) | V::Var(_) | V::Multi(_));
    is!("var?", V::Var(_));
    is!("delay?", V::Delay(_));
    is!("reduced?", V::Reduced(_));
    is!("volatile?", V::Volatile(_));
    def!("some?", |_, a| Ok(V::Bool(!matches!(a[0], V::Nil))));
    def!("any?", |_, _| Ok(V::Bool(true)));
    def!("boolean", |_, a| Ok(V::Bool(truthy(&a[0]))));
    def!("not", |_, a| Ok(V::Bool(!truthy(&a[0]))));
    def!("ident?", |_, a| Ok(V::Bool(matches!(a[0], V::Kw(_) | V::Sym(_)))));
    def!("map-entry?", |_, _| undecided("map-entry?"));
    def!("pos-int?", |_, a| Ok(V::Bool(matches!(a[0], V::Int(i) if i > 0))));
    def!("nat-int?", |_, a| Ok(V::Bool(matches!(a[0], V::Int(i) if i >= 0))));
    def!("identical?", |_, a| Ok(V::Bool(identical(&a[0], &a[1]))));
    def!("=", |_, a| match a {
        [] => arity("=", a),
        a => Ok(V::Bool(a.windows(2).all(|w| eq(&w[0], &w[1])))),
    });
    def!("not=", |_, a| match a {
        [] => arity("not=", a),
        a => Ok(V::Bool(!a.windows(2).all(|w| eq(&w[0], &w[1])))),
    });
    def!("compare", |_, a| match a {
        [x, y] => Ok(V::Int(compare(x, y)? as i64)),
        _ => arity("compare", a),
    });
    def!("==", chain("==", |o| o == Ordering::Equal));
    def!("<", chain("<", |o| o == Ordering::Less));
    def!(">", chain(">", |o| o == Ordering::Greater));
    def!("<=", chain("<=", |o| o != Ordering::Greater));
    def!(">=", chain(">=", |o| o != Ordering::Less));
    for (n, op, unit) in [("+", '+', 0), ("*", '*', 1), ("+'", '+', 0), ("*'", '*', 1)] {
        def!(n, move |_, a| {
            let mut acc = V::Int(unit);
            for (i, x) in a.iter().enumerate() {
                dec(x)?;
                acc = if i == 0 { x.clone() } else { arith(op, &acc, x)? };
            }
            Ok(acc)
        });
    }
    def!("-", |_, a| match a {
        [] => arity("-", a),
        [x] => arith('-', &V::Int(0), x),
        [x, rest @ ..] => rest.iter().try_fold(x.clone(), |acc, y| arith('-', &acc, y)),
    });
    def!("/", |_, a| match a {
        [] => arity("/", a),
        [x] => divide(&V::Int(1), x),
        [x, rest @ ..] => rest.iter().try_fold(x.clone(), |acc, y| divide(&acc, y)),
    });
    def!("inc", |_, a| arith('+', &a[0], &V::Int(1)));
    def!("dec", |_, a| arith('-', &a[0], &V::Int(1)));
    def!("unchecked-inc", |_, a| arith('+', &a[0], &V::Int(1)));
    def!("unchecked-dec", |_, a| arith('-', &a[0], &V::Int(1)));
    def!("abs", |_, a| if sign(&a[0])? < 0 { arith('-', &V::Int(0), &a[0]) } else { Ok(a[0].clone()) });
    // (on a tie the later one, as in Clojure)
    def!("max", |_, a| a.iter().skip(1).try_fold(a[0].clone(), |m, x| Ok(if num_cmp(&m, x)? == Ordering::Greater { m } else { x.clone() })));
    def!("min", |_, a| a.iter().skip(1).try_fold(a[0].clone(), |m, x| Ok(if num_cmp(&m, x)? == Ordering::Less { m } else { x.clone() })));
    def!("zero?", |_, a| Ok(V::Bool(sign(&a[0])? == 0)));
    def!("pos?", |_, a| Ok(V::Bool(sign(&a[0])? > 0)));
    def!("neg?", |_, a| Ok(V::Bool(sign(&a[0])? < 0)));
    for (n, k) in [("quot", 0), ("rem", 1), ("mod", 2)] {
        def!(n, move |_, a| match a {
            [V::Int(_), V::Int(0)] => throw("java.lang.ArithmeticException", "Divide by zero"),
            [V::Int(x), V::Int(y)] => Ok(V::Int(match k {
                0 => x / y,
                1 => x % y,
                _ => {
                    let m = x % y;
                    if m != 0 && (m < 0) != (*y < 0) {
                        m + y
                    } else {
                        m
                    }
                }
            })),
            _ => undecided("division of decimals"),
        });
    }
    def!("even?", |_, a| match a[0] {
        V::Int(i) => Ok(V::Bool(i % 2 == 0)),
        _ => throw("java.lang.IllegalArgumentException", "Argument must be an integer"),
    });
    def!("odd?", |_, a| match a[0] {
        V::Int(i) => Ok(V::Bool(i % 2 != 0)),
        _ => throw("java.lang.IllegalArgumentException", "Argument must be an integer"),
    });
    def!("int", |_, a| Ok(V::Int(int(&a[0])?)));
    def!("long", |_, a| Ok(V::Int(int(&a[0])?)));
    def!("char", |_, a| Ok(V::Char(char::from_u32(int(&a[0])? as u32).unwrap_or('?'))));
    def!("bigdec", |_, a| match &a[0] {
        V::Str(t) => Dec::parse(t).map(V::Dec).map_or_else(|| throw("java.lang.NumberFormatException", "not a number"), Ok),
        x => Ok(V::Dec(dec(x)?)),
    });
    def!("parse-long", |_, a| Ok(text(&a[0])?.parse().map(V::Int).unwrap_or(V::Nil)));

    // collections
    def!("get", |_, a| match a {
        [m, k] => get(m, k, V::Nil),
        [m, k, d] => get(m, k, d.clone()),
        _ => arity("get", a),
    });
    def!("nth", |_, a| match a {
        [m, k] => nth(m, k, None),
        [m, k, d] => nth(m, k, Some(d.clone())),
        _ => arity("nth", a),
    });
    def!("get-in", |_, a| {
        let mut m = a[0].clone();
        for k in items(&a[1])? {
            if !contains_soft(&m, &k) {
                return Ok(a.get(2).cloned().unwrap_or(V::Nil));
            }
            m = get(&m, &k, V::Nil)?;
        }
        Ok(m)
    });
    def!("assoc", |_, a| {
        if a.len() % 2 == 0 || a.len() < 3 {
            return throw("java.lang.IllegalArgumentException", "assoc expects even number of arguments after map/vector, found odd number");
        }
        a[1..].chunks(2).try_fold(a[0].clone(), |m, p| assoc(&m, &p[0], &p[1]))
    });
    def!("dissoc", |_, a| a[1..].iter().try_fold(a[0].clone(), |m, k| dissoc(&m, k)));
    def!("disj", |_, a| match &a[0] {
        V::Nil => Ok(V::Nil),
        V::Set(x) => Ok(set_m(x.v.iter().filter(|y| !a[1..].iter().any(|k| eq(k, y))).cloned().collect(), x.meta.clone())),
        v => cast(v, "clojure.lang.IPersistentSet"),
    });
    fn assoc_in(m: &V, ks: &[V], x: &V) -> R<V> {
        match ks {
            [] => assoc(m, &V::Nil, x),
            [k] => assoc(m, k, x),
            [k, r @ ..] => assoc(m, k, &assoc_in(&get(m, k, V::Nil)?, r, x)?),
        }
    }
    def!("assoc-in", |_, a| assoc_in(&a[0], &items(&a[1])?, &a[2]));
    def!("update", |c, a| {
        let mut v = vec![get(&a[0], &a[1], V::Nil)?];
        v.extend_from_slice(&a[3..]);
        let x = c.call(&a[2], &v)?;
        assoc(&a[0], &a[1], &x)
    });
    fn update_in(c: &Clj, m: &V, ks: &[V], f: &V, rest: &[V]) -> R<V> {
        let x = match &ks[1..] {
            [] => {
                let mut v = vec![get(m, &ks[0], V::Nil)?];
                v.extend_from_slice(rest);
                c.call(f, &v)?
            }
            r => update_in(c, &get(m, &ks[0], V::Nil)?, r, f, rest)?,
        };
        assoc(m, &ks[0], &x)
    }
    def!("update-in", |c, a| update_in(c, &a[0], &items(&a[1])?, &a[2], &a[3..]));
    def!("merge", |_, a| {
        let mut m = V::Nil;
        let mut any = false;
        for x in a {
            if truthy(x) {
                any = true;
            }
            m = match (&m, x) {
                (_, V::Nil) => m,
                (V::Nil, x) => x.clone(),
                (m, x) => conj(m, x)?,
            };
        }
        Ok(if any { m } else { V::Nil })
    });
    def!("merge-with", |c, a| {
        let mut m = V::Nil;
        for x in &a[1..] {
            if let (V::Nil, V::Map(_)) = (&m, x) {
                m = x.clone();
                continue;
            }
            if let V::Map(x) = x {
                for (k, v) in &x.v {
                    let v = if contains(&m, k)? { c.call(&a[0], &[get(&m, k, V::Nil)?, v.clone()])? } else { v.clone() };
                    m = assoc(&m, k, &v)?;
                }
            }
        }
        Ok(m)
    });
    def!("select-keys", |_, a| {
        let mut o = vec![];
        for k in items(&a[1])? {
            if contains_soft(&a[0], &k) {
                put(&mut o, k.clone(), get(&a[0], &k, V::Nil)?);
            }
        }
        Ok(map_m(o, meta_of(&a[0])))
    });
    def!("keys", |_, a| match &a[0] {
        V::Map(m) => seq(&list(m.v.iter().map(|x| x.0.clone()).collect())),
        V::Nil => Ok(V::Nil),
        v => seq(&list(items(v)?.iter().map(|e| entry(e).map(|x| x.0)).collect::<R<_>>()?)),
    });
    def!("vals", |_, a| match &a[0] {
        V::Map(m) => seq(&list(m.v.iter().map(|x| x.1.clone()).collect())),
        V::Nil => Ok(V::Nil),
        v => seq(&list(items(v)?.iter().map(|e| entry(e).map(|x| x.1)).collect::<R<_>>()?)),
    });
    def!("key", |_, a| entry(&a[0]).map(|x| x.0));
    def!("val", |_, a| entry(&a[0]).map(|x| x.1));
    def!("find", |_, a| Ok(if contains(&a[0], &a[1])? { vector(vec![a[1].clone(), get(&a[0], &a[1], V::Nil)?]) } else { V::Nil }));
    def!("contains?", |_, a| Ok(V::Bool(contains(&a[0], &a[1])?)));
    def!("count", |_, a| Ok(V::Int(count(&a[0])?)));
    def!("empty?", |_, a| Ok(V::Bool(matches!(seq(&a[0])?, V::Nil))));
    def!("not-empty", |_, a| Ok(if matches!(seq(&a[0])?, V::Nil) { V::Nil } else { a[0].clone() }));
    def!("empty", |_, a| Ok(match &a[0] {
        V::Vec(x) => vector_m(vec![], x.meta.clone()),
        V::Map(x) => map_m(vec![], x.meta.clone()),
        V::Set(x) => set_m(vec![], x.meta.clone()),
        V::List(_) | V::Lazy(_) | V::Empty => V::Empty,
        _ => V::Nil,
    }));
    def!("seq", |_, a| match a {
        [x] => seq(x),
        _ => arity("seq", a),
    });
    def!("first", |_, a| first(&a[0]));
    def!("second", |_, a| first(&next(&a[0])?));
    def!("ffirst", |_, a| first(&first(&a[0])?));
    def!("rest", |_, a| rest(&a[0]));
    def!("next", |_, a| next(&a[0]));
    def!("fnext", |_, a| first(&next(&a[0])?));
    def!("nnext", |_, a| next(&next(&a[0])?));
    def!("nthnext", |_, a| {
        let mut x = seq(&a[0])?;
        for _ in 0..int(&a[1])? {
            x = next(&x)?;
        }
        Ok(x)
    });
    def!("nthrest", |_, a| {
        let mut x = a[0].clone();
        for _ in 0..int(&a[1])? {
            x = rest(&x)?;
        }
        Ok(x)
    });
    def!("last", |_, a| Ok(items(&a[0])?.pop().unwrap_or(V::Nil)));
    def!("butlast", |_, a| {
        let mut v = items(&a[0])?;
        v.pop();
        seq(&list(v))
    });
    def!("peek", |_, a| match &a[0] {
        V::Vec(x) => Ok(x.v.last().cloned().unwrap_or(V::Nil)),
        x => first(x),
    });
    def!("pop", |_, a| match &a[0] {
        V::Vec(x) if x.v.is_empty() => throw("java.lang.IllegalStateException", "Can't pop empty vector"),
        V::Vec(x) => Ok(vector_m(x.v[..x.v.len() - 1].to_vec(), x.meta.clone())),
        x => rest(x),
    });
    def!("subvec", |_, a| match &a[0] {
        V::Vec(x) => {
            let i = int(&a[1])?;
            let j = a.get(2).map(int).transpose()?.unwrap_or(x.v.len() as i64);
            if i < 0 || j < i || j as usize > x.v.len() {
                return throw("java.lang.IndexOutOfBoundsException", "subvec");
            }
            Ok(vector(x.v[i as usize..j as usize].to_vec()))
        }
        v => cast(v, "clojure.lang.IPersistentVector"),
    });
    def!("cons", |_, a| Ok(cons(a[0].clone(), match &a[1] {
        V::Nil => V::Empty,
        x @ (V::List(_) | V::Lazy(_) | V::Empty) => x.clone(),
        x => seq(x)?,
    })));
    def!("conj", |_, a| match a {
        [] => Ok(vector(vec![])),
        [x] => Ok(x.clone()),
        [m, xs @ ..] => xs.iter().try_fold(m.clone(), |m, x| conj(&m, x)),
    });
    def!("list", |_, a| Ok(list(a.to_vec())));
    def!("list*", |_, a| {
        let mut l = seq(&a[a.len() - 1])?;
        for x in a[..a.len() - 1].iter().rev() {
            l = cons(x.clone(), l);
        }
        Ok(l)
    });
    def!("vector", |_, a| Ok(vector(a.to_vec())));
    def!("vec", |_, a| Ok(match &a[0] {
        V::Vec(x) => V::Vec(x.clone()),
        x => vector(items(x)?),
    }));
    def!("set", |_, a| Ok(match &a[0] {
        V::Set(x) => V::Set(x.clone()),
        x => to_set(items(x)?),
    }));
    def!("hash-set", |_, a| Ok(to_set(a.to_vec())));
    def!("hash-map", |_, a| to_map(a));
    def!("array-map", |_, a| to_map(a));
    def!("sorted-map", |_, _| undecided("sorted map"));
    def!("sorted-set", |_, _| undecided("sorted set"));
    def!("destructured-map", |_, a| match &a[0] {
        v @ (V::List(_) | V::Lazy(_)) => {
            let v = items(v)?;
            match v.as_slice() {
                [m @ V::Map(_)] => Ok(m.clone()),
                v if v.len() % 2 == 1 => conj(&to_map(&v[..v.len() - 1])?, &v[v.len() - 1]),
                v => to_map(v),
            }
        }
        V::Empty => Ok(map(vec![])),
        v => Ok(v.clone()),
    });
    def!("zipmap", |_, a| {
        let mut o = vec![];
        for (k, v) in items(&a[0])?.into_iter().zip(items(&a[1])?) {
            put(&mut o, k, v);
        }
        Ok(map(o))
    });
    def!("reverse", |_, a| {
        let mut v = items(&a[0])?;
        v.reverse();
        Ok(list(v))
    });
    def!("sort", |c, a| match a {
        [x] => Ok(list(sort(items(x)?, compare)?)),
        [f, x] => Ok(list(sort(items(x)?, |p, q| order(c, f, p, q))?)),
        _ => arity("sort", a),
    });
    def!("sort-by", |c, a| {
        let (k, f, x) = match a {
            [k, x] => (k, None, x),
            [k, f, x] => (k, Some(f), x),
            _ => return arity("sort-by", a),
        };
        let v: Vec<V> = items(x)?.into_iter().map(|x| Ok(vector(vec![c.call(k, &[x.clone()])?, x]))).collect::<R<_>>()?;
        let key = |v: &V| match v {
            V::Vec(x) => x.v[0].clone(),
            _ => V::Nil,
        };
        let v = sort(v, |p, q| match f {
            None => compare(&key(p), &key(q)),
            Some(f) => order(c, f, &key(p), &key(q)),
        })?;
        Ok(list(v.into_iter().map(|p| match p {
            V::Vec(x) => x.v[1].clone(),
            v => v,
        }).collect()))
    });
    def!("reduce", |c, a| match a {
        [f, coll] => match seq(coll)? {
            V::List(x) => reduce(c, f, x.first.clone(), &x.rest),
            _ => c.call(f, &[]),
        },
        [f, init, coll] => reduce(c, f, init.clone(), coll),
        _ => arity("reduce", a),
    });
    def!("reduce-kv", |c, a| {
        let mut acc = a[1].clone();
        let pairs: Vec<(V, V)> = match &a[2] {
            V::Map(m) => m.v.clone(),
            V::Vec(x) => x.v.iter().enumerate().map(|(i, x)| (V::Int(i as i64), x.clone())).collect(),
            V::Nil => vec![],
            v => return cast(v, "clojure.lang.IKVReduce"),
        };
        for (k, v) in pairs {
            acc = c.call(&a[0], &[acc, k, v])?;
            if let V::Reduced(r) = &acc {
                return Ok((**r).clone());
            }
        }
        Ok(acc)
    });
    def!("reduced", |_, a| Ok(V::Reduced(Rc::new(a[0].clone()))));
    def!("unreduced", |_, a| Ok(match &a[0] {
        V::Reduced(r) => (**r).clone(),
        v => v.clone(),
    }));
    def!("into", |c, a| match a {
        [] => Ok(vector(vec![])),
        [x] => Ok(x.clone()),
        [to, from] => {
            let mut m = match to {
                V::Vec(x) => vector_m(x.v.clone(), x.meta.clone()),
                V::Map(x) => map_m(x.v.clone(), x.meta.clone()),
                V::Set(x) => set_m(x.v.clone(), x.meta.clone()),
                x => x.clone(),
            };
            each(from, |x| conj_mut(&mut m, x).map(|_| true))?;
            Ok(m)
        }
        [to, xf, from] => {
            let m = Rc::new(RefCell::new(match to {
                V::Vec(x) => vector_m(x.v.clone(), x.meta.clone()),
                x => x.clone(),
            }));
            let rf = {
                let m = m.clone();
                native("conj", move |_, a| match a {
                    [_, x] => conj_mut(&mut m.borrow_mut(), x).map(|_| V::Nil),
                    _ => Ok(a.first().cloned().unwrap_or(V::Nil)),
                })
            };
            let f = c.call(xf, &[rf])?;
            reduce(c, &f, V::Nil, from)?;
            c.call(&f, &[V::Nil])?;
            let r = m.borrow().clone();
            Ok(r)
        }
        _ => arity("into", a),
    });
    def!("mapv", |c, a| match a {
        [f, x] => {
            let mut o = vec![];
            each(x, |x| {
                o.push(c.call(f, std::slice::from_ref(x))?);
                Ok(true)
            })?;
            Ok(vector(o))
        }
        [f, xs @ ..] if xs.len() > 1 => {
            let cols: Vec<Vec<V>> = xs.iter().map(items).collect::<R<_>>()?;
            let n = cols.iter().map(|v| v.len()).min().unwrap_or(0);
            Ok(vector((0..n).map(|i| c.call(f, &cols.iter().map(|v| v[i].clone()).collect::<Vec<_>>())).collect::<R<_>>()?))
        }
        _ => arity("mapv", a),
    });
    def!("apply", |c, a| {
        let mut v = a[1..a.len() - 1].to_vec();
        v.extend(items(&a[a.len() - 1])?);
        c.call(&a[0], &v)
    });
    def!("range", |_, a| match a {
        [V::Int(e)] => Ok(list((0..*e).map(V::Int).collect())),
        [V::Int(b), V::Int(e)] => Ok(list((*b..*e).map(V::Int).collect())),
        [V::Int(b), V::Int(e), V::Int(st)] if *st > 0 => Ok(list((*b..*e).step_by(*st as usize).map(V::Int).collect())),
        _ => undecided("range"),
    });
    def!("frequencies", |_, a| {
        let mut o: Vec<(V, V)> = vec![];
        for x in items(&a[0])? {
            let n = o.iter().find(|(k, _)| eq(k, &x)).map(|p| p.1.clone()).unwrap_or(V::Int(0));
            put(&mut o, x, arith('+', &n, &V::Int(1))?);
        }
        Ok(map(o))
    });
    def!("group-by", |c, a| {
        let mut o: Vec<(V, V)> = vec![];
        for x in items(&a[1])? {
            let k = c.call(&a[0], &[x.clone()])?;
            let v = o.iter().find(|(y, _)| eq(y, &k)).map(|p| p.1.clone()).unwrap_or_else(|| vector(vec![]));
            put(&mut o, k, conj(&v, &x)?);
        }
        Ok(map(o))
    });
    def!("some", |c, a| {
        let mut r = V::Nil;
        each(&a[1], |x| {
            r = c.call(&a[0], std::slice::from_ref(x))?;
            Ok(!truthy(&r))
        })?;
        Ok(if truthy(&r) { r } else { V::Nil })
    });
    def!("every?", |c, a| {
        let mut r = true;
        each(&a[1], |x| {
            r = truthy(&c.call(&a[0], std::slice::from_ref(x))?);
            Ok(r)
        })?;
        Ok(V::Bool(r))
    });
    def!("run!", |c, a| {
        each(&a[1], |x| c.call(&a[0], std::slice::from_ref(x)).map(|_| true))?;
        Ok(V::Nil)
    });
    def!("doall", |_, a| {
        items(&a[a.len() - 1])?;
        Ok(a[a.len() - 1].clone())
    });
    def!("dorun", |_, a| {
        items(&a[a.len() - 1])?;
        Ok(V::Nil)
    });
    def!("constantly", |_, a| {
        let x = a[0].clone();
        Ok(native("constantly", move |_, _| Ok(x.clone())))
    });

    // references
    def!("atom", |_, a| Ok(V::Atom(Rc::new(RefCell::new(a[0].clone())))));
    def!("volatile!", |_, a| Ok(V::Volatile(Rc::new(RefCell::new(a[0].clone())))));
    fn cell(v: &V) -> R<&Rc<RefCell<V>>> {
        match v {
            V::Atom(r) | V::Volatile(r) => Ok(r),
            _ => cast(v, "clojure.lang.Atom"),
        }
    }
    for n in ["reset!", "vreset!"] {
        def!(n, |_, a| {
            *cell(&a[0])?.borrow_mut() = a[1].clone();
            Ok(a[1].clone())
        });
    }
    for n in ["swap!", "vswap!"] {
        def!(n, |c, a| {
            let r = cell(&a[0])?.clone();
            let mut v = vec![r.borrow().clone()];
            v.extend_from_slice(&a[2..]);
            let x = c.call(&a[1], &v)?;
            *r.borrow_mut() = x.clone();
            Ok(x)
        });
    }
    def!("deref", |_, a| match &a[0] {
        V::Atom(r) | V::Volatile(r) => Ok(r.borrow().clone()),
        V::Delay(l) => force(l),
        V::Reduced(r) => Ok((**r).clone()),
        V::Var(v) => Ok(v.get().unwrap_or(V::Nil)),
        v => cast(v, "java.util.concurrent.Future"),
    });
    def!("force", |_, a| match &a[0] {
        V::Delay(l) => force(l),
        v => Ok(v.clone()),
    });
    def!("transient", |_, a| match &a[0] {
        V::Vec(x) => Ok(V::Transient(Rc::new(RefCell::new(vector(x.v.clone()))))),
        V::Map(x) => Ok(V::Transient(Rc::new(RefCell::new(map(x.v.clone()))))),
        V::Set(x) => Ok(V::Transient(Rc::new(RefCell::new(set_m(x.v.clone(), V::Nil))))),
        v => cast(v, "clojure.lang.IEditableCollection"),
    });
    fn tr(v: &V) -> R<&Rc<RefCell<V>>> {
        match v {
            V::Transient(r) => Ok(r),
            V::Nil => throw("java.lang.NullPointerException", "transient expected"),
            _ => cast(v, "clojure.lang.ITransientCollection"),
        }
    }
    def!("persistent!", |_, a| {
        let r = tr(&a[0])?;
        // (what is done to it later is not seen)
        let v = r.borrow().clone();
        if matches!(v, V::Reduced(_)) {
            return throw("java.lang.IllegalAccessError", "Transient used after persistent! call");
        }
        *r.borrow_mut() = V::Reduced(Rc::new(V::Nil));
        Ok(v)
    });
    def!("assoc!", |_, a| {
        let r = tr(&a[0])?;
        if let V::Reduced(_) = &*r.borrow() {
            return throw("java.lang.IllegalAccessError", "Transient used after persistent! call");
        }
        for p in a[1..].chunks(2) {
            let mut b = r.borrow_mut();
            if let V::Map(m) = &mut *b {
                if let Some(m) = Rc::get_mut(m) {
                    put(&mut m.v, p[0].clone(), p[1].clone());
                    continue;
                }
            }
            let v = assoc(&b, &p[0], &p[1])?;
            *b = v;
        }
        Ok(a[0].clone())
    });
    def!("conj!", |_, a| {
        let r = tr(&a[0])?;
        if let V::Reduced(_) = &*r.borrow() {
            return throw("java.lang.IllegalAccessError", "Transient used after persistent! call");
        }
        for x in &a[1..] {
            conj_mut(&mut r.borrow_mut(), x)?;
        }
        Ok(a[0].clone())
    });
    def!("dissoc!", |_, a| {
        let r = tr(&a[0])?;
        for k in &a[1..] {
            let v = dissoc(&r.borrow(), k)?;
            *r.borrow_mut() = v;
        }
        Ok(a[0].clone())
    });
    def!("disj!", |_, _| undecided("disj!"));

    // text
    def!("str", |c, a| Ok(s(strs(c, a)?)));
    def!("subs", |_, a| {
        let u: Vec<u16> = text(&a[0])?.encode_utf16().collect();
        let i = int(&a[1])?;
        let j = a.get(2).map(int).transpose()?.unwrap_or(u.len() as i64);
        if i < 0 || j < i || j as usize > u.len() {
            return throw("java.lang.StringIndexOutOfBoundsException", "subs");
        }
        Ok(s(String::from_utf16_lossy(&u[i as usize..j as usize])))
    });
    def!("name", |_, a| Ok(s(name_of(&a[0])?)));
    def!("namespace", |_, a| Ok(match &a[0] {
        V::Kw(k) => k.split_once('/').map(|x| s(x.0)).unwrap_or(V::Nil),
        V::Sym(x) => x.name.split_once('/').map(|x| s(x.0)).unwrap_or(V::Nil),
        v => return cast(v, "clojure.lang.Named"),
    }));
    def!("keyword", |_, a| Ok(match a {
        [V::Str(t)] => kw(t),
        [V::Kw(k)] => V::Kw(k.clone()),
        [V::Sym(x)] => kw(&x.name),
        [V::Nil, x] => kw(text(x)?),
        [n, x] => kw(&format!("{}/{}", text(n)?, text(x)?)),
        _ => V::Nil,
    }));
    def!("symbol", |_, a| Ok(match a {
        [V::Sym(x)] => V::Sym(x.clone()),
        [V::Kw(x)] => sym(x),
        [V::Nil, x] => sym(text(x)?),
        [x] => sym(text(x)?),
        [n, x] => sym(&format!("{}/{}", text(n)?, text(x)?)),
        _ => return arity("symbol", a),
    }));
    def!("format", |c, a| Ok(s(format(c, a)?)));
    def!("print", |c, a| put_out(c, &printed(c, a, false)?));
    def!("println", |c, a| {
        // (in two writes: what goes to a pod is told from the line's end by that)
        put_out(c, &printed(c, a, false)?)?;
        put_out(c, "\n")
    });
    def!("pr", |c, a| put_out(c, &printed(c, a, true)?));
    def!("prn", |c, a| put_out(c, &format!("{}\n", printed(c, a, true)?)));
    def!("newline", |c, _| put_out(c, "\n"));
    def!("flush", |_, _| Ok(V::Nil));
    def!("pr-str", |c, a| Ok(s(printed(c, a, true)?)));
    def!("print-str", |c, a| Ok(s(printed(c, a, false)?)));
    def!("prn-str", |c, a| Ok(s(format!("{}\n", printed(c, a, true)?))));
    def!("println-str", |c, a| Ok(s(format!("{}\n", printed(c, a, false)?))));
    def!("string-writer*", |_, _| Ok(V::Obj(Rc::new(Obj::Writer(RefCell::new(String::new()))))));
    def!("print-simple", |c, a| {
        let t = pr(c, &a[0], true)?;
        host::write(c, &a[1], &t).map(|_| V::Nil)
    });
    def!("re-pattern", |_, a| match &a[0] {
        V::Re(r) => Ok(V::Re(r.clone())),
        x => regex_of(text(x)?),
    });
    def!("re-find", |_, a| Ok(re(&a[0])?.captures(text(&a[1])?).map(|m| groups(&m)).unwrap_or(V::Nil)));
    def!("re-seq", |_, a| seq(&list(re(&a[0])?.captures_iter(text(&a[1])?).map(|m| groups(&m)).collect())));
    def!("re-matches", |_, a| {
        let r = regex_of(&format!("^(?:{})$", re(&a[0])?.as_str()))?;
        let r = re(&r)?;
        Ok(r.captures(text(&a[1])?).map(|m| groups(&m)).unwrap_or(V::Nil))
    });
    def!("read-string", |c, a| {
        let t = text(&a[0])?.to_string();
        let r = Reader::new(&t, c, false).next()?;
        Ok(r.unwrap_or(V::Nil))
    });
    def!("eval", |c, a| c.eval_form(&a[0]));
    def!("macroexpand-1", |c, a| Ok(c.expand(&a[0], |_| false)?.unwrap_or(a[0].clone())));
    def!("gensym", |_, a| Ok(gensym(a.first().and_then(|x| text(x).ok()).unwrap_or("G__"))));
    def!("load-file", |c, a| {
        let n = string(c, &a[0])?;
        let p = c.host.dir.borrow().join(&n);
        match std::fs::read_to_string(&p) {
            Ok(t) => {
                let was = c.ns.borrow().clone();
                let r = c.eval_text(&t, &n);
                *c.ns.borrow_mut() = was;
                r
            }
            Err(_) => throw("java.io.FileNotFoundException", format!("{n} (No such file or directory)")),
        }
    });
    def!("spit", |c, a| {
        let w = host::writer(c, &a[0], appends(&a[2..])?)?;
        host::write(c, &w, &string(c, &a[1])?).map(|_| V::Nil)
    });
    def!("slurp", |c, a| {
        let p = c.host.dir.borrow().join(string(c, &a[0])?);
        match std::fs::read_to_string(&p) {
            Ok(t) => Ok(s(t)),
            Err(_) => throw("java.io.FileNotFoundException", format!("{} (No such file or directory)", p.display())),
        }
    });

    // metadata, types, variables, namespaces
    def!("meta", |_, a| Ok(meta_of(&a[0])));
    def!("with-meta", |_, a| match with_meta(&a[0], a[1].clone()) {
        Some(v) => Ok(v),
        None => match &a[0] {
            V::Fn(_) => undecided("metadata of a function"),
            v => cast(v, "clojure.lang.IObj"),
        },
    });
    def!("vary-meta", |c, a| {
        let mut v = vec![meta_of(&a[0])];
        v.extend_from_slice(&a[2..]);
        let m = c.call(&a[1], &v)?;
        match with_meta(&a[0], m) {
            Some(v) => Ok(v),
            None => cast(&a[0], "clojure.lang.IObj"),
        }
    });
    def!("type", |_, a| match meta_of(&a[0]) {
        V::Map(m) if m.get(&kw("type")).is_some_and(truthy) => Ok(m.get(&kw("type")).cloned().unwrap_or(V::Nil)),
        _ => Ok(if matches!(a[0], V::Nil) { V::Nil } else { V::Class(host::class_of(&a[0]).into()) }),
    });
    def!("class", |_, a| Ok(if matches!(a[0], V::Nil) { V::Nil } else { V::Class(host::class_of(&a[0]).into()) }));
    def!("instance?", |_, a| match &a[0] {
        V::Class(k) => Ok(V::Bool(!matches!(a[1], V::Nil) && host::is_a(&a[1], k))),
        v => cast(v, "java.lang.Class"),
    });
    def!("alter-var-root", |c, a| match &a[0] {
        V::Var(v) => {
            let mut args = vec![v.root.borrow().clone().unwrap_or(V::Nil)];
            args.extend_from_slice(&a[2..]);
            let x = c.call(&a[1], &args)?;
            *v.root.borrow_mut() = Some(x.clone());
            Ok(x)
        }
        v => cast(v, "clojure.lang.Var"),
    });
    def!("require", |c, a| {
        for x in a {
            match x {
                V::Kw(_) => {}
                x => c.require_spec(x)?,
            }
        }
        Ok(V::Nil)
    });
    fn resolve(c: &Clj, ns: &str, x: &V) -> R<V> {
        let V::Sym(x) = x else { return cast(x, "clojure.lang.Symbol") };
        Ok(match x.name.split_once('/').filter(|_| x.name.len() > 1) {
            Some((n, m)) => c.var(n, m),
            None => c.var(ns, &x.name).or_else(|| c.var("clojure.core", &x.name)),
        }
        .map(V::Var)
        .unwrap_or(V::Nil))
    }
    fn ns_name(v: &V) -> R<String> {
        match v {
            V::Ns(n) => Ok(n.name.to_string()),
            V::Sym(x) => Ok(x.name.to_string()),
            v => cast(v, "clojure.lang.Namespace"),
        }
    }
    def!("ns-resolve", |c, a| resolve(c, &ns_name(&a[0])?, &a[a.len() - 1]));
    def!("resolve", |c, a| {
        let n = c.ns.borrow().name.clone();
        resolve(c, &n, &a[0])
    });
    def!("requiring-resolve", |c, a| {
        if let V::Sym(x) = &a[0] {
            if let Some((n, _)) = x.name.split_once('/') {
                c.require(n)?;
            }
        }
        resolve(c, "clojure.core", &a[0])
    });
    def!("find-ns", |c, a| Ok(c.ns_named(&ns_name(&a[0])?).map(V::Ns).unwrap_or(V::Nil)));
    def!("ns-name", |_, a| Ok(sym(&ns_name(&a[0])?)));
    def!("var-get", |_, a| match &a[0] {
        V::Var(v) => Ok(v.get().unwrap_or(V::Nil)),
        v => cast(v, "clojure.lang.Var"),
    });
    def!("bound?", |_, a| match &a[0] {
        V::Var(v) => Ok(V::Bool(v.get().is_some())),
        v => cast(v, "clojure.lang.Var"),
    });

    // multimethods
    def!("multi*", |_, a| Ok(V::Multi(Rc::new(Multi { name: text(&a[0])?.into(), dispatch: a[1].clone(), methods: Default::default(), default: a[2].clone() }))));
    fn multi(v: &V) -> R<&Rc<Multi>> {
        match v {
            V::Multi(m) => Ok(m),
            _ => cast(v, "clojure.lang.MultiFn"),
        }
    }
    def!("add-method*", |_, a| {
        let m = multi(&a[0])?;
        let mut ms = m.methods.borrow_mut();
        ms.retain(|(k, _)| !eq(k, &a[1]));
        ms.push((a[1].clone(), a[2].clone()));
        drop(ms);
        Ok(a[0].clone())
    });
    def!("get-method", |c, a| Ok(c.find_method(multi(&a[0])?, &a[1]).unwrap_or(V::Nil)));
    def!("remove-method", |_, a| {
        multi(&a[0])?.methods.borrow_mut().retain(|(k, _)| !eq(k, &a[1]));
        Ok(a[0].clone())
    });
    let printer = Rc::new(Multi { name: "print-method".into(), dispatch: native("print-method", |_, a| Ok(dispatch_class(&a[0]))), methods: Default::default(), default: kw("default") });
    *c.printers.borrow_mut() = Some(printer.clone());
    val("print-method", V::Multi(printer));

    // exceptions
    def!("ex-info", |_, a| Ok(V::Exc(Rc::new(Exc {
        class: "clojure.lang.ExceptionInfo".into(),
        msg: match &a[0] {
            V::Str(t) => Some(t.to_string()),
            _ => None,
        },
        data: a.get(1).cloned().unwrap_or(V::Nil),
        cause: a.get(2).cloned().unwrap_or(V::Nil),
    }))));
    def!("ex-data", |_, a| Ok(match &a[0] {
        V::Exc(e) => e.data.clone(),
        _ => V::Nil,
    }));
    def!("ex-message", |_, a| Ok(match &a[0] {
        V::Exc(e) => e.msg.as_deref().map(s).unwrap_or(V::Nil),
        _ => V::Nil,
    }));
    def!("ex-cause", |_, a| Ok(match &a[0] {
        V::Exc(e) => e.cause.clone(),
        _ => V::Nil,
    }));
    def!("Throwable->map", |c, a| ex_map(c, &a[0]));

    // libraries
    *cur.borrow_mut() = c.in_ns("clojure.string");
    def!("join", |c, a| {
        let (sep, xs) = match a {
            [x] => (String::new(), x),
            [sep, x] => (string(c, sep)?, x),
            _ => return arity("join", a),
        };
        Ok(s(items(xs)?.iter().map(|x| string(c, x)).collect::<R<Vec<_>>>()?.join(&sep)))
    });
    def!("split", |_, a| {
        if a.len() != 2 {
            return undecided("split with a limit");
        }
        let t = text(&a[0])?;
        let r = re(&a[1])?;
        if t.is_empty() {
            return Ok(vector(vec![s("")]));
        }
        let mut v: Vec<&str> = vec![];
        let mut last = 0;
        for m in r.find_iter(t) {
            if m.end() == 0 {
                continue; // (no empty leading part for a match of nothing at the start)
            }
            v.push(&t[last..m.start()]);
            last = m.end();
        }
        v.push(&t[last..]);
        while v.len() > 1 && v.last() == Some(&"") {
            v.pop();
        }
        if v.len() == 1 && v[0].is_empty() {
            return Ok(vector(vec![]));
        }
        Ok(vector(v.into_iter().map(s).collect()))
    });
    def!("split-lines", |_, a| Ok(vector(text(&a[0])?.lines().map(s).collect())));
    def!("starts-with?", |_, a| Ok(V::Bool(text(&a[0])?.starts_with(text(&a[1])?))));
    def!("ends-with?", |_, a| Ok(V::Bool(text(&a[0])?.ends_with(text(&a[1])?))));
    def!("includes?", |_, a| Ok(V::Bool(text(&a[0])?.contains(text(&a[1])?))));
    def!("blank?", |_, a| Ok(V::Bool(matches!(a[0], V::Nil) || text(&a[0])?.trim().is_empty())));
    def!("upper-case", |c, a| Ok(s(string(c, &a[0])?.to_uppercase())));
    def!("lower-case", |c, a| Ok(s(string(c, &a[0])?.to_lowercase())));
    def!("capitalize", |c, a| {
        let t = string(c, &a[0])?;
        let mut x = t.chars();
        Ok(s(x.next().map(|y| y.to_uppercase().to_string()).unwrap_or_default() + &x.as_str().to_lowercase()))
    });
    def!("trim", |_, a| Ok(s(text(&a[0])?.trim())));
    def!("triml", |_, a| Ok(s(text(&a[0])?.trim_start())));
    def!("trimr", |_, a| Ok(s(text(&a[0])?.trim_end())));
    def!("trim-newline", |_, a| Ok(s(text(&a[0])?.trim_end_matches(['\n', '\r']))));
    def!("index-of", |_, a| {
        let t: Vec<u16> = text(&a[0])?.encode_utf16().collect();
        let x: Vec<u16> = match &a[1] {
            V::Char(x) => x.to_string(),
            x => text(x)?.to_string(),
        }
        .encode_utf16()
        .collect();
        let b = a.get(2).map(int).transpose()?.unwrap_or(0).max(0) as usize;
        if x.is_empty() {
            return Ok(V::Int(b.min(t.len()) as i64));
        }
        Ok(t.windows(x.len()).enumerate().skip(b).find(|(_, w)| *w == x).map(|(i, _)| V::Int(i as i64)).unwrap_or(V::Nil))
    });
    fn unquote_dollar(t: &str) -> R<String> {
        // Java's replacement text: $1 and \x; the regex crate's differs
        if t.contains('$') || t.contains('\\') {
            return undecided("replacement with groups");
        }
        Ok(t.into())
    }
    for (n, all) in [("replace", true), ("replace-first", false)] {
        def!(n, move |c, a| {
            let t = text(&a[0])?;
            let lim = if all { usize::MAX } else { 1 };
            match (&a[1], &a[2]) {
                (V::Str(m), V::Str(r)) => Ok(s(t.replacen(&**m, r, lim))),
                (V::Char(m), V::Char(r)) => Ok(s(t.replacen(*m, &r.to_string(), lim))),
                (V::Re(m), V::Str(r)) => {
                    let r = unquote_dollar(r)?;
                    Ok(s(m.replacen(t, if all { 0 } else { 1 }, regex::NoExpand(&r)).to_string()))
                }
                (V::Re(m), f) => {
                    let mut o = String::new();
                    let mut last = 0;
                    for cap in m.captures_iter(t).take(lim) {
                        let w = cap.get(0).expect("match");
                        o.push_str(&t[last..w.start()]);
                        o.push_str(&string(c, &c.call(f, &[groups(&cap)])?)?);
                        last = w.end();
                    }
                    o.push_str(&t[last..]);
                    Ok(s(o))
                }
                _ => undecided("replace"),
            }
        });
    }
    *cur.borrow_mut() = c.in_ns("clojure.set");
    fn set_items(v: &V) -> R<Vec<V>> {
        match v {
            V::Set(x) => Ok(x.v.clone()),
            V::Nil => Ok(vec![]),
            v => items(v),
        }
    }
    def!("union", |_, a| {
        let mut v = vec![];
        for x in a {
            v.extend(set_items(x)?);
        }
        Ok(to_set(v))
    });
    def!("difference", |_, a| {
        let mut v = set_items(&a[0])?;
        for x in &a[1..] {
            let y = set_items(x)?;
            v.retain(|p| !y.iter().any(|q| eq(p, q)));
        }
        Ok(to_set(v))
    });
    def!("intersection", |_, a| {
        let mut v = set_items(&a[0])?;
        for x in &a[1..] {
            let y = set_items(x)?;
            v.retain(|p| y.iter().any(|q| eq(p, q)));
        }
        Ok(to_set(v))
    });
    def!("subset?", |_, a| {
        let y = set_items(&a[1])?;
        Ok(V::Bool(set_items(&a[0])?.iter().all(|p| y.iter().any(|q| eq(p, q)))))
    });
    *cur.borrow_mut() = c.in_ns("clojure.walk");
    def!("postwalk", |c, a| postwalk(c, &a[0], &a[1]));
    *cur.borrow_mut() = c.in_ns("clojure.edn");
    def!("read-string", |c, a| {
        let (opts, t) = match a {
            [t] => (V::Nil, t),
            [o, t] => (o.clone(), t),
            _ => return arity("read-string", a),
        };
        if matches!(t, V::Nil) {
            return Ok(V::Nil);
        }
        let t = text(t)?.to_string();
        let readers = get(&opts, &kw("readers"), V::Nil)?;
        struct Edn<'a>(&'a Clj, V);
        impl super::reader::Names for Edn<'_> {
            fn current(&self) -> Rc<str> {
                "user".into()
            }
            fn alias(&self, _: &str) -> Option<Rc<str>> {
                None
            }
            fn qualify(&self, n: &str) -> String {
                n.into()
            }
            fn tagged(&self, tag: &str, v: V) -> Option<R<V>> {
                match get(&self.1, &sym(tag), V::Nil) {
                    Ok(V::Nil) => None,
                    Ok(f) => Some(self.0.call(&f, &[v])),
                    Err(e) => Some(Err(e)),
                }
            }
        }
        let n = Edn(c, readers);
        let r = Reader::new(&t, &n, true).next()?;
        match r {
            Some(v) => Ok(v),
            None if a.len() == 2 && contains_soft(&opts, &kw("eof")) => get(&opts, &kw("eof"), V::Nil),
            None if a.len() == 2 => throw("java.lang.RuntimeException", "EOF while reading"),
            None => Ok(V::Nil),
        }
    });
    *cur.borrow_mut() = c.in_ns("clojure.pprint");
    def!("pprint", |c, a| put_out(c, &format!("{}\n", pr(c, &a[0], true)?)));
    *cur.borrow_mut() = c.in_ns("clojure.java.io");
    def!("file", |c, a| {
        let v: Vec<String> = a.iter().map(|x| string(c, x)).collect::<R<_>>()?;
        Ok(V::Obj(Rc::new(Obj::File(v.join("/")))))
    });
    def!("reader", |_, a| match &a[0] {
        V::Obj(o) if matches!(**o, Obj::Reader(_)) => Ok(a[0].clone()),
        _ => undecided("reader"),
    });
    def!("writer", |c, a| match &a[0] {
        V::Obj(o) if matches!(**o, Obj::Writer(_) | Obj::Pipe(_) | Obj::Out(_)) => Ok(a[0].clone()),
        f => host::writer(c, f, appends(&a[1..])?),
    });
    def!("resource", |c, a| {
        let n = string(c, &a[0])?;
        Ok(c.roots.iter().map(|r| r.join(&n)).find(|p| p.is_file()).map(|p| V::Obj(Rc::new(Obj::File(p.to_string_lossy().to_string())))).unwrap_or(V::Nil))
    });
    def!("input-stream", |_, a| match &a[0] {
        V::Nil => throw("java.lang.IllegalArgumentException", "Cannot open <nil> as an InputStream."),
        V::Obj(o) if matches!(**o, Obj::File(_)) => Ok(a[0].clone()),
        _ => undecided("input-stream"),
    });
    *cur.borrow_mut() = c.in_ns("clojure.tools.cli");
    def!("parse-opts", parse_opts);
    *cur.borrow_mut() = c.in_ns("clojure.java.process");
    def!("start", host::start);
    def!("stdin", |c, a| host::process_end(c, &a[0], false));
    def!("stdout", |c, a| host::process_end(c, &a[0], true));
    *cur.borrow_mut() = c.in_ns("clojure.java.shell");
    def!("sh", host::sh);
    *cur.borrow_mut() = c.in_ns("cheshire.parse");
    val("*use-bigdecimals?*", V::Bool(false));
    *cur.borrow_mut() = c.in_ns("cheshire.generate");
    def!("add-encoder", |_, _| Ok(V::Nil));
    *cur.borrow_mut() = c.in_ns("cheshire.core");
    def!("generate-string", |c, a| {
        let mut o = String::new();
        to_json(c, &a[0], &mut o)?;
        Ok(s(o))
    });
    for n in ["parse-string", "parse-string-strict"] {
        def!(n, |c, a| {
            if matches!(a[0], V::Nil) {
                return Ok(V::Nil);
            }
            let big = c.var("cheshire.parse", "*use-bigdecimals?*").and_then(|v| v.get()).is_some_and(|v| truthy(&v));
            let kf = a.get(1).cloned().unwrap_or(V::Nil);
            let mut j = Json { c, t: text(&a[0])?.chars().collect(), i: 0, keywords: matches!(kf, V::Bool(true)), keyf: kf, arrays: a.get(2).cloned().unwrap_or(V::Nil), big };
            j.ws();
            if j.i == j.t.len() {
                return Ok(V::Nil);
            }
            j.value(None)
        });
    }
    *cur.borrow_mut() = c.in_ns("java-time.api");
    def!("local-date", |_, a| local_date(a));
    def!("local-date?", |_, a| Ok(V::Bool(matches!(a[0], V::Date(_)))));
    for (n, ok) in [("before?", (|o| o == Ordering::Less) as fn(Ordering) -> bool), ("after?", |o| o == Ordering::Greater), ("not-after?", |o| o != Ordering::Greater), ("not-before?", |o| o != Ordering::Less), ("=", |o| o == Ordering::Equal)] {
        def!(n, move |_, a| match a {
            [V::Date(x), V::Date(y)] => Ok(V::Bool(ok(x.cmp(y)))),
            [V::Nil, _] | [_, V::Nil] => throw("java.lang.NullPointerException", "date expected"),
            _ => undecided("comparison of dates"),
        });
    }
    c.in_ns("clojure.core");
}
fn contains_soft(m: &V, k: &V) -> bool {
    contains(m, k).unwrap_or(false)
}

fn appends(o: &[V]) -> R<bool> {
    let mut yes = false;
    for kv in o.chunks(2) {
        match kv {
            [V::Kw(k), v] if &**k == "append" => yes = truthy(v),
            [V::Kw(k), _] if &**k == "encoding" => {}
            _ => return undecided("option of a writer"),
        }
    }
    Ok(yes)
}

/// clojure.tools.cli
fn parse_opts(c: &Clj, a: &[V]) -> R<V> {
    struct Spec {
        id: V,
        short: Option<String>,
        long: Option<String>,
        arg: Option<String>,
        desc: String,
        more: Vec<(String, V)>,
    }
    impl Spec {
        fn more(&self, k: &str) -> Option<&V> {
            self.more.iter().find(|x| x.0 == k).map(|x| &x.1)
        }
    }
    if a.len() > 2 {
        return undecided("options of parse-opts");
    }
    let mut specs = vec![];
    for sp in items(&a[1])? {
        let v = items(&sp)?;
        let n = v.iter().take_while(|x| matches!(x, V::Str(_) | V::Nil)).count();
        let t = |i: usize| match v.get(i) {
            Some(V::Str(t)) if i < n => Some(t.to_string()),
            _ => None,
        };
        let long = t(1).unwrap_or_default();
        let (name, arg) = match long.split_once([' ', '=']) {
            Some((a, b)) => (a.to_string(), Some(b.to_string())),
            None => (long.clone(), None),
        };
        let mut more = vec![];
        for kv in v[n..].chunks(2) {
            match kv {
                [V::Kw(k), x] if matches!(&**k, "default" | "default-fn" | "default-desc" | "id" | "parse-fn" | "validate") => more.push((k.to_string(), x.clone())),
                _ => return undecided("option specification"),
            }
        }
        if name.contains('[') || n > 3 {
            return undecided("option specification");
        }
        let id = match more.iter().find(|x| x.0 == "id") {
            Some(x) => x.1.clone(),
            None => kw(name.trim_start_matches('-')),
        };
        specs.push(Spec { id, short: t(0), long: (!name.is_empty()).then_some(name), arg, desc: t(2).unwrap_or_default(), more });
    }
    let (mut args, mut errors, mut rest) = (vec![], vec![], vec![]);
    for x in items(&a[0])? {
        args.push(string(c, &x)?);
    }
    let mut opts: Vec<(V, V)> = vec![];
    for s in &specs {
        if let Some(d) = s.more("default") {
            opts.push((s.id.clone(), d.clone()));
        }
    }
    let mut given: Vec<(String, Option<String>, bool)> = vec![];
    let mut i = 0;
    let wants = |n: &str, long: bool| specs.iter().any(|s| s.arg.is_some() && (if long { &s.long } else { &s.short }).as_deref() == Some(n));
    while i < args.len() {
        let x = args[i].clone();
        i += 1;
        let eq_at = x.find('=');
        if x == "--" {
            rest.extend(args[i..].iter().cloned());
            break;
        } else if x.starts_with("--") && eq_at.is_some_and(|k| k > 2 && !x[..k].contains(char::is_whitespace)) {
            let k = eq_at.expect("found");
            given.push((x[..k].into(), Some(x[k + 1..].into()), true));
        } else if x.starts_with("--") {
            let v = wants(&x, true).then(|| args.get(i).cloned());
            if v.is_some() {
                i += 1;
            }
            given.push((x, v.flatten(), true));
        } else if x.starts_with('-') && x.chars().count() > 1 {
            let cs: Vec<char> = x.chars().skip(1).collect();
            for (k, ch) in cs.iter().enumerate() {
                let n = format!("-{ch}");
                if wants(&n, false) {
                    let tail: String = cs[k + 1..].iter().collect();
                    if tail.is_empty() {
                        given.push((n, args.get(i).cloned(), false));
                        i += 1;
                    } else {
                        given.push((n, Some(tail), false));
                    }
                    break;
                }
                given.push((n, None, false));
            }
        } else {
            rest.push(x);
        }
    }
    let mut set: Vec<V> = vec![];
    for (n, v, long) in given {
        let Some(sp) = specs.iter().find(|s| (if long { &s.long } else { &s.short }).as_deref() == Some(&n)) else {
            errors.push(s(format!("Unknown option: {}", pr(c, &s(n.as_str()), true)?)));
            continue;
        };
        let val = match (&sp.arg, v) {
            (Some(r), None) => {
                errors.push(s(format!("Missing required argument for {}", pr(c, &s(format!("{n} {r}")), true)?)));
                continue;
            }
            (Some(_), Some(v)) => s(v),
            (None, _) => V::Bool(true),
        };
        let val = match sp.more("parse-fn") {
            Some(f) => match c.call(f, &[val.clone()]) {
                Ok(v) => v,
                Err(Ex::Throw(e)) => {
                    errors.push(s(format!("Error while parsing option {:?}: {}", n, string(c, &e)?)));
                    continue;
                }
                Err(e) => return Err(e),
            },
            None => val,
        };
        let mut ok = true;
        if let Some(vs) = sp.more("validate") {
            for fm in items(vs)?.chunks(2) {
                if ok && !truthy(&c.call(&fm[0], &[val.clone()])?) {
                    ok = false;
                    errors.push(s(format!("Failed to validate {n}{}", match fm.get(1) {
                        Some(m) => format!(": {}", string(c, m)?),
                        None => String::new(),
                    })));
                }
            }
        }
        if ok {
            opts.retain(|o| !eq(&o.0, &sp.id));
            opts.push((sp.id.clone(), val));
            set.push(sp.id.clone());
        }
    }
    for sp in &specs {
        if let Some(f) = sp.more("default-fn") {
            if !set.iter().any(|i| eq(i, &sp.id)) {
                let so_far = map(opts.clone());
                let v = c.call(f, &[so_far])?;
                opts.retain(|o| !eq(&o.0, &sp.id));
                opts.push((sp.id.clone(), v));
            }
        }
    }
    let mut rows: Vec<[String; 3]> = vec![];
    for sp in &specs {
        let names = match (&sp.short, &sp.long) {
            (Some(a), Some(b)) => format!("{a}, {b}"),
            (None, Some(b)) => format!("    {b}"),
            (Some(a), None) => a.clone(),
            _ => String::new(),
        };
        let d = match (sp.more("default-desc"), sp.more("default"), sp.more("default-fn")) {
            (Some(d), _, _) => string(c, d)?,
            (_, Some(d), _) => string(c, d)?,
            (_, _, Some(_)) => "<computed>".into(),
            _ => String::new(),
        };
        rows.push([format!("{names}{}", sp.arg.as_ref().map(|a| format!(" {a}")).unwrap_or_default()), d, sp.desc.clone()]);
    }
    let w = |k: usize| rows.iter().map(|r| r[k].chars().count()).max().unwrap_or(0);
    let (w0, w1) = (w(0), w(1));
    let lines: Vec<String> = rows.iter().map(|r| if w1 > 0 { format!("  {:w0$}  {:w1$}  {}", r[0], r[1], r[2]) } else { format!("  {:w0$}  {}", r[0], r[2]) }.trim_end().to_string()).collect();
    Ok(map(vec![
        (kw("options"), map(opts)),
        (kw("arguments"), vector(rest.into_iter().map(s).collect())),
        (kw("summary"), s(lines.join("\n"))),
        (kw("errors"), if errors.is_empty() { V::Nil } else { vector(errors) }),
    ]))
}
