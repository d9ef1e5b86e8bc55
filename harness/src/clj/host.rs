//! What the Clojure sources use of Java, and the child processes they start.
use super::value::*;
use super::{lib, Clj};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::rc::Rc;

pub const CLASSES: &[&str] = &[
    "java.time.LocalDate", "java.time.Instant", "java.time.ZonedDateTime", "java.time.ZoneId", "java.math.BigDecimal", "java.math.RoundingMode", "java.lang.Long", "java.lang.Integer", "java.lang.Number", "java.lang.String",
    "java.lang.Boolean", "java.lang.Character", "java.lang.Object", "java.lang.System", "java.lang.Math", "java.lang.Double", "java.io.OutputStreamWriter", "java.io.PrintWriter", "java.io.StringWriter", "java.io.File", "java.io.Writer",
    "java.util.concurrent.TimeUnit", "java.util.Properties", "clojure.lang.IObj", "clojure.lang.Keyword", "clojure.lang.PersistentVector", "clojure.lang.IPersistentMap", "clojure.lang.Sequential", "java.lang.Runtime", "java.lang.Thread",
    "java.util.UUID", "java.util.Locale", "java.util.regex.Pattern",
];
/// exceptions and what they are kinds of
pub const EXCEPTIONS: &[(&str, &str)] = &[
    ("java.lang.Throwable", ""),
    ("java.lang.Exception", "java.lang.Throwable"),
    ("java.lang.Error", "java.lang.Throwable"),
    ("java.lang.AssertionError", "java.lang.Error"),
    ("java.lang.RuntimeException", "java.lang.Exception"),
    ("java.lang.IllegalArgumentException", "java.lang.RuntimeException"),
    ("java.lang.NumberFormatException", "java.lang.IllegalArgumentException"),
    ("clojure.lang.ArityException", "java.lang.IllegalArgumentException"),
    ("java.lang.IllegalStateException", "java.lang.RuntimeException"),
    ("java.lang.ClassCastException", "java.lang.RuntimeException"),
    ("java.lang.NullPointerException", "java.lang.RuntimeException"),
    ("java.lang.ArithmeticException", "java.lang.RuntimeException"),
    ("java.lang.IndexOutOfBoundsException", "java.lang.RuntimeException"),
    ("java.lang.StringIndexOutOfBoundsException", "java.lang.IndexOutOfBoundsException"),
    ("java.lang.UnsupportedOperationException", "java.lang.RuntimeException"),
    ("java.lang.IllegalAccessError", "java.lang.Error"),
    ("clojure.lang.ExceptionInfo", "java.lang.RuntimeException"),
    ("clojure.lang.Compiler$CompilerException", "java.lang.RuntimeException"),
    ("java.time.DateTimeException", "java.lang.RuntimeException"),
    ("java.time.format.DateTimeParseException", "java.time.DateTimeException"),
    ("java.io.IOException", "java.lang.Exception"),
    ("java.io.FileNotFoundException", "java.io.IOException"),
    ("com.fasterxml.jackson.core.JsonParseException", "java.io.IOException"),
    ("com.fasterxml.jackson.core.JsonGenerationException", "java.io.IOException"),
];
/// namespaces that have what is needed of them in the prelude or here
pub const STUBS: &[&str] = &[
    "clojure.core", "clojure.string", "clojure.set", "clojure.walk", "clojure.edn", "clojure.java.io", "clojure.java.process", "clojure.java.shell", "clojure.spec.alpha", "clojure.pprint", "cheshire.core", "cheshire.parse", "cheshire.generate",
    "clojure.tools.cli", "java-time.api", "taoensso.telemere", "rebel-readline.clojure.main",
];

pub fn class_is(x: &str, c: &str) -> bool {
    if x == c || c == "java.lang.Object" {
        return true;
    }
    match (x, c) {
        ("java.lang.Long" | "java.math.BigDecimal" | "java.lang.Double", "java.lang.Number") => return true,
        (_, "clojure.lang.IObj") if x.starts_with("clojure.lang.Persistent") || x.ends_with("LazySeq") || x.ends_with("Symbol") => return true,
        ("clojure.lang.PersistentArrayMap", "clojure.lang.IPersistentMap") => return true,
        (_, "clojure.lang.Sequential") => return x.contains("Vector") || x.contains("List") || x.contains("LazySeq"),
        ("java.lang.Object", "java.io.Writer" | "java.io.PrintWriter") => return true,
        _ => {}
    }
    match EXCEPTIONS.iter().find(|e| e.0 == x) {
        Some((_, p)) if !p.is_empty() => class_is(p, c),
        _ => false,
    }
}
pub fn class_of(v: &V) -> String {
    match v {
        V::Exc(e) => e.class.clone(),
        _ => type_name(v).into(),
    }
}
pub fn is_a(v: &V, c: &str) -> bool {
    class_is(&class_of(v), c)
}

/// what the interpreter may see of the machine
pub struct Host {
    pub env: BTreeMap<String, String>,
    pub bin: PathBuf,
    pub dir: RefCell<PathBuf>,
    /// *out* and *err* where nothing else is bound
    pub out: V,
    pub err: V,
    /// all lines sent to and received from pods, for the record
    pub talk: RefCell<Vec<(bool, String)>>,
    pub pods: RefCell<Vec<V>>,
    /// their ends, which nothing but closing them closes
    ends: RefCell<Vec<V>>,
}
impl Host {
    pub fn new(bin: PathBuf, dir: PathBuf) -> Host {
        let w = || V::Obj(Rc::new(Obj::Writer(RefCell::new(String::new()))));
        Host { env: Default::default(), bin, dir: RefCell::new(dir), out: w(), err: w(), talk: Default::default(), pods: Default::default(), ends: Default::default() }
    }
    pub fn take(w: &V) -> String {
        match w {
            V::Obj(o) => match &**o {
                Obj::Writer(b) => std::mem::take(&mut *b.borrow_mut()),
                _ => String::new(),
            },
            _ => String::new(),
        }
    }
    /// ends what pods there still are
    pub fn reap(&self) {
        self.ends.borrow_mut().clear();
        for p in self.pods.borrow_mut().drain(..) {
            if let V::Obj(o) = &p {
                if let Obj::Process(c) = &**o {
                    let mut c = c.borrow_mut();
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
        }
    }
    fn command(&self, args: &[V]) -> R<Command> {
        let name = text(args.first().unwrap_or(&V::Nil))?;
        if !matches!(&name[..], "limabean-pod" | "limabean") {
            return undecided(format!("program {name}"));
        }
        let mut c = Command::new(self.bin.join(name));
        c.env_clear().env("PATH", "/usr/bin:/bin").env("LC_ALL", "C.UTF-8").env("HOME", &*self.dir.borrow()).current_dir(&*self.dir.borrow());
        for a in &args[1..] {
            c.arg(text(a)?);
        }
        Ok(c)
    }
}

pub struct LineReader {
    pub from: std::process::ChildStdout,
    pub buf: Vec<u8>,
}
pub const ANSWER_S: i32 = 60;
impl LineReader {
    fn line(&mut self) -> R<Option<String>> {
        loop {
            if let Some(i) = self.buf.iter().position(|b| *b == b'\n') {
                let mut l: Vec<u8> = self.buf.drain(..=i).collect();
                l.pop();
                return Ok(Some(String::from_utf8_lossy(&l).to_string()));
            }
            let mut p = libc::pollfd { fd: self.from.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let n = unsafe { libc::poll(&mut p, 1, ANSWER_S * 1000) };
            if n == 0 {
                return throw("java.io.IOException", format!("pod gave no answer in {ANSWER_S} s"));
            }
            let mut b = [0u8; 65536];
            match self.from.read(&mut b) {
                Ok(0) | Err(_) => {
                    if self.buf.is_empty() {
                        return Ok(None);
                    }
                    let l = std::mem::take(&mut self.buf);
                    return Ok(Some(String::from_utf8_lossy(&l).to_string()));
                }
                Ok(n) => self.buf.extend_from_slice(&b[..n]),
            }
        }
    }
}

fn text(v: &V) -> R<String> {
    match v {
        V::Str(t) => Ok(t.to_string()),
        V::Obj(o) => match &**o {
            Obj::File(p) => Ok(p.clone()),
            _ => undecided("text of an object"),
        },
        V::Nil => throw("java.lang.NullPointerException", "nil where a string is needed"),
        _ => throw("java.lang.ClassCastException", format!("class {} cannot be cast to class java.lang.String", type_name(v))),
    }
}

pub fn start(c: &Clj, args: &[V]) -> R<V> {
    let args: Vec<V> = args.iter().filter(|a| !matches!(a, V::Map(_))).cloned().collect();
    let mut cmd = c.host.command(&args)?;
    cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    match cmd.spawn() {
        Ok(ch) => {
            let v = V::Obj(Rc::new(Obj::Process(RefCell::new(ch))));
            c.host.pods.borrow_mut().push(v.clone());
            Ok(v)
        }
        Err(e) => throw("java.io.IOException", format!("Cannot run program: {e}")),
    }
}
pub fn process_end(c: &Clj, v: &V, out: bool) -> R<V> {
    let V::Obj(o) = v else { return undecided("process") };
    let Obj::Process(p) = &**o else { return undecided("process") };
    let mut p = p.borrow_mut();
    if out {
        match p.stdout.take() {
            Some(from) => Ok(V::Obj(Rc::new(Obj::Reader(RefCell::new(LineReader { from, buf: vec![] }))))),
            None => undecided("stdout taken twice"),
        }
    } else {
        let v = V::Obj(Rc::new(Obj::Pipe(RefCell::new(p.stdin.take()))));
        c.host.ends.borrow_mut().push(v.clone());
        Ok(v)
    }
}
/// clojure.java.shell/sh
pub fn sh(c: &Clj, args: &[V]) -> R<V> {
    let n = args.iter().position(|a| matches!(a, V::Kw(_))).unwrap_or(args.len());
    let mut input = String::new();
    for o in args[n..].chunks(2) {
        match (&o[0], o.get(1)) {
            (V::Kw(k), Some(v)) if &**k == "in" => input = text(v)?,
            _ => return undecided("option of sh"),
        }
    }
    let mut cmd = c.host.command(&args[..n])?;
    cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return throw("java.io.IOException", format!("Cannot run program: {e}")),
    };
    let mut w = ch.stdin.take().expect("piped");
    let t = std::thread::spawn(move || {
        let _ = w.write_all(input.as_bytes());
    });
    let o = ch.wait_with_output().map_err(|e| Ex::Undecided(e.to_string()))?;
    let _ = t.join();
    Ok(map(vec![
        (kw("exit"), V::Int(o.status.code().unwrap_or(-1) as i64)),
        (kw("out"), s(String::from_utf8_lossy(&o.stdout).to_string())),
        (kw("err"), s(String::from_utf8_lossy(&o.stderr).to_string())),
    ]))
}

pub fn write(c: &Clj, w: &V, t: &str) -> R<()> {
    let V::Obj(o) = w else { return throw("java.lang.ClassCastException", "not a writer") };
    match &**o {
        Obj::Writer(b) => b.borrow_mut().push_str(t),
        Obj::Pipe(p) => {
            if t != "\n" {
                c.host.talk.borrow_mut().push((true, t.to_string()));
            }
            if let Some(p) = p.borrow_mut().as_mut() {
                // (PrintWriter swallows what goes wrong)
                let _ = p.write_all(t.as_bytes());
                let _ = p.flush();
            }
        }
        Obj::Out(f) => match f.borrow_mut().as_mut() {
            Some(f) => f.write_all(t.as_bytes()).or_else(|e| throw("java.io.IOException", e.to_string()))?,
            None => return throw("java.io.IOException", "Stream closed"),
        },
        _ => return undecided("writer"),
    }
    Ok(())
}
/// a file to write to, which has to be within the case's own directory
pub fn writer(c: &Clj, f: &V, append: bool) -> R<V> {
    let n = text(f)?;
    let own = c.host.dir.borrow().canonicalize().map_err(|e| Ex::Undecided(e.to_string()))?;
    let p = own.join(&n);
    let missing = || throw("java.io.FileNotFoundException", format!("{n} (No such file or directory)"));
    let Some(Ok(at)) = p.parent().map(|x| x.canonicalize()) else { return missing() };
    if !at.starts_with(&own) || p.file_name().is_none() || p.is_symlink() {
        return undecided("writing outside of the case's directory");
    }
    let mut o = std::fs::OpenOptions::new();
    match o.create(true).write(true).append(append).truncate(!append).open(&p) {
        Ok(f) => Ok(V::Obj(Rc::new(Obj::Out(RefCell::new(Some(f)))))),
        Err(e) => throw("java.io.FileNotFoundException", format!("{n} ({e})")),
    }
}

pub fn construct(c: &Clj, class: &str, a: &[V]) -> R<V> {
    if EXCEPTIONS.iter().any(|e| e.0 == class) {
        let msg = match a.first() {
            Some(V::Str(t)) => Some(t.to_string()),
            None | Some(V::Nil) => None,
            Some(v) => Some(lib::string(c, v)?),
        };
        return Ok(V::Exc(Rc::new(Exc { class: class.into(), msg, data: V::Nil, cause: a.get(1).cloned().unwrap_or(V::Nil) })));
    }
    match class {
        "java.io.OutputStreamWriter" | "java.io.PrintWriter" => Ok(a[0].clone()),
        "java.io.StringWriter" => Ok(V::Obj(Rc::new(Obj::Writer(RefCell::new(String::new()))))),
        "java.math.BigDecimal" => match &a[0] {
            V::Str(t) => Dec::parse(t).map(V::Dec).map_or_else(|| throw("java.lang.NumberFormatException", "not a number"), Ok),
            v => Ok(V::Dec(dec(v)?)),
        },
        "java.util.Properties" => Ok(V::Obj(Rc::new(Obj::Props(Default::default())))),
        "java.io.File" if a.len() == 2 => Ok(V::Obj(Rc::new(Obj::File(format!("{}/{}", text(&a[0])?, text(&a[1])?))))),
        "java.io.File" => Ok(V::Obj(Rc::new(Obj::File(text(&a[0])?)))),
        "java.lang.String" => Ok(a.first().cloned().unwrap_or_else(|| s(""))),
        _ => undecided(format!("new {class}")),
    }
}
pub fn static_field(c: &Clj, class: &str, m: &str) -> R<V> {
    match (class, m) {
        ("clojure.core", "*ns*") => Ok(V::Ns(c.ns.borrow().clone())),
        ("java.util.concurrent.TimeUnit", _) => Ok(V::Obj(Rc::new(Obj::Unit(m.into())))),
        ("java.lang.Long", "MAX_VALUE") => Ok(V::Int(i64::MAX)),
        ("java.lang.Long", "MIN_VALUE") => Ok(V::Int(i64::MIN)),
        ("java.math.BigDecimal", "ZERO") => Ok(V::Dec(Dec::int(0))),
        ("java.math.BigDecimal", "ONE") => Ok(V::Dec(Dec::int(1))),
        _ => {
            // a static method without arguments, or used as a function
            let (class, m) = (class.to_string(), m.to_string());
            if CLASSES.contains(&&class[..]) {
                return Ok(native(&m.clone(), move |c, a| static_call(c, &class, &m, a)));
            }
            undecided(format!("{class}/{m}"))
        }
    }
}
pub fn static_call(c: &Clj, class: &str, m: &str, a: &[V]) -> R<V> {
    match (class, m, a) {
        ("java.lang.System", "getenv", [V::Str(k)]) => Ok(c.host.env.get(&**k).map(|v| s(v.as_str())).unwrap_or(V::Nil)),
        ("java.lang.System", "identityHashCode", [x]) => Ok(V::Int(match x {
            V::Map(m) => m.id,
            V::Vec(m) | V::Set(m) => m.id,
            V::Nil => 0,
            V::Kw(k) => -1 - (k.len() as i64) - k.bytes().map(|b| b as i64).sum::<i64>() * 1000,
            _ => return undecided("identity of a value that is no collection"),
        })),
        ("java.lang.System", "exit", [V::Int(n)]) => throw("lbverif.Exit", n.to_string()),
        ("java.lang.System", "getProperty", _) => Ok(V::Nil),
        ("java.lang.System", "lineSeparator", _) => Ok(s("\n")),
        ("java.lang.String", "valueOf", [x]) => Ok(s(lib::string(c, x)?)),
        ("java.lang.String", "join", [sep, xs]) => {
            let v: Vec<String> = items(xs)?.iter().map(|x| lib::string(c, x)).collect::<R<_>>()?;
            Ok(s(v.join(&text(sep)?)))
        }
        ("java.lang.Math", "abs", [x]) => Ok(match x {
            V::Int(i) => V::Int(i.abs()),
            V::Dec(d) => V::Dec(Dec { m: d.m.abs(), s: d.s }),
            _ => return undecided("Math/abs"),
        }),
        ("java.lang.Math", "max", [V::Int(x), V::Int(y)]) => Ok(V::Int(*x.max(y))),
        ("java.lang.Math", "min", [V::Int(x), V::Int(y)]) => Ok(V::Int(*x.min(y))),
        ("java.time.LocalDate", "parse", [V::Str(t)]) => Date::parse(t).map(V::Date).map_or_else(|| throw("java.time.format.DateTimeParseException", format!("Text '{t}' could not be parsed at index 0")), Ok),
        ("java.time.LocalDate", "of", [V::Int(y), V::Int(m), V::Int(d)]) => Date::new(*y, *m, *d).map(V::Date).map_or_else(|| throw("java.time.DateTimeException", "Invalid date"), Ok),
        ("java.lang.Long" | "java.lang.Integer", "parseLong" | "parseInt" | "valueOf", [V::Str(t)]) => t.parse().map(V::Int).or_else(|_| throw("java.lang.NumberFormatException", format!("For input string: \"{t}\""))),
        ("java.math.BigDecimal", "valueOf", [x]) => Ok(V::Dec(dec(x)?)),
        ("java.lang.Character", "isDigit", [V::Char(x)]) => Ok(V::Bool(x.is_numeric())),
        ("java.lang.Character", "isUpperCase", [V::Char(x)]) => Ok(V::Bool(x.is_uppercase())),
        ("java.util.regex.Pattern", "quote", [V::Str(t)]) => Ok(s(regex::escape(t))),
        _ => undecided(format!("{class}/{m} of {} arguments", a.len())),
    }
}

pub fn method(c: &Clj, m: &str, o: &V, a: &[V]) -> R<V> {
    match (o, m, a) {
        (V::Nil, _, _) => throw("java.lang.NullPointerException", format!("Cannot invoke \"{m}\" because target is null")),
        (_, "toString", []) => Ok(s(lib::string(c, o)?)),
        (_, "equals", [x]) => Ok(V::Bool(eq(o, x))),
        (_, "getClass", []) => Ok(V::Class(class_of(o).into())),
        (_, "compareTo", [x]) => Ok(V::Int(compare(o, x)? as i64)),
        (V::Exc(e), "getMessage" | "getLocalizedMessage", []) => Ok(e.msg.as_deref().map(s).unwrap_or(V::Nil)),
        (V::Exc(e), "getCause", []) => Ok(e.cause.clone()),
        (V::Exc(e), "getData", []) => Ok(e.data.clone()),
        (V::Str(t), _, _) => {
            let u: Vec<u16> = t.encode_utf16().collect();
            let back = |u: &[u16]| s(String::from_utf16_lossy(u));
            Ok(match (m, a) {
                ("length", []) => V::Int(u.len() as i64),
                ("isEmpty", []) => V::Bool(t.is_empty()),
                ("isBlank", []) => V::Bool(t.trim().is_empty()),
                ("trim" | "strip", []) => s(t.trim()),
                ("toUpperCase", []) => s(t.to_uppercase()),
                ("toLowerCase", []) => s(t.to_lowercase()),
                ("startsWith", [V::Str(x)]) => V::Bool(t.starts_with(&**x)),
                ("endsWith", [V::Str(x)]) => V::Bool(t.ends_with(&**x)),
                ("contains", [V::Str(x)]) => V::Bool(t.contains(&**x)),
                ("concat", [V::Str(x)]) => s(format!("{t}{x}")),
                ("replace", [x, y]) => s(t.replace(&lib::string(c, x)?, &lib::string(c, y)?)),
                ("indexOf", [x]) => {
                    let x: Vec<u16> = lib::string(c, x)?.encode_utf16().collect();
                    V::Int(if x.is_empty() { 0 } else { u.windows(x.len()).position(|w| w == x).map(|i| i as i64).unwrap_or(-1) })
                }
                ("lastIndexOf", [x]) => {
                    let x: Vec<u16> = lib::string(c, x)?.encode_utf16().collect();
                    V::Int(if x.is_empty() { u.len() as i64 } else { u.windows(x.len()).rposition(|w| w == x).map(|i| i as i64).unwrap_or(-1) })
                }
                ("substring", [V::Int(i)]) => match u.get(*i as usize..) {
                    Some(x) => back(x),
                    None => return throw("java.lang.StringIndexOutOfBoundsException", "substring"),
                },
                ("substring", [V::Int(i), V::Int(j)]) => match u.get(*i as usize..*j as usize) {
                    Some(x) => back(x),
                    None => return throw("java.lang.StringIndexOutOfBoundsException", "substring"),
                },
                ("charAt", [V::Int(i)]) => match u.get(*i as usize) {
                    Some(x) => V::Char(char::from_u32(*x as u32).unwrap_or('?')),
                    None => return throw("java.lang.StringIndexOutOfBoundsException", "charAt"),
                },
                _ => return undecided(format!("String.{m}")),
            })
        }
        (V::Dec(d), _, _) => Ok(match (m, a) {
            ("scale", []) => V::Int(d.s as i64),
            ("signum", []) => V::Int(d.m.signum() as i64),
            ("negate", []) => V::Dec(d.neg()),
            ("abs", []) => V::Dec(Dec { m: d.m.abs(), s: d.s }),
            ("toPlainString", []) => s(d.plain()),
            ("stripTrailingZeros", []) => V::Dec(d.strip()),
            ("add", [x]) => V::Dec(Dec::add(*d, dec(x)?)?),
            ("subtract", [x]) => V::Dec(Dec::add(*d, dec(x)?.neg())?),
            ("multiply", [x]) => V::Dec(Dec::mul(*d, dec(x)?)?),
            ("precision", []) => V::Int(d.m.unsigned_abs().to_string().len() as i64),
            _ => return undecided(format!("BigDecimal.{m}")),
        }),
        (V::Date(d), _, _) => Ok(match (m, a) {
            ("getYear", []) => V::Int(d.y as i64),
            ("getMonthValue", []) => V::Int(d.m as i64),
            ("getDayOfMonth", []) => V::Int(d.d as i64),
            ("isBefore", [V::Date(x)]) => V::Bool(d < x),
            ("isAfter", [V::Date(x)]) => V::Bool(d > x),
            ("isEqual", [V::Date(x)]) => V::Bool(d == x),
            ("plusDays", [V::Int(n)]) => V::Date(Date::from_days(d.days() + n)),
            ("minusDays", [V::Int(n)]) => V::Date(Date::from_days(d.days() - n)),
            ("toEpochDay", []) => V::Int(d.days()),
            _ => return undecided(format!("LocalDate.{m}")),
        }),
        (V::Obj(x), _, _) => match (&**x, m, a) {
            (Obj::Writer(_) | Obj::Pipe(_) | Obj::Out(_), "write" | "print" | "append", [t]) => write(c, o, &lib::string(c, t)?).map(|_| V::Nil),
            (Obj::Writer(_) | Obj::Pipe(_) | Obj::Out(_), "println", [t]) => {
                write(c, o, &lib::string(c, t)?)?;
                write(c, o, "\n").map(|_| V::Nil)
            }
            (_, "flush", []) => Ok(V::Nil),
            (Obj::Pipe(p), "close", []) => {
                p.borrow_mut().take();
                Ok(V::Nil)
            }
            (Obj::Out(f), "close", []) => {
                f.borrow_mut().take();
                Ok(V::Nil)
            }
            (Obj::Props(p), "load", [V::Obj(f)]) => {
                let Obj::File(f) = &**f else { return undecided("properties") };
                for l in std::fs::read_to_string(f).map_err(|e| Ex::Undecided(e.to_string()))?.lines() {
                    if let Some((k, v)) = l.split_once('=') {
                        p.borrow_mut().insert(k.trim().into(), v.trim_start().into());
                    }
                }
                Ok(V::Nil)
            }
            (Obj::Props(p), "getProperty", [V::Str(k)]) => Ok(p.borrow().get(&**k).map(|v| s(v.as_str())).unwrap_or(V::Nil)),
            (Obj::Props(p), "getProperty", [V::Str(k), d]) => Ok(p.borrow().get(&**k).map(|v| s(v.as_str())).unwrap_or(d.clone())),
            (_, "close", []) => Ok(V::Nil),
            (Obj::Reader(r), "readLine", []) => {
                let l = r.borrow_mut().line()?;
                if let Some(l) = &l {
                    c.host.talk.borrow_mut().push((false, l.clone()));
                }
                Ok(l.map(s).unwrap_or(V::Nil))
            }
            (Obj::Process(p), "waitFor", _) => {
                let mut p = p.borrow_mut();
                drop(p.stdin.take());
                for _ in 0..10_000 {
                    if let Ok(Some(_)) = p.try_wait() {
                        return Ok(V::Bool(true));
                    }
                    std::thread::sleep(std::time::Duration::from_millis(1));
                }
                Ok(V::Bool(false))
            }
            (Obj::Process(p), "destroyForcibly" | "destroy", []) => {
                let _ = p.borrow_mut().kill();
                Ok(o.clone())
            }
            (Obj::File(f), "getName", []) => Ok(s(f.rsplit('/').next().unwrap_or(""))),
            (Obj::File(f), "getPath" | "toString", []) => Ok(s(f.as_str())),
            (Obj::File(f), "exists", []) => Ok(V::Bool(c.host.dir.borrow().join(f).exists())),
            (Obj::File(f), "isFile", []) => Ok(V::Bool(c.host.dir.borrow().join(f).is_file())),
            (Obj::File(f), "isDirectory", []) => Ok(V::Bool(c.host.dir.borrow().join(f).is_dir())),
            (Obj::File(f), "canRead", []) => Ok(V::Bool(std::fs::File::open(c.host.dir.borrow().join(f)).is_ok())),
            (Obj::File(f), "getParent", []) => Ok(f.rsplit_once('/').map(|x| s(x.0)).unwrap_or(V::Nil)),
            (Obj::File(f), "getParentFile", []) => Ok(f.rsplit_once('/').map(|x| V::Obj(Rc::new(Obj::File(x.0.into())))).unwrap_or(V::Nil)),
            (Obj::File(f), "getAbsolutePath", []) => Ok(s(c.host.dir.borrow().join(f).to_string_lossy().to_string())),
            (Obj::File(f), "getAbsoluteFile", []) => Ok(V::Obj(Rc::new(Obj::File(c.host.dir.borrow().join(f).to_string_lossy().to_string())))),
            _ => undecided(format!("method {m}")),
        },
        (V::Map(_), "get", [k]) => lib::get(o, k, V::Nil),
        (V::Vec(_) | V::Map(_) | V::Set(_), "size", []) => Ok(V::Int(lib::count(o)?)),
        _ => undecided(format!("method {m} of {}", type_name(o))),
    }
}
