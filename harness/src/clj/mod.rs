//! An interpreter for as much of Clojure as the repository's Clojure sources need. It runs those
//! sources as they stand in the tree, against the real `limabean-pod`: there is no Clojure or JVM
//! library offline to run them with. What it does not have is `Ex::Undecided`, never a verdict.
pub mod host;
pub mod lib;
pub mod reader;
pub mod value;
use reader::{gensym, Names, Reader};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::path::PathBuf;
use std::rc::Rc;
use value::*;

pub struct EnvN {
    v: V,
    next: Env,
}
pub type Env = Option<Rc<EnvN>>;
fn push(e: &Env, v: V) -> Env {
    Some(Rc::new(EnvN { v, next: e.clone() }))
}

pub struct Arity {
    n: usize,
    variadic: bool,
    body: Node,
}
pub enum Node {
    Const(V),
    Local(usize),
    Global(Rc<Var>),
    Missing(String),
    If(Box<[Node; 3]>),
    Do(Vec<Node>),
    Let(Vec<Node>, Box<Node>),
    Loop(Vec<Node>, Box<Node>),
    Recur(Vec<Node>),
    Fn(String, Rc<Vec<Arity>>, bool),
    Call(Box<Node>, Vec<Node>),
    VecN(Vec<Node>),
    MapN(Vec<(Node, Node)>),
    SetN(Vec<Node>),
    Throw(Box<Node>),
    Try(Box<Node>, Vec<(String, Node)>, Option<Box<Node>>),
    Def(Rc<Var>, Option<Box<Node>>),
    New(String, Vec<Node>),
    Method(String, Box<Node>, Vec<Node>),
    Static(String, String, Option<Vec<Node>>),
    Set(Rc<Var>, Box<Node>),
    LazySeq(Rc<Node>),
    Delay(Rc<Node>),
    Binding(Vec<(Rc<Var>, Node)>, Box<Node>),
    Case(Box<Node>, Vec<(Vec<V>, Node)>, Option<Box<Node>>),
    InNs(Rc<str>, Box<Node>),
}

pub struct Inner {
    pub nss: RefCell<HashMap<Rc<str>, Rc<Ns>>>,
    pub ns: RefCell<Rc<Ns>>,
    pub imports: RefCell<HashMap<String, String>>,
    pub loaded: RefCell<HashSet<String>>,
    pub roots: Vec<PathBuf>,
    pub host: host::Host,
    pub core: RefCell<HashMap<&'static str, Rc<Var>>>,
    pub printers: RefCell<Option<Rc<Multi>>>,
    steps: std::cell::Cell<u64>,
    depth: std::cell::Cell<u32>,
}
#[derive(Clone)]
pub struct Clj(pub Rc<Inner>);

const MAX_DEPTH: u32 = 3000;
const MAX_STEPS: u64 = 400_000_000;

impl std::ops::Deref for Clj {
    type Target = Inner;
    fn deref(&self) -> &Inner {
        &self.0
    }
}

pub fn meta_of(v: &V) -> V {
    match v {
        V::Vec(c) | V::Set(c) => c.meta.clone(),
        V::Map(m) => m.meta.clone(),
        V::List(c) => c.meta.clone(),
        V::Sym(x) => x.meta.clone(),
        V::Fn(f) => f.meta.clone(),
        _ => V::Nil,
    }
}
pub fn with_meta(v: &V, m: V) -> Option<V> {
    Some(match v {
        V::Vec(c) => vector_m(c.v.clone(), m),
        V::Set(c) => set_m(c.v.clone(), m),
        V::Map(x) => map_m(x.v.clone(), m),
        V::List(c) => V::List(Rc::new(Cons { first: c.first.clone(), rest: c.rest.clone(), meta: m })),
        V::Sym(x) => V::Sym(Rc::new(Sym { name: x.name.clone(), meta: m })),
        V::Fn(f) => match &f.kind {
            FuncKind::Closure { arities, env, named } => V::Fn(Rc::new(Func { name: f.name.clone(), meta: m, kind: FuncKind::Closure { arities: arities.clone(), env: env.clone(), named: *named } })),
            FuncKind::Native(_) => return None,
        },
        V::Lazy(_) => return with_meta(&list(items(v).ok()?), m),
        V::Empty => V::Empty,
        _ => return None,
    })
}
pub fn regex_of(t: &str) -> R<V> {
    regex::Regex::new(t).map(|r| V::Re(Rc::new(r))).map_err(|e| Ex::Undecided(format!("regex {t}: {e}")))
}
fn meta_flag(v: &V, k: &str) -> bool {
    matches!(meta_of(v), V::Map(m) if m.get(&kw(k)).is_some_and(truthy))
}

impl Names for Clj {
    fn current(&self) -> Rc<str> {
        self.ns.borrow().name.clone()
    }
    fn alias(&self, a: &str) -> Option<Rc<str>> {
        let ns = self.ns.borrow();
        let r = ns.aliases.borrow().get(a).cloned();
        r.or_else(|| self.nss.borrow().get(a).map(|n| n.name.clone()))
    }
    fn qualify(&self, n: &str) -> String {
        if is_special(n) || n == "&" || n.starts_with('.') || n.ends_with('.') && n.len() > 1 || n == "catch" || n == "finally" {
            return n.to_string();
        }
        if let Some((a, m)) = n.split_once('/').filter(|_| n.len() > 1) {
            return match self.alias(a) {
                Some(ns) => format!("{ns}/{m}"),
                None => n.to_string(),
            };
        }
        if self.imports.borrow().contains_key(n) || n.contains('.') && n.len() > 2 || is_class(n) {
            return n.to_string();
        }
        match self.lookup(n) {
            Some(v) => format!("{}/{}", v.ns, v.name),
            None if SPECIAL.contains(&n) => format!("clojure.core/{n}"),
            None => format!("{}/{n}", self.ns.borrow().name),
        }
    }
    fn tagged(&self, tag: &str, v: V) -> Option<R<V>> {
        match (tag, &v) {
            ("time/date", V::Str(t)) => Some(Date::parse(t).map(V::Date).map_or_else(|| throw("java.time.format.DateTimeParseException", format!("Text '{t}' could not be parsed")), Ok)),
            ("regex", V::Str(t)) => Some(regex_of(t)),
            _ => None,
        }
    }
}

const SPECIAL: &[&str] = &[
    "def", "if", "do", "let", "let*", "fn", "fn*", "loop", "loop*", "recur", "quote", "var", "throw", "try", "new", ".", "set!", "case", "lazy-seq", "delay", "binding", "ns", "defmacro", "import", "letfn", "&",
];
fn is_special(n: &str) -> bool {
    SPECIAL.contains(&n) && !matches!(n, "let" | "fn" | "loop" | "case" | "lazy-seq" | "delay" | "binding" | "ns" | "defmacro" | "import" | "letfn")
}
fn is_class(n: &str) -> bool {
    host::CLASSES.iter().any(|c| *c == n || c.rsplit('.').next() == Some(n)) || host::EXCEPTIONS.iter().any(|(c, _)| *c == n || c.rsplit('.').next() == Some(n))
}

struct Scope {
    names: Vec<String>,
}
impl Scope {
    fn find(&self, n: &str) -> Option<usize> {
        self.names.iter().rev().position(|x| x == n)
    }
}

fn sname(v: &V) -> Option<&str> {
    match v {
        V::Sym(x) => Some(&x.name),
        _ => None,
    }
}
fn syntax<T>(m: impl Into<String>) -> R<T> {
    throw("clojure.lang.Compiler$CompilerException", m)
}

impl Clj {
    pub fn new(roots: Vec<PathBuf>, host: host::Host) -> R<Clj> {
        let core = Rc::new(Ns { name: "clojure.core".into(), vars: Default::default(), refers: Default::default(), aliases: Default::default() });
        let c = Clj(Rc::new(Inner {
            nss: RefCell::new([(core.name.clone(), core.clone())].into()),
            ns: RefCell::new(core),
            imports: Default::default(),
            loaded: Default::default(),
            roots,
            host,
            core: Default::default(),
            printers: Default::default(),
            steps: Default::default(),
            depth: Default::default(),
        }));
        lib::install(&c);
        c.eval_text(include_str!("prelude.clj"), "prelude")?;
        c.in_ns("user");
        Ok(c)
    }
    pub fn in_ns(&self, n: &str) -> Rc<Ns> {
        let mut nss = self.nss.borrow_mut();
        let ns = nss.entry(n.into()).or_insert_with(|| Rc::new(Ns { name: n.into(), vars: Default::default(), refers: Default::default(), aliases: Default::default() })).clone();
        *self.ns.borrow_mut() = ns.clone();
        ns
    }
    pub fn ns_named(&self, n: &str) -> Option<Rc<Ns>> {
        self.nss.borrow().get(n).cloned()
    }
    pub fn intern(&self, ns: &Rc<Ns>, n: &str) -> Rc<Var> {
        ns.vars
            .borrow_mut()
            .entry(n.into())
            .or_insert_with(|| Rc::new(Var { ns: ns.name.clone(), name: n.into(), root: Default::default(), bound: Default::default(), is_macro: Default::default() }))
            .clone()
    }
    pub fn var(&self, ns: &str, n: &str) -> Option<Rc<Var>> {
        let x = self.ns_named(ns)?;
        let v = x.vars.borrow().get(n).cloned();
        v
    }
    fn lookup(&self, n: &str) -> Option<Rc<Var>> {
        if let Some((a, m)) = n.split_once('/').filter(|(a, m)| !a.is_empty() && !m.is_empty()) {
            let ns = self.alias(a)?;
            return self.var(&ns, m);
        }
        let ns = self.ns.borrow().clone();
        if let Some(v) = ns.vars.borrow().get(n) {
            return Some(v.clone());
        }
        if let Some(v) = ns.refers.borrow().get(n) {
            return Some(v.clone());
        }
        self.var("clojure.core", n)
    }
    pub fn eval_text(&self, t: &str, what: &str) -> R<V> {
        let mut r = Reader::new(t, self, false);
        let mut last = V::Nil;
        loop {
            match r.next() {
                Ok(None) => return Ok(last),
                Ok(Some(f)) => last = self.eval_form(&f)?,
                Err(Ex::Undecided(m)) => return undecided(format!("{what}: {m}")),
                Err(e) => return Err(e),
            }
        }
    }
    pub fn eval_form(&self, f: &V) -> R<V> {
        let n = self.analyze(f, &mut Scope { names: vec![] })?;
        self.eval(&n, &None)
    }
    /// a namespace of the repository, or of the prelude
    pub fn require(&self, n: &str) -> R<()> {
        if self.loaded.borrow().contains(n) {
            return Ok(());
        }
        if self.ns_named(n).is_some_and(|x| !x.vars.borrow().is_empty()) {
            return Ok(());
        }
        let rel = format!("{}.clj", n.replace('-', "_").replace('.', "/"));
        for r in &self.roots {
            let f = r.join(&rel);
            if let Ok(t) = std::fs::read_to_string(&f) {
                let was = self.ns.borrow().clone();
                self.loaded.borrow_mut().insert(n.into());
                let r = self.eval_text(&t, n);
                *self.ns.borrow_mut() = was;
                if r.is_err() {
                    self.loaded.borrow_mut().remove(n);
                }
                return r.map(|_| ());
            }
        }
        if host::STUBS.contains(&n) {
            return Ok(());
        }
        // (a library that is in no source tree)
        if ["clojure.", "java-time", "cheshire", "taoensso", "rebel"].iter().any(|p| n.starts_with(p)) {
            return undecided(format!("namespace {n}"));
        }
        throw("java.io.FileNotFoundException", format!("Could not locate {rel} on classpath."))
    }
    pub fn require_spec(&self, spec: &V) -> R<()> {
        let v = match spec {
            V::Sym(x) => vec![V::Sym(x.clone())],
            V::Vec(c) => c.v.clone(),
            _ => return undecided("require of a prefix list"),
        };
        let Some(n) = v.first().and_then(sname).map(String::from) else { return undecided("require") };
        self.require(&n)?;
        let ns = self.ns.borrow().clone();
        let mut it = v[1..].iter();
        while let (Some(k), Some(x)) = (it.next(), it.next()) {
            match k {
                V::Kw(k) if &**k == "as" || &**k == "as-alias" => {
                    ns.aliases.borrow_mut().insert(sname(x).unwrap_or("?").into(), n.as_str().into());
                }
                V::Kw(k) if &**k == "refer" => {
                    let from = self.ns_named(&n);
                    let names: Vec<Rc<str>> = match (x, &from) {
                        (V::Kw(_), Some(f)) => f.vars.borrow().keys().cloned().collect(),
                        (V::Kw(_), None) => vec![],
                        _ => items(x)?.iter().filter_map(|y| sname(y).map(Rc::from)).collect(),
                    };
                    for m in names {
                        match self.var(&n, &m) {
                            Some(v) => {
                                ns.refers.borrow_mut().insert(m, v);
                            }
                            None if host::STUBS.contains(&n.as_str()) => {}
                            None => return throw("java.lang.IllegalAccessError", format!("{m} does not exist")),
                        }
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
    fn do_ns(&self, f: &[V]) -> R<()> {
        let Some(n) = f.first().and_then(sname) else { return syntax("ns") };
        self.in_ns(n);
        for c in &f[1..] {
            if let V::List(_) = c {
                let v = items(c)?;
                match &v[0] {
                    V::Kw(k) if matches!(&**k, "require") => {
                        for s in &v[1..] {
                            self.require_spec(s)?;
                        }
                    }
                    V::Kw(k) if &**k == "use" => {
                        for s in &v[1..] {
                            let n = match s {
                                V::Vec(c) => c.v[0].clone(),
                                s => s.clone(),
                            };
                            self.require_spec(&vector(vec![n, kw("refer"), kw("all")]))?;
                        }
                    }
                    V::Kw(k) if &**k == "import" => self.do_import(&v[1..])?,
                    _ => {}
                }
            }
        }
        Ok(())
    }
    fn do_import(&self, v: &[V]) -> R<()> {
        for x in v {
            match x {
                V::Sym(s) => {
                    let n = s.name.rsplit('.').next().unwrap_or("").to_string();
                    self.imports.borrow_mut().insert(n, s.name.to_string());
                }
                _ => {
                    let p = items(x)?;
                    let pk = p.first().and_then(sname).unwrap_or("").to_string();
                    for c in &p[1..] {
                        let c = sname(c).unwrap_or("");
                        self.imports.borrow_mut().insert(c.into(), format!("{pk}.{c}"));
                    }
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ analysis

    fn analyze(&self, f: &V, sc: &mut Scope) -> R<Node> {
        Ok(match f {
            V::Sym(x) => self.symbol(&x.name, sc),
            V::List(_) => return self.list_form(f, sc),
            V::Lazy(_) => {
                let l = list(items(f)?);
                return self.analyze(&l, sc);
            }
            V::Vec(c) => {
                let v: Vec<Node> = c.v.iter().map(|x| self.analyze(x, sc)).collect::<R<_>>()?;
                if v.iter().all(|n| matches!(n, Node::Const(_))) {
                    Node::Const(f.clone())
                } else {
                    Node::VecN(v)
                }
            }
            V::Set(c) => Node::SetN(c.v.iter().map(|x| self.analyze(x, sc)).collect::<R<_>>()?),
            V::Map(m) => {
                let v: Vec<(Node, Node)> = m.v.iter().map(|(k, x)| Ok((self.analyze(k, sc)?, self.analyze(x, sc)?))).collect::<R<_>>()?;
                if v.iter().all(|n| matches!(n, (Node::Const(_), Node::Const(_)))) {
                    Node::Const(map(v.into_iter().map(|n| match n {
                        (Node::Const(a), Node::Const(b)) => (a, b),
                        _ => (V::Nil, V::Nil),
                    }).collect()))
                } else {
                    Node::MapN(v)
                }
            }
            _ => Node::Const(f.clone()),
        })
    }
    fn symbol(&self, n: &str, sc: &Scope) -> Node {
        if let Some(i) = sc.find(n) {
            return Node::Local(i);
        }
        if let Some(v) = self.lookup(n) {
            return Node::Global(v);
        }
        if let Some((c, m)) = n.split_once('/').filter(|_| n.len() > 1) {
            if self.alias(c).is_none() {
                return Node::Static(self.class_name(c), m.into(), None);
            }
            return Node::Missing(n.into());
        }
        if n == "*ns*" {
            return Node::Static("clojure.core".into(), n.into(), None);
        }
        if self.imports.borrow().contains_key(n) || is_class(n) || n.contains('.') && !n.starts_with('.') && !n.ends_with('.') {
            return Node::Const(V::Class(self.class_name(n).into()));
        }
        Node::Missing(n.into())
    }
    fn class_name(&self, n: &str) -> String {
        if let Some(f) = self.imports.borrow().get(n) {
            return f.clone();
        }
        if n.contains('.') {
            return n.into();
        }
        let all = host::CLASSES.iter().copied().chain(host::EXCEPTIONS.iter().map(|e| e.0));
        for c in all {
            if c.rsplit('.').next() == Some(n) {
                return c.into();
            }
        }
        n.into()
    }
    fn body(&self, f: &[V], sc: &mut Scope) -> R<Node> {
        if f.len() == 1 {
            return self.analyze(&f[0], sc);
        }
        Ok(Node::Do(f.iter().map(|x| self.analyze(x, sc)).collect::<R<_>>()?))
    }
    fn all(&self, f: &[V], sc: &mut Scope) -> R<Vec<Node>> {
        f.iter().map(|x| self.analyze(x, sc)).collect()
    }
    /// a macro's expansion, if the form calls one
    pub fn expand(&self, f: &V, local: impl Fn(&str) -> bool) -> R<Option<V>> {
        let V::List(c) = f else { return Ok(None) };
        let Some(n) = sname(&c.first) else { return Ok(None) };
        if local(n) {
            return Ok(None);
        }
        let Some(v) = self.lookup(n) else { return Ok(None) };
        if !v.is_macro.get() {
            return Ok(None);
        }
        let Some(m) = v.get() else { return Ok(None) };
        let args = items(&c.rest)?;
        Ok(Some(self.call(&m, &args)?))
    }
    fn list_form(&self, f: &V, sc: &mut Scope) -> R<Node> {
        let v = items(f)?;
        let Some(n) = sname(&v[0]).map(String::from) else {
            let h = self.analyze(&v[0], sc)?;
            return Ok(Node::Call(Box::new(h), self.all(&v[1..], sc)?));
        };
        let a = &v[1..];
        if sc.find(&n).is_none() {
            let n = n.strip_prefix("clojure.core/").filter(|m| SPECIAL.contains(m)).unwrap_or(&n);
            if SPECIAL.contains(&n) && !(n != "." && self.ns.borrow().vars.borrow().contains_key(n)) {
                return self.special(n, a, sc);
            }
            let scr = &*sc;
            if let Some(x) = self.expand(f, |n| scr.find(n).is_some())? {
                return self.analyze(&x, sc);
            }
            if let Some(m) = n.strip_prefix('.').filter(|m| !m.is_empty() && !m.starts_with('.')) {
                if a.is_empty() {
                    return syntax("method call without object");
                }
                let o = self.analyze(&a[0], sc)?;
                return Ok(Node::Method(m.trim_start_matches('-').into(), Box::new(o), self.all(&a[1..], sc)?));
            }
            if let Some(c) = n.strip_suffix('.').filter(|c| !c.is_empty()) {
                return Ok(Node::New(self.class_name(c), self.all(a, sc)?));
            }
            if let Some((c, m)) = n.split_once('/').filter(|(a, b)| !a.is_empty() && !b.is_empty()) {
                if self.alias(c).is_none() {
                    return Ok(Node::Static(self.class_name(c), m.into(), Some(self.all(a, sc)?)));
                }
            }
        }
        let h = self.symbol(&n, sc);
        Ok(Node::Call(Box::new(h), self.all(a, sc)?))
    }
    fn special(&self, n: &str, a: &[V], sc: &mut Scope) -> R<Node> {
        let arg = |i: usize| a.get(i).cloned().unwrap_or(V::Nil);
        Ok(match n {
            "quote" => Node::Const(arg(0)),
            "if" => {
                if a.len() < 2 || a.len() > 3 {
                    return syntax("if");
                }
                Node::If(Box::new([self.analyze(&a[0], sc)?, self.analyze(&a[1], sc)?, self.analyze(&arg(2), sc)?]))
            }
            "do" => self.body(a, sc)?,
            "let" | "let*" => {
                let V::Vec(b) = arg(0) else { return syntax("let") };
                let depth = sc.names.len();
                let mut inits = vec![];
                if b.v.len() % 2 == 1 {
                    return syntax("let requires an even number of forms in binding vector");
                }
                for p in b.v.chunks(2) {
                    let mut out = vec![];
                    destructure(&p[0], p[1].clone(), &mut out)?;
                    for (name, form) in out {
                        inits.push(self.analyze(&form, sc)?);
                        sc.names.push(name);
                    }
                }
                let body = self.body(&a[1..], sc)?;
                sc.names.truncate(depth);
                Node::Let(inits, Box::new(body))
            }
            "loop" | "loop*" => {
                let V::Vec(b) = arg(0) else { return syntax("loop") };
                let depth = sc.names.len();
                let mut inits = vec![];
                let mut inner: Vec<V> = vec![];
                for p in b.v.chunks(2) {
                    inits.push(self.analyze(&p[1], sc)?);
                    match sname(&p[0]) {
                        Some(x) => sc.names.push(x.into()),
                        None => {
                            let g = gensym("l");
                            sc.names.push(sname(&g).unwrap_or("").into());
                            inner.push(p[0].clone());
                            inner.push(g.clone());
                            // later initial values see the names
                            if p.as_ptr() != b.v.chunks(2).last().map(|q| q.as_ptr()).unwrap_or(p.as_ptr()) {
                                // (rare: they are bound again inside)
                            }
                        }
                    }
                }
                let body = if inner.is_empty() {
                    self.body(&a[1..], sc)?
                } else {
                    let mut l = vec![sym("let"), vector(inner)];
                    l.extend(a[1..].iter().cloned());
                    self.analyze(&list(l), sc)?
                };
                sc.names.truncate(depth);
                Node::Loop(inits, Box::new(body))
            }
            "recur" => Node::Recur(self.all(a, sc)?),
            "fn" | "fn*" => return self.function(a, sc),
            "letfn" => {
                // functions that see each other, by way of a volatile each
                let V::Vec(b) = arg(0) else { return syntax("letfn") };
                let mut binds = vec![];
                let mut sets = vec![];
                let mut lets = vec![];
                for f in &b.v {
                    let v = items(f)?;
                    let g = gensym("f");
                    binds.extend([g.clone(), list(vec![sym("clojure.core/volatile!"), V::Nil])]);
                    let x = gensym("a");
                    lets.extend([v[0].clone(), list(vec![sym("fn"), vector(vec![sym("&"), x.clone()]), list(vec![sym("clojure.core/apply"), list(vec![sym("clojure.core/deref"), g.clone()]), x])])]);
                    let mut l = vec![sym("fn")];
                    l.extend(v[1..].iter().cloned());
                    sets.push(list(vec![sym("clojure.core/vreset!"), g, list(l)]));
                }
                let mut l = vec![sym("let"), vector(binds.into_iter().chain(lets).collect())];
                l.extend(sets);
                l.extend(a[1..].iter().cloned());
                return self.analyze(&list(l), sc);
            }
            "var" => {
                let t = arg(0);
                match sname(&t).and_then(|n| self.lookup(n)) {
                    Some(v) => Node::Const(V::Var(v)),
                    None => Node::Missing(sname(&t).unwrap_or("?").into()),
                }
            }
            "throw" => Node::Throw(Box::new(self.analyze(&arg(0), sc)?)),
            "new" => {
                let t = arg(0);
                Node::New(self.class_name(sname(&t).unwrap_or("?")), self.all(&a[1..], sc)?)
            }
            "." => {
                let (m, args) = match &arg(1) {
                    V::Sym(x) => (x.name.to_string(), a[2..].to_vec()),
                    l => {
                        let v = items(l)?;
                        (sname(&v[0]).unwrap_or("?").to_string(), v[1..].to_vec())
                    }
                };
                let t = arg(0);
                if let Some(c) = sname(&t) {
                    if sc.find(c).is_none() && self.lookup(c).is_none() && is_class(c) {
                        return Ok(Node::Static(self.class_name(c), m, Some(self.all(&args, sc)?)));
                    }
                }
                Node::Method(m.trim_start_matches('-').into(), Box::new(self.analyze(&t, sc)?), self.all(&args, sc)?)
            }
            "set!" => {
                let t = arg(0);
                match sname(&t).and_then(|n| self.lookup(n)) {
                    Some(v) => Node::Set(v, Box::new(self.analyze(&arg(1), sc)?)),
                    None => return undecided("set! of a field"),
                }
            }
            "lazy-seq" => Node::LazySeq(Rc::new(self.body(a, sc)?)),
            "delay" => Node::Delay(Rc::new(self.body(a, sc)?)),
            "binding" => {
                let V::Vec(b) = arg(0) else { return syntax("binding") };
                let mut v = vec![];
                for p in b.v.chunks(2) {
                    match sname(&p[0]) {
                        Some("*ns*") => {}
                        Some(n) => match self.lookup(n) {
                            Some(x) => v.push((x, self.analyze(&p[1], sc)?)),
                            None => return Ok(Node::Missing(n.into())),
                        },
                        None => return syntax("binding"),
                    }
                }
                Node::Binding(v, Box::new(self.body(&a[1..], sc)?))
            }
            "case" => {
                let e = self.analyze(&arg(0), sc)?;
                let rest = &a[1..];
                let mut arms = vec![];
                let mut i = 0;
                while i + 1 < rest.len() {
                    let ks = match &rest[i] {
                        V::List(_) => items(&rest[i])?,
                        k => vec![k.clone()],
                    };
                    arms.push((ks, self.analyze(&rest[i + 1], sc)?));
                    i += 2;
                }
                let d = if i < rest.len() { Some(Box::new(self.analyze(&rest[i], sc)?)) } else { None };
                Node::Case(Box::new(e), arms, d)
            }
            "try" => {
                let mut body = vec![];
                let mut catches = vec![];
                let mut fin = None;
                for x in a {
                    let head = match x {
                        V::List(c) => sname(&c.first).unwrap_or("").to_string(),
                        _ => String::new(),
                    };
                    match &head[..] {
                        "catch" => {
                            let v = items(x)?;
                            sc.names.push(sname(&v[2]).unwrap_or("_").into());
                            let b = self.body(&v[3..], sc);
                            sc.names.pop();
                            catches.push((self.class_name(sname(&v[1]).unwrap_or("?")), b?));
                        }
                        "finally" => fin = Some(Box::new(self.body(&items(x)?[1..], sc)?)),
                        _ => body.push(x.clone()),
                    }
                }
                Node::Try(Box::new(self.body(&body, sc)?), catches, fin)
            }
            "def" => {
                let t = arg(0);
                let Some(n) = sname(&t) else { return syntax("def") };
                let ns = self.ns.borrow().clone();
                let v = self.intern(&ns, n.rsplit('/').next().unwrap_or(n));
                if meta_flag(&t, "macro") {
                    v.is_macro.set(true);
                }
                let init = match a.len() {
                    0 | 1 => None,
                    2 => Some(&a[1]),
                    _ => Some(&a[2]),
                };
                let n = init.map(|i| self.analyze(i, sc)).transpose()?;
                Node::Def(v, n.map(Box::new))
            }
            "defmacro" => {
                let t = arg(0);
                let Some(n) = sname(&t) else { return syntax("defmacro") };
                let ns = self.ns.borrow().clone();
                let v = self.intern(&ns, n);
                let mut rest = a[1..].to_vec();
                while rest.len() > 1 && matches!(rest[0], V::Str(_) | V::Map(_)) {
                    rest.remove(0);
                }
                let f = self.function(&rest, sc)?;
                v.is_macro.set(true);
                // the body's `*ns*` is the namespace that is being compiled
                Node::Def(v, Some(Box::new(f)))
            }
            "ns" => {
                self.do_ns(a)?;
                Node::Const(V::Nil)
            }
            "import" => {
                self.do_import(a)?;
                Node::Const(V::Nil)
            }
            _ => return undecided(format!("special form {n}")),
        })
    }
    fn function(&self, a: &[V], sc: &mut Scope) -> R<Node> {
        let (name, rest) = match a.first() {
            Some(V::Sym(x)) => (Some(x.name.to_string()), &a[1..]),
            _ => (None, a),
        };
        let mut rest = rest.to_vec();
        while rest.len() > 1 && matches!(rest[0], V::Str(_) | V::Map(_)) {
            rest.remove(0);
        }
        let forms: Vec<Vec<V>> = match rest.first() {
            Some(V::Vec(_)) => vec![rest.clone()],
            _ => rest.iter().filter(|x| matches!(x, V::List(_))).map(items).collect::<R<_>>()?,
        };
        let depth = sc.names.len();
        if let Some(n) = &name {
            sc.names.push(n.clone());
        }
        let base = sc.names.len();
        let mut arities = vec![];
        for f in &forms {
            let Some(V::Vec(ps)) = f.first() else { return syntax("parameter declaration should be a vector") };
            let mut binds = vec![];
            let mut n = 0;
            let mut variadic = false;
            let mut i = 0;
            while i < ps.v.len() {
                let p = &ps.v[i];
                if sname(p) == Some("&") {
                    variadic = true;
                    i += 1;
                    continue;
                }
                if !variadic {
                    n += 1;
                }
                match sname(p) {
                    Some(x) => sc.names.push(x.into()),
                    None => {
                        let g = gensym("p");
                        sc.names.push(sname(&g).unwrap_or("").into());
                        binds.push(p.clone());
                        binds.push(g);
                    }
                }
                i += 1;
            }
            let mut body = f[1..].to_vec();
            let mut pre = vec![];
            if body.len() > 1 {
                if let V::Map(m) = &body[0] {
                    if let Some(p) = m.get(&kw("pre")) {
                        pre = items(p)?;
                    }
                    if m.get(&kw("post")).is_some() {
                        return undecided("postcondition");
                    }
                    body.remove(0);
                }
            }
            for p in pre.into_iter().rev() {
                body.insert(0, list(vec![sym("clojure.core/assert"), p]));
            }
            let node = if binds.is_empty() {
                self.body(&body, sc)?
            } else {
                let mut l = vec![sym("let"), vector(binds)];
                l.extend(body);
                self.analyze(&list(l), sc)?
            };
            sc.names.truncate(base);
            arities.push(Arity { n, variadic, body: node });
        }
        sc.names.truncate(depth);
        Ok(Node::Fn(name.clone().unwrap_or_else(|| "fn".into()), Rc::new(arities), name.is_some()))
    }

    // ------------------------------------------------------------ evaluation

    pub fn eval(&self, n: &Node, env: &Env) -> R<V> {
        match n {
            Node::Const(v) => Ok(v.clone()),
            Node::Local(i) => {
                let mut e = env;
                for _ in 0..*i {
                    e = &e.as_ref().expect("scope").next;
                }
                Ok(e.as_ref().expect("scope").v.clone())
            }
            Node::Global(v) => v.get().map_or_else(|| if v.root.borrow().is_none() { undecided(format!("unbound {}/{}", v.ns, v.name)) } else { Ok(V::Nil) }, Ok),
            Node::Missing(n) => match self.lookup(n).and_then(|v| v.get()) {
                Some(v) => Ok(v),
                None => undecided(format!("symbol {n}")),
            },
            Node::If(b) => {
                if truthy(&self.eval(&b[0], env)?) {
                    self.eval(&b[1], env)
                } else {
                    self.eval(&b[2], env)
                }
            }
            Node::Do(v) => {
                let mut last = V::Nil;
                for x in v {
                    last = self.eval(x, env)?;
                }
                Ok(last)
            }
            Node::Let(inits, body) => {
                let mut e = env.clone();
                for i in inits {
                    let v = self.eval(i, &e)?;
                    e = push(&e, v);
                }
                self.eval(body, &e)
            }
            Node::Loop(inits, body) => {
                let mut e = env.clone();
                for i in inits {
                    let v = self.eval(i, &e)?;
                    e = push(&e, v);
                }
                loop {
                    self.tick()?;
                    match self.eval(body, &e) {
                        Err(Ex::Recur(vs)) => {
                            e = env.clone();
                            for v in vs {
                                e = push(&e, v);
                            }
                        }
                        r => return r,
                    }
                }
            }
            Node::Recur(a) => Err(Ex::Recur(a.iter().map(|x| self.eval(x, env)).collect::<R<_>>()?)),
            Node::Fn(name, arities, named) => {
                Ok(V::Fn(Rc::new(Func { name: name.clone(), meta: V::Nil, kind: FuncKind::Closure { arities: arities.clone(), env: env.clone(), named: *named } })))
            }
            Node::Call(h, a) => {
                let f = self.eval(h, env)?;
                let mut args = Vec::with_capacity(a.len());
                for x in a {
                    args.push(self.eval(x, env)?);
                }
                self.call(&f, &args)
            }
            Node::VecN(a) => Ok(vector(a.iter().map(|x| self.eval(x, env)).collect::<R<_>>()?)),
            Node::SetN(a) => {
                let mut v: Vec<V> = vec![];
                for x in a {
                    let y = self.eval(x, env)?;
                    if !v.iter().any(|z| eq(z, &y)) {
                        v.push(y);
                    }
                }
                Ok(set_m(v, V::Nil))
            }
            Node::MapN(a) => {
                let mut v: Vec<(V, V)> = vec![];
                for (k, x) in a {
                    let k = self.eval(k, env)?;
                    let x = self.eval(x, env)?;
                    v.push((k, x));
                }
                Ok(map(v))
            }
            Node::Throw(x) => match self.eval(x, env)? {
                e @ V::Exc(_) => Err(Ex::Throw(e)),
                v => throw("java.lang.ClassCastException", format!("{} is not throwable", type_name(&v))),
            },
            Node::Try(body, catches, fin) => {
                let mut r = self.eval(body, env);
                if let Err(Ex::Throw(e)) = &r {
                    for (c, b) in catches {
                        if host::is_a(e, c) {
                            let en = push(env, e.clone());
                            r = self.eval(b, &en);
                            break;
                        }
                    }
                }
                if let Some(f) = fin {
                    self.eval(f, env)?;
                }
                r
            }
            Node::Def(v, init) => {
                if let Some(i) = init {
                    let x = self.eval(i, env)?;
                    *v.root.borrow_mut() = Some(x);
                } else if v.root.borrow().is_none() {
                    // declared only
                }
                Ok(V::Var(v.clone()))
            }
            Node::New(c, a) => {
                let args: Vec<V> = a.iter().map(|x| self.eval(x, env)).collect::<R<_>>()?;
                host::construct(self, c, &args)
            }
            Node::Method(m, o, a) => {
                let o = self.eval(o, env)?;
                let args: Vec<V> = a.iter().map(|x| self.eval(x, env)).collect::<R<_>>()?;
                host::method(self, m, &o, &args)
            }
            Node::Static(c, m, a) => match a {
                None => host::static_field(self, c, m),
                Some(a) => {
                    let args: Vec<V> = a.iter().map(|x| self.eval(x, env)).collect::<R<_>>()?;
                    host::static_call(self, c, m, &args)
                }
            },
            Node::Set(v, x) => {
                let x = self.eval(x, env)?;
                let mut b = v.bound.borrow_mut();
                match b.last_mut() {
                    Some(l) => *l = x.clone(),
                    None => return throw("java.lang.IllegalStateException", format!("Can't change/establish root binding of: {} with set", v.name)),
                }
                Ok(x)
            }
            Node::LazySeq(b) => Ok(self.later(b, env, true)),
            Node::Delay(b) => Ok(self.later(b, env, false)),
            Node::Binding(b, body) => {
                let mut vs = vec![];
                for (v, x) in b {
                    vs.push((v.clone(), self.eval(x, env)?));
                }
                for (v, x) in &vs {
                    v.bound.borrow_mut().push(x.clone());
                }
                let r = self.eval(body, env);
                for (v, _) in &vs {
                    v.bound.borrow_mut().pop();
                }
                r
            }
            Node::Case(e, arms, d) => {
                let v = self.eval(e, env)?;
                for (ks, b) in arms {
                    if ks.iter().any(|k| eq(k, &v)) {
                        return self.eval(b, env);
                    }
                }
                match d {
                    Some(b) => self.eval(b, env),
                    None => throw("java.lang.IllegalArgumentException", format!("No matching clause: {}", lib::pr(self, &v, false)?)),
                }
            }
            Node::InNs(_, b) => self.eval(b, env),
        }
    }
    fn later(&self, b: &Rc<Node>, env: &Env, lazy: bool) -> V {
        let (c, b, e) = (self.clone(), b.clone(), env.clone());
        // (the node is kept alive by the closure; the bindings in force are not conveyed, as in Clojure)
        let l = Rc::new(RefCell::new(Lazy::Todo(Box::new(move || c.eval(&b, &e)))));
        if lazy {
            V::Lazy(l)
        } else {
            V::Delay(l)
        }
    }
    pub fn tick(&self) -> R<()> {
        let n = self.steps.get() + 1;
        self.steps.set(n);
        if n > MAX_STEPS {
            return undecided("too many steps");
        }
        Ok(())
    }
    pub fn fresh_steps(&self) {
        self.steps.set(0);
    }
    pub fn call(&self, f: &V, args: &[V]) -> R<V> {
        self.tick()?;
        match f {
            V::Fn(x) => match &x.kind {
                FuncKind::Native(n) => n(self, args),
                FuncKind::Closure { arities, env, named } => {
                    let a = arities.iter().find(|a| a.n == args.len() && !a.variadic).or_else(|| arities.iter().find(|a| a.variadic && args.len() >= a.n));
                    let Some(a) = a else {
                        return throw("clojure.lang.ArityException", format!("Wrong number of args ({}) passed to: {}", args.len(), x.name));
                    };
                    let d = self.depth.get() + 1;
                    if d > MAX_DEPTH {
                        return undecided("recursion too deep");
                    }
                    self.depth.set(d);
                    let mut base = env.clone();
                    if *named {
                        base = push(&base, f.clone());
                    }
                    let mut e = base.clone();
                    for v in &args[..a.n] {
                        e = push(&e, v.clone());
                    }
                    if a.variadic {
                        let rest = &args[a.n..];
                        e = push(&e, if rest.is_empty() { V::Nil } else { list(rest.to_vec()) });
                    }
                    let r = loop {
                        match self.eval(&a.body, &e) {
                            Err(Ex::Recur(vs)) => {
                                if let Err(x) = self.tick() {
                                    break Err(x);
                                }
                                e = base.clone();
                                for v in vs {
                                    e = push(&e, v);
                                }
                            }
                            r => break r,
                        }
                    };
                    self.depth.set(self.depth.get() - 1);
                    r
                }
            },
            V::Kw(_) => match args {
                [m] => lib::get(m, f, V::Nil),
                [m, d] => lib::get(m, f, d.clone()),
                _ => throw("clojure.lang.ArityException", "Wrong number of args passed to keyword"),
            },
            V::Sym(_) => match args {
                [m] => lib::get(m, f, V::Nil),
                [m, d] => lib::get(m, f, d.clone()),
                _ => throw("clojure.lang.ArityException", "Wrong number of args passed to symbol"),
            },
            V::Map(_) => match args {
                [k] => lib::get(f, k, V::Nil),
                [k, d] => lib::get(f, k, d.clone()),
                _ => throw("clojure.lang.ArityException", "Wrong number of args passed to map"),
            },
            V::Set(_) | V::Transient(_) => match args {
                [k] => lib::get(f, k, V::Nil),
                [k, d] => lib::get(f, k, d.clone()),
                _ => throw("clojure.lang.ArityException", "Wrong number of args passed to set"),
            },
            V::Vec(_) => match args {
                [k] => lib::nth(f, k, None),
                _ => throw("clojure.lang.ArityException", "Wrong number of args passed to vector"),
            },
            V::Var(v) => match v.get() {
                Some(f) => self.call(&f, args),
                None => undecided(format!("unbound {}/{}", v.ns, v.name)),
            },
            V::Multi(m) => {
                let d = self.call(&m.dispatch, args)?;
                match self.find_method(m, &d) {
                    Some(f) => self.call(&f, args),
                    None => throw("java.lang.IllegalArgumentException", format!("No method in multimethod '{}' for dispatch value: {}", m.name, lib::pr(self, &d, false)?)),
                }
            }
            _ => throw("java.lang.ClassCastException", format!("class {} cannot be cast to class clojure.lang.IFn", type_name(f))),
        }
    }
    pub fn find_method(&self, m: &Multi, d: &V) -> Option<V> {
        let ms = m.methods.borrow();
        ms.iter()
            .find(|(k, _)| eq(k, d))
            .or_else(|| ms.iter().find(|(k, _)| matches!((k, d), (V::Class(c), V::Class(x)) if host::class_is(x, c))))
            .or_else(|| ms.iter().find(|(k, _)| eq(k, &m.default)))
            .map(|x| x.1.clone())
    }
    /// a function of a namespace, called
    pub fn invoke(&self, ns: &str, f: &str, args: &[V]) -> R<V> {
        self.fresh_steps();
        self.depth.set(0);
        let Some(v) = self.var(ns, f) else { return undecided(format!("{ns}/{f}")) };
        self.call(&V::Var(v), args)
    }
}

fn destructure(p: &V, init: V, out: &mut Vec<(String, V)>) -> R<()> {
    match p {
        V::Sym(x) => {
            out.push((x.name.to_string(), init));
            Ok(())
        }
        V::Vec(c) => {
            let g = gensym("v");
            out.push((sname(&g).unwrap_or("").into(), init));
            let mut i = 0;
            let mut k = 0;
            while i < c.v.len() {
                match &c.v[i] {
                    V::Sym(x) if &*x.name == "&" => {
                        let Some(r) = c.v.get(i + 1) else { return syntax("& without name") };
                        destructure(r, list(vec![sym("clojure.core/nthnext"), g.clone(), V::Int(k)]), out)?;
                        i += 2;
                    }
                    V::Kw(a) if &**a == "as" => {
                        let Some(r) = c.v.get(i + 1) else { return syntax(":as without name") };
                        destructure(r, g.clone(), out)?;
                        i += 2;
                    }
                    q => {
                        destructure(q, list(vec![sym("clojure.core/nth"), g.clone(), V::Int(k), V::Nil]), out)?;
                        k += 1;
                        i += 1;
                    }
                }
            }
            Ok(())
        }
        V::Map(m) => {
            let g = gensym("m");
            let gn: String = sname(&g).unwrap_or("").into();
            out.push((gn.clone(), init));
            out.push((gn, list(vec![sym("clojure.core/destructured-map"), g.clone()])));
            let or = m.get(&kw("or")).cloned().unwrap_or(V::Nil);
            let default = |n: &str| match &or {
                V::Map(o) => o.v.iter().find(|(k, _)| sname(k) == Some(n)).map(|x| x.1.clone()),
                _ => None,
            };
            let get = |k: V, n: &str| {
                let mut l = vec![sym("clojure.core/get"), g.clone(), k];
                if let Some(d) = default(n) {
                    l.push(d);
                }
                list(l)
            };
            for (k, v) in &m.v {
                match k {
                    V::Kw(a) if &**a == "or" => {}
                    V::Kw(a) if &**a == "as" => destructure(v, g.clone(), out)?,
                    V::Kw(a) if a.rsplit('/').next() == Some("keys") || a.rsplit('/').next() == Some("strs") || a.rsplit('/').next() == Some("syms") => {
                        let (pre, what) = a.split_once('/').map(|(p, w)| (Some(p), w)).unwrap_or((None, a));
                        for x in items(v)? {
                            let full = match &x {
                                V::Sym(x) => x.name.to_string(),
                                V::Kw(x) => x.to_string(),
                                _ => return syntax(":keys"),
                            };
                            let name = full.rsplit('/').next().unwrap_or("").to_string();
                            let full = match pre {
                                Some(p) => format!("{p}/{name}"),
                                None => full,
                            };
                            let key = match what {
                                "keys" => kw(&full),
                                "strs" => s(full),
                                _ => list(vec![sym("quote"), sym(&full)]),
                            };
                            out.push((name.clone(), get(key, &name)));
                        }
                    }
                    _ => {
                        let n = sname(k).unwrap_or("").to_string();
                        let key = if matches!(v, V::Sym(_)) { v.clone() } else { v.clone() };
                        destructure(k, get(key, &n), out)?;
                    }
                }
            }
            Ok(())
        }
        _ => syntax("Unsupported binding form"),
    }
}

pub fn roots() -> Vec<PathBuf> {
    ["/repo/clj/src", "/repo/clj/test-plugins/src"].iter().map(PathBuf::from).collect()
}
pub fn shell(bin: PathBuf, dir: PathBuf, exprs: &[String]) -> i32 {
    let mut h = host::Host::new(bin, dir);
    h.env.extend(std::env::vars().filter(|x| x.0.starts_with("LIMABEAN_")));
    let c = match Clj::new(roots(), h) {
        Ok(c) => c,
        Err(e) => {
            println!("{e:?}");
            return 1;
        }
    };
    for x in exprs {
        let r = c.eval_text(x, "expression");
        print!("{}", host::Host::take(&c.host.out));
        eprint!("{}", host::Host::take(&c.host.err));
        match r {
            Ok(v) => println!("=> {}", lib::pr(&c, &v, true).unwrap_or_else(|e| format!("{e:?}"))),
            Err(e) => println!("!! {e:?}"),
        }
    }
    c.host.reap();
    0
}
