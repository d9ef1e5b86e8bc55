//! The launcher (C23, C24) with stand-ins for java and clojure that only record, and tabulate (C25).
use crate::genes::{Case, G};
use crate::pod::*;
use crate::runner::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};

fn io(e: std::io::Error) -> HarnessError {
    HarnessError(e.to_string())
}

// ---------------------------------------------------------------- stand-ins

/// Records its arguments in $LB_REC; asked for its version it does as $LB_VERSION_name says,
/// otherwise it echoes a line of stdin and ends as $LB_EXIT or $LB_SIG says.
const FAKE: &str = r#"#!/bin/sh
n=${0##*/}
if [ -n "$LB_REC" ]; then
    { printf '%s\0%s\0' "$n" "$#"; for a in "$@"; do printf '%s\0' "$a"; done; } >>"$LB_REC"
fi
if [ "$#" = 1 ] && [ "$1" = --version ]; then
    eval "how=\$LB_VERSION_$n"
    word=broken
    [ "${how:-0}" = 0 ] && word=21.0.1
    case $LB_SAYS in *o*) printf '%s %s\nmore\n' "$n" "$word";; esac
    case $LB_SAYS in *e*) printf '%s is %s\n' "$n" "$word" >&2;; esac
    [ "$how" = sig ] && kill -9 $$
    exit "${how:-0}"
fi
IFS= read -r line
printf 'in:%s\n' "$line"
printf 'cwd:%s\n' "$(pwd -P)"
printf 'env:%s %s\n' "$LIMABEAN_BEANFILE" "$LIMABEAN_USER_CLJ"
printf 'err:%s\n' "$n" >&2
[ -n "$LB_SIG" ] && kill "-$LB_SIG" $$
exit "${LB_EXIT:-0}"
"#;

/// The stand-ins are written once, before there is any other process or thread: a program that another
/// one still holds open for writing, as a child just forked does, can't be run.
pub fn stand_ins(base: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(base)?;
    for mode in [0o755, 0o644] {
        let f = base.join(format!("stand-in-{mode:o}"));
        std::fs::write(&f, FAKE)?;
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(mode))?;
    }
    Ok(())
}

pub fn fake(w: &Worker, dir: &Path, name: &str, mode: u32) -> Result<(), HarnessError> {
    let base = w.dir.parent().ok_or_else(|| HarnessError("no scratch directory".into()))?;
    let f = base.canonicalize().map_err(io)?.join(format!("stand-in-{mode:o}"));
    std::os::unix::fs::symlink(f, dir.join(name)).map_err(io)
}

#[derive(Debug, Clone, PartialEq)]
pub struct Call {
    pub name: String,
    pub args: Vec<Vec<u8>>,
}
pub fn calls(rec: &Path) -> Vec<Call> {
    let b = std::fs::read(rec).unwrap_or_default();
    let mut it = b.split(|c| *c == 0).map(|s| s.to_vec());
    let mut v = vec![];
    loop {
        let Some(name) = it.next() else { break };
        let Some(n) = it.next().and_then(|n| String::from_utf8_lossy(&n).parse::<usize>().ok()) else { break };
        let args: Vec<Vec<u8>> = it.by_ref().take(n).collect();
        v.push(Call { name: String::from_utf8_lossy(&name).to_string(), args });
    }
    v
}

/// the little of EDN that dependencies are written in
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Edn {
    Map(BTreeMap<Edn, Edn>),
    Vector(Vec<Edn>),
    Str(String),
    Atom(String),
}
pub fn edn(s: &str) -> Option<Edn> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let v = edn_at(&c, &mut i)?;
    skip(&c, &mut i);
    (i == c.len()).then_some(v)
}
fn skip(c: &[char], i: &mut usize) {
    while *i < c.len() && (c[*i].is_whitespace() || c[*i] == ',') {
        *i += 1;
    }
}
fn edn_at(c: &[char], i: &mut usize) -> Option<Edn> {
    skip(c, i);
    match *c.get(*i)? {
        '{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                skip(c, i);
                if *c.get(*i)? == '}' {
                    *i += 1;
                    return Some(Edn::Map(m));
                }
                let k = edn_at(c, i)?;
                let v = edn_at(c, i)?;
                if m.insert(k, v).is_some() {
                    return None;
                }
            }
        }
        '[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                skip(c, i);
                if *c.get(*i)? == ']' {
                    *i += 1;
                    return Some(Edn::Vector(v));
                }
                v.push(edn_at(c, i)?);
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                let x = *c.get(*i)?;
                *i += 1;
                match x {
                    '"' => return Some(Edn::Str(s)),
                    '\\' => {
                        let y = *c.get(*i)?;
                        *i += 1;
                        s.push(match y {
                            'n' => '\n',
                            't' => '\t',
                            'r' => '\r',
                            '\\' | '"' => y,
                            _ => return None,
                        });
                    }
                    x => s.push(x),
                }
            }
        }
        '}' | ']' | '(' | ')' | '\\' | ';' => None,
        _ => {
            let mut s = String::new();
            while let Some(x) = c.get(*i).filter(|x| !x.is_whitespace() && !",{}[]\"()".contains(**x)) {
                s.push(*x);
                *i += 1;
            }
            Some(Edn::Atom(s))
        }
    }
}
fn atom(s: &str) -> Edn {
    Edn::Atom(s.into())
}
fn map1(k: &str, v: Edn) -> Edn {
    Edn::Map([(atom(k), v)].into_iter().collect())
}

// ---------------------------------------------------------------- settings

#[derive(Debug, Clone, Copy, PartialEq)]
enum Mode {
    Works,
    Missing,
    NotExecutable,
    VersionFails(u8),
    VersionKilled,
}

#[derive(Debug, Clone)]
struct Setup {
    builtin: bool,
    builtin_there: bool,
    local_root: Option<String>,
    uberjar: Option<String>,
    uberjar_there: u8,
    deps: Option<(String, Vec<(Edn, Edn)>)>,
    java: Mode,
    clojure: Mode,
    two_dirs: u8,
    args: Vec<Vec<u8>>,
    stdin: String,
    exit: u8,
    sig: Option<&'static str>,
    decoys: u8,
    says: &'static str,
}

const BUILT_IN: &str = "lb-built-in.jar";

const ROOTS: &[&str] = &["/src/limabean/clj", "clj", "../my clj", "/o\"q", "/b\\s", "/été/日本", "/with{brace}", "/a,b;c", "~/clj", "/a\\\"n", " /blanks ", "/clj/", "/a/../b/./clj", "C:\\Users\\me", "/tab\there", "/\\"];
const JARS: &[&str] = &["limabean.jar", "jars/limabean-standalone.jar", "my jar.jar", "./x.jar", "été.jar", "a\"b.jar", "-x.jar", "$HOME.jar", "b\\c.jar", " blank.jar ", "jars/../up.jar", "jars//b.jar", "LIMABEAN.JAR"];
const DEPS: &[(&str, &str, &str)] = &[
    ("io.github.tesujimath/limabean-contrib", "mvn/version", "0.1.0"),
    ("com.example/plug", "local/root", "/home/me/plug in"),
    ("org.clojure/data.json", "mvn/version", "2.5.0"),
    ("x/y", "git/sha", "abc123"),
    ("été/日", "mvn/version", "1"),
];
const ARGS: &[&[u8]] = &[
    b"--beanfile",
    b"a.beancount",
    b"",
    b"two words",
    b"-v",
    b"--verbose",
    b"--version",
    b"health",
    b"--",
    b"-vv",
    b"--version=1",
    b"--eval",
    b"(show (balances))",
    b"*",
    b"$HOME",
    b"quo\"te",
    b"new\nline",
    "été".as_bytes(),
    b"\xff\xfe",
    b"-Sdeps",
    b"-jar",
    b"\\",
    b"'",
    b"-",
    b"=",
    b"-V",
    b"--Version",
    b"verbose",
    b"-M",
    b"--verbos",
];

fn mode(g: &mut G, works: u32) -> Mode {
    match g.weighted(&[works, 2, 1, 2, 1]) {
        0 => Mode::Works,
        1 => Mode::Missing,
        2 => Mode::NotExecutable,
        3 => Mode::VersionFails([1u8, 2, 127, 255, 3][g.n(5)]),
        _ => Mode::VersionKilled,
    }
}

fn setup(case: &Case) -> Setup {
    let mut g = G::new(&case.cfg);
    let local_root = g.chance(35).then(|| g.pick(ROOTS).to_string());
    let uberjar = g.chance(45).then(|| g.pick(JARS).to_string());
    let uberjar_there = g.n(5) as u8;
    let builtin = g.chance(35);
    let builtin_there = !g.chance(40);
    let deps = g.chance(45).then(|| {
        let n = 1 + g.n(3);
        let from = g.n(DEPS.len());
        let mut text = String::new();
        let mut v = vec![];
        let sep = *g.pick(&[" ", "  ", ", ", "\n"]);
        for i in 0..n {
            let (a, k, x) = DEPS[(from + i) % DEPS.len()];
            if i > 0 {
                text.push_str(sep);
            }
            let excl = g.chance(20);
            text.push_str(&format!("{a} {{:{k} \"{x}\"{}}}", if excl { " :exclusions [foo/bar]" } else { "" }));
            let mut m: BTreeMap<Edn, Edn> = [(atom(&format!(":{k}")), Edn::Str(x.into()))].into_iter().collect();
            if excl {
                m.insert(atom(":exclusions"), Edn::Vector(vec![atom("foo/bar")]));
            }
            v.push((atom(a), Edn::Map(m)));
        }
        (text, v)
    });
    let java = mode(&mut g, 8);
    let clojure = mode(&mut g, 8);
    let two_dirs = g.n(4) as u8;
    let stdin = ["", "hello", "(show 1)", "été"][g.n(4)].to_string();
    let exit = [0u8, 1, 2, 3, 42, 127, 255][g.n(7)];
    let sig = if g.chance(15) { Some(*g.pick(&["TERM", "KILL", "INT", "HUP"])) } else { None };
    let decoys = g.n(32) as u8;
    let says = ["oe", "o", "e", ""][g.n(4)];
    let many = g.u() as usize;
    let args = case.ops.iter().map(|o| {
        let mut g = G::new(o);
        if g.chance(15) {
            let n = g.n(6);
            (0..n).map(|_| 1 + g.n(255) as u8).collect()
        } else {
            g.pick(ARGS).to_vec()
        }
    });
    let mut args: Vec<Vec<u8>> = args.collect();
    if many > 63_500 {
        // more, and longer ones, than anybody would type
        for i in 0..20 + many % 400 {
            args.push(if i % 50 == many % 50 { vec![b'a' + (i % 26) as u8; 100 + many % 9000] } else { format!("arg {i}").into_bytes() });
        }
    }
    Setup {
        args,
        builtin,
        builtin_there,
        local_root,
        uberjar,
        uberjar_there,
        deps,
        java,
        clojure,
        two_dirs,
        stdin,
        exit,
        sig,
        decoys,
        says,
    }
}

enum Selected {
    Clojure(Edn),
    Java(String),
}

impl Setup {
    fn selected(&self, version: &str) -> Selected {
        let coord = if let Some(r) = &self.local_root {
            map1(":local/root", Edn::Str(r.clone()))
        } else if let Some(u) = &self.uberjar {
            return Selected::Java(u.clone());
        } else if self.builtin {
            return Selected::Java(BUILT_IN.into());
        } else {
            map1(":mvn/version", Edn::Str(version.into()))
        };
        let mut m: BTreeMap<Edn, Edn> = [(atom("io.github.tesujimath/limabean"), coord)].into_iter().collect();
        if let Some((_, d)) = &self.deps {
            m.extend(d.iter().cloned());
        }
        Selected::Clojure(map1(":deps", Edn::Map(m)))
    }
    fn jar_there(&self) -> bool {
        if self.uberjar.is_some() {
            self.uberjar_there < 2
        } else {
            self.builtin_there
        }
    }
    fn json(&self) -> Value {
        json!({
            "built in": self.builtin.then_some(BUILT_IN),
            "LIMABEAN_CLJ_LOCAL_ROOT": self.local_root,
            "LIMABEAN_UBERJAR": self.uberjar,
            "uberjar exists": self.jar_there(),
            "LIMABEAN_CLJ_DEPS": self.deps.as_ref().map(|d| &d.0),
            "java": format!("{:?}", self.java),
            "clojure": format!("{:?}", self.clojure),
            "args": self.args.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect::<Vec<_>>(),
            "stdin": self.stdin,
            "exit": self.exit,
            "asked for its version, writes to": self.says,
            "signal": self.sig,
        })
    }
}

/// what the launcher did
struct Launched {
    out: Out,
    calls: Vec<Call>,
    cwd: PathBuf,
}

fn launch(s: &Setup, w: &mut Worker) -> Result<Launched, HarnessError> {
    let dir = w.fresh();
    let cwd = dir.join("cwd");
    std::fs::create_dir_all(cwd.join("jars")).map_err(io)?;
    let (a, b) = (dir.join("bin"), dir.join("bin2"));
    std::fs::create_dir_all(&b).map_err(io)?;
    std::fs::create_dir_all(&a).map_err(io)?;
    for (i, (name, m)) in [("java", s.java), ("clojure", s.clojure)].into_iter().enumerate() {
        let d = if s.two_dirs as usize & (1 << i) != 0 { &b } else { &a };
        match m {
            Mode::Missing => {}
            Mode::NotExecutable => fake(w, d, name, 0o644)?,
            _ => fake(w, d, name, 0o755)?,
        }
    }
    let jar = match s.uberjar.as_deref() {
        Some(u) => Some((u, s.uberjar_there)),
        None if s.builtin => Some((BUILT_IN, if s.builtin_there { 0 } else { 2 })),
        None => None,
    };
    if let Some((u, there)) = jar {
        let f = cwd.join(u);
        match there {
            0 | 1 => std::fs::write(&f, "PK").map_err(io)?,
            2 => {}
            // a link to nowhere is no uberjar
            3 => std::os::unix::fs::symlink("nowhere", &f).map_err(io)?,
            // nor one in a circle
            _ => std::os::unix::fs::symlink(f.file_name().unwrap_or_default(), &f).map_err(io)?,
        }
    }
    let prog = if s.builtin { "limabean-jar" } else { "limabean" };
    let rec = dir.join("rec");
    let mut c = w.cmd(prog);
    c.current_dir(&cwd);
    c.env("PATH", format!("{}:{}", a.display(), b.display()));
    c.env("LB_REC", &rec).env("LB_EXIT", s.exit.to_string()).env("LB_SAYS", s.says);
    for (n, m) in [("java", s.java), ("clojure", s.clojure)] {
        match m {
            Mode::VersionFails(x) => {
                c.env(format!("LB_VERSION_{n}"), x.to_string());
            }
            Mode::VersionKilled => {
                c.env(format!("LB_VERSION_{n}"), "sig");
            }
            _ => {}
        }
    }
    if let Some(x) = s.sig {
        c.env("LB_SIG", x);
    }
    if let Some(x) = &s.local_root {
        c.env("LIMABEAN_CLJ_LOCAL_ROOT", x);
    }
    if let Some(x) = &s.uberjar {
        c.env("LIMABEAN_UBERJAR", x);
    }
    if let Some((x, _)) = &s.deps {
        c.env("LIMABEAN_CLJ_DEPS", x);
    }
    if s.decoys & 1 != 0 {
        c.env("LIMABEAN_BEANFILE", "decoy.beancount").env("LIMABEAN_USER_CLJ", "decoy.clj");
    }
    if s.decoys & 2 != 0 {
        c.env("CLJ_LOCAL_ROOT", "/decoy").env("UBERJAR", "decoy.jar").env("LIMABEAN_LOCAL_ROOT", "/decoy");
    }
    if s.decoys & 4 != 0 {
        c.env("JAVA_HOME", "/decoy").env("LIMABEAN_LOG", "decoy.log");
    }
    if s.decoys & 8 != 0 {
        c.env("RUST_LOG", if s.decoys & 16 != 0 { "off" } else { "trace" });
    }
    for a in &s.args {
        c.arg(std::ffi::OsStr::from_bytes(a));
    }
    let mut input = s.stdin.clone().into_bytes();
    input.push(b'\n');
    let out = w.run(c, &input)?;
    Ok(Launched { out, calls: calls(&rec), cwd: cwd.canonicalize().map_err(io)? })
}

fn version(w: &mut Worker) -> Result<String, HarnessError> {
    let mut c = w.cmd("limabean-pod");
    c.arg("--version");
    let o = w.run(c, b"")?;
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    t.split_whitespace().find(|x| x.starts_with(|c: char| c.is_ascii_digit())).map(String::from).ok_or(HarnessError("limabean-pod --version".into()))
}

fn lossy(a: &[Vec<u8>]) -> Vec<String> {
    a.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect()
}

/// the one call to the program is the right one
fn judge_call(ev: &mut Eval, s: &Setup, l: &Launched, sel: &Selected) {
    let [call] = &l.calls[..] else {
        ev.bad("calls", format!("{} programs run instead of one: {:?}; stderr {}", l.calls.len(), l.calls.iter().map(|c| &c.name).collect::<Vec<_>>(), l.out.stderr));
        return;
    };
    let (name, jvm) = match sel {
        Selected::Clojure(_) => ("clojure", "-J--enable-native-access=ALL-UNNAMED"),
        Selected::Java(_) => ("java", "--enable-native-access=ALL-UNNAMED"),
    };
    if call.name != name {
        ev.bad("runtime", format!("{} run instead of {name}", call.name));
        return;
    }
    let mut got = call.args.clone();
    if got.first().map(|x| x.as_slice()) == Some(jvm.as_bytes()) {
        got.remove(0);
    } else {
        ev.bad("args", format!("{jvm} missing: {:?}", lossy(&call.args)));
    }
    let n = match sel {
        Selected::Java(u) => {
            if got.len() < 2 || got[0] != b"-jar" || got[1] != u.as_bytes() {
                ev.bad("uberjar", format!("arguments {:?} instead of -jar {u}", lossy(&got)));
            }
            2
        }
        Selected::Clojure(want) => {
            let deps = got.get(1).map(|d| String::from_utf8_lossy(d).to_string()).unwrap_or_default();
            if got.first().map(|x| x.as_slice()) != Some(b"-Sdeps") || edn(&deps).as_ref() != Some(want) {
                ev.bad("deps", format!("arguments {:?} instead of -Sdeps {want:?}", lossy(&got)));
            }
            let main: Vec<&[u8]> = got.iter().skip(2).take(3).map(|x| x.as_slice()).collect();
            if main != [b"-M".as_slice(), b"-m", b"limabean.main"] {
                ev.bad("args", format!("arguments {:?} do not run limabean.main", lossy(&got)));
            }
            5
        }
    };
    let rest: Vec<Vec<u8>> = got.into_iter().skip(n).collect();
    if rest != s.args {
        ev.bad("args", format!("arguments {:?} passed on as {:?}", lossy(&s.args), lossy(&rest)));
    }
}

fn judge_end(ev: &mut Eval, s: &Setup, l: &Launched, shown: &str) {
    let env = if s.decoys & 1 != 0 { "decoy.beancount decoy.clj" } else { " " };
    let want = format!("in:{}\ncwd:{}\nenv:{env}\n", s.stdin, l.cwd.display());
    if shown != want {
        ev.bad("passed", format!("the program's output is {shown:?} instead of {want:?}"));
    }
    if !l.out.stderr.contains("err:") {
        ev.bad("passed", format!("the program's error output is missing: {:?}", l.out.stderr));
    }
    let sig = match s.sig {
        Some("TERM") => Some(15),
        Some("KILL") => Some(9),
        Some("INT") => Some(2),
        Some("HUP") => Some(1),
        _ => None,
    };
    let ok = match sig {
        Some(n) => l.out.signal == Some(n) || l.out.code == Some(128 + n),
        None => l.out.code == Some(s.exit as i32),
    };
    if !ok {
        ev.bad("status", format!("ended with {:?}/{:?}, the program with {}/{:?}", l.out.code, l.out.signal, s.exit, s.sig));
    }
}

fn flags(s: &Setup) -> (bool, bool) {
    let has = |x: &[u8]| s.args.iter().any(|a| a == x);
    (has(b"-v") || has(b"--verbose"), has(b"--version"))
}

/// what the launcher itself printed, and the program
fn split_stdout(l: &Launched, version_flag: bool) -> (String, String) {
    let t = String::from_utf8_lossy(&l.out.stdout).to_string();
    if !version_flag {
        return (String::new(), t);
    }
    match t.find('\n') {
        Some(i) if !t.starts_with("in:") => (t[..i].to_string(), t[i + 1..].to_string()),
        _ => (String::new(), t),
    }
}

fn c23(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut s = setup(case);
    let v = version(w)?;
    let sel = s.selected(&v);
    // what is run here works; asking for a version may not, and what is not selected may be anything
    let m = match sel {
        Selected::Clojure(_) => &mut s.clojure,
        Selected::Java(_) => &mut s.java,
    };
    if matches!(m, Mode::Missing | Mode::NotExecutable) {
        *m = Mode::Works;
    }
    if s.args.first().is_some_and(|a| a == b"health") {
        s.args.remove(0);
    }
    if s.args.first().is_some_and(|a| a == b"health") {
        return Ok(Eval::discard("health"));
    }
    let l = launch(&s, w)?;
    let mut ev = Eval::default();
    judge_call(&mut ev, &s, &l, &sel);
    let (_, version_flag) = flags(&s);
    let shown = split_stdout(&l, version_flag).1;
    if l.calls.len() == 1 {
        judge_end(&mut ev, &s, &l, &shown);
    }
    let warned = l.out.stderr.contains("LIMABEAN_CLJ_DEPS");
    let java = matches!(sel, Selected::Java(_));
    if warned != (java && s.deps.is_some()) {
        ev.bad("warning", format!("LIMABEAN_CLJ_DEPS {}set, {} run, stderr {:?}", if s.deps.is_some() { "" } else { "not " }, if java { "java" } else { "clojure" }, l.out.stderr));
    }
    let set = [s.local_root.is_some(), s.uberjar.is_some(), s.builtin].iter().filter(|x| **x).count();
    ev.hit(match (java, set) {
        (true, 1) => "java, one setting",
        (true, _) => "java, several settings",
        (false, 0) => "clojure, no setting",
        (false, 1) => "clojure, one setting",
        (false, _) => "clojure, several settings",
    });
    ev.nontrivial = !s.args.is_empty() || set > 1;
    ev.key = hash_of(&format!("{s:?}"));
    ev.sample = s.json();
    ev.detail = json!({"setup": s.json(), "stdout": String::from_utf8_lossy(&l.out.stdout), "stderr": l.out.stderr,
        "calls": l.calls.iter().map(|c| json!([c.name, lossy(&c.args)])).collect::<Vec<_>>()});
    Ok(ev)
}

fn c24(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut s = setup(case);
    let v = version(w)?;
    let sel = s.selected(&v);
    let mut g = G::new(&case.cfg[30.min(case.cfg.len())..]);
    let health = g.chance(55);
    while s.args.first().is_some_and(|a| a == b"health") {
        s.args.remove(0);
    }
    if health {
        s.args.insert(0, b"health".to_vec());
    } else {
        for f in [b"-v".as_slice(), b"--verbose", b"--version"] {
            if g.chance(25) {
                let at = g.n(s.args.len() + 1);
                s.args.insert(at, f.to_vec());
            }
        }
    }
    let (name, m) = match &sel {
        Selected::Clojure(_) => ("clojure", s.clojure),
        Selected::Java(_) => ("java", s.java),
    };
    let l = launch(&s, w)?;
    let mut ev = Eval::default();
    let err = &l.out.stderr;
    if health {
        if let Some(c) = l.calls.iter().find(|c| c.args != [b"--version".to_vec()]) {
            ev.bad("started", format!("health ran {} {:?}", c.name, lossy(&c.args)));
        }
        let runs = m == Mode::Works;
        let good = match &sel {
            Selected::Clojure(_) => runs,
            Selected::Java(_) => runs && s.jar_there(),
        };
        let told = |what: &str| err.contains(what) || String::from_utf8_lossy(&l.out.stdout).contains(what);
        match (good, l.out.code) {
            // what it found: the version that the runtime gives, and the uberjar
            (true, Some(0)) => {
                if s.says.contains('o') && !told(&format!("{name} 21.0.1")) {
                    ev.bad("found", format!("the version {name} gave is not in {err:?}"));
                }
                if let Selected::Java(u) = &sel {
                    if !told(u) {
                        ev.bad("found", format!("{u} is not in {err:?}"));
                    }
                }
            }
            (false, Some(c)) if c != 0 => {
                let about = match &sel {
                    Selected::Java(u) if runs => u.clone(),
                    _ => name.to_string(),
                };
                if !err.contains(&about) {
                    ev.bad("reason", format!("{about} is the trouble, stderr says {err:?}"));
                }
                // (and what the runtime says about it)
                if matches!(m, Mode::VersionFails(_)) && s.says.contains('e') && !err.contains("is broken") {
                    ev.bad("reason", format!("{name} says it is broken, stderr says {err:?}"));
                }
            }
            _ => ev.bad("health", format!("{name} is {m:?}, the uberjar is {}; ended with {:?}/{:?}, stderr {err:?}", if s.jar_there() { "there" } else { "not there" }, l.out.code, l.out.signal)),
        }
        ev.hit(if good { "health: good" } else if runs { "health: no uberjar" } else { "health: runtime" });
        ev.nontrivial = true;
    } else {
        let (verbose, version_flag) = flags(&s);
        let starts = !matches!(m, Mode::Missing | Mode::NotExecutable);
        let (own, shown) = split_stdout(&l, version_flag);
        if version_flag {
            if !own.contains(&v) {
                ev.bad("version", format!("printed {:?} without version {v}", String::from_utf8_lossy(&l.out.stdout)));
            }
            ev.hit("version flag");
        }
        if verbose {
            let mut words = vec![name.to_string()];
            match &sel {
                Selected::Java(u) if !u.contains(['"', '\\']) => words.push(u.clone()),
                Selected::Clojure(_) => words.push("limabean.main".into()),
                _ => {}
            }
            words.extend(s.args.iter().filter_map(|a| String::from_utf8(a.clone()).ok()).filter(|a| a.chars().all(|c| c.is_ascii_alphanumeric() || " -.=()".contains(c))));
            // (the program itself prints only its name)
            if let Some(x) = words.iter().find(|x| !err.replace("err:", "").contains(x.as_str())) {
                ev.bad("verbose", format!("the command shown lacks {x:?}: {err:?}"));
            }
            ev.hit("verbose flag");
        } else if starts {
            let own: Vec<&str> = err.lines().filter(|x| !x.starts_with("err:") && !x.contains("LIMABEAN_CLJ_DEPS")).collect();
            if !own.is_empty() {
                ev.bad("verbose", format!("without the flag, stderr says {own:?}"));
            }
        }
        if starts {
            judge_call(&mut ev, &s, &l, &sel);
            if l.calls.len() == 1 {
                judge_end(&mut ev, &s, &l, &shown);
            }
        } else {
            ev.hit("cannot start");
            if !l.calls.is_empty() {
                ev.bad("runtime", format!("{} was run, though {name} is selected", l.calls[0].name));
            }
            match l.out.code {
                Some(c) if c != 0 => {
                    if !err.contains(name) {
                        ev.bad("reason", format!("{name} can't be run, stderr says {err:?}"));
                    }
                }
                _ => ev.bad("status", format!("{name} can't be run, ended with {:?}/{:?}", l.out.code, l.out.signal)),
            }
        }
        ev.nontrivial = verbose || version_flag || !starts;
    }
    ev.key = hash_of(&format!("{s:?}"));
    ev.sample = s.json();
    ev.detail = json!({"setup": s.json(), "exit": l.out.code, "stdout": String::from_utf8_lossy(&l.out.stdout), "stderr": l.out.stderr,
        "calls": l.calls.iter().map(|c| json!([c.name, lossy(&c.args)])).collect::<Vec<_>>()});
    Ok(ev)
}

// ---------------------------------------------------------------- tabulate

#[derive(Debug, Clone)]
pub(super) enum Cell {
    Empty,
    /// alignment 0 left, 1 right, 2 centre
    Text(String, u8),
    Num(String, usize),
    Row(Vec<Cell>, String),
    Stack(Vec<Cell>),
}

/// what may stand in a column
#[derive(Debug, Clone)]
enum Spec {
    Text,
    Num,
    Row(Vec<Spec>, String),
}

const WORDS: &[&str] = &["", "a", "Assets", "Assets:Bank:Current", "two words", "é", "Café", "日本", "x", " pad ", "q\"uote", "back\\slash", "€ 5", "-", "|", "0.5"];
const GUTTERS: &[&str] = &["  ", " ", "", " | ", "é", "日", "    "];
const WHOLES: &[(&str, usize)] = &[("1", 0), ("-10", 2), ("123", 2), ("4000", 3), ("-50000", 5)];
const NUMS: &[(&str, usize)] = &[("1", 0), ("-1.5", 1), ("12", 1), ("1234.56", 3), ("0.001", 0), ("-10000.25", 5), ("7.", 0), ("100", 2), ("3/4", 0), ("", 0), ("5.5", 3)];

fn wide(c: char) -> usize {
    match c {
        '日' | '本' => 2,
        _ => 1,
    }
}
fn width(s: &str) -> usize {
    s.chars().map(wide).sum()
}

fn spec(g: &mut G, depth: usize) -> Spec {
    match g.weighted(&[4, 4, if depth > 0 { 3 } else { 0 }]) {
        0 => Spec::Text,
        1 => Spec::Num,
        _ => {
            let n = 1 + g.n(4);
            Spec::Row((0..n).map(|_| spec(g, depth - 1)).collect(), g.pick(GUTTERS).to_string())
        }
    }
}

/// one entry of a column; `whole`: no gaps
fn fill(g: &mut G, s: &Spec, whole: bool, depth: usize) -> Cell {
    if !whole && g.chance(12) {
        return Cell::Empty;
    }
    if depth > 0 && g.chance(15) {
        let n = 1 + g.n(3);
        return Cell::Stack((0..n).map(|_| fill(g, s, true, depth - 1)).collect());
    }
    match s {
        Spec::Text => Cell::Text(g.pick(WORDS).to_string(), g.n(3) as u8),
        Spec::Num => {
            let (n, i) = *g.pick(if whole { NUMS } else { WHOLES });
            Cell::Num(n.into(), i)
        }
        Spec::Row(cols, gutter) => {
            let n = if whole || !g.chance(20) { cols.len() } else { g.n(cols.len() + 1) };
            Cell::Row(cols.iter().take(n).map(|c| fill(g, c, whole, depth.saturating_sub(1))).collect(), gutter.clone())
        }
    }
}

fn jstr(s: &str, g: &mut G, esc: bool) -> String {
    let mut t = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => t.push_str("\\\""),
            '\\' => t.push_str("\\\\"),
            c if esc && g.chance(10) => t.push_str(&format!("\\u{:04x}", c as u32)),
            c => t.push(c),
        }
    }
    t.push('"');
    t
}

/// JSON of the cell, spaced at random
fn spell(c: &Cell, g: &mut G, ws: &mut dyn FnMut(&mut G) -> &'static str) -> String {
    let list = |cs: &[Cell], g: &mut G, ws: &mut dyn FnMut(&mut G) -> &'static str| {
        let v: Vec<String> = cs.iter().map(|c| format!("{}{}", ws(g), spell(c, g, ws))).collect();
        format!("[{}{}]", v.join(","), ws(g))
    };
    match c {
        Cell::Empty => {
            if g.chance(80) {
                format!("{{{}\"empty\":{}null}}", ws(g), ws(g))
            } else {
                "\"empty\"".into()
            }
        }
        Cell::Text(s, a) => {
            let t = jstr(s, g, true);
            format!("{{\"aligned\":[{}{t},{}\"{}\"]{}}}", ws(g), ws(g), ["left", "right", "centre"][*a as usize], ws(g))
        }
        Cell::Num(s, i) => {
            let t = jstr(s, g, true);
            format!("{{\"anchored\":[{t},{}{i}]}}", ws(g))
        }
        Cell::Row(cs, gutter) => {
            let l = list(cs, g, ws);
            // (escapes in a gutter are a known finding)
            format!("{{\"row\":{}[{l},{}{}]}}", ws(g), ws(g), jstr(gutter, g, false))
        }
        Cell::Stack(cs) => {
            let l = list(cs, g, ws);
            format!("{{{}\"stack\":{l}}}", ws(g))
        }
    }
}

/// The space a column takes.  Numbers: before and after the anchor.
#[derive(Debug, Clone, Default)]
pub(super) struct Lay {
    pub(super) w: usize,
    anchor: Option<(usize, usize)>,
    cols: Option<(Vec<Lay>, String)>,
    /// numbers need more space, once anchored, than the widest of them
    pub(super) spread: bool,
}
pub(super) fn lay(cells: &[&Cell]) -> Lay {
    let mut l = Lay::default();
    let mut cols: Vec<Vec<&Cell>> = vec![];
    let mut gutter: Option<String> = None;
    let mut stack: Vec<&Cell> = cells.to_vec();
    stack.reverse();
    while let Some(c) = stack.pop() {
        match c {
            Cell::Empty => {}
            Cell::Text(s, _) => l.w = l.w.max(width(s)),
            Cell::Num(s, i) => {
                let (a, b) = l.anchor.unwrap_or((0, 0));
                l.anchor = Some((a.max(*i), b.max(width(s) - i)));
                l.w = l.w.max(width(s));
            }
            Cell::Row(cs, g) => {
                for (k, c) in cs.iter().enumerate() {
                    if cols.len() <= k {
                        cols.push(vec![]);
                    }
                    cols[k].push(c);
                }
                if gutter.as_ref().is_none_or(|x| width(x) < width(g)) {
                    gutter = Some(g.clone());
                }
            }
            Cell::Stack(cs) => stack.extend(cs.iter().rev()),
        }
    }
    if let Some((a, b)) = l.anchor {
        l.spread = a + b > l.w;
        l.w = l.w.max(a + b);
    }
    if let Some(g) = gutter {
        let v: Vec<Lay> = cols.iter().map(|c| lay(c)).collect();
        let total = v.iter().map(|x| x.w).sum::<usize>() + width(&g) * v.len().saturating_sub(1);
        l.spread |= v.iter().any(|x| x.spread);
        l.w = l.w.max(total);
        l.cols = Some((v, g));
    }
    l
}

/// something in the cell is printed as a gap of the width of its column
pub(super) fn gaps(c: &Cell, l: &Lay, in_row: bool) -> bool {
    match c {
        Cell::Empty => true,
        Cell::Text(..) | Cell::Num(..) => false,
        Cell::Stack(cs) => in_row || cs.iter().any(|c| gaps(c, l, in_row)),
        Cell::Row(cs, _) => match &l.cols {
            Some((cols, _)) => cs.len() < cols.len() || cs.iter().zip(cols).any(|(c, l)| gaps(c, l, true)),
            None => true,
        },
    }
}

fn sp(n: usize) -> String {
    " ".repeat(n)
}

/// lines of the cell, each as wide as its column
pub(super) fn draw(c: &Cell, l: &Lay) -> Vec<String> {
    match c {
        Cell::Empty => vec![sp(l.w)],
        Cell::Text(s, a) => {
            let n = l.w - width(s);
            let left = match a {
                0 => 0,
                1 => n,
                _ => n / 2,
            };
            vec![format!("{}{s}{}", sp(left), sp(n - left))]
        }
        Cell::Num(s, i) => {
            let (a, b) = l.anchor.unwrap_or((*i, width(s) - i));
            let t = format!("{}{s}{}", sp(a - i), sp(b - (width(s) - i)));
            let n = l.w.saturating_sub(a + b);
            vec![t + &sp(n)]
        }
        Cell::Row(cs, _) => {
            let Some((cols, gutter)) = &l.cols else { return vec![sp(l.w)] };
            if cs.is_empty() {
                return vec![sp(l.w)];
            }
            let parts: Vec<Vec<String>> = cols.iter().enumerate().map(|(k, l)| draw(cs.get(k).unwrap_or(&Cell::Empty), l)).collect();
            let h = parts.iter().map(|p| p.len()).max().unwrap_or(1);
            (0..h)
                .map(|y| {
                    let row: Vec<String> = parts.iter().zip(cols).map(|(p, l)| p.get(y).cloned().unwrap_or(sp(l.w))).collect();
                    row.join(gutter)
                })
                .collect()
        }
        Cell::Stack(cs) => cs.iter().flat_map(|c| draw(c, l)).collect(),
    }
}

pub(super) fn texts<'a>(c: &'a Cell, v: &mut Vec<&'a str>) {
    match c {
        Cell::Empty => {}
        Cell::Text(s, _) | Cell::Num(s, _) => v.push(s),
        Cell::Row(cs, _) | Cell::Stack(cs) => cs.iter().for_each(|c| texts(c, v)),
    }
}

/// blanks at the end of lines and at the end are not judged
pub(super) fn trimmed(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.split('\n').map(|l| l.trim_end().to_string()).collect();
    while v.last().is_some_and(|l| l.is_empty()) {
        v.pop();
    }
    v
}

fn tabulate(w: &mut Worker, input: &[u8]) -> Result<Out, HarnessError> {
    let mut c = w.cmd("limabean-pod");
    c.arg("tabulate");
    w.run(c, input)
}

/// something that is not the JSON of a cell
fn spoil(text: &str, g: &mut G) -> (Vec<u8>, &'static str) {
    let b = text.as_bytes();
    let sub = |a: &str, b: &str| text.contains(a).then(|| text.replacen(a, b, 1).into_bytes());
    let end = || (b[..b.len() - 1].to_vec(), "without its last byte");
    match g.n(16) {
        0 => end(),
        1 => {
            let n = g.n(b.len());
            (b[..n].to_vec(), "cut off")
        }
        2 => {
            let tail = *g.pick(&["x", "{}", "]", ",", "null", "\"\"", "\0"]);
            ([b, tail.as_bytes()].concat(), "with something after it")
        }
        3 => {
            let mut v = b.to_vec();
            let at = text.char_indices().map(|x| x.0).nth(g.n(text.chars().count())).unwrap_or(0);
            v.insert(at, 0xff);
            (v, "not UTF-8")
        }
        4 => sub("\"left\"", "\"middle\"").or(sub("\"right\"", "\"Right\"")).map(|x| (x, "unknown alignment")).unwrap_or_else(end),
        5 => sub("\"aligned\"", "\"Aligned\"").or(sub("\"row\"", "\"rows\"")).or(sub("\"anchored\"", "\"anchor\"")).map(|x| (x, "unknown kind of cell")).unwrap_or_else(end),
        6 => sub("{\"anchored\":[", "{\"anchored\":[1,").or(sub("{\"aligned\":[", "{\"aligned\":[\"x\",\"y\",")).map(|x| (x, "too many elements")).unwrap_or_else(end),
        7 => (format!("[{text}]").into_bytes(), "in a list"),
        8 => (format!("{{\"stack\":{text}}}").into_bytes(), "a stack that is no list"),
        9 => (format!("{{\"row\":[[{text}]]}}").into_bytes(), "a row without gutter"),
        10 => (format!("{{\"row\":[[{text}],3]}}").into_bytes(), "a number as gutter"),
        11 => (format!("{{\"stack\":[{text},null]}}").into_bytes(), "null in a stack"),
        12 => (g.pick(&["", " ", "\n", "null", "true", "{}", "[]", "\"\"", "0", "\"row\"", "\"stack\"", "{\"aligned\":[\"a\"]}", "{\"aligned\":[1,\"left\"]}", "{\"anchored\":[\"1\",-1]}", "{\"anchored\":[\"1\",\"0\"]}", "{\"anchored\":[\"1\",0.5]}"]).as_bytes().to_vec(), "something else"),
        13 => (format!("{{\"stack\":[{text}],\"row\":[[],\"\"]}}").into_bytes(), "two kinds in one"),
        14 => (format!("\u{feff}{text}").into_bytes(), "after a byte order mark"),
        _ => (format!("{{\"stack\":[{text},]}}").into_bytes(), "a comma too many"),
    }
}

fn c25(case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
    let mut g = G::new(&case.cfg);
    let kind = g.n(10);
    let whole = g.chance(50);
    let cols = spec(&mut g, 3);
    let mut rows: Vec<Cell> = vec![];
    for o in &case.ops {
        let mut g = G::new(o);
        // (an empty cell right in a stack is left out when it comes last)
        let c = match fill(&mut g, &cols, whole, 2) {
            Cell::Empty => fill(&mut g, &cols, true, 0),
            c => c,
        };
        rows.push(c);
    }
    let repeat = if kind == 9 { 120 } else { 1 };
    let cell = if rows.len() == 1 && g.chance(50) { rows.pop().unwrap() } else { Cell::Stack((0..repeat).flat_map(|_| rows.clone()).collect()) };
    let spacing = g.n(4);
    let mut ws = move |g: &mut G| -> &'static str {
        match spacing {
            0 => "",
            1 => g.pick(&["", " "]),
            2 => g.pick(&["\n", "\n  ", ""]),
            _ => g.pick(&["\t", "\r\n", " "]),
        }
    };
    let mut text = spell(&cell, &mut g, &mut ws);
    let mut ev = Eval::default();
    if kind == 0 {
        let (input, how) = spoil(&text, &mut g);
        let out = tabulate(w, &input)?;
        if out.code != Some(1) {
            ev.bad("status", format!("ended with {:?}/{:?} instead of 1 for input {how}: {}", out.code, out.signal, out.stderr));
        }
        if !out.stdout.is_empty() {
            ev.bad("stdout", format!("printed {:?} for input {how}", String::from_utf8_lossy(&out.stdout)));
        }
        if out.stderr.trim().is_empty() {
            ev.bad("stderr", format!("no message for input {how}"));
        }
        ev.hit(how);
        ev.nontrivial = true;
        ev.key = hash_of(&input);
        ev.sample = json!({"input": String::from_utf8_lossy(&input), "invalid": how});
        ev.detail = json!({"input": String::from_utf8_lossy(&input), "exit": out.code, "stdout": String::from_utf8_lossy(&out.stdout), "stderr": out.stderr});
        return Ok(ev);
    }
    if g.chance(40) {
        text.push('\n');
    }
    let l = lay(&[&cell]);
    let out = tabulate(w, text.as_bytes())?;
    let shown = String::from_utf8_lossy(&out.stdout).to_string();
    ev.detail = json!({"input": text, "exit": out.code, "stdout": shown, "stderr": out.stderr});
    if out.code != Some(0) {
        ev.bad("status", format!("ended with {:?}/{:?}: {}", out.code, out.signal, out.stderr));
        return Ok(ev);
    }
    if !shown.ends_with('\n') {
        ev.bad("lines", "no end of line at the end");
    }
    let mut all = vec![];
    texts(&cell, &mut all);
    if let Some(t) = all.iter().find(|t| !shown.contains(t.trim_end())) {
        ev.bad("text", format!("{t:?} is not printed"));
    }
    if l.spread && gaps(&cell, &l, false) {
        ev.hit("numbers sharing a column with gaps: layout not judged");
    } else {
        let want = trimmed(&draw(&cell, &l).join("\n"));
        if trimmed(&shown) != want {
            ev.bad("layout", format!("printed\n{shown}\ninstead of\n{}", want.join("\n")));
        }
        ev.hit(match text.len() {
            0..=65535 => "layout judged",
            _ => "layout judged, more than 64 kB",
        });
    }
    ev.nontrivial = all.len() > 2;
    ev.key = hash_of(&text);
    ev.sample = json!({"input": text.chars().take(400).collect::<String>()});
    Ok(ev)
}

pub fn checks() -> Vec<Box<dyn Check>> {
    let mk = |id, quick, cfg, ops, genes, rule, f| -> Box<dyn Check> {
        Box::new(FnCheck { id, rule, cfg, ops, genes, quick, f, fixed: no_fixed, assumptions: &[] })
    };
    vec![
        mk("C23", 4000, 44, (0, 7), 10, "random settings, stand-ins and argument lists; non-trivial: arguments are given, or several settings compete", c23),
        mk("C24", 4000, 56, (0, 5), 10, "random settings, flags and working, failing and missing stand-ins; non-trivial: health is asked, a flag given, or the runtime can't be started", c24),
        mk("C25", 5000, 120, (1, 7), 80, "random nested cells spelled as JSON in random ways, and spoiled ones; non-trivial: more than two texts, or spoiled", c25),
    ]
}
