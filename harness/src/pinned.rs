//! Pinned inputs: one file each under /verif/pinned.  Those listed as `known:` in known_findings.txt
//! are genuine defects that were recorded rather than repaired; the others are repaired ones, which
//! must stay repaired.
use crate::pod::*;
use crate::runner::Args;
use serde_json::Value;
use std::path::{Path, PathBuf};

#[derive(Debug)]
pub enum State {
    Holds,
    /// fails just as recorded
    AsKnown,
    Fails(String),
}

#[derive(Default)]
pub struct Ran {
    pub ran: usize,
    pub known: Vec<String>,
    pub broken: Vec<(PathBuf, String)>,
    pub err: Option<HarnessError>,
}

/// A line or argument as it is; \u{f8xx} stands for the byte xx.
fn bytes(s: &str) -> Vec<u8> {
    s.chars()
        .flat_map(|c| match c as u32 {
            x @ 0xf800..=0xf8ff => vec![(x & 0xff) as u8],
            _ => c.to_string().into_bytes(),
        })
        .collect()
}

/// `at` is "N/json/pointer" into the responses, "crash", "count" or "same" (in all of the runs);
/// for a tool "exit", "stdout", "stderr" or "calls"
fn look(v: &Value, at: &str, (crash, same): (bool, bool)) -> Value {
    if at == "same" {
        return Value::Bool(same);
    }
    if at == "crash" {
        return Value::Bool(crash);
    }
    if at == "count" {
        return Value::from(v.as_array().map(|a| a.len()).unwrap_or(0));
    }
    v.pointer(&format!("/{at}")).cloned().unwrap_or(Value::String("<absent>".into()))
}

fn all(list: &Value, v: &Value, crash: (bool, bool)) -> Result<(), String> {
    let Some(m) = list.as_object() else { return Err("nothing recorded".into()) };
    for (at, want) in m {
        let got = look(v, at, crash);
        let ok = got == *want
            || want.as_str().and_then(|w| w.strip_prefix('~')).is_some_and(|w| got.as_str().is_some_and(|g| g.contains(w)));
        if !ok {
            return Err(format!("{at} is {got} instead of {want}"));
        }
    }
    Ok(())
}

pub fn one(p: &Value, w: &mut Worker) -> Result<State, HarnessError> {
    let dir = w.fresh();
    for (f, t) in p["files"].as_object().into_iter().flatten() {
        let f = dir.join(f);
        std::fs::create_dir_all(f.parent().unwrap()).map_err(|e| HarnessError(e.to_string()))?;
        std::fs::write(&f, t.as_str().unwrap_or("")).map_err(|e| HarnessError(e.to_string()))?;
    }
    if let Some(t) = p.get("tool") {
        return tool(p, t, &dir, w);
    }
    let lines: Vec<Vec<u8>> = p["requests"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|r| match r {
            Value::String(s) => bytes(s),
            r => r.to_string().into_bytes(),
        })
        .collect();
    let out = w.serve(&dir.join(p["root"].as_str().unwrap_or("main.beancount")), &lines)?;
    let mut crash = (out.code != Some(0), true);
    for _ in 1..p["runs"].as_u64().unwrap_or(1) {
        let again = w.serve(&dir.join(p["root"].as_str().unwrap_or("main.beancount")), &lines)?;
        crash.1 &= again.stdout == out.stdout;
    }
    let v = Value::Array(
        String::from_utf8_lossy(&out.stdout)
            .lines()
            .map(|l| serde_json::from_str(l).unwrap_or(Value::String(l.into())))
            .collect(),
    );
    verdict(p, &v, crash)
}

/// a program run once, with stand-ins for java and clojure
fn tool(p: &Value, t: &Value, dir: &Path, w: &mut Worker) -> Result<State, HarnessError> {
    use std::os::unix::ffi::OsStrExt;
    let (bin, rec) = (dir.join("stand-ins"), dir.join("record"));
    std::fs::create_dir_all(&bin).map_err(|e| HarnessError(e.to_string()))?;
    for n in ["java", "clojure"] {
        crate::props::tools::fake(w, &bin, n, 0o755)?;
    }
    let mut c = w.cmd(t["program"].as_str().unwrap_or("limabean"));
    c.current_dir(dir).env("PATH", &bin).env("LB_REC", &rec);
    for a in t["args"].as_array().into_iter().flatten().filter_map(|a| a.as_str()) {
        c.arg(std::ffi::OsStr::from_bytes(&bytes(a)));
    }
    for (k, x) in t["env"].as_object().into_iter().flatten() {
        c.env(k, std::ffi::OsStr::from_bytes(&bytes(x.as_str().unwrap_or(""))));
    }
    let o = w.run(c, &bytes(t["stdin"].as_str().unwrap_or("")))?;
    let calls: Vec<Value> = crate::props::tools::calls(&rec)
        .into_iter()
        .map(|c| serde_json::json!({"name": c.name, "args": c.args.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect::<Vec<_>>()}))
        .collect();
    let v = serde_json::json!({"exit": o.code, "stdout": String::from_utf8_lossy(&o.stdout), "stderr": o.stderr, "calls": calls});
    verdict(p, &v, (o.code == Some(101) || o.code.is_none(), true))
}

fn verdict(p: &Value, v: &Value, crash: (bool, bool)) -> Result<State, HarnessError> {
    let require = all(&p["require"], v, crash);
    if require.is_ok() {
        return Ok(State::Holds);
    }
    if p.get("observed").is_some() && all(&p["observed"], v, crash).is_ok() {
        return Ok(State::AsKnown);
    }
    Ok(State::Fails(format!("{} ({})", p["what"].as_str().unwrap_or(""), require.unwrap_err())))
}

fn listed(verif: &Path) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let mut i = l.splitn(3, ' ');
            Some((i.next()?.into(), i.next()?.into(), i.next().unwrap_or("").into()))
        })
        .collect()
}

pub fn run(id: &str, a: &Args) -> Ran {
    let mut r = Ran::default();
    let known = listed(&a.verif);
    let mut files: Vec<PathBuf> = std::fs::read_dir(a.verif.join("pinned"))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "json")).collect())
        .unwrap_or_default();
    files.sort();
    let mut w = Worker::new(&a.scratch, &a.bin, 98);
    for f in files {
        let Some(v) = std::fs::read_to_string(&f).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) else {
            r.err = Some(HarnessError(format!("{} is not JSON", f.display())));
            continue;
        };
        if v["property"] != id {
            continue;
        }
        r.ran += 1;
        let name = f.file_name().unwrap().to_string_lossy().to_string();
        match one(&v, &mut w) {
            Err(e) => r.err = Some(e),
            Ok(State::Holds) => {}
            Ok(State::AsKnown) => match known.iter().find(|k| k.0 == id && k.1 == format!("pinned/{name}")) {
                Some(k) => r.known.push(k.2.clone()),
                None => r.broken.push((f, v["what"].as_str().unwrap_or("").into())),
            },
            Ok(State::Fails(s)) => r.broken.push((f, s)),
        }
    }
    r
}
