//! Ways of talking to the pod that several checks share.
use crate::ast::*;
use crate::compare::*;
use crate::model::*;
use crate::pod::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

pub fn req(id: impl Into<Value>, method: &str, params: Option<Value>) -> Value {
    let mut v = json!({"jsonrpc": "2.0", "id": id.into(), "method": method});
    if let Some(p) = params {
        v["params"] = p;
    }
    v
}
pub fn line(v: &Value) -> Vec<u8> {
    v.to_string().into_bytes()
}

pub fn write_ledger(dir: &Path, paths: &[String], texts: &[String]) -> Result<PathBuf, HarnessError> {
    for (p, t) in paths.iter().zip(texts) {
        let f = dir.join(p);
        if let Some(d) = f.parent() {
            std::fs::create_dir_all(d).map_err(|e| HarnessError(e.to_string()))?;
        }
        std::fs::write(&f, t).map_err(|e| HarnessError(e.to_string()))?;
    }
    Ok(dir.join(&paths[0]))
}

/// one JSON response per request line, or what is wrong
pub fn responses(out: &Out, n: usize) -> Result<Vec<Value>, Vec<Disc>> {
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    if out.code != Some(0) {
        let err: String = out.stderr.chars().take(600).collect();
        return Err(vec![disc(
            "crash",
            format!(
                "pod ended with {:?}/{:?} after {} of {} responses: {}",
                out.code,
                out.signal,
                text.lines().count(),
                n,
                err
            ),
        )]);
    }
    let mut v = vec![];
    for l in text.lines() {
        match serde_json::from_str::<Value>(l) {
            Ok(x) => v.push(x),
            Err(e) => return Err(vec![disc("proto", format!("response is not JSON ({e}): {l}"))]),
        }
    }
    if v.len() != n || (n > 0 && !text.ends_with('\n')) {
        return Err(vec![disc("proto", format!("{} responses to {n} requests", v.len()))]);
    }
    Ok(v)
}

pub fn ask(w: &mut Worker, root: &Path, reqs: &[Value]) -> Result<Result<Vec<Value>, Vec<Disc>>, HarnessError> {
    let lines: Vec<Vec<u8>> = reqs.iter().map(line).collect();
    let out = w.serve(root, &lines)?;
    let r = match responses(&out, reqs.len()) {
        Err(e) => return Ok(Err(e)),
        Ok(r) => r,
    };
    for (q, a) in reqs.iter().zip(&r) {
        if a["jsonrpc"] != "2.0" || a["id"] != q["id"] {
            return Ok(Err(vec![disc("proto", format!("response {} to request {}", short(a), short(q)))]));
        }
    }
    Ok(Ok(r))
}

/// the model as often as it takes to agree, where the booking crate's own hash order could matter
pub fn model_tries() -> usize {
    30
}

/// compare a response to a booking of the ledger's own directives
pub fn diff_book_own(m: &Model, dirs: &[Dir], resp: &Value, sm: &SpanMap) -> Vec<Disc> {
    if let Some(e) = resp.get("error") {
        if e["code"] != 2 {
            return vec![disc("proto", format!("error {}", short(e)))];
        }
        let (got, mut out) = span_faults(&e["data"], sm, dirs);
        if got.is_empty() && out.is_empty() {
            out.push(disc("proto", "error without reports"));
        }
        out.extend(diff_faults(&m.faults, &got, dirs));
        return out;
    }
    diff_success(m, dirs, resp)
}

fn diff_success(m: &Model, dirs: &[Dir], resp: &Value) -> Vec<Disc> {
    let Some(r) = resp.get("result") else { return vec![disc("proto", format!("neither result nor error: {}", short(resp)))] };
    if !m.faults.is_empty() {
        return diff_faults(&m.faults, &[], dirs);
    }
    diff_booked(&m.booked, &r["directives"])
}

pub fn diff_book_params(m: &Model, dirs: &[Dir], resp: &Value) -> Vec<Disc> {
    if let Some(e) = resp.get("error") {
        if e["code"] != 3 {
            return vec![disc("proto", format!("error {}", short(e)))];
        }
        return match indexed_faults(&e["data"]) {
            Err(s) => vec![disc("proto", s)],
            Ok(g) if g.is_empty() => vec![disc("proto", "error without reports")],
            Ok(g) => diff_faults(&m.faults, &g, dirs),
        };
    }
    diff_success(m, dirs, resp)
}

pub fn params_of(dirs: &[Dir]) -> Value {
    Value::Array(dirs.iter().map(|d| d.json()).collect())
}

pub fn texts_json(paths: &[String], texts: &[String]) -> Value {
    Value::Object(paths.iter().cloned().zip(texts.iter().map(|t| json!(t))).collect())
}
