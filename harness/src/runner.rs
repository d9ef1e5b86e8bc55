//! Generates cases, counts them, shrinks failures, writes evidence and replay files.
use crate::compare::Disc;
use crate::genes::Case;
use crate::pod::{HarnessError, Worker};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
pub struct Eval {
    /// differences that bear on the property
    pub bad: Vec<Disc>,
    pub discard: Option<&'static str>,
    pub nontrivial: bool,
    pub key: u64,
    pub stats: BTreeMap<String, u64>,
    pub sample: Value,
    /// for people: what the case is (only looked at when it fails)
    pub detail: Value,
}
impl Eval {
    pub fn discard(why: &'static str) -> Eval {
        Eval { discard: Some(why), ..Eval::default() }
    }
    pub fn bad(&mut self, class: &str, msg: impl Into<String>) {
        self.bad.push(crate::compare::disc(class, msg));
    }
    pub fn hit(&mut self, k: &str) {
        *self.stats.entry(k.to_string()).or_default() += 1;
    }
}

pub fn hash_of(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub struct Shape {
    pub cfg: usize,
    pub ops: (usize, usize),
    pub genes: usize,
}

/// how many times as many cases as each check names
pub const QUICK: usize = 2;

pub trait Check: Sync + Send {
    fn id(&self) -> &'static str;
    fn rule(&self) -> String;
    fn shape(&self, thorough: bool) -> Shape;
    /// cases of the quick tier
    fn quick(&self) -> usize;
    fn thorough(&self) -> usize {
        self.quick() * 25 * QUICK
    }
    fn eval(&self, case: &Case, w: &mut Worker) -> Result<Eval, HarnessError>;
    /// for people: what the case is
    fn explain(&self, case: &Case, w: &mut Worker) -> Value {
        self.eval(case, w).map(|e| e.detail).unwrap_or(Value::Null)
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    /// fixed cases besides the generated ones (complete enumerations)
    fn fixed(&self) -> Vec<Case> {
        vec![]
    }
}

/// a check that is one function of the case
pub struct FnCheck {
    pub id: &'static str,
    pub rule: &'static str,
    pub cfg: usize,
    pub ops: (usize, usize),
    pub genes: usize,
    pub quick: usize,
    pub f: fn(&Case, &mut Worker) -> Result<Eval, HarnessError>,
    pub fixed: fn() -> Vec<Case>,
    pub assumptions: &'static [&'static str],
}
pub fn no_fixed() -> Vec<Case> {
    vec![]
}
impl Check for FnCheck {
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        self.rule.into()
    }
    fn shape(&self, thorough: bool) -> Shape {
        let (a, b) = self.ops;
        Shape { cfg: self.cfg, ops: (a, if thorough { b * 2 } else { b }), genes: self.genes }
    }
    fn quick(&self) -> usize {
        self.quick
    }
    fn eval(&self, case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
        (self.f)(case, w)
    }
    fn fixed(&self) -> Vec<Case> {
        (self.fixed)()
    }
    fn assumptions(&self) -> Vec<String> {
        self.assumptions.iter().map(|s| s.to_string()).collect()
    }
}

pub fn strategy(s: &Shape) -> BoxedStrategy<Case> {
    let (cfg, genes) = (s.cfg, s.genes);
    let g = prop_oneof![
        8 => any::<u16>(),
        1 => Just(0u16),
        1 => Just(u16::MAX),
    ];
    (
        prop::collection::vec(any::<u16>(), cfg),
        prop::collection::vec(prop::collection::vec(g, genes), s.ops.0..=s.ops.1),
    )
        .prop_map(|(cfg, ops)| Case { cfg, ops })
        .boxed()
}

fn rng(seed: u64, id: &str, thread: usize) -> TestRng {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&(thread as u64).to_le_bytes());
    for (i, c) in id.bytes().take(16).enumerate() {
        b[16 + i] = c;
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &b)
}

pub struct Outcome {
    pub exit: i32,
}

struct Found {
    case: Case,
    eval: Eval,
}

pub struct Args {
    pub tier: String,
    pub seed: u64,
    pub verif: PathBuf,
    pub bin: PathBuf,
    pub scratch: PathBuf,
    pub cases: Option<usize>,
    pub threads: usize,
    pub stats: bool,
}

/// smaller cases that still fail, by removing and lowering genes
fn shrink(
    check: &dyn Check,
    case: Case,
    eval: Eval,
    w: &mut Worker,
    limit: Duration,
) -> Result<(Case, Eval), HarnessError> {
    let t0 = Instant::now();
    let class = eval.bad[0].class.clone();
    let (mut best, mut be) = (case, eval);
    let try_it = |c: Case, best: &mut Case, be: &mut Eval, w: &mut Worker| -> Result<bool, HarnessError> {
        if c == *best || t0.elapsed() > limit {
            return Ok(false);
        }
        let e = check.eval(&c, w)?;
        if e.bad.iter().any(|d| d.class == class) {
            *best = c;
            *be = e;
            Ok(true)
        } else {
            Ok(false)
        }
    };
    for _round in 0..6 {
        let before = best.clone();
        // operations
        let mut k = best.ops.len().max(1);
        while k >= 1 {
            let mut i = 0;
            while i < best.ops.len() {
                let mut c = best.clone();
                let e = (i + k).min(c.ops.len());
                c.ops.drain(i..e);
                if !try_it(c, &mut best, &mut be, w)? {
                    i += k;
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // genes, whole tapes first
        for o in 0..=best.ops.len() {
            let len = if o == 0 { best.cfg.len() } else { best.ops[o - 1].len() };
            let mut k = len.max(1);
            while k >= 1 {
                let mut i = 0;
                while i < len {
                    let mut c = best.clone();
                    let t = if o == 0 { &mut c.cfg } else { &mut c.ops[o - 1] };
                    for x in t.iter_mut().skip(i).take(k) {
                        *x = 0;
                    }
                    try_it(c, &mut best, &mut be, w)?;
                    i += k;
                }
                if k == 1 {
                    break;
                }
                k /= 2;
            }
            for i in 0..len {
                loop {
                    let mut c = best.clone();
                    let t = if o == 0 { &mut c.cfg } else { &mut c.ops[o - 1] };
                    if t[i] == 0 {
                        break;
                    }
                    t[i] /= 2;
                    if !try_it(c, &mut best, &mut be, w)? {
                        break;
                    }
                }
                if t0.elapsed() > limit {
                    break;
                }
            }
        }
        if best == before || t0.elapsed() > limit {
            break;
        }
    }
    Ok((best, be))
}

pub fn replay_value(check: &dyn Check, case: &Case, eval: &Eval, w: &mut Worker) -> Value {
    json!({
        "property": check.id(),
        "differences": eval.bad.iter().map(|d| json!({"class": d.class, "what": d.msg})).collect::<Vec<_>>(),
        "explanation": check.explain(case, w),
        "case": case,
    })
}

pub fn run(check: &dyn Check, a: &Args) -> i32 {
    let t0 = Instant::now();
    let thorough = a.tier == "thorough";
    let total = a.cases.unwrap_or(if thorough { check.thorough() } else { check.quick() * QUICK });
    let shape = check.shape(thorough);
    let cap = Duration::from_secs(if thorough { 6 * 3600 } else { 600 });
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let err: Mutex<Option<HarnessError>> = Mutex::new(None);
    let done = AtomicUsize::new(0);
    let samples: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let stats: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let discards: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let podruns = AtomicUsize::new(0);
    let fixed = check.fixed();
    let nfixed = fixed.len();
    let fixed_at = AtomicUsize::new(0);
    std::thread::scope(|s| {
        // (LBVERIF_SLOW=5 prints the cases which took longer than that)
        let slow: Option<f64> = std::env::var("LBVERIF_SLOW").ok().and_then(|s| s.parse().ok());
        for t in 0..a.threads {
            let (stop, found, err, done, samples, stats, distinct, discards, podruns, fixed, fixed_at, shape) = (
                &stop, &found, &err, &done, &samples, &stats, &distinct, &discards, &podruns, &fixed, &fixed_at, &shape,
            );
            s.spawn(move || {
                let mut w = Worker::new(&a.scratch, &a.bin, t);
                let strat = strategy(shape);
                let cfg = Config { failure_persistence: None, ..Config::default() };
                let mut runner = TestRunner::new_with_rng(cfg, rng(a.seed, check.id(), t));
                let mine = total / a.threads + usize::from(t < total % a.threads);
                let mut lstats: BTreeMap<String, u64> = BTreeMap::new();
                let mut ldist: HashSet<u64> = HashSet::new();
                let mut n = 0;
                loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed() > cap {
                        break;
                    }
                    let k = fixed_at.fetch_add(1, Ordering::Relaxed);
                    let case = if k < nfixed {
                        fixed[k].clone()
                    } else if n < mine {
                        n += 1;
                        strat.new_tree(&mut runner).expect("strategies here never reject").current()
                    } else {
                        break;
                    };
                    let began = Instant::now();
                    let evaluated = check.eval(&case, &mut w);
                    if slow.is_some_and(|limit| began.elapsed().as_secs_f64() > limit) {
                        eprintln!("{:.1} s for {}", began.elapsed().as_secs_f64(), serde_json::to_string(&case).unwrap());
                    }
                    match evaluated {
                        Err(e) => {
                            *err.lock().unwrap() = Some(HarnessError(format!(
                                "{} on case {}",
                                e.0,
                                serde_json::to_string(&case).unwrap()
                            )));
                            stop.store(true, Ordering::Relaxed);
                        }
                        Ok(e) => {
                            done.fetch_add(1, Ordering::Relaxed);
                            if let Some(d) = e.discard {
                                *discards.lock().unwrap().entry(d).or_default() += 1;
                                continue;
                            }
                            for (k, v) in &e.stats {
                                *lstats.entry(k.clone()).or_default() += (*v > 0) as u64;
                            }
                            if e.nontrivial {
                                let fresh = ldist.insert(e.key);
                                if fresh && ldist.len() % 211 == 1 {
                                    let mut s = samples.lock().unwrap();
                                    if s.len() < 3 {
                                        s.push(e.sample.clone());
                                    }
                                }
                            }
                            if !e.bad.is_empty() {
                                let mut f = found.lock().unwrap();
                                if f.is_none() {
                                    *f = Some(Found { case, eval: e });
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                }
                podruns.fetch_add(w.runs as usize, Ordering::Relaxed);
                distinct.lock().unwrap().extend(ldist);
                let mut st = stats.lock().unwrap();
                for (k, v) in lstats {
                    *st.entry(k).or_default() += v;
                }
            });
        }
    });
    let pinned = crate::pinned::run(check.id(), a);
    let found = found.into_inner().unwrap();
    let err = err.into_inner().unwrap();
    let samples = samples.into_inner().unwrap();
    let stats = stats.into_inner().unwrap();
    let discards = discards.into_inner().unwrap();
    let evaluations = done.load(Ordering::Relaxed);
    let nontrivial = distinct.into_inner().unwrap().len();
    let mut violation: Option<(PathBuf, Vec<Disc>)> = None;
    let mut harness_err = err;
    if let Some(f) = found {
        let mut w = Worker::new(&a.scratch, &a.bin, 99);
        let first = f.eval.clone();
        match shrink(check, f.case.clone(), f.eval, &mut w, Duration::from_secs(if std::env::var_os("LBVERIF_NOSHRINK").is_some() { 1 } else { 60 })) {
            Ok((c, e)) => {
                let v = replay_value(check, &c, &e, &mut w);
                let dir = a.verif.join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let p = dir.join(format!("{}-{:016x}.json", check.id(), hash_of(&c)));
                let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
                violation = Some((p, e.bad));
            }
            Err(e) => {
                // the failure itself was seen: keep the case as it was found
                let v = replay_value(check, &f.case, &first, &mut w);
                let dir = a.verif.join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let p = dir.join(format!("{}-{:016x}.json", check.id(), hash_of(&f.case)));
                let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
                eprintln!("while shrinking: {}", e.0);
                violation = Some((p, first.bad));
            }
        }
        harness_err = None;
    }
    let ev = json!({
        "property": check.id(),
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": check.rule(),
            "samples": samples,
            "classes": stats,
            "discarded": discards,
            "program_runs": podruns.load(Ordering::Relaxed),
            "planned": total + nfixed,
            "pinned": pinned.ran,
            "known_findings": pinned.known,
        },
        "assumptions": check.assumptions(),
        "violations": violation.is_some() as usize + pinned.broken.len(),
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let evdir = a.verif.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", check.id())), serde_json::to_string_pretty(&ev).unwrap() + "\n")
        .expect("evidence");
    if a.stats {
        eprintln!("{}", serde_json::to_string_pretty(&ev["coverage"]["classes"]).unwrap());
        eprintln!("discarded {discards:?}");
    }
    eprintln!(
        "{}: {} cases, {} distinct non-trivial, {} discarded, {:.1} s",
        check.id(),
        evaluations,
        nontrivial,
        discards.values().sum::<u64>(),
        t0.elapsed().as_secs_f64()
    );
    for k in &pinned.known {
        println!("KNOWN-FINDING: property={} {}", check.id(), k);
    }
    for (p, what) in &pinned.broken {
        println!("  [pinned] {what}");
        println!("VIOLATION property={} replay={}", check.id(), p.display());
    }
    if let Some((p, bad)) = violation {
        for d in bad.iter().take(8) {
            println!("  [{}] {}", d.class, d.msg);
        }
        println!("VIOLATION property={} replay={}", check.id(), p.display());
        return 1;
    }
    if !pinned.broken.is_empty() {
        return 1;
    }
    if let Some(e) = harness_err.or(pinned.err) {
        eprintln!("harness error: {}", e.0);
        return 2;
    }
    0
}

pub fn replay(check: &dyn Check, file: &Path, a: &Args) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("JSON");
    if v.get("case").is_none() {
        return match crate::pinned::one(&v, &mut Worker::new(&a.scratch, &a.bin, 0)) {
            Err(e) => {
                eprintln!("harness error: {}", e.0);
                2
            }
            Ok(crate::pinned::State::Holds) => {
                println!("holds");
                0
            }
            Ok(s) => {
                println!("{s:?}");
                println!("VIOLATION property={} replay={}", check.id(), file.display());
                1
            }
        };
    }
    let case: Case = serde_json::from_value(v["case"].clone()).expect("case");
    let mut w = Worker::new(&a.scratch, &a.bin, 0);
    match check.eval(&case, &mut w) {
        Err(e) => {
            eprintln!("harness error: {}", e.0);
            2
        }
        Ok(e) => {
            println!("{}", serde_json::to_string_pretty(&check.explain(&case, &mut w)).unwrap());
            for d in &e.bad {
                println!("  [{}] {}", d.class, d.msg);
            }
            if e.bad.is_empty() {
                println!("holds");
                0
            } else {
                println!("VIOLATION property={} replay={}", check.id(), file.display());
                1
            }
        }
    }
}
