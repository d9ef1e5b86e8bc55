mod ast;
mod clj;
mod compare;
mod gen;
mod genes;
mod invariants;
mod model;
mod pinned;
mod pod;
mod props;
mod runner;

use std::path::PathBuf;

/// signals as in an interactive session, whatever this was started from
fn reset_signals() {
    unsafe {
        for s in [libc::SIGINT, libc::SIGQUIT, libc::SIGTERM, libc::SIGHUP, libc::SIGALRM, libc::SIGUSR1, libc::SIGUSR2, libc::SIGCHLD] {
            libc::signal(s, libc::SIG_DFL);
        }
        let mut m: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut m);
        libc::sigprocmask(libc::SIG_SETMASK, &m, std::ptr::null_mut());
    }
}

fn main() {
    reset_signals();
    let mut args = std::env::args().skip(1);
    let cmd = args.next().unwrap_or_default();
    let id = args.next().unwrap_or_default();
    let mut a = runner::Args {
        tier: std::env::var("VERIF_TIER").unwrap_or("quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        verif: PathBuf::from("/verif"),
        bin: PathBuf::from("/repo/rust/target/debug"),
        scratch: std::env::temp_dir().join(format!("lbverif.{}", std::process::id())),
        cases: None,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8),
        stats: false,
    };
    let mut file = None;
    let mut rest: Vec<PathBuf> = vec![];
    while let Some(x) = args.next() {
        let mut val = || args.next().expect("value");
        match x.as_str() {
            "--tier" => a.tier = val(),
            "--seed" => a.seed = val().parse().expect("seed"),
            "--verif" => a.verif = val().into(),
            "--bin" => a.bin = val().into(),
            "--scratch" => a.scratch = val().into(),
            "--cases" => a.cases = Some(val().parse().expect("cases")),
            "--threads" => a.threads = val().parse().expect("threads"),
            "--stats" => a.stats = true,
            f => {
                rest.push(PathBuf::from(f));
                file = Some(PathBuf::from(f))
            }
        }
    }
    if a.tier != "thorough" {
        a.tier = "quick".into();
    }
    if cmd == "clj" {
        // (for looking into the interpreter: lbverif clj DIR EXPR...)
        let dir = PathBuf::from(id);
        let bin = a.bin.clone();
        let exprs: Vec<String> = rest.into_iter().map(|f| f.to_string_lossy().to_string()).collect();
        let t = std::thread::Builder::new().stack_size(1 << 30).spawn(move || clj::shell(bin, dir, &exprs)).expect("thread");
        std::process::exit(t.join().unwrap_or(101));
    }
    let checks = props::all();
    if cmd == "list" {
        for c in &checks {
            println!("{}", c.id());
        }
        return;
    }
    let Some(c) = checks.iter().find(|c| c.id() == id) else {
        eprintln!("usage: lbverif check|replay ID [options]");
        std::process::exit(2);
    };
    props::tools::stand_ins(&a.scratch).expect("scratch directory");
    let rc = match cmd.as_str() {
        "check" => runner::run(c.as_ref(), &a),
        "replay" => runner::replay(c.as_ref(), &file.expect("replay file"), &a),
        _ => 2,
    };
    let _ = std::fs::remove_dir_all(&a.scratch);
    std::process::exit(rc);
}
