//! Runs the real programs as child processes, in scratch directories of their own.
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Duration;

pub struct Worker {
    pub dir: PathBuf,
    pub bin: PathBuf,
    n: u64,
    pub runs: u64,
}

#[derive(Debug, Clone)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
    /// fed step by step, the first line that got no answer before the next was due
    pub late: Option<usize>,
}

/// how long a line may go unanswered while nothing more is sent
pub const ANSWER_S: i32 = 20;

/// trouble of the harness itself; never a verdict
#[derive(Debug, Clone)]
pub struct HarnessError(pub String);

pub const WATCHDOG_S: u64 = 60;

/// Set once a program has been seen not to end, given every chance: the run is going to report that,
/// and what else does not end (while the case is made smaller, say) need not be waited for as long.
static HUNG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn hung_before() -> bool {
    HUNG.load(std::sync::atomic::Ordering::Relaxed)
}
fn hung_now() {
    HUNG.store(true, std::sync::atomic::Ordering::Relaxed)
}

/// reads until a line has ended
fn answered(r: &mut std::process::ChildStdout, out: &mut Vec<u8>) -> bool {
    let end = std::time::Instant::now() + Duration::from_secs(if hung_before() { 4 } else { ANSWER_S as u64 });
    let mut buf = [0u8; 65536];
    loop {
        let left = end.saturating_duration_since(std::time::Instant::now()).as_millis() as i32;
        let mut p = libc::pollfd { fd: r.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut p, 1, left) };
        if n < 0 {
            continue;
        }
        if n == 0 {
            return false;
        }
        match r.read(&mut buf) {
            // ended: what is missing shows in the responses
            Ok(0) | Err(_) => return true,
            Ok(n) => {
                out.extend_from_slice(&buf[..n]);
                if buf[n - 1] == b'\n' {
                    return true;
                }
            }
        }
    }
}

impl Worker {
    pub fn new(base: &Path, bin: &Path, i: usize) -> Worker {
        let dir = base.join(format!("w{i}"));
        std::fs::create_dir_all(&dir).unwrap();
        Worker { dir, bin: bin.to_path_buf(), n: 0, runs: 0 }
    }

    /// a fresh directory for one case; names do not depend on the run
    pub fn fresh(&mut self) -> PathBuf {
        self.n += 1;
        let d = self.dir.join("case");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        d
    }

    pub fn cmd(&self, prog: &str) -> Command {
        let mut c = Command::new(self.bin.join(prog));
        c.env_clear().env("PATH", "/usr/bin:/bin").env("LC_ALL", "C.UTF-8").env("HOME", &self.dir);
        c
    }

    /// A program that does not end is given another chance; then it counts as having failed.
    pub fn run(&mut self, mut c: Command, stdin: &[u8]) -> Result<Out, HarnessError> {
        match self.once(&mut c, stdin, false)? {
            Some(o) => Ok(o),
            None => match if hung_before() { None } else { self.once(&mut c, stdin, false)? } {
                Some(o) => Ok(o),
                None => Ok({
                    hung_now();
                    Out { code: None, signal: Some(9), stdout: vec![], stderr: format!("no end within {WATCHDOG_S} s, twice"), late: None }
                }),
            },
        }
    }

    /// As `run`, but each line of the input is sent only once the one before is answered.
    pub fn converse(&mut self, mut c: Command, stdin: &[u8]) -> Result<Out, HarnessError> {
        for _ in 0..if hung_before() { 0 } else { 2 } {
            match self.once(&mut c, stdin, true)? {
                Some(o) if o.late.is_none() => return Ok(o),
                _ => {}
            }
        }
        let last = self.once(&mut c, stdin, true)?;
        if last.as_ref().is_none_or(|o| o.late.is_some()) {
            hung_now();
        }
        match last {
            Some(o) => Ok(o),
            None => Ok(Out { code: None, signal: Some(9), stdout: vec![], stderr: format!("no end within {WATCHDOG_S} s"), late: None }),
        }
    }

    fn once(&mut self, c: &mut Command, stdin: &[u8], steps: bool) -> Result<Option<Out>, HarnessError> {
        self.runs += 1;
        let errp = self.dir.join("stderr");
        let errf = std::fs::File::create(&errp).map_err(|e| HarnessError(e.to_string()))?;
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(errf);
        // (nothing is run between fork and exec, so that starting takes no time in proportion to this program's memory)
        let mut ch = c.spawn().map_err(|e| HarnessError(format!("spawn: {e}")))?;
        let pid = ch.id() as i32;
        // bounded, so that a runaway allocation is a failed child and no more
        let lim = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
        unsafe { libc::prlimit(pid, libc::RLIMIT_AS, &lim, std::ptr::null_mut()) };
        let mut w = ch.stdin.take().unwrap();
        let mut r = ch.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        let big = stdin.len() > 60_000;
        let mut out = vec![];
        let mut hung = false;
        let mut late = None;
        std::thread::scope(|s| {
            let wd = s.spawn(move || {
                if let Err(std::sync::mpsc::RecvTimeoutError::Timeout) = rx.recv_timeout(Duration::from_secs(if hung_before() { 8 } else { WATCHDOG_S })) {
                    unsafe { libc::kill(pid, libc::SIGKILL) };
                    return true;
                }
                false
            });
            if steps {
                for (k, l) in stdin.split_inclusive(|b| *b == b'\n').enumerate() {
                    if w.write_all(l).is_err() {
                        break;
                    }
                    // (the last line may lack its end: that is the end of the input)
                    if !l.ends_with(b"\n") {
                        break;
                    }
                    if late.is_none() && !answered(&mut r, &mut out) {
                        late = Some(k);
                    }
                }
                drop(w);
            } else if big {
                s.spawn(move || {
                    let _ = w.write_all(stdin);
                });
            } else {
                let _ = w.write_all(stdin);
                drop(w);
            }
            let _ = r.read_to_end(&mut out);
            // the child is not reaped until the watchdog is done with its pid
            unsafe {
                let mut info: libc::siginfo_t = std::mem::zeroed();
                libc::waitid(libc::P_PID, pid as u32, &mut info, libc::WEXITED | libc::WNOWAIT);
            }
            let _ = tx.send(());
            hung = wd.join().unwrap();
        });
        let st = ch.wait().map_err(|e| HarnessError(e.to_string()))?;
        if hung {
            return Ok(None);
        }
        let stderr = String::from_utf8_lossy(&std::fs::read(&errp).unwrap_or_default()).to_string();
        Ok(Some(Out { code: st.code(), signal: st.signal(), stdout: out, stderr, late }))
    }

    pub fn serve(&mut self, root: &Path, lines: &[Vec<u8>]) -> Result<Out, HarnessError> {
        let mut c = self.cmd("limabean-pod");
        c.arg("serve").arg(root);
        let mut input = vec![];
        for l in lines {
            input.extend_from_slice(l);
            input.push(b'\n');
        }
        self.run(c, &input)
    }
}
