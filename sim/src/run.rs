//! Executing the library inside the simulated machine, and forked helper processes.
use crate::alloc;
use crate::obs::{self, Obs};
use crate::scen::*;
use crate::sim::{self, Chaos, Fault, Mutation, Record};
use beancount_parser_lima::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;
use std::sync::Mutex;

pub const STACK: usize = 8 << 20;

pub static PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        sim::host(|| {
            let s = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if let Ok(mut g) = PANIC.lock() {
                g.get_or_insert(format!("{} at {}", s, at));
            }
        })
    }));
}

pub fn take_panic() -> String {
    PANIC.lock().ok().and_then(|mut g| g.take()).unwrap_or("?".into())
}

/// what a run did, added up over its parts
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub execs: u64,
    pub ops: u64,
    pub allocs: u64,
    pub points: u64,
    pub switches: u64,
    pub blocks: u64,
    pub fired: BTreeMap<String, u64>,
    pub by_op: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    pub counts: BTreeMap<String, u64>,
    pub nontrivial: bool,
    /// digest of all observations, to show that a seed is one execution
    pub digest: u64,
}

impl Stats {
    pub fn add(&mut self, r: &Record) {
        self.execs += 1;
        self.ops += r.ops;
        for (k, v) in &r.fired {
            *self.fired.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.by_op {
            *self.by_op.entry(k.clone()).or_insert(0) += v;
        }
        if self.hashes.len() < 64 {
            self.hashes.push(r.log_hash);
        }
        self.digest = crate::rng::mix(self.digest ^ r.log_hash);
    }
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn count_n(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn fault(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.fired.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn see(&mut self, x: u64) {
        self.digest = crate::rng::mix(self.digest ^ x);
    }
    pub fn merge(&mut self, o: &Stats) {
        self.execs += o.execs;
        self.ops += o.ops;
        self.allocs += o.allocs;
        self.points += o.points;
        self.switches += o.switches;
        self.blocks += o.blocks;
        for (k, v) in &o.fired {
            *self.fired.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.by_op {
            *self.by_op.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.counts {
            *self.counts.entry(k.clone()).or_insert(0) += v;
        }
        self.hashes.extend(&o.hashes);
        self.nontrivial |= o.nontrivial;
        self.digest = crate::rng::mix(self.digest ^ o.digest);
    }
}

pub struct Ran<T> {
    pub val: Result<T, String>,
    pub rec: Record,
    pub allocs: u64,
    pub peak: i64,
    pub trace: Vec<String>,
}

impl<T> Ran<T> {
    /// a panic is a violation
    pub fn ok(self, what: &str) -> Result<(T, Record), String> {
        match self.val {
            Ok(v) => Ok((v, self.rec)),
            Err(e) => Err(format!("panic: {} panicked: {}", what, e)),
        }
    }
}

pub static TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// run library code in a simulated world, on a fresh thread with the ordinary stack
pub fn simulate_vfs<T: Send>(vfs: crate::vfs::Vfs, faults: &[Fault], chaos: &Chaos, muts: &[Mutation], st: &mut Stats, f: impl FnOnce() -> T + Send) -> Ran<T> {
    let out: Mutex<Option<Ran<T>>> = Mutex::new(None);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                sim::set_mode(sim::HOST);
                alloc::ALLOCS.store(0, Ordering::SeqCst);
                alloc::LIVE.store(0, Ordering::SeqCst);
                alloc::PEAK.store(0, Ordering::SeqCst);
                sim::start(vfs, faults.to_vec(), chaos.clone(), muts.to_vec());
                sim::with_sim(|s| s.trace_on = TRACE.load(Ordering::Relaxed));
                let val = sim::guest(|| {
                    // the keys for hashing come from the simulated machine
                    drop(std::collections::hash_map::RandomState::new());
                    catch_unwind(AssertUnwindSafe(f))
                });
                let trace = sim::with_sim(|s| s.trace());
                let rec = sim::stop();
                let val = val.map_err(|_| take_panic());
                *out.lock().unwrap() = Some(Ran { val, rec, allocs: alloc::ALLOCS.load(Ordering::SeqCst), peak: alloc::PEAK.load(Ordering::SeqCst), trace });
            })
            .unwrap();
    });
    let r = out.into_inner().unwrap().expect("simulation thread gave no result");
    st.add(&r.rec);
    st.allocs += r.allocs;
    if TRACE.load(Ordering::Relaxed) {
        for l in &r.trace {
            eprintln!("  trace {}", l);
        }
        eprintln!("  -- end of simulated execution: {} calls, {} allocations", r.rec.ops, r.allocs);
    }
    r
}

pub fn simulate<T: Send>(w: &World, faults: &[Fault], chaos: &Chaos, muts: &[Mutation], st: &mut Stats, f: impl FnOnce() -> T + Send) -> Ran<T> {
    simulate_vfs(w.vfs(), faults, chaos, muts, st, f)
}

pub fn load(w: &World) -> std::io::Result<BeancountSources> {
    if w.inline {
        let t = w.files[0].text();
        Ok(if t.len() % 2 == 0 { BeancountSources::from(t) } else { BeancountSources::from(t.as_str()) })
    } else if w.root.len() % 2 == 0 {
        BeancountSources::try_from(PathBuf::from(&w.root))
    } else {
        BeancountSources::try_from(Path::new(&w.root))
    }
}

pub fn load_and_parse(w: &World) -> Obs {
    match load(w) {
        Err(e) => obs::load_error(&e),
        Ok(s) => {
            let p = BeancountParser::new(&s);
            obs::parse(&s, &p)
        }
    }
}

/// one complete run: load, parse, resolve and report everything
pub fn observe(w: &World, faults: &[Fault], chaos: &Chaos, st: &mut Stats) -> Result<(Obs, Record), String> {
    let (o, r) = simulate(w, faults, chaos, &[], st, || load_and_parse(w)).ok("load and parse")?;
    st.see(o.digest());
    Ok((o, r))
}

/// how a forked process ended without an answer
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Timeout,
    Garbage,
}

impl End {
    pub fn say(&self) -> String {
        match self {
            End::Exit(77) => "unbounded: file system calls without end".into(),
            End::Exit(78) => "unbounded: more allocations than the budget for this input".into(),
            End::Exit(79) => "unbounded: more memory than the budget for this input".into(),
            End::Exit(80) => "deadlock: no thread can make progress".into(),
            End::Exit(n) => format!("abort: the process ended with status {}", n),
            End::Signal(libc::SIGXCPU) => "unbounded: did not finish within the CPU budget".into(),
            End::Signal(libc::SIGSEGV) => "abort: stack overflow or memory fault (SIGSEGV)".into(),
            End::Signal(libc::SIGABRT) => "abort: aborted (SIGABRT: stack overflow, allocation failure or double panic)".into(),
            End::Signal(n) => format!("abort: killed by signal {}", n),
            End::Timeout => "deadlock: did not finish".into(),
            End::Garbage => "harness: no answer from the simulated process".into(),
        }
    }
}

pub struct Child {
    pid: i32,
    fd: i32,
}

/// start f in a forked child process
pub fn spawn<T: Serialize>(cpu_s: u64, f: impl FnOnce() -> T) -> Option<Child> {
    sim::host(|| unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return None;
        }
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fds[0]);
            libc::close(fds[1]);
            return None;
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::setpgid(0, 0);
            let lim = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if !TRACE.load(Ordering::Relaxed) {
                let n = crate::interpose::raw_syscall(libc::SYS_openat, libc::AT_FDCWD as usize, c"/dev/null".as_ptr() as usize, libc::O_WRONLY as usize, 0, 0, 0);
                if n >= 0 {
                    libc::dup2(n as i32, 2);
                }
            }
            sim::set_mode(sim::HOST);
            // nothing may unwind into the parent's code
            let Ok(v) = catch_unwind(AssertUnwindSafe(f)) else { libc::_exit(99) };
            let s = serde_json::to_vec(&v).unwrap();
            let mut file = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[1]);
            let _ = file.write_all(&s);
            let _ = file.write_all(b"\n#end");
            drop(file);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        Some(Child { pid, fd: fds[0] })
    })
}

pub fn collect<T: DeserializeOwned>(c: Option<Child>, wall_s: u64) -> Result<T, End> {
    let Some(Child { pid, fd }) = c else { return Err(End::Garbage) };
    sim::host(|| unsafe {
        let mut file = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd);
        let mut buf = Vec::new();
        let t0 = std::time::Instant::now();
        let mut timed_out = false;
        loop {
            let left = wall_s as i64 * 1000 - t0.elapsed().as_millis() as i64;
            if left <= 0 {
                timed_out = true;
                break;
            }
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            let n = libc::poll(&mut p, 1, left.min(1000) as i32);
            if n < 0 {
                continue;
            }
            if n > 0 {
                let mut chunk = [0u8; 65536];
                match file.read(&mut chunk) {
                    Ok(0) => break,
                    Ok(k) => buf.extend_from_slice(&chunk[..k]),
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    Err(_) => break,
                }
            }
        }
        drop(file);
        if timed_out {
            libc::kill(-pid, libc::SIGKILL);
            libc::kill(pid, libc::SIGKILL);
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if timed_out {
            return Err(End::Timeout);
        }
        if buf.ends_with(b"\n#end") {
            return serde_json::from_slice(&buf[..buf.len() - 5]).map_err(|_| End::Garbage);
        }
        if libc::WIFSIGNALED(status) {
            Err(End::Signal(libc::WTERMSIG(status)))
        } else {
            Err(End::Exit(libc::WEXITSTATUS(status)))
        }
    })
}

/// run in a forked child process and bring back its answer
pub fn forked<T: Serialize + DeserializeOwned>(cpu_s: u64, wall_s: u64, f: impl FnOnce() -> T) -> Result<T, End> {
    collect(spawn(cpu_s, f), wall_s)
}

/// the observation of a process which has done nothing else
pub fn pristine(w: &World, faults: &[Fault], chaos: &Chaos, st: &mut Stats) -> Result<Obs, String> {
    let r: Result<(Result<Obs, String>, Stats), End> = forked(60, 200, || {
        let mut st = Stats::default();
        let r = observe(w, faults, chaos, &mut st).map(|x| x.0);
        (r, st)
    });
    match r {
        Ok((r, s)) => {
            st.merge(&s);
            r
        }
        Err(e) => Err(e.say()),
    }
}
