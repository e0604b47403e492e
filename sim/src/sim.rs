//! The simulated machine one guest sees: file system calls with faults and chaos decided by the
//! scenario, randomness for hash keys, a step counter as clock, and the record of what happened.
use crate::rng::{fnv, mix, Rng};
use crate::vfs::{Found, Ino, Node, Vfs};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;

pub const VFD: i32 = 1_000_000;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FKind {
    Errno(i32),
    /// read fails once the position has reached this offset
    ReadErrAt(u64, i32),
    /// readdir fails after so many entries
    ReaddirErrAfter(u32, i32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    /// open, read, stat, realpath, opendir, readdir
    pub op: String,
    /// canonical path, or the literal one where it resolves to nothing
    pub path: String,
    pub kind: FKind,
    /// skip so many matching calls first
    #[serde(default)]
    pub skip: u32,
    /// fire so often, 0 for always
    #[serde(default)]
    pub times: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Chaos {
    pub seed: u64,
    pub hash_seed: u64,
    /// 0 as asked, 1 one byte each, 2 random up to read_max, 3 at most read_max
    pub read_mode: u8,
    pub read_max: usize,
    pub eintr_pct: u8,
    pub dtype_unknown: bool,
    /// 0 sorted, otherwise shuffled by this
    pub dir_order: u64,
    /// 0 true size, 1 zero, 2 smaller, 3 larger
    pub size_lie: u8,
    pub meta_seed: u64,
    /// 0 unlimited
    pub fd_limit: u32,
    /// 0 a steady clock, otherwise one which jumps, by this
    #[serde(default)]
    pub clock: u64,
    /// where memory is: 0 the system's choice, 1 rising addresses, 2 falling, otherwise scattered by this
    #[serde(default)]
    pub addr: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum When {
    Op(u64),
    /// just before the n-th call concerning this canonical path
    Touch(String, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Put(String, String),
    Remove(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Mutation {
    pub when: When,
    pub act: Act,
}

#[derive(Clone, Debug)]
pub struct OpenFile {
    data: Option<Arc<Vec<u8>>>, // None for a directory
    pos: u64,
    ino: Ino,
    path: String,
}

#[repr(C)]
pub struct VDir {
    pub magic: u64,
    pub fd: i32,
    pub ino: Ino,
    pub path: String,
    pub entries: Vec<(Vec<u8>, Ino, u8)>,
    pub pos: usize,
    pub ent: libc::dirent64,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Record {
    pub ops: u64,
    pub log_hash: u64,
    pub by_op: BTreeMap<String, u64>,
    pub fired: BTreeMap<String, u64>,
    /// successful opens per canonical path
    pub opens: BTreeMap<String, u32>,
    pub bytes_read: BTreeMap<String, u64>,
    pub opendirs: BTreeSet<String>,
    pub alarms: Vec<String>,
    pub leaked: Vec<String>,
    pub max_open: u32,
    pub trace: Vec<String>,
    pub mutations_done: u32,
}

pub struct Sim {
    pub vfs: Vfs,
    pub faults: Vec<(Fault, u32, u32)>, // seen, fired
    pub chaos: Chaos,
    pub mutations: Vec<(Mutation, bool)>,
    touches: BTreeMap<String, u32>,
    rng: Rng,
    hash_rng: Rng,
    pub rec: Record,
    files: BTreeMap<i32, OpenFile>,
    dirs: BTreeMap<usize, (i32, String)>,
    eintr_run: u32,
    clock_n: u64,
    mono: u64,
    real: i64,
    /// from here on any file system call is an alarm
    pub sealed: bool,
    pub max_ops: u64,
    pub trace_on: bool,
}

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static mut SIM: Option<Sim> = None;
pub static OPS: AtomicU64 = AtomicU64::new(0);

pub const UNKNOWN: u8 = 0;
pub const HOST: u8 = 1;
pub const GUEST: u8 = 2;

thread_local! {
    static MODE: Cell<u8> = const { Cell::new(UNKNOWN) };
}

pub fn mode() -> u8 {
    MODE.try_with(|m| m.get()).unwrap_or(HOST)
}

pub fn set_mode(m: u8) -> u8 {
    MODE.try_with(|c| c.replace(m)).unwrap_or(HOST)
}

pub fn is_guest() -> bool {
    ACTIVE.load(Ordering::Relaxed) && mode() != HOST
}

struct ModeGuard(u8);
impl Drop for ModeGuard {
    fn drop(&mut self) {
        set_mode(self.0);
    }
}

/// run harness code: no interposition, no scheduling
pub fn host<T>(f: impl FnOnce() -> T) -> T {
    let _g = ModeGuard(set_mode(HOST));
    f()
}

/// run library code
pub fn guest<T>(f: impl FnOnce() -> T) -> T {
    let _g = ModeGuard(set_mode(GUEST));
    f()
}

pub fn with_sim<T>(f: impl FnOnce(&mut Sim) -> T) -> T {
    host(|| {
        let mut spins = 0u32;
        while LOCK.compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            spins += 1;
            if spins > 1000 {
                unsafe { crate::interpose::raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) };
            }
            std::hint::spin_loop();
        }
        struct Unlock;
        impl Drop for Unlock {
            fn drop(&mut self) {
                LOCK.store(false, Ordering::Release);
            }
        }
        let _u = Unlock;
        let sim = unsafe { (*std::ptr::addr_of_mut!(SIM)).as_mut().expect("no simulation active") };
        f(sim)
    })
}

pub fn start(vfs: Vfs, faults: Vec<Fault>, chaos: Chaos, mutations: Vec<Mutation>) {
    let real = if chaos.clock == 0 { 1_700_000_000_000_000_000 } else { (mix(chaos.clock) % 4_000_000_000) as i64 * 1_000_000_000 };
    crate::alloc::place(chaos.addr);
    let sim = Sim {
        vfs,
        faults: faults.into_iter().map(|f| (f, 0, 0)).collect(),
        rng: Rng::new(chaos.seed),
        hash_rng: Rng::new(chaos.hash_seed ^ 0x68617368),
        chaos,
        mutations: mutations.into_iter().map(|m| (m, false)).collect(),
        touches: BTreeMap::new(),
        rec: Record::default(),
        files: BTreeMap::new(),
        dirs: BTreeMap::new(),
        eintr_run: 0,
        clock_n: 0,
        mono: 1_000_000_000_000,
        real,
        sealed: false,
        max_ops: 5_000_000,
        trace_on: false,
    };
    unsafe { *std::ptr::addr_of_mut!(SIM) = Some(sim) };
    ACTIVE.store(true, Ordering::SeqCst);
}

/// the next world, in the same process; keeps nothing
pub fn stop() -> Record {
    let mut rec = with_sim(|s| {
        let mut rec = std::mem::take(&mut s.rec);
        rec.leaked = s
            .files
            .values()
            .map(|f| f.path.clone())
            .chain(s.dirs.values().map(|(_, p)| p.clone()))
            .collect();
        rec
    });
    rec.leaked.sort();
    ACTIVE.store(false, Ordering::SeqCst);
    crate::alloc::place(0);
    rec
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

impl Sim {
    fn event(&mut self, op: &str, path: &str, res: &str) {
        self.rec.log_hash = mix(self.rec.log_hash ^ fnv(op.as_bytes()) ^ fnv(path.as_bytes()).rotate_left(17) ^ fnv(res.as_bytes()).rotate_left(31));
        if self.trace_on && self.rec.trace.len() < 400 {
            self.rec.trace.push(format!("{} {} -> {}", op, path, res));
        }
    }

    pub fn alarm(&mut self, s: String) {
        if self.rec.alarms.len() < 20 {
            self.rec.alarms.push(s);
        }
    }

    /// a step of the clock, and whatever the scenario does to the world at this point
    fn tick(&mut self, op: &str, path: &str) -> Result<(), i32> {
        self.rec.ops += 1;
        OPS.store(self.rec.ops, Ordering::Relaxed);
        *self.rec.by_op.entry(op.to_string()).or_insert(0) += 1;
        if self.sealed {
            self.alarm(format!("file system call after loading: {} {}", op, path));
            return Err(libc::EIO);
        }
        if self.rec.ops > self.max_ops {
            self.alarm(format!("more than {} file system calls", self.max_ops));
            // nothing else stops a guest that never ends
            unsafe { libc::_exit(77) };
        }
        if !self.mutations.is_empty() {
            let t = self.touches.entry(path.to_string()).or_insert(0);
            *t += 1;
            let t = *t;
            let now = self.rec.ops;
            for i in 0..self.mutations.len() {
                if self.mutations[i].1 {
                    continue;
                }
                let due = match &self.mutations[i].0.when {
                    When::Op(n) => *n <= now,
                    When::Touch(p, n) => p == path && *n == t,
                };
                if due {
                    self.mutations[i].1 = true;
                    self.rec.mutations_done += 1;
                    let act = self.mutations[i].0.act.clone();
                    match &act {
                        Act::Put(p, s) => self.vfs.put_file(p, s.clone().into_bytes()),
                        Act::Remove(p) => self.vfs.remove(p),
                    }
                    *self.rec.fired.entry("replace-during-load".into()).or_insert(0) += 1;
                    self.event("mutate", &format!("{:?}", self.mutations[i].0.when), "");
                }
            }
        }
        Ok(())
    }

    fn canon(&self, path: &[u8], follow: bool) -> String {
        match self.vfs.resolve(path, follow) {
            Ok(f) => lossy(&f.canon),
            Err(_) => lossy(path),
        }
    }

    fn fire(&mut self, op: &str, path: &str) -> Option<FKind> {
        for (f, seen, fired) in self.faults.iter_mut() {
            if f.op == op && f.path == path {
                match f.kind {
                    FKind::Errno(_) => {
                        *seen += 1;
                        if *seen > f.skip && (f.times == 0 || *fired < f.times) {
                            *fired += 1;
                            let k = f.kind.clone();
                            let label = format!("{}:{}", op, errname(&k));
                            *self.rec.fired.entry(label).or_insert(0) += 1;
                            return Some(k);
                        }
                    }
                    _ => return Some(f.kind.clone()),
                }
            }
        }
        None
    }

    fn fire_errno(&mut self, op: &str, path: &str) -> Result<(), i32> {
        match self.fire(op, path) {
            Some(FKind::Errno(e)) => {
                self.event(op, path, &format!("fault {}", e));
                Err(e)
            }
            _ => Ok(()),
        }
    }

    fn eintr(&mut self, what: &str) -> bool {
        if self.chaos.eintr_pct > 0 && self.eintr_run < 4 && self.rng.chance(self.chaos.eintr_pct as usize) {
            self.eintr_run += 1;
            *self.rec.fired.entry(format!("{}:EINTR", what)).or_insert(0) += 1;
            true
        } else {
            self.eintr_run = 0;
            false
        }
    }

    fn new_fd(&self) -> i32 {
        let mut fd = VFD;
        loop {
            if !self.files.contains_key(&fd) && !self.dirs.values().any(|(d, _)| *d == fd) {
                return fd;
            }
            fd += 1;
        }
    }

    fn open_count(&self) -> usize {
        self.files.len() + self.dirs.len()
    }

    fn check_fd_limit(&mut self) -> Result<(), i32> {
        if self.chaos.fd_limit > 0 && self.open_count() >= self.chaos.fd_limit as usize {
            *self.rec.fired.entry("fd-limit".into()).or_insert(0) += 1;
            return Err(libc::EMFILE);
        }
        Ok(())
    }

    pub fn open(&mut self, path: &[u8], flags: i32) -> Result<i32, i32> {
        let follow = flags & libc::O_NOFOLLOW == 0;
        let canon = self.canon(path, follow);
        let r = self.open_(path, flags, follow, &canon);
        let s = match &r {
            Ok(fd) => format!("fd {}", fd - VFD),
            Err(e) => format!("errno {}", e),
        };
        self.event("open", &canon, &s);
        r
    }

    fn open_(&mut self, path: &[u8], flags: i32, follow: bool, canon: &str) -> Result<i32, i32> {
        self.tick("open", canon)?;
        if flags & libc::O_ACCMODE != libc::O_RDONLY
            || flags & (libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0
            || flags & libc::O_TMPFILE == libc::O_TMPFILE
        {
            self.alarm(format!("open for writing or creation: {} flags {:#o}", canon, flags));
            return Err(libc::EROFS);
        }
        if self.eintr("open") {
            return Err(libc::EINTR);
        }
        self.fire_errno("open", canon)?;
        self.check_fd_limit()?;
        let f = self.vfs.resolve(path, follow)?;
        let data = match &self.vfs.nodes[f.ino] {
            Node::File(d) => Some(d.clone()),
            Node::Dir(..) => None,
            Node::Link(_) => return Err(libc::ELOOP),
        };
        if data.is_some() && flags & libc::O_DIRECTORY != 0 {
            return Err(libc::ENOTDIR);
        }
        let fd = self.new_fd();
        *self.rec.opens.entry(canon.to_string()).or_insert(0) += 1;
        self.files.insert(fd, OpenFile { data, pos: 0, ino: f.ino, path: canon.to_string() });
        self.rec.max_open = self.rec.max_open.max(self.open_count() as u32);
        Ok(fd)
    }

    pub fn read(&mut self, fd: i32, want: usize, at: Option<u64>) -> Result<Vec<u8>, i32> {
        let Some(of) = self.files.get(&fd).cloned() else {
            return Err(libc::EBADF);
        };
        let r = self.read_(fd, &of, want, at);
        let s = match &r {
            Ok(d) => format!("{}", d.len()),
            Err(e) => format!("errno {}", e),
        };
        self.event("read", &of.path, &s);
        r
    }

    fn read_(&mut self, fd: i32, of: &OpenFile, want: usize, at: Option<u64>) -> Result<Vec<u8>, i32> {
        self.tick("read", &of.path)?;
        if self.eintr("read") {
            return Err(libc::EINTR);
        }
        let Some(data) = &of.data else {
            return Err(libc::EISDIR);
        };
        let pos = at.unwrap_or(of.pos);
        let mut limit = data.len() as u64;
        match self.fire("read", &of.path) {
            Some(FKind::Errno(e)) => return Err(e),
            Some(FKind::ReadErrAt(off, e)) => {
                if pos >= off {
                    *self.rec.fired.entry(format!("read:{}", errname(&FKind::Errno(e)))).or_insert(0) += 1;
                    return Err(e);
                }
                limit = limit.min(off);
            }
            _ => {}
        }
        if pos >= limit || want == 0 {
            return Ok(Vec::new());
        }
        let avail = (limit - pos) as usize;
        let mut n = want.min(avail);
        let full = n;
        match self.chaos.read_mode {
            1 => n = 1,
            2 => n = n.min(self.rng.range(1, self.chaos.read_max.max(1))),
            3 => n = n.min(self.chaos.read_max.max(1)),
            _ => {}
        }
        if n < full {
            *self.rec.fired.entry("read:short".into()).or_insert(0) += 1;
        }
        let out = data[pos as usize..pos as usize + n].to_vec();
        if at.is_none() {
            self.files.get_mut(&fd).unwrap().pos = pos + n as u64;
        }
        *self.rec.bytes_read.entry(of.path.clone()).or_insert(0) += n as u64;
        Ok(out)
    }

    pub fn lseek(&mut self, fd: i32, off: i64, whence: i32) -> Result<i64, i32> {
        let size = {
            let Some(of) = self.files.get(&fd) else { return Err(libc::EBADF) };
            of.data.as_ref().map(|d| d.len()).unwrap_or(0) as i64
        };
        let path = self.files[&fd].path.clone();
        self.tick("lseek", &path)?;
        let of = self.files.get_mut(&fd).unwrap();
        let new = match whence {
            libc::SEEK_SET => off,
            libc::SEEK_CUR => of.pos as i64 + off,
            libc::SEEK_END => size + off,
            _ => return Err(libc::EINVAL),
        };
        if new < 0 {
            return Err(libc::EINVAL);
        }
        of.pos = new as u64;
        Ok(new)
    }

    pub fn is_vfd(&self, fd: i32) -> bool {
        self.files.contains_key(&fd) || self.dirs.values().any(|(d, _)| *d == fd)
    }

    pub fn close(&mut self, fd: i32) -> Result<(), i32> {
        match self.files.remove(&fd) {
            Some(of) => {
                self.event("close", &of.path, "");
                Ok(())
            }
            None => {
                self.alarm(format!("close of a descriptor that is not open: {}", fd));
                Err(libc::EBADF)
            }
        }
    }

    fn stat_of(&self, ino: Ino, size_lie: bool) -> Stat {
        let (kind, perm, mut size) = match &self.vfs.nodes[ino] {
            Node::File(d) => (libc::S_IFREG, 0o644, d.len() as i64),
            Node::Dir(..) => (libc::S_IFDIR, 0o755, 4096),
            Node::Link(t) => (libc::S_IFLNK, 0o777, t.len() as i64),
        };
        if kind == libc::S_IFREG && size_lie {
            let h = mix(self.chaos.meta_seed ^ ino as u64);
            size = match self.chaos.size_lie {
                1 => 0,
                2 => (h % (size as u64 + 1)) as i64,
                3 => size + (h % 10_000) as i64,
                _ => size,
            };
        }
        let h = mix(self.chaos.meta_seed ^ 77 ^ ((ino as u64) << 20));
        Stat { mode: kind | perm, size, ino: ino as u64 + 1000, mtime: 1_500_000_000 + (h % 200_000_000) as i64 }
    }

    pub fn fstat(&mut self, fd: i32) -> Result<Stat, i32> {
        let (ino, path, data) = match self.files.get(&fd) {
            Some(of) => (of.ino, of.path.clone(), of.data.clone()),
            None => match self.dirs.values().find(|(d, _)| *d == fd) {
                Some((_, p)) => {
                    let p = p.clone();
                    let f = self.vfs.resolve(p.as_bytes(), true)?;
                    (f.ino, p, None)
                }
                None => return Err(libc::EBADF),
            },
        };
        self.tick("fstat", &path)?;
        let _ = data;
        if self.chaos.size_lie != 0 {
            *self.rec.fired.entry("size-misreported".into()).or_insert(0) += 1;
        }
        Ok(self.stat_of(ino, true))
    }

    pub fn stat(&mut self, base: Option<i32>, path: &[u8], follow: bool) -> Result<Stat, i32> {
        let full = self.at_path(base, path)?;
        let canon = self.canon(&full, follow);
        let r = self.stat_(&full, follow, &canon);
        let s = match &r {
            Ok(st) => format!("{:o} {}", st.mode, st.size),
            Err(e) => format!("errno {}", e),
        };
        self.event(if follow { "stat" } else { "lstat" }, &canon, &s);
        r
    }

    fn stat_(&mut self, full: &[u8], follow: bool, canon: &str) -> Result<Stat, i32> {
        self.tick("stat", canon)?;
        self.fire_errno("stat", canon)?;
        let f = self.vfs.resolve(full, follow)?;
        Ok(self.stat_of(f.ino, true))
    }

    fn at_path(&self, base: Option<i32>, path: &[u8]) -> Result<Vec<u8>, i32> {
        match base {
            Some(fd) if path.first() != Some(&b'/') => match self.dirs.values().find(|(d, _)| *d == fd) {
                Some((_, p)) => {
                    let mut v = p.clone().into_bytes();
                    v.push(b'/');
                    v.extend_from_slice(path);
                    Ok(v)
                }
                None => match self.files.get(&fd) {
                    Some(of) if of.data.is_none() => {
                        let mut v = of.path.clone().into_bytes();
                        v.push(b'/');
                        v.extend_from_slice(path);
                        Ok(v)
                    }
                    _ => Err(libc::EBADF),
                },
            },
            _ => Ok(path.to_vec()),
        }
    }

    pub fn openat(&mut self, base: i32, path: &[u8], flags: i32) -> Result<i32, i32> {
        let full = self.at_path(Some(base), path)?;
        self.open(&full, flags)
    }

    pub fn realpath(&mut self, path: &[u8]) -> Result<Vec<u8>, i32> {
        let canon = self.canon(path, true);
        let r = (|| {
            self.tick("realpath", &canon)?;
            self.fire_errno("realpath", &canon)?;
            let Found { canon, .. } = self.vfs.resolve(path, true)?;
            Ok(canon)
        })();
        let s = match &r {
            Ok(_) => "ok".to_string(),
            Err(e) => format!("errno {}", e),
        };
        self.event("realpath", &canon, &s);
        r
    }

    pub fn readlink(&mut self, path: &[u8]) -> Result<Vec<u8>, i32> {
        let canon = self.canon(path, false);
        self.tick("readlink", &canon)?;
        let f = self.vfs.resolve(path, false)?;
        match &self.vfs.nodes[f.ino] {
            Node::Link(t) => Ok(t.clone()),
            _ => Err(libc::EINVAL),
        }
    }

    pub fn getcwd(&mut self) -> Result<Vec<u8>, i32> {
        self.tick("getcwd", "")?;
        Ok(self.vfs.canon_of(self.vfs.cwd))
    }

    pub fn chdir(&mut self, path: &[u8]) -> Result<(), i32> {
        let canon = self.canon(path, true);
        self.tick("chdir", &canon)?;
        let f = self.vfs.resolve(path, true)?;
        if !self.vfs.is_dir(f.ino) {
            return Err(libc::ENOTDIR);
        }
        self.vfs.cwd = f.ino;
        self.event("chdir", &canon, "");
        Ok(())
    }

    pub fn opendir(&mut self, path: &[u8]) -> Result<Box<VDir>, i32> {
        let canon = self.canon(path, true);
        let r = self.opendir_(path, &canon);
        let s = match &r {
            Ok(_) => "ok".to_string(),
            Err(e) => format!("errno {}", e),
        };
        self.event("opendir", &canon, &s);
        r
    }

    fn opendir_(&mut self, path: &[u8], canon: &str) -> Result<Box<VDir>, i32> {
        self.tick("opendir", canon)?;
        self.fire_errno("opendir", canon)?;
        self.check_fd_limit()?;
        let f = self.vfs.resolve(path, true)?;
        let Node::Dir(e, _) = &self.vfs.nodes[f.ino] else {
            return Err(libc::ENOTDIR);
        };
        let mut entries: Vec<(Vec<u8>, Ino, u8)> = vec![(b".".to_vec(), f.ino, libc::DT_DIR), (b"..".to_vec(), f.ino, libc::DT_DIR)];
        for (n, i) in e {
            let t = match &self.vfs.nodes[*i] {
                Node::File(_) => libc::DT_REG,
                Node::Dir(..) => libc::DT_DIR,
                Node::Link(_) => libc::DT_LNK,
            };
            entries.push((n.clone(), *i, t));
        }
        if self.chaos.dir_order != 0 {
            let mut r = Rng::new(self.chaos.dir_order ^ fnv(canon.as_bytes()));
            r.shuffle(&mut entries);
            *self.rec.fired.entry("readdir-order".into()).or_insert(0) += 1;
        }
        if self.chaos.dtype_unknown {
            for e in entries.iter_mut() {
                e.2 = libc::DT_UNKNOWN;
            }
            *self.rec.fired.entry("dtype-unknown".into()).or_insert(0) += 1;
        }
        let fd = self.new_fd();
        let d = Box::new(VDir {
            magic: 0x7664_6972,
            fd,
            ino: f.ino,
            path: canon.to_string(),
            entries,
            pos: 0,
            ent: unsafe { std::mem::zeroed() },
        });
        self.rec.opendirs.insert(canon.to_string());
        self.dirs.insert(&*d as *const VDir as usize, (fd, canon.to_string()));
        self.rec.max_open = self.rec.max_open.max(self.open_count() as u32);
        Ok(d)
    }

    pub fn is_vdir(&self, p: usize) -> bool {
        self.dirs.contains_key(&p)
    }

    /// fills the entry, true if there is one
    pub fn readdir(&mut self, d: &mut VDir) -> Result<bool, i32> {
        let path = d.path.clone();
        self.tick("readdir", &path)?;
        match self.fire("readdir", &path) {
            Some(FKind::Errno(e)) => return Err(e),
            Some(FKind::ReaddirErrAfter(n, e)) => {
                if d.pos >= n as usize {
                    *self.rec.fired.entry(format!("readdir:{}", errname(&FKind::Errno(e)))).or_insert(0) += 1;
                    self.event("readdir", &path, "fault");
                    return Err(e);
                }
            }
            _ => {}
        }
        if d.pos >= d.entries.len() {
            return Ok(false);
        }
        let (name, ino, t) = &d.entries[d.pos];
        d.pos += 1;
        d.ent.d_ino = *ino as u64 + 1000;
        d.ent.d_off = d.pos as i64;
        d.ent.d_type = *t;
        let n = name.len().min(255);
        for (i, b) in name[..n].iter().enumerate() {
            d.ent.d_name[i] = *b as _;
        }
        d.ent.d_name[n] = 0;
        d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        let name = lossy(name);
        self.event("readdir", &path, &name);
        Ok(true)
    }

    pub fn closedir(&mut self, p: usize) -> Result<(), i32> {
        match self.dirs.remove(&p) {
            Some((_, path)) => {
                self.event("closedir", &path, "");
                Ok(())
            }
            None => Err(libc::EBADF),
        }
    }

    pub fn refuse(&mut self, what: &str, path: &[u8]) -> i32 {
        let p = lossy(path);
        self.event(what, &p, "refused");
        self.alarm(format!("{} of {}", what, p));
        libc::EROFS
    }

    pub fn random(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n);
        while out.len() < n {
            out.extend_from_slice(&self.hash_rng.next().to_le_bytes());
        }
        out.truncate(n);
        *self.rec.fired.entry("hash-keys".into()).or_insert(0) += 1;
        out
    }

    /// nanoseconds on a clock of the simulated machine
    pub fn now(&mut self, realtime: bool) -> i64 {
        self.clock_n += 1;
        let mut step = 1000u64;
        if self.chaos.clock != 0 {
            let x = mix(self.chaos.clock ^ self.clock_n.wrapping_mul(0x9e37_79b9));
            let how = x % 100;
            let y = x >> 8;
            if how < 15 {
                step = 0;
            } else if how < 30 {
                step = y % 7_200_000_000_000;
                *self.rec.fired.entry("clock:jump-forward".into()).or_insert(0) += 1;
            } else if how < 50 && realtime {
                // set back
                self.real -= (y % 200_000_000_000_000) as i64;
                *self.rec.fired.entry("clock:jump-backward".into()).or_insert(0) += 1;
            } else {
                step = y % 1_000_000;
            }
        }
        self.mono += step;
        self.real += step as i64;
        if realtime {
            self.real.max(0)
        } else {
            self.mono as i64
        }
    }

    pub fn trace(&self) -> Vec<String> {
        self.rec.trace.clone()
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Stat {
    pub mode: u32,
    pub size: i64,
    pub ino: u64,
    pub mtime: i64,
}

pub fn errname(k: &FKind) -> String {
    let e = match k {
        FKind::Errno(e) | FKind::ReadErrAt(_, e) | FKind::ReaddirErrAfter(_, e) => *e,
    };
    match e {
        libc::EACCES => "EACCES".into(),
        libc::EPERM => "EPERM".into(),
        libc::EIO => "EIO".into(),
        libc::ENOENT => "ENOENT".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::ENFILE => "ENFILE".into(),
        libc::ENOMEM => "ENOMEM".into(),
        libc::ESTALE => "ESTALE".into(),
        libc::EISDIR => "EISDIR".into(),
        libc::ELOOP => "ELOOP".into(),
        libc::ETIMEDOUT => "ETIMEDOUT".into(),
        libc::ENXIO => "ENXIO".into(),
        libc::ENODEV => "ENODEV".into(),
        libc::EOVERFLOW => "EOVERFLOW".into(),
        libc::EAGAIN => "EAGAIN".into(),
        libc::ENOTDIR => "ENOTDIR".into(),
        _ => format!("errno{}", e),
    }
}
