//! The checks: for each property, how a seed becomes a scenario, and how a scenario is decided.
use crate::gen::*;
use crate::model::*;
use crate::obs::{self, Obs, Resolve};
use crate::obs::{OErr, OSpan};
use crate::oracle::*;
use crate::rng::Rng;
use crate::run::*;
use crate::scen::*;
use crate::sim::{self, Act, Chaos, FKind, Fault, Mutation, Record, When};
use beancount_parser_lima::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, Write};

pub type Verdict = Result<(), String>;

pub const ERRNOS: &[i32] = &[
    libc::EACCES,
    libc::EPERM,
    libc::EIO,
    libc::ENOENT,
    libc::EMFILE,
    libc::ENFILE,
    libc::ENOMEM,
    libc::ESTALE,
    libc::ELOOP,
    libc::ETIMEDOUT,
    libc::ENXIO,
    libc::ENODEV,
    libc::EAGAIN,
];
pub const READ_ERRNOS: &[i32] = &[libc::EIO, libc::ESTALE, libc::EISDIR, libc::ETIMEDOUT, libc::EAGAIN, libc::ENXIO, libc::ENOMEM];

pub fn chaos(r: &mut Rng, w: &World) -> Chaos {
    let total: usize = w.files.iter().map(|f| f.bytes().len()).sum();
    let big = total > 20_000;
    Chaos {
        seed: r.next(),
        hash_seed: r.next(),
        read_mode: if big { *r.pick(&[0u8, 3, 3]) } else { r.below(4) as u8 },
        read_max: if big { *r.pick(&[512usize, 4095, 4096, 8191]) } else { *r.pick(&[1usize, 2, 3, 7, 31, 32, 33, 100, 1000]) },
        eintr_pct: *r.pick(&[0u8, 0, 10, 40]),
        dtype_unknown: r.chance(30),
        dir_order: if r.chance(25) { 0 } else { r.next() },
        size_lie: r.below(4) as u8,
        meta_seed: r.next(),
        fd_limit: 0,
        clock: if r.chance(50) { 0 } else { r.next() },
        addr: match r.below(8) {
            0 => 1,
            1 => 2,
            2 => r.next() | 4,
            _ => 0,
        },
    }
}

fn hard(rec: &Record) -> u64 {
    const SOFT: &[&str] = &["read:EINTR", "open:EINTR", "read:short", "readdir-order", "dtype-unknown", "size-misreported", "hash-keys", "replace-during-load"];
    rec.fired.iter().filter(|(k, _)| !SOFT.contains(&k.as_str())).map(|(_, v)| v).sum()
}

pub fn has_wild(w: &World) -> bool {
    w.files.iter().any(|f| f.items.iter().any(|i| matches!(i, Item::Include { pat, .. } if pat.contains(['*', '?', '['])))) || {
        // a directory with pattern characters makes glob work component by component
        w.files.iter().any(|f| f.path.contains(['*', '?', '[', ']']))
    }
}

fn wild_dirs(w: &World, stars: bool) -> Vec<String> {
    let m = Model::new(w);
    let e = m.expect();
    let mut out = BTreeSet::new();
    for f in &e.files {
        for it in &w.files[*f].items {
            if let Item::Include { pat, .. } = it {
                if pattern_error(pat) || (!stars && pat.contains("**")) {
                    continue;
                }
                m.expand(&m.dir_of(*f), pat, &mut out);
            }
        }
    }
    out.into_iter().collect()
}

/// faults on the files of this ledger
pub fn faults(r: &mut Rng, w: &World, n: usize, persistent: bool, root: bool, stars: bool) -> Vec<Fault> {
    let reach: Vec<usize> = Model::new(w).expect().files.into_iter().filter(|f| (root || *f != 0) && !(*f == 0 && w.inline)).collect();
    let dirs = wild_dirs(w, stars);
    let mut out: Vec<Fault> = vec![];
    for _ in 0..n {
        let (skip, times) = if persistent { (0, 0) } else { (r.below(3) as u32, r.below(3) as u32) };
        if !dirs.is_empty() && r.chance(20) {
            let path = r.pick(&dirs).clone();
            if out.iter().any(|f| f.path == path) {
                continue;
            }
            out.push(if r.chance(50) {
                Fault { op: "opendir".into(), path, kind: FKind::Errno(*r.pick(&[libc::EACCES, libc::EIO, libc::EMFILE, libc::ENOENT])), skip, times }
            } else {
                Fault { op: "readdir".into(), path, kind: FKind::ReaddirErrAfter(r.below(4) as u32, *r.pick(&[libc::EIO, libc::ESTALE])), skip: 0, times: 0 }
            });
            continue;
        }
        if reach.is_empty() {
            continue;
        }
        let f = *r.pick(&reach);
        let path = w.files[f].path.clone();
        if out.iter().any(|x| x.path == path) {
            continue;
        }
        let len = w.files[f].bytes().len();
        match r.below(10) {
            0..=3 => out.push(Fault { op: "open".into(), path, kind: FKind::Errno(*r.pick(ERRNOS)), skip, times }),
            4..=7 => {
                let off = match r.below(4) {
                    0 => 0,
                    1 => len,
                    2 => len.saturating_sub(1),
                    _ => r.below(len + 1),
                };
                out.push(Fault { op: "read".into(), path, kind: FKind::ReadErrAt(off as u64, *r.pick(READ_ERRNOS)), skip: 0, times: 0 })
            }
            8 if f != 0 => out.push(Fault { op: "realpath".into(), path, kind: FKind::Errno(*r.pick(&[libc::EACCES, libc::EIO, libc::ENOENT, libc::ELOOP])), skip, times }),
            9 if f != 0 && !has_wild(w) && w.links.is_empty() => out.push(Fault { op: "stat".into(), path, kind: FKind::Errno(*r.pick(&[libc::EACCES, libc::EIO, libc::ENOENT])), skip, times }),
            _ => {}
        }
    }
    out
}

/// a ledger of unusual size: many files, deep nesting, long files, many of one thing
pub fn large_world(r: &mut Rng, id: &mut usize) -> World {
    let mut p = Prof::random(r);
    p.big = 0;
    p.chain = 0;
    p.items = (0, 1);
    p.trivia = 0;
    p.inline = 0;
    match r.below(10) {
        6 => {
            // a wildcard with very many matches
            let n = *r.pick(&[33usize, 65, 101, 129, 260, 513]);
            return star_world(r, n, 2, id);
        }
        7 => {
            let (n, shape) = *r.pick(&[(70usize, 1usize), (140, 1), (260, 1), (140, 3), (300, 0), (60, 4)]);
            return star_world(r, n, shape, id);
        }
        8 => {
            // a very long file
            p.files = (2, 4);
            p.items = (2, 5);
            p.wild = 0;
            let mut w = gen_world(r, &p, "/led", id).world;
            let f = r.below(w.files.len());
            let nl = nl_for(&w.files[f]);
            let line = format!("{}{}", *r.pick(&["; a comment which is neither here nor there", ";", "; é日本😱", ""]), nl);
            let n = *r.pick(&[9_000usize, 70_000, 140_000, 280_000, 1_100_000, 1_100_000, 2_200_000]);
            let at = r.below(w.files[f].items.len() + 1);
            if at == w.files[f].items.len() {
                w.files[f].chop = false;
            }
            w.files[f].items.insert(at, Item::Trivia { text: line.repeat(n / line.len() + 1) });
            return w;
        }
        9 => {
            // very many directives and options
            p.files = (2, 3);
            p.items = (300, 700);
            p.rich = *r.pick(&[0, 10]);
            p.wild = 0;
            p.few_dates = 100;
        }
        0 => {
            let n = *r.pick(&[120usize, 255, 256, 257, 300]);
            p.files = (n, n);
            p.wild = 0;
            p.links = 0;
        }
        1 => {
            let n = *r.pick(&[17usize, 33, 65, 129, 200]);
            p.files = (n, n);
            p.chain = 100;
            p.wild = 0;
        }
        2 => {
            p.files = (1, 2);
            p.items = (150, 300);
            p.rich = 20;
        }
        3 => {
            p.files = (2, 3);
            p.big = 100;
            p.items = (2, 6);
        }
        4 => {
            p.files = (60, 80);
            p.wild = 30;
        }
        _ => {
            p.files = (2, 3);
            p.items = (30, 60);
            p.push = 60;
        }
    }
    gen_world(r, &p, "/led", id).world
}

/// a syntax error can take the pragmas of its file with it
fn calm(p: &mut Prof) {
    if p.bad > 0 {
        p.push = 0;
        p.opts = 0;
        p.dups = 0;
    }
}

fn base_world(r: &mut Rng, tweak: impl FnOnce(&mut Prof, &mut Rng)) -> World {
    let mut p = Prof::random(r);
    tweak(&mut p, r);
    let mut id = 0;
    gen_world(r, &p, "/led", &mut id).world
}

pub fn nl_for(f: &FileSpec) -> &'static str {
    if f.items.iter().any(|i| i.text().contains("\r\n")) {
        "\r\n"
    } else {
        "\n"
    }
}

fn with_ctx<T>(r: &mut Rng, id: &mut usize, nl: &'static str, f: impl FnOnce(&mut Ctx) -> T) -> T {
    let p = Prof::random(r);
    let mut c = Ctx { r, p, names: DEFAULT_NAMES.iter().map(|s| s.to_string()).collect(), nl, id };
    f(&mut c)
}

fn insert_anywhere(r: &mut Rng, w: &mut World, f: usize, it: Item) {
    let lo = w.files[f].items.iter().take_while(|i| matches!(i, Item::Opt { name, .. } if name.starts_with("name_"))).count();
    let n = w.files[f].items.len();
    let at = lo + r.below(n - lo + 1);
    w.files[f].items.insert(at, it);
}

/// includes which fail for reasons of their own
fn add_bad_includes(r: &mut Rng, w: &mut World, id: &mut usize) {
    let n = r.below(4);
    let reach: Vec<usize> = Model::new(w).expect().files.into_iter().collect();
    for k in 0..n {
        let f = *r.pick(&reach);
        let nl = nl_for(&w.files[f]);
        let dir = Model::new(w).dir_of(f);
        let pat = match r.below(7) {
            0 => format!("missing{}.bean", k),
            1 => format!("nodir{}/x.bean", k),
            2 => format!("nothing{}*.bean", k),
            3 => "a**b.bean".to_string(),
            4 => format!("x{}[", k),
            5 => {
                let d = format!("{}/adir{}", dir, k);
                w.dirs.push(d);
                format!("adir{}", k)
            }
            _ => {
                let l = format!("{}/dangle{}.bean", dir, k);
                w.links.push((l, format!("gone{}", k)));
                format!("dangle{}.bean", k)
            }
        };
        let it = with_ctx(r, id, nl, |c| c.include(&pat));
        insert_anywhere(r, w, f, it);
    }
}

fn break_utf8(r: &mut Rng, w: &mut World, pct: usize, root: bool) {
    for f in 0..w.files.len() {
        if (f == 0 && (w.inline || !root)) || !r.chance(pct) {
            continue;
        }
        let mut b = w.files[f].text().into_bytes();
        let at = r.below(b.len() + 1);
        let bad: &[u8] = r.pick(&[&b"\xff"[..], b"\x80", b"\xc3", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xe9", b"\xc0\x80"]);
        // never by accident the start of something valid
        if at < b.len() && b[at] >= 0x80 {
            b.truncate(at);
        }
        b.splice(at..at, bad.iter().copied());
        if std::str::from_utf8(&b).is_err() {
            w.files[f].raw = Some(b);
        }
    }
}

// ------------------------------------------------------------------ generation

pub fn generate(prop: &str, seed: u64, index: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut s = Scenario { property: prop.into(), seed, ..Default::default() };
    let mut id = 0usize;
    // every so many runs one of unusual size
    let large = index % 40 == 39;
    match prop {
        "C01" => {
            s.kind = "faults".into();
            let w = if large {
                large_world(r, &mut id)
            } else {
                base_world(r, |p, r| {
                    if r.chance(30) {
                        p.dups = 2;
                        p.push = 0;
                    }
                })
            };
            let n = if index % 4 == 0 { 0 } else { r.range(1, 3) };
            let pers = r.chance(40);
            s.faults = vec![faults(r, &w, n, pers, true, true)];
            s.chaos = vec![chaos(r, &w)];
            s.worlds = vec![w];
        }
        "C02" => {
            s.kind = "faults".into();
            let mut w = if large {
                large_world(r, &mut id)
            } else {
                base_world(r, |p, r| {
                    p.bad = *r.pick(&[0usize, 0, 25]);
                    if r.chance(25) && p.bad == 0 {
                        p.dups = 2;
                        p.push = 0;
                    }
                    calm(p);
                })
            };
            if r.chance(50) {
                add_bad_includes(r, &mut w, &mut id);
            }
            if r.chance(30) {
                let root = r.chance(20);
                break_utf8(r, &mut w, 25, root);
            }
            let n = *r.pick(&[0usize, 1, 1, 2, 3, 5]);
            let root = r.chance(12);
            s.faults = vec![faults(r, &w, n, true, root, false)];
            s.chaos = vec![chaos(r, &w)];
            s.worlds = vec![w];
        }
        "C03" => {
            s.kind = "variants".into();
            let mut w = if large {
                large_world(r, &mut id)
            } else {
                base_world(r, |p, r| {
                    p.bad = *r.pick(&[0usize, 0, 20]);
                    p.dups = *r.pick(&[0usize, 0, 3]);
                    p.unbalanced = *r.pick(&[0usize, 50]);
                    p.push = *r.pick(&[0usize, 30, 70]);
                    p.wild = *r.pick(&[0usize, 30, 60]);
                    p.opts = *r.pick(&[0usize, 30]);
                })
            };
            if r.chance(30) {
                add_bad_includes(r, &mut w, &mut id);
            }
            if r.chance(30) {
                duplicate_options(r, &mut w, &mut id);
            }
            let n = *r.pick(&[0usize, 0, 1, 2]);
            s.faults = vec![faults(r, &w, n, true, false, true)];
            for k in 0..4 {
                let mut c = chaos(r, &w);
                if k == 0 {
                    c = Chaos { hash_seed: c.hash_seed, ..Default::default() };
                }
                if k == 1 {
                    // only the hash keys differ, and where memory is
                    c = Chaos { hash_seed: c.hash_seed, addr: 1, ..Default::default() };
                }
                if k == 2 {
                    c.addr = 2;
                    c.clock = r.next();
                }
                s.chaos.push(c);
            }
            s.worlds = vec![w];
        }
        "C04" => {
            s.kind = "history".into();
            let mut w = if large {
                large_world(r, &mut id)
            } else {
                base_world(r, |p, r| {
                    p.bad = *r.pick(&[0usize, 0, 20]);
                    p.links = 40;
                    p.dups = *r.pick(&[0usize, 3]);
                    p.opts = *r.pick(&[0usize, 30]);
                    p.push = *r.pick(&[0usize, 30]);
                })
            };
            if r.chance(30) {
                add_bad_includes(r, &mut w, &mut id);
            }
            let n = *r.pick(&[0usize, 0, 1, 2]);
            s.faults = vec![faults(r, &w, n, true, false, true)];
            s.chaos = vec![chaos(r, &w)];
            let n = if large { 4 } else { r.range(3, 12) };
            for _ in 0..n {
                let k = r.below(8);
                s.hops.push(match r.below(10) {
                    0 | 1 => HOp::NewParser(k),
                    2 => HOp::Clone(k),
                    3 => HOp::Drop(k),
                    4 => HOp::Report(k),
                    5 => HOp::Resolve(k),
                    _ => HOp::Parse(k),
                });
            }
            s.hops.push(HOp::Parse(0));
            s.nums = vec![r.below(4) as u64];
            s.worlds = vec![w];
        }
        "C06" => {
            s.kind = "writer".into();
            let mut w = base_world(r, |p, r| {
                p.bad = *r.pick(&[0usize, 20, 40]);
                p.files = (1, 4);
                p.unicode = *r.pick(&[0usize, 50, 90]);
                p.unbalanced = *r.pick(&[0usize, 60]);
            });
            if r.chance(40) {
                add_bad_includes(r, &mut w, &mut id);
            }
            s.faults = vec![vec![]];
            s.chaos = vec![Chaos { hash_seed: r.next(), ..Default::default() }];
            s.worlds = vec![w];
            let n = r.range(1, 25);
            let fail = r.chance(60);
            let at = r.below(n);
            for k in 0..n {
                s.wsteps.push(if fail && k == at {
                    match r.below(6) {
                        0 => WStep::Zero,
                        1 => WStep::FailFlush,
                        2 => WStep::Fail((*r.pick(&["WouldBlock", "TimedOut", "ConnectionReset", "PermissionDenied", "InvalidInput", "InvalidData", "UnexpectedEof", "ENOSPC", "EDQUOT", "EFBIG"])).into()),
                        3 => WStep::Fail("BrokenPipe".into()),
                        4 => WStep::Fail("StorageFull".into()),
                        _ => WStep::Fail("Other".into()),
                    }
                } else {
                    match r.below(5) {
                        0 => WStep::All,
                        1 => WStep::Interrupt,
                        2 => WStep::Accept(1),
                        _ => WStep::Accept(r.range(1, 40)),
                    }
                });
            }
            // where in the report the failure strikes: so many bytes in
            let many = r.chance(8);
            let at = if r.chance(60) { r.below(if many { 150_000 } else { 4000 }) as u64 } else { 0 };
            s.nums = vec![r.below(2) as u64, at, r.below(4) as u64, r.below(4) as u64, if many { r.range(20, 300) as u64 } else { 8 }, r.chance(25) as u64];
        }
        "C07" => {
            s.kind = "spans".into();
            let mut w = if large {
                large_world(r, &mut id)
            } else {
                base_world(r, |p, r| {
                    p.unicode = *r.pick(&[0usize, 40, 90]);
                    p.rich = *r.pick(&[60usize, 95]);
                    p.bad = *r.pick(&[0usize, 0, 0, 20]);
                    calm(p);
                    p.items = *r.pick(&[(1, 4), (3, 8)]);
                })
            };
            if r.chance(25) {
                add_bad_includes(r, &mut w, &mut id);
            }
            if r.chance(20) {
                break_utf8(r, &mut w, 20, false);
            }
            let n = *r.pick(&[0usize, 0, 0, 1, 2]);
            s.faults = vec![faults(r, &w, n, true, false, false)];
            s.chaos = vec![chaos(r, &w)];
            s.worlds = vec![w];
        }
        "C08" => {
            s.kind = "synthetic".into();
            let w = base_world(r, |p, r| {
                p.files = *r.pick(&[(1, 1), (2, 4)]);
                p.bad = *r.pick(&[0usize, 20]);
                p.inline = *r.pick(&[0usize, 50]);
            });
            s.faults = vec![vec![]];
            s.chaos = vec![Chaos { hash_seed: r.next(), ..Default::default() }];
            let mut names: Vec<String> = ["synth", "plugin.auto", "inline", "main.bean", "日本", "a b"].iter().map(|x| x.to_string()).collect();
            names.push(w.root.clone());
            if w.files.len() > 1 {
                names.push(w.files[1].path.clone());
            }
            if r.chance(25) {
                // nearly the same, and many
                for n in ["synth ", " synth", "Synth", "synth\n", "synth/", "./synth", "synthetic", "<synth>", "syn\u{301}th", "s", "syn", "0", "1"] {
                    names.push(n.into());
                }
                if r.chance(30) {
                    names.extend((0..40).map(|i| format!("name{}", i)));
                }
            }
            let k = r.range(1, names.len());
            r.shuffle(&mut names);
            names.truncate(k);
            names.retain(|n| !n.is_empty());
            if names.is_empty() {
                names.push("synth".into());
            }
            let n = if large { 200 } else { r.range(3, 30) };
            for i in 0..n {
                let k = r.below(64);
                s.hops.push(match r.below(12) {
                    0..=4 => {
                        let nm = r.pick(&names).clone();
                        HOp::Create(nm, fragment(r, i))
                    }
                    5 => HOp::CloneSyn,
                    6 => HOp::Resolve(k),
                    7 | 8 => HOp::ReportSyn(k),
                    9 => HOp::Report(k),
                    _ => HOp::ResolveSyn(k),
                });
            }
            s.worlds = vec![w];
        }
        "C09" => {
            s.kind = "corrupt".into();
            let mut w = if large {
                large_world(r, &mut id)
            } else {
                base_world(r, |p, r| {
                    p.bad = *r.pick(&[0usize, 20]);
                    p.unicode = *r.pick(&[0usize, 40, 90]);
                    p.big = 5;
                })
            };
            let mut any = false;
            for f in 0..w.files.len() {
                if r.chance(50) || (f == 0 && r.chance(50)) || (!any && f + 1 == w.files.len()) {
                    any = true;
                    let b = w.files[f].text().into_bytes();
                    let c = corrupt(r, b);
                    if f == 0 && w.inline {
                        // an inline ledger is a string, so always UTF-8
                        let t = String::from_utf8_lossy(&c).into_owned();
                        w.files[f].items = vec![Item::Trivia { text: t }];
                        w.files[f].chop = false;
                    } else {
                        w.files[f].raw = Some(c);
                    }
                }
            }
            s.faults = vec![vec![]];
            s.chaos = vec![chaos(r, &w)];
            s.worlds = vec![w];
        }
        "C10" => {
            s.kind = "aliases".into();
            let w = if large {
                let mut w = large_world(r, &mut id);
                let m = w.files.len();
                alias_includes(r, &mut w, m, &mut id, 6);
                w
            } else {
                let mut w = base_world(r, |p, r| {
                    p.files = *r.pick(&[(1, 2), (2, 4), (3, 8)]);
                    p.dups = r.range(1, 6);
                    p.links = *r.pick(&[0usize, 50]);
                    p.push = *r.pick(&[0usize, 0, 20, 50]);
                    p.wild = *r.pick(&[0usize, 0, 30]);
                });
                if has_wild(&w) && r.chance(50) {
                    overlap_wildcards(r, &mut w, &mut id);
                }
                if r.chance(30) {
                    recontext(r, &mut w, &mut id);
                }
                w
            };
            s.faults = vec![vec![]];
            s.chaos = vec![chaos(r, &w)];
            s.worlds = vec![w];
        }
        "C11" => {
            s.kind = "order".into();
            let w = if large {
                large_world(r, &mut id)
            } else {
                base_world(r, |p, r| {
                    p.few_dates = *r.pick(&[60usize, 90, 100]);
                    p.items = *r.pick(&[(2, 6), (5, 12)]);
                    p.files = *r.pick(&[(1, 3), (3, 8), (6, 14)]);
                    p.rich = 20;
                    p.wild = *r.pick(&[0usize, 0, 30]);
                    p.unicode = 0;
                    if r.chance(20) {
                        p.dups = 2;
                        p.push = 0;
                    }
                })
            };
            s.faults = vec![vec![]];
            s.chaos = vec![chaos(r, &w)];
            s.worlds = vec![w];
        }
        "C12" => {
            s.kind = "pushes".into();
            let w = if large {
                large_world(r, &mut id)
            } else {
                base_world(r, |p, r| {
                    p.push = *r.pick(&[20usize, 50, 90]);
                    p.files = *r.pick(&[(1, 2), (2, 5), (4, 9)]);
                    p.unbalanced = *r.pick(&[0usize, 0, 30, 100]);
                    p.wild = *r.pick(&[0usize, 20]);
                    p.few_dates = *r.pick(&[0usize, 100]);
                })
            };
            s.faults = vec![vec![]];
            s.chaos = vec![chaos(r, &w)];
            s.worlds = vec![w];
        }
        "C13" => {
            s.kind = "options".into();
            let mut w = base_world(r, |p, r| {
                p.opts = *r.pick(&[30usize, 60, 90]);
                p.names = *r.pick(&[0usize, 40, 80]);
                p.files = *r.pick(&[(1, 2), (2, 5), (4, 9)]);
                p.links = *r.pick(&[0usize, 40]);
            });
            if r.chance(40) {
                duplicate_options(r, &mut w, &mut id);
            }
            s.faults = vec![vec![]];
            s.chaos = vec![chaos(r, &w)];
            s.worlds = vec![w];
        }
        "C14" => gen_c14(r, &mut s, index, &mut id),
        "C15" => {
            s.kind = "retry".into();
            let mut p = Prof::random(r);
            p.files = *r.pick(&[(1, 3), (2, 5)]);
            p.bad = *r.pick(&[0usize, 15]);
            p.unbalanced = *r.pick(&[0usize, 50]);
            p.odd_base = 0;
            let a = gen_world(r, &p, "/led", &mut id).world;
            let mut q = Prof::random(r);
            q.files = (1, 4);
            let base = if r.chance(50) { "/led" } else { "/other" };
            let b = gen_world(r, &q, base, &mut id).world;
            // an edited version of the first: same paths, other contents
            let mut c = a.clone();
            let moved = r.chance(35);
            for f in c.files.iter_mut() {
                let nl = nl_for(f);
                if moved {
                    // of the same length
                    r.shuffle(&mut f.items);
                    continue;
                }
                f.items.retain(|_| r.chance(85));
                if r.chance(60) {
                    let mut cx = Ctx { r: &mut *r, p: p.clone(), names: DEFAULT_NAMES.iter().map(|s| s.to_string()).collect(), nl, id: &mut id };
                    let d = if cx.r.chance(30) { cx.bad() } else { cx.directive(12) };
                    let at = cx.r.below(f.items.len() + 1);
                    f.items.insert(at, d);
                }
            }
            let worlds = [a, b, c];
            let n = r.range(2, 7);
            for _ in 0..n {
                let k = r.below(3);
                let fs = if r.chance(70) {
                    let n = r.range(1, 3);
                    let pers = r.chance(60);
                    faults(r, &worlds[k], n, pers, true, true)
                } else {
                    vec![]
                };
                s.faults.push(fs);
                s.hops.push(HOp::Attempt(k));
                if r.chance(30) {
                    let j = r.below(8);
                    s.hops.push(HOp::Parse(j));
                }
            }
            for k in 0..2 {
                s.faults.push(vec![]);
                s.hops.push(HOp::Attempt(k));
            }
            s.chaos = vec![chaos(r, &worlds[0])];
            s.worlds = worlds.to_vec();
        }
        "C16" => gen_c16(r, &mut s, &mut id),
        _ => panic!("no such property {}", prop),
    }
    for w in s.worlds.iter_mut() {
        settle(w);
    }
    s
}

/// Which match of a wildcard comes first is not laid down, so nothing may depend on it: where it
/// would, pushes and options become comments of the same length.
pub fn settle(w: &mut World) {
    for step in 0..2 {
        if !Model::ambiguous(w) {
            return;
        }
        for f in w.files.iter_mut() {
            for it in f.items.iter_mut() {
                let out = match it {
                    Item::PushTag { .. } | Item::PopTag { .. } | Item::PushMeta { .. } | Item::PopMeta { .. } => true,
                    Item::Opt { name, .. } => step == 1 && !name.starts_with("name_"),
                    _ => false,
                };
                if out {
                    let mut text = String::new();
                    for l in it.text().split_inclusive('\n') {
                        match l.chars().next() {
                            Some(c) if c != '\n' && c != '\r' => text.push_str(&format!(";{}{}", " ".repeat(c.len_utf8() - 1), &l[c.len_utf8()..])),
                            _ => text.push_str(l),
                        }
                    }
                    *it = Item::Trivia { text };
                }
            }
        }
    }
}

fn fragment(r: &mut Rng, i: usize) -> String {
    let pieces = ["2024-01-01 open Assets:Cash", "synthetic", "x", "日本語 😱", "é", "\n", "line one\nline two", "\n\n", "  indented", "tab\tx", "; c", "ﬀ", "trailing  ", "\r\n", "e\u{301}"];
    let n = r.below(5);
    let mut s = String::new();
    if r.chance(70) {
        s.push_str(&format!("f{}", i));
    }
    for _ in 0..n {
        s.push_str(r.pick::<&str>(&pieces));
        if r.chance(30) {
            s.push(' ');
        }
    }
    if r.chance(3) {
        // a long one
        let to = *r.pick(&[300usize, 1100, 4200, 9000, 33_000, 66_000]);
        let ps: Vec<&str> = (0..4).map(|_| *r.pick::<&str>(&pieces)).collect();
        while s.len() < to {
            s.push_str(ps[s.len() % 4]);
        }
    }
    if r.chance(50) {
        s.push('\n');
    }
    s
}

pub fn corrupt(r: &mut Rng, mut b: Vec<u8>) -> Vec<u8> {
    let n = r.range(1, 4);
    for _ in 0..n {
        let len = b.len();
        match r.below(16) {
            0 => {
                let at = r.below(len + 1);
                b.truncate(at);
            }
            1 => {
                for _ in 0..r.range(1, 8) {
                    if !b.is_empty() {
                        let i = r.below(b.len());
                        b[i] ^= 1 << r.below(8);
                    }
                }
            }
            2 => {
                // flips which keep it ASCII, so that it still gets to the parser
                for _ in 0..r.range(1, 12) {
                    if !b.is_empty() {
                        let i = r.below(b.len());
                        if b[i] < 0x80 {
                            b[i] = (b[i] ^ (1 << r.below(7))) & 0x7f;
                        }
                    }
                }
            }
            3 => {
                let a = r.below(len + 1);
                let k = r.below(600).min(len - a);
                for x in &mut b[a..a + k] {
                    *x = 0;
                }
            }
            4 => {
                // a block from elsewhere
                if len > 2 {
                    let a = r.below(len);
                    let k = r.range(1, 512).min(len - a);
                    let blk = b[a..a + k].to_vec();
                    let to = r.below(len + 1);
                    let end = (to + k).min(len);
                    b.splice(to..end, blk);
                }
            }
            5 => {
                if len > 2 {
                    let a = r.below(len);
                    let k = r.range(1, 200).min(len - a);
                    b.drain(a..a + k);
                }
            }
            6 => {
                let ins: &[u8] = r.pick(&[&b"\xff\xfe"[..], b"\x00", b"\"", b"\\", b"{", b"}", b"(((((", b"\xef\xbb\xbf", b"\r", b"\n", b"\x0c", b"\x1b[31m"]);
                let at = r.below(len + 1);
                b.splice(at..at, ins.iter().copied());
            }
            7 => {
                let ch = *r.pick(&["٣", "２", "\u{2028}", "\u{85}", "\u{a0}", "😱", "\u{301}", "Ⅷ", "ß", "\u{200d}", "ǅ", "٠", "𝟘", "İ", "\u{feff}", "é"]);
                for _ in 0..r.range(1, 6) {
                    let mut at = r.below(b.len() + 1);
                    while at < b.len() && (b[at] & 0xc0) == 0x80 {
                        at += 1;
                    }
                    b.splice(at..at, ch.bytes());
                }
            }
            8 => {
                // splice of valid but misplaced text
                let t: &str = r.pick(&[
                    "2024-01-01 * \"x\"\n  Assets:A 10 / 0 USD\n",
                    "2024-02-30 open Assets:X\n",
                    "0000-00-00 open Assets:X\n",
                    "2024-13-45 * \"a\" \"b\" \"c\"\n",
                    "include \"\"\n",
                    "include \"/\"\n",
                    "include \".\"\n",
                    "include \"..\"\n",
                    "include \"*\"\n",
                    "include \"**\"\n",
                    "option \"\" \"\"\n",
                    "option \"name_assets\" \"Equity\"\n",
                    "option \"name_assets\" \"\"\n",
                    "option \"inferred_tolerance_default\" \"::\"\n",
                    "option \"inferred_tolerance_default\" \"\"\n",
                    "option \"long_string_maxlines\" \"-1\"\n",
                    "option \"long_string_maxlines\" \"0\"\n",
                    "option \"conversion_currency\" \"é\"\n",
                    "option \"operating_currency\" \"\"\n",
                    "option \"documents\" \"\\0\"\n",
                    "option \"account_rounding\" \":\"\n",
                    "option \"title\" \"a\\qb\\\"",
                    "plugin \"\"\n",
                    "pushtag\n",
                    "pushtag #\n",
                    "poptag #x\n",
                    "pushmeta a:\n",
                    "popmeta :\n",
                    "2024-01-01 balance Assets:A 1 ~ USD\n",
                    "2024-01-01 price USD 79228162514264337593543950335 + 1 EUR\n",
                    "2024-01-01 price USD 99999999999999999999999999999999999999 EUR\n",
                    "2024-01-01 price USD 0.00000000000000000000000000000000001 EUR\n",
                    "2024-01-01 price USD 1,2,3.4 EUR\n",
                    "2024-01-01 price USD -+--1 EUR\n",
                    "2024-01-01 custom\n",
                    "2024-01-01 custom \"\" \"\" 1 2 3 TRUE NULL\n",
                    "  orphan: 1\n",
                    "  Assets:A  1 USD {{ 1 USD }} @@@ 2\n",
                    "2024-01-01 * \"x\"\n  Assets:A 1 X {1 USD, 2 USD, 2024-01-01, 2024-01-02, \"a\", \"b\", *, *}\n",
                    "2024-01-01 * \"x\"\n  Assets:A 1 X {1 # 2 # 3 USD}\n",
                    "2024-01-01 * \"\"\"\n",
                    "2024-01-01 note Assets:A \"\\",
                    "\"",
                    "2024-01-01 query \"a\" \"\n\n\n\n",
                ]);
                let at = r.below(b.len() + 1);
                b.splice(at..at, t.bytes());
            }
            9 => {
                // repeat a piece many times
                if len > 2 && len < 20_000 {
                    let a = r.below(len);
                    let k = r.range(1, 40).min(len - a);
                    let blk = b[a..a + k].to_vec();
                    let times = r.range(2, 60);
                    let at = r.below(len + 1);
                    let rep: Vec<u8> = (0..times).flat_map(|_| blk.clone()).collect();
                    b.splice(at..at, rep);
                }
            }
            10 => {
                // swap line order
                let mut ls: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
                for _ in 0..r.range(1, 5) {
                    let (i, j) = (r.below(ls.len()), r.below(ls.len()));
                    ls.swap(i, j);
                }
                b = ls.join(&b'\n');
            }
            11 => {
                // delete characters one by one
                for _ in 0..r.range(1, 10) {
                    if !b.is_empty() {
                        let i = r.below(b.len());
                        b.remove(i);
                    }
                }
            }
            12 => {
                // all line ends lost or replaced
                let c = *r.pick(&[b' ', b'\r', b';', 0u8]);
                for x in b.iter_mut() {
                    if *x == b'\n' {
                        *x = c;
                    }
                }
            }
            13 => {
                let k = r.range(1, 300);
                let junk: Vec<u8> = (0..k).map(|_| *r.pick(b"0123456789-/.,:;#^\"'{}()@*~+!&? \t\n\\|AaZz%")).collect();
                let at = r.below(b.len() + 1);
                b.splice(at..at, junk);
            }
            14 => {
                let k = r.range(1, 200);
                let junk: Vec<u8> = (0..k).map(|_| r.below(256) as u8).collect();
                let at = r.below(b.len() + 1);
                b.splice(at..at, junk);
            }
            _ => {
                // a page of the file replaced by an earlier one
                if len > 1024 {
                    let pg = 512;
                    let i = r.below(len / pg) * pg;
                    let j = r.below(len / pg) * pg;
                    let blk = b[i..(i + pg).min(len)].to_vec();
                    let end = (j + blk.len()).min(len);
                    b.splice(j..end, blk);
                } else {
                    b.reverse();
                }
            }
        }
    }
    b.truncate(400_000);
    b
}

fn alias_includes(r: &mut Rng, w: &mut World, n: usize, id: &mut usize, k: usize) {
    for _ in 0..k {
        let from = r.below(n);
        let to = r.below(n);
        if w.files[to].path.contains(['*', '?', '[', ']', '"', '\\']) || (to == 0 && w.inline) {
            continue;
        }
        let m = Model::new(w);
        let s = rel(&m.dir_of(from), &w.files[to].path);
        let nl = nl_for(&w.files[from]);
        let it = with_ctx(r, id, nl, |c| c.include(&s));
        let at = w.files[from].items.len();
        w.files[from].items.insert(at, it);
    }
}

/// an include repeated with the same pushed, or nearly
fn recontext(r: &mut Rng, w: &mut World, id: &mut usize) {
    let mut at: Vec<(usize, usize)> = vec![];
    for f in 0..w.files.len() {
        for (i, it) in w.files[f].items.iter().enumerate() {
            if let Item::Include { pat, .. } = it {
                if !pat.contains(['*', '?', '[', ']']) && w.files[f].raw.is_none() {
                    at.push((f, i));
                }
            }
        }
    }
    if at.is_empty() {
        return;
    }
    let (f, i) = at[r.below(at.len())];
    let nl = nl_for(&w.files[f]);
    // pushes with their pops
    let n = r.range(1, 4);
    let mut pushes: Vec<(Item, Item)> = vec![];
    for _ in 0..n {
        let name = *r.pick(&["ctxa", "ctxb", "ctxc"]);
        pushes.push(with_ctx(r, id, nl, |c| if c.r.chance(40) { (c.push_tag(name), c.pop_tag(name)) } else { (c.push_meta(name), c.pop_meta(name)) }));
    }
    let mut again = pushes.clone();
    match r.below(6) {
        0 => again.reverse(),
        1 => {
            let k = r.below(again.len());
            again.remove(k);
        }
        2 => {
            let k = r.below(again.len());
            let e = again[k].clone();
            again.insert(k, e);
        }
        3 => {
            let k = r.below(again.len());
            if let Item::PushMeta { key, .. } = again[k].0.clone() {
                again[k].0 = with_ctx(r, id, nl, |c| c.push_meta(&key));
            }
        }
        _ => {}
    }
    let block = |ps: &[(Item, Item)], inc: Item| -> Vec<Item> {
        let mut v: Vec<Item> = ps.iter().map(|p| p.0.clone()).collect();
        v.push(inc);
        v.extend(ps.iter().rev().map(|p| p.1.clone()));
        v
    };
    let inc = w.files[f].items[i].clone();
    let len = w.files[f].items.len();
    let j = r.range(i + 1, len);
    let second = block(&again, inc.clone());
    let first = block(&pushes, inc);
    w.files[f].items.splice(j..j, second);
    w.files[f].items.splice(i..i + 1, first);
}

/// a second wildcard over the same files, in the same context
fn overlap_wildcards(r: &mut Rng, w: &mut World, id: &mut usize) {
    for f in 0..w.files.len() {
        let mut add = vec![];
        for (i, it) in w.files[f].items.iter().enumerate() {
            if let Item::Include { pat, .. } = it {
                if pat.contains('*') && !pat.contains("**") && r.chance(60) {
                    // straight after it, so that the context is the same
                    add.push((i + 1, pat.clone()));
                }
            }
        }
        for (at, pat) in add.into_iter().rev() {
            let pat = if r.chance(50) { format!("./{}", pat) } else { pat };
            let nl = nl_for(&w.files[f]);
            let it = with_ctx(r, id, nl, |c| c.include(&pat));
            w.files[f].items.insert(at, it);
        }
    }
}

fn duplicate_options(r: &mut Rng, w: &mut World, id: &mut usize) {
    let m = Model::new(w);
    let pts: Vec<(usize, usize, bool)> = m.traversal_points().into_iter().map(|p| (p.file, p.pos, p.shared)).collect();
    let mut have: Vec<(String, String, usize)> = vec![];
    for f in 0..w.files.len() {
        let shared = pts.iter().any(|p| p.0 == f && p.2);
        for it in &w.files[f].items {
            if let Item::Opt { name, value, .. } = it {
                // whether two documents directories are the same one is not decided
                if !shared && name != "documents" && !name.starts_with("name_") && name != "long_string_maxlines" {
                    have.push((name.clone(), value.clone(), f));
                }
            }
        }
    }
    let free: Vec<usize> = (0..w.files.len()).filter(|f| pts.iter().any(|p| p.0 == *f && !p.2)).collect();
    if have.is_empty() || free.is_empty() {
        return;
    }
    for _ in 0..r.range(1, 3) {
        let (n, v, _) = r.pick(&have).clone();
        let f = *r.pick(&free);
        let nl = nl_for(&w.files[f]);
        let mut v = v;
        if let Some((_, vals)) = OPTS1.iter().find(|o| o.0 == n) {
            v = r.pick(vals).to_string();
        }
        let it = with_ctx(r, id, nl, |c| c.opt(&n, &v));
        insert_anywhere(r, w, f, it);
    }
}

fn star_world(r: &mut Rng, n: usize, shape: usize, id: &mut usize) -> World {
    let mut w = World { cwd: "/led".into(), root: "main.bean".into(), ..Default::default() };
    let name = |i: usize| format!("f{:05}.bean", i);
    let mut files: Vec<FileSpec> = vec![FileSpec { path: "/led/main.bean".into(), items: vec![], chop: false, raw: None }];
    for i in 1..=n {
        let path = match shape {
            2 => format!("/led/w/{}", name(i)),
            _ => format!("/led/{}", name(i)),
        };
        files.push(FileSpec { path, items: vec![], chop: false, raw: None });
    }
    let p = Prof { rich: 0, unicode: 0, crlf: 0, few_dates: 0, ..Prof::random(r) };
    let mut c = Ctx { r, p, names: DEFAULT_NAMES.iter().map(|s| s.to_string()).collect(), nl: "\n", id };
    for i in 1..=n {
        let k = *c.r.pick(&[4usize, 5, 3]);
        let d = c.directive(k);
        files[i].items.push(d);
    }
    match shape {
        0 => {
            for i in 1..=n {
                let it = c.include(&name(i));
                files[0].items.push(it);
            }
        }
        1 => {
            for i in 0..n {
                let it = c.include(&name(i + 1));
                files[i].items.push(it);
            }
        }
        2 => {
            let it = c.include("w/*.bean");
            files[0].items.push(it);
        }
        3 => {
            // a binary tree
            for i in 1..=n {
                let it = c.include(&name(i));
                files[(i - 1) / 2].items.push(it);
            }
        }
        _ => {
            // all include the next two: many paths to each file
            for i in 0..n {
                for j in [i + 1, i + 2] {
                    if j <= n {
                        let it = c.include(&name(j));
                        files[i].items.push(it);
                    }
                }
            }
        }
    }
    w.files = files;
    w
}

fn gen_c14(r: &mut Rng, s: &mut Scenario, index: u64, id: &mut usize) {
    match index % 10 {
        7 => {
            s.kind = "scale".into();
            let n = *r.pick(&[8usize, 12, 16, 24, 40]);
            let shape = r.below(5);
            s.worlds = vec![star_world(r, n, shape, id), star_world(r, 2 * n, shape, id)];
            s.chaos = vec![Chaos { hash_seed: r.next(), ..Default::default() }];
            s.faults = vec![vec![]];
        }
        8 => {
            s.kind = "long".into();
            let mut w = star_world(r, 0, 0, id);
            let n = *r.pick(&[1000usize, 2000, 4000]);
            let how = r.below(5);
            {
                let p = Prof { rich: 0, unicode: 0, crlf: 0, ..Prof::random(r) };
                let mut c = Ctx { r: &mut *r, p, names: DEFAULT_NAMES.iter().map(|s| s.to_string()).collect(), nl: "\n", id };
                c.p.trivia = 0;
                for i in 0..n {
                    let t = format!("t{}", i % 7);
                    match how {
                        0 => {
                            let it = c.push_tag(&t);
                            w.files[0].items.push(it);
                            let it = c.pop_tag(&t);
                            w.files[0].items.push(it);
                        }
                        1 => {
                            let it = c.opt("operating_currency", &format!("C{}", i));
                            w.files[0].items.push(it);
                        }
                        2 => {
                            let it = c.plugin();
                            w.files[0].items.push(it);
                        }
                        3 => {
                            let it = Item::Trivia { text: "; a comment line\n".into() };
                            w.files[0].items.push(it);
                        }
                        _ => {
                            if i % 4 == 0 {
                                let it = c.directive(4);
                                w.files[0].items.push(it);
                            } else {
                                w.files[0].items.push(Item::Trivia { text: "\n".into() });
                            }
                        }
                    }
                }
            }
            s.worlds = vec![w];
            s.chaos = vec![Chaos { hash_seed: r.next(), ..Default::default() }];
            s.faults = vec![vec![]];
        }
        9 => {
            s.kind = "deep".into();
            let n = *r.pick(&[100usize, 300, 700]);
            let shape = *r.pick(&[1usize, 1, 4]);
            s.worlds = vec![star_world(r, n, shape, id)];
            s.chaos = vec![Chaos { hash_seed: r.next(), fd_limit: 8, ..Default::default() }];
            s.faults = vec![vec![]];
        }
        _ => {
            s.kind = "io".into();
            let mut w = base_world(r, |p, r| {
                p.dups = *r.pick(&[0usize, 3, 6]);
                p.links = *r.pick(&[0usize, 50]);
                p.wild = *r.pick(&[0usize, 30, 60]);
                p.bad = *r.pick(&[0usize, 0, 20]);
            });
            if r.chance(40) {
                add_bad_includes(r, &mut w, id);
            }
            if r.chance(20) {
                break_utf8(r, &mut w, 20, true);
            }
            let n = *r.pick(&[0usize, 1, 2, 4]);
            let pers = r.chance(50);
            s.faults = vec![faults(r, &w, n, pers, true, true)];
            let mut c = chaos(r, &w);
            c.fd_limit = if r.chance(30) { 8 } else { 0 };
            s.chaos = vec![c];
            s.worlds = vec![w];
        }
    }
}

/// what may change in a file: something of the same kind, more or fewer includes
fn gen_c16(r: &mut Rng, s: &mut Scenario, id: &mut usize) {
    s.kind = "replace".into();
    let mut w = base_world(r, |p, _| {
        p.files = (2, 6);
        p.links = 0;
        p.inline = 0;
        p.names = 0;
        p.big = 0;
        p.push = 0;
        p.opts = 0;
        p.wild = 15;
        p.dups = 0;
        p.items = (1, 4);
    });
    // a file not included yet, which a new version may bring in
    let extra = {
        let d = w.files[0].path.rfind('/').map(|i| w.files[0].path[..i].to_string()).unwrap();
        let path = format!("{}/extra.bean", d);
        let it = with_ctx(r, id, "\n", |c| c.directive(12));
        w.files.push(FileSpec { path: path.clone(), items: vec![it], chop: false, raw: None });
        path
    };
    let reach: Vec<usize> = Model::new(&w).expect().files.into_iter().collect();
    let k = r.range(1, 3.min(reach.len()));
    let mut chosen = reach.clone();
    r.shuffle(&mut chosen);
    chosen.truncate(k);
    *id += 1000;
    for f in chosen {
        let path = w.files[f].path.clone();
        let nl = nl_for(&w.files[f]);
        if r.chance(15) && f != 0 {
            s.mutations.push(Mutation { when: when(r, &path, w.files.len()), act: Act::Remove(path) });
            s.versions.push((f, FileSpec { path: String::new(), items: vec![], chop: false, raw: None }));
            continue;
        }
        let mut v = w.files[f].clone();
        // other contents: longer or shorter, includes moved
        let mut items: Vec<Item> = vec![];
        for it in &v.items {
            match it {
                Item::Include { .. } if r.chance(85) => items.push(it.clone()),
                Item::Include { .. } => {}
                _ if r.chance(40) => {
                    let d = with_ctx(r, id, nl, |c| c.directive(12));
                    items.push(d);
                }
                _ if r.chance(50) => items.push(it.clone()),
                _ => {}
            }
        }
        let t = with_ctx(r, id, nl, |c| if c.r.chance(50) { c.filler(300) } else { c.trivia() });
        items.insert(0, t);
        let d = with_ctx(r, id, nl, |c| c.directive(12));
        items.push(d);
        if r.chance(25) && !extra.contains(['*', '?', '[', ']', '"', '\\']) {
            let m = Model::new(&w);
            let pat = rel(&m.dir_of(f), &extra);
            if !has_glob_chars(&pat) {
                let it = with_ctx(r, id, nl, |c| c.include(&pat));
                items.push(it);
            }
        }
        if r.chance(15) {
            let it = with_ctx(r, id, nl, |c| c.include("not-there.bean"));
            items.insert(0, it);
        }
        v.items = items;
        s.mutations.push(Mutation { when: when(r, &path, w.files.len()), act: Act::Put(path, v.text()) });
        s.versions.push((f, v));
    }
    let mut c = chaos(r, &w);
    // many small reads, so that a replacement falls into the middle of one file
    if r.chance(70) {
        c.read_mode = 3;
        c.read_max = *r.pick(&[7usize, 33, 100]);
    }
    s.chaos = vec![c];
    s.faults = vec![vec![]];
    s.worlds = vec![w];
}

fn when(r: &mut Rng, path: &str, n: usize) -> When {
    if r.chance(60) {
        When::Touch(path.to_string(), r.range(1, 12) as u32)
    } else {
        When::Op(r.range(1, 12 + 12 * n) as u64)
    }
}

// ------------------------------------------------------------------ decision

pub fn none() -> Vec<Fault> {
    vec![]
}

pub fn run(s: &Scenario, st: &mut Stats) -> Verdict {
    match s.property.as_str() {
        "C01" => run_c01(s, st),
        "C02" => run_model(s, st, |m, e, o, _| check_outcome(m, e, o)),
        "C03" => run_c03(s, st),
        "C04" => run_c04(s, st),
        "C06" => run_c06(s, st),
        "C07" => run_model(s, st, |m, e, o, st| {
            let mut n = 0;
            *st.counts.entry("reports made up".into()).or_insert(0) += o.made.len() as u64;
            check_spans(m, e, o, &mut n)?;
            check_reports_located(m, o)?;
            if o.load_err.is_none() && e.load_err.is_none() {
                check_warnings(m, e, o)?;
                *st.counts.entry("warnings".into()).or_insert(0) += o.warnings.len() as u64;
            }
            if !o.ok && o.load_err.is_none() && e.load_err.is_none() && !e.errors.is_empty() {
                check_errors(m, e, o)?;
            }
            *st.counts.entry("spans resolved".into()).or_insert(0) += n;
            Ok(())
        }),
        "C08" => run_c08(s, st),
        "C09" => run_c09(s, st),
        "C10" => run_model(s, st, |m, e, o, _| {
            check_outcome(m, e, o)?;
            if o.ok {
                check_dirs(m, e, o)?;
            }
            Ok(())
        }),
        "C11" => run_model(s, st, |m, e, o, _| {
            check_outcome(m, e, o)?;
            if o.ok {
                check_dirs(m, e, o)?;
                check_order(m, e, o)?;
            }
            Ok(())
        }),
        "C12" => run_model(s, st, |m, e, o, _| {
            check_outcome(m, e, o)?;
            if o.ok {
                check_dirs(m, e, o)?;
            }
            Ok(())
        }),
        "C13" => run_model(s, st, |m, e, o, st| {
            check_outcome(m, e, o)?;
            if o.load_err.is_none() {
                check_warnings(m, e, o)?;
                *st.counts.entry("warnings".into()).or_insert(0) += o.warnings.len() as u64;
            }
            if o.ok {
                check_options(m, e, o)?;
                check_plugins(m, e, o)?;
                check_dirs(m, e, o)?;
            }
            Ok(())
        }),
        "C14" => run_c14(s, st),
        "C15" => run_c15(s, st),
        "C16" => run_c16(s, st),
        p => Err(format!("harness: no check for {}", p)),
    }
}

fn f0(s: &Scenario) -> &[Fault] {
    s.faults.first().map(|v| v.as_slice()).unwrap_or(&[])
}

fn run_model(s: &Scenario, st: &mut Stats, check: impl Fn(&Model, &Exp, &Obs, &mut Stats) -> Verdict) -> Verdict {
    let w = &s.worlds[0];
    let m = Model::with_faults(w, f0(s));
    let e = m.expect();
    crate::obs::ELEMENTS.store(s.property == "C07", std::sync::atomic::Ordering::SeqCst);
    let (o, rec) = observe(w, f0(s), &s.chaos[0], st)?;
    crate::obs::ELEMENTS.store(false, std::sync::atomic::Ordering::SeqCst);
    st.nontrivial = !e.dirs.is_empty() || !e.errors.is_empty() || e.load_err.is_some();
    st.count(if o.load_err.is_some() {
        "load failed"
    } else if o.ok {
        "parse succeeded"
    } else {
        "parse failed"
    });
    *st.counts.entry("directives".into()).or_insert(0) += e.dirs.len() as u64;
    *st.counts.entry("expected errors".into()).or_insert(0) += e.errors.len() as u64;
    *st.counts.entry("files".into()).or_insert(0) += e.files.len() as u64;
    let _ = rec;
    check(&m, &e, &o, st)
}

fn run_c01(s: &Scenario, st: &mut Stats) -> Verdict {
    let w = &s.worlds[0];
    let m = Model::new(w);
    let e = m.expect();
    let (o, rec) = observe(w, f0(s), &s.chaos[0], st)?;
    st.nontrivial = !e.dirs.is_empty();
    let hit = hard(&rec);
    st.count(if o.load_err.is_some() {
        "load failed"
    } else if o.ok {
        if hit > 0 {
            "succeeded in spite of faults"
        } else {
            "parse succeeded"
        }
    } else {
        "parse failed"
    });
    if hit == 0 {
        check_outcome(&m, &e, &o)?;
    }
    if o.ok {
        check_dirs(&m, &e, &o)?;
    }
    Ok(())
}

fn run_c03(s: &Scenario, st: &mut Stats) -> Verdict {
    let w = &s.worlds[0];
    let mut first: Option<Obs> = None;
    for (i, c) in s.chaos.iter().enumerate() {
        let (o, _) = observe(w, f0(s), c, st)?;
        match &first {
            None => first = Some(o),
            Some(f) => {
                if *f != o {
                    return Err(format!("differs: run {} of the same files gives another result: {}", i, obs::diff(f, &o)));
                }
            }
        }
    }
    let f = first.unwrap();
    st.nontrivial = !f.dirs.is_empty() || !f.errors.is_empty();
    st.count(if f.ok { "parse succeeded" } else { "parse failed" });
    Ok(())
}

// -------- history after loading

struct Hist {
    srcs: Vec<Option<*mut BeancountSources>>,
    parsers: Vec<Option<(usize, *mut BeancountParser<'static>)>>,
}

impl Hist {
    fn src(&self, i: usize) -> Option<usize> {
        let live: Vec<usize> = self.srcs.iter().enumerate().filter(|(_, s)| s.is_some()).map(|(i, _)| i).collect();
        if live.is_empty() {
            None
        } else {
            Some(live[i % live.len()])
        }
    }
    fn new_parser(&mut self, i: usize) -> usize {
        let p = self.srcs[i].unwrap();
        let r: &'static BeancountSources = unsafe { &*p };
        let b = Box::into_raw(Box::new(BeancountParser::new(r)));
        self.parsers.push(Some((i, b)));
        self.parsers.len() - 1
    }
    fn parser(&mut self, i: usize) -> Option<usize> {
        let live: Vec<usize> = self.parsers.iter().enumerate().filter(|(_, s)| s.is_some()).map(|(i, _)| i).collect();
        if live.is_empty() {
            let s = self.src(i)?;
            Some(self.new_parser(s))
        } else {
            Some(live[i % live.len()])
        }
    }
    fn drop_src(&mut self, i: usize) {
        for p in self.parsers.iter_mut() {
            if let Some((s, b)) = p {
                if *s == i {
                    unsafe { drop(Box::from_raw(*b)) };
                    *p = None;
                }
            }
        }
        if let Some(b) = self.srcs[i].take() {
            unsafe { drop(Box::from_raw(b)) };
        }
    }
}

/// a writer which refuses
pub struct Broken;
impl Write for Broken {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> {
        Err(io::ErrorKind::BrokenPipe.into())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn run_c04(s: &Scenario, st: &mut Stats) -> Verdict {
    let w = &s.worlds[0];
    // what a process gives which does nothing but load and parse once
    let base = pristine(w, f0(s), &s.chaos[0], st)?;
    st.nontrivial = !base.dirs.is_empty() || !base.errors.is_empty();
    let how = s.nums.first().copied().unwrap_or(0);
    let ran = simulate(w, f0(s), &s.chaos[0], &[], st, || -> (Vec<(usize, String)>, Option<String>) {
        let mut bad = vec![];
        let src = match load(w) {
            Err(e) => {
                let o = obs::load_error(&e);
                return (vec![], if o == base { None } else { Some("load".into()) });
            }
            Ok(s) => s,
        };
        sim::with_sim(|s| {
            match how {
                0 => {}
                1 => {
                    // gone
                    let mut v = crate::vfs::Vfs::new();
                    v.mkdirs("/nowhere");
                    v.set_cwd("/nowhere");
                    s.vfs = v;
                }
                2 => {
                    // replaced by something else
                    for f in &w.files {
                        if !(w.inline && f.path == w.files[0].path) {
                            s.vfs.put_file(&f.path, b"2020-01-01 open Assets:Replaced\ninclude \"x\"\n".to_vec());
                        }
                    }
                    for (l, _) in &w.links {
                        s.vfs.remove(l);
                        s.vfs.put_file(l, b"not a link any more".to_vec());
                    }
                }
                _ => {
                    for f in &w.files {
                        s.vfs.remove(&f.path);
                    }
                }
            }
            s.sealed = true;
        });
        let mut h = Hist { srcs: vec![Some(Box::into_raw(Box::new(src)))], parsers: vec![] };
        for (i, op) in s.hops.iter().enumerate() {
            match op {
                HOp::NewParser(k) => {
                    if let Some(k) = h.src(*k) {
                        h.new_parser(k);
                    }
                }
                HOp::Clone(k) => {
                    if let Some(k) = h.src(*k) {
                        let c = unsafe { (*h.srcs[k].unwrap()).clone() };
                        h.srcs.push(Some(Box::into_raw(Box::new(c))));
                    }
                }
                HOp::Drop(k) => {
                    if h.srcs.iter().filter(|x| x.is_some()).count() > 1 {
                        if let Some(k) = h.src(*k) {
                            h.drop_src(k);
                        }
                    }
                }
                HOp::Parse(k) | HOp::Report(k) | HOp::Resolve(k) => {
                    if let Some(k) = h.parser(*k) {
                        let (si, p) = h.parsers[k].unwrap();
                        let (src, p) = unsafe { (&*h.srcs[si].unwrap(), &*p) };
                        match op {
                            HOp::Report(_) => match p.parse() {
                                Err(e) => {
                                    let _ = src.write_errors_or_warnings(&mut Broken, e.errors);
                                }
                                Ok(ok) => {
                                    for d in &ok.directives {
                                        let _ = src.write_errors_or_warnings(&mut Broken, vec![d.error("x")]);
                                    }
                                }
                            },
                            HOp::Resolve(_) => {
                                // nonsense spans must not disturb anything either
                                for (a, b, c) in [(0usize, 0usize, 0usize), (0, 1, 2), (99, 5, 6), (1, 0, 1_000_000), (0, 7, 3)] {
                                    let _ = src.res(&Span { source: a, start: b, end: c });
                                }
                            }
                            _ => {
                                let o = obs::parse(src, p);
                                if o != base {
                                    bad.push((i, obs::diff(&base, &o)));
                                    break;
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        for i in 0..h.srcs.len() {
            h.drop_src(i);
        }
        (bad, None)
    });
    let ((bad, load_differs), rec) = ran.ok("use after loading")?;
    st.count(&format!("files afterwards: {}", ["unchanged", "gone", "replaced", "removed"][how as usize % 4]));
    if let Some(l) = load_differs {
        return Err(format!("differs: loading failed differently ({})", l));
    }
    if let Some(a) = rec.alarms.iter().find(|a| a.contains("after loading")) {
        return Err(format!("needs-files: {}", a));
    }
    if let Some((i, d)) = bad.first() {
        return Err(format!("differs: after {} steps parsing gives another result: {}", i, d));
    }
    Ok(())
}

// -------- reports

pub struct FaultyWriter {
    pub steps: Vec<WStep>,
    pub next: usize,
    pub skip: usize,
    pub out: Vec<u8>,
    pub failed: Option<io::ErrorKind>,
    pub shorts: u64,
    pub interrupts: u64,
    pub flush_fail: bool,
    pub loops: bool,
}

impl FaultyWriter {
    pub fn new(steps: &[WStep], skip: usize) -> Self {
        let loops = !steps.iter().any(|s| matches!(s, WStep::Fail(_) | WStep::Zero | WStep::FailFlush));
        FaultyWriter { steps: steps.to_vec(), next: 0, skip, out: vec![], failed: None, shorts: 0, interrupts: 0, flush_fail: false, loops }
    }
}

pub fn kind_of(s: &str) -> io::ErrorKind {
    match s {
        "WouldBlock" => io::ErrorKind::WouldBlock,
        "BrokenPipe" => io::ErrorKind::BrokenPipe,
        "StorageFull" => io::ErrorKind::StorageFull,
        "TimedOut" => io::ErrorKind::TimedOut,
        "ConnectionReset" => io::ErrorKind::ConnectionReset,
        "PermissionDenied" => io::ErrorKind::PermissionDenied,
        "InvalidInput" => io::ErrorKind::InvalidInput,
        "InvalidData" => io::ErrorKind::InvalidData,
        "UnexpectedEof" => io::ErrorKind::UnexpectedEof,
        "ENOSPC" => io::Error::from_raw_os_error(libc::ENOSPC).kind(),
        "EDQUOT" => io::Error::from_raw_os_error(libc::EDQUOT).kind(),
        "EFBIG" => io::Error::from_raw_os_error(libc::EFBIG).kind(),
        _ => io::ErrorKind::Other,
    }
}

impl Write for FaultyWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.out.len() < self.skip {
            let n = b.len().min(self.skip - self.out.len());
            self.out.extend_from_slice(&b[..n]);
            return Ok(n);
        }
        if self.next >= self.steps.len() && self.loops {
            self.next = 0;
        }
        let st = self.steps.get(self.next).cloned().unwrap_or(WStep::All);
        self.next += 1;
        match st {
            WStep::All => {
                self.out.extend_from_slice(b);
                Ok(b.len())
            }
            WStep::Accept(n) => {
                let n = n.min(b.len());
                if n < b.len() {
                    self.shorts += 1;
                }
                self.out.extend_from_slice(&b[..n]);
                Ok(n)
            }
            WStep::Interrupt => {
                self.interrupts += 1;
                if self.loops && self.steps.iter().all(|s| *s == WStep::Interrupt) {
                    // never nothing but interruptions
                    self.steps.push(WStep::Accept(3));
                }
                Err(io::ErrorKind::Interrupted.into())
            }
            WStep::Zero => {
                self.failed.get_or_insert(io::ErrorKind::WriteZero);
                Ok(0)
            }
            WStep::Fail(k) => {
                self.failed.get_or_insert(kind_of(&k));
                Err(match k.as_str() {
                    "ENOSPC" => io::Error::from_raw_os_error(libc::ENOSPC),
                    "EDQUOT" => io::Error::from_raw_os_error(libc::EDQUOT),
                    "EFBIG" => io::Error::from_raw_os_error(libc::EFBIG),
                    "TimedOut" | "InvalidData" => io::Error::new(kind_of(&k), "of the writer"),
                    _ => kind_of(&k).into(),
                })
            }
            WStep::FailFlush => {
                self.flush_fail = true;
                self.out.extend_from_slice(b);
                Ok(b.len())
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_fail {
            self.failed.get_or_insert(io::ErrorKind::StorageFull);
            return Err(io::ErrorKind::StorageFull.into());
        }
        Ok(())
    }
}

fn strip_ansi(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

trait Writes {
    /// by one of the ways there are
    fn errs<E: Into<AnnotatedErrorOrWarning<K>>, K: ErrorOrWarningKind>(&self, w: &mut impl Write, v: Vec<E>, way: u64) -> io::Result<()>;
}
impl Writes for BeancountSources {
    fn errs<E: Into<AnnotatedErrorOrWarning<K>>, K: ErrorOrWarningKind>(&self, w: &mut impl Write, v: Vec<E>, way: u64) -> io::Result<()> {
        match way {
            1 =>
            {
                #[allow(deprecated)]
                self.write(w, v)
            }
            2 => v.into_iter().try_for_each(|e| {
                let e: AnnotatedErrorOrWarning<K> = e.into();
                match e.annotation() {
                    None => self.write_report::<_, K, _>(w, &*e),
                    Some(_) => self.write_errors_or_warnings(w, vec![e]),
                }
            }),
            _ => self.write_errors_or_warnings(w, v),
        }
    }
}
impl Writes for SyntheticSources<'_> {
    fn errs<E: Into<AnnotatedErrorOrWarning<K>>, K: ErrorOrWarningKind>(&self, w: &mut impl Write, v: Vec<E>, way: u64) -> io::Result<()> {
        match way {
            2 => v.into_iter().try_for_each(|e| {
                let e: AnnotatedErrorOrWarning<K> = e.into();
                match e.annotation() {
                    None => self.write_report::<_, K, _>(w, &*e),
                    Some(_) => self.write_errors_or_warnings(w, vec![e]),
                }
            }),
            _ => self.write_errors_or_warnings(w, v),
        }
    }
}

fn writer_case<K: ErrorOrWarningKind + Clone>(src: &impl Writes, v: Vec<AnnotatedErrorOrWarning<K>>, s: &Scenario, out: &mut WOut) -> Verdict {
    let skip = s.nums.get(1).copied().unwrap_or(0) as usize;
    let mut full = vec![];
    src.errs(&mut full, v.clone(), 0).map_err(|e| format!("failed: writing to memory failed: {}", e))?;
    let mut one_by_one = vec![];
    for e in &v {
        let mut one = vec![];
        src.errs(&mut one, vec![e.clone()], 0).map_err(|e| format!("failed: writing to memory failed: {}", e))?;
        let text = strip_ansi(&String::from_utf8_lossy(&one));
        let head = e.message().lines().next().unwrap_or("").trim();
        if !text.contains(head) {
            return Err(format!("lost: the report does not show the message {:?}", head));
        }
        if let Some(a) = e.annotation() {
            if !one.ends_with(format!("{}\n", a).as_bytes()) {
                return Err(format!("lost: the report does not end with the annotation {:?}", a));
            }
        }
        one_by_one.extend_from_slice(&one);
    }
    if one_by_one != full {
        return Err("order: writing several reports at once is not writing each in the order given".into());
    }
    out.bytes += full.len() as u64;
    out.reports += v.len() as u64;
    let mut w = FaultyWriter::new(&s.wsteps, skip);
    let r = src.errs(&mut w, v.clone(), s.nums.get(3).copied().unwrap_or(0));
    out.shorts += w.shorts;
    out.interrupts += w.interrupts;
    if w.failed.is_some() {
        out.failures += 1;
    }
    match (&r, w.failed) {
        (Ok(()), Some(k)) => return Err(format!("swallowed: the writer failed with {:?} but writing reports success", k)),
        (Err(e), None) => return Err(format!("invented: the writer did not fail but writing reports {:?} {}", e.kind(), e)),
        (Err(e), Some(k)) if e.kind() != k => return Err(format!("kind: the writer failed with {:?} but writing reports {:?}", k, e.kind())),
        _ => {}
    }
    if r.is_ok() && w.out != full {
        let k = w.out.iter().zip(&full).take_while(|(a, b)| a == b).count();
        return Err(format!("garbled: {} bytes written instead of {}, first difference at {}", w.out.len(), full.len(), k));
    }
    if r.is_err() && !full.starts_with(&w.out) {
        let k = w.out.iter().zip(&full).take_while(|(a, b)| a == b).count();
        return Err(format!("garbled: after a failure {} bytes were written which are no prefix of the report (first difference at {})", w.out.len(), k));
    }
    Ok(())
}

#[derive(Default)]
struct WOut {
    bytes: u64,
    reports: u64,
    shorts: u64,
    interrupts: u64,
    failures: u64,
}

fn annotate<K: ErrorOrWarningKind>(v: Vec<ErrorOrWarning<K>>, mode: u64) -> Vec<AnnotatedErrorOrWarning<K>> {
    v.into_iter()
        .enumerate()
        .map(|(i, e)| {
            if mode > 0 && (i as u64) % mode == 0 {
                e.with_annotation(format!("note {} – mit Ümlaut\nand a second line", i))
            } else {
                e.into()
            }
        })
        .collect()
}

fn run_c06(s: &Scenario, st: &mut Stats) -> Verdict {
    let w = &s.worlds[0];
    let ran = simulate(w, f0(s), &s.chaos[0], &[], st, || -> (Verdict, WOut) {
        let mut out = WOut::default();
        let v = (|| {
            let src = load(w).map_err(|e| format!("refused: {}", e))?;
            let p = BeancountParser::new(&src);
            let mut syn = SyntheticSources::new(&src);
            let sp = syn.create_synthetic_span("synthetic", "made up\nlines é\n");
            let mode = s.nums.get(2).copied().unwrap_or(0);
            let many = s.nums.get(4).copied().unwrap_or(8) as usize;
            let many = if many == 8 { 0 } else { many };
            let repeat = s.nums.get(5) == Some(&1);
            let use_syn = s.nums.first().copied().unwrap_or(0) == 1;
            let (mut errs, mut warns): (Vec<Error>, Vec<Warning>) = match p.parse() {
                Err(e) => (e.errors, e.warnings),
                Ok(ok) => {
                    let mut errs = vec![];
                    let mut warns = ok.warnings;
                    for (i, d) in ok.directives.iter().cycle().enumerate().take(ok.directives.len().min(1) * (many.max(ok.directives.len().min(8)))) {
                        let mut e = d.error(format!("complaint {}", i));
                        if let DirectiveVariant::Transaction(t) = d.variant() {
                            e = e.related_to_all(t.postings());
                            if let Some(p) = t.postings().next() {
                                warns.push(p.account().warning(format!("warning {} é", i)).in_context(d));
                            }
                        }
                        if use_syn {
                            e = e.related_to(&spanned(Flag::Asterisk, sp));
                        }
                        errs.push(e);
                        if i % 2 == 0 {
                            warns.push(d.warning(format!("warning {}", i)));
                        }
                    }
                    (errs, warns)
                }
            };
            if repeat {
                // the same again, next to itself and far apart
                if let Some(e) = errs.last().cloned() {
                    errs.push(e);
                    errs.extend(errs.clone().into_iter().take(4));
                }
                if let Some(e) = warns.last().cloned() {
                    warns.push(e);
                }
            }
            if use_syn {
                writer_case(&syn, annotate(errs, mode), s, &mut out)?;
                writer_case(&syn, annotate(warns, mode), s, &mut out)
            } else {
                writer_case(&src, annotate(errs, mode), s, &mut out)?;
                writer_case(&src, annotate(warns, mode), s, &mut out)
            }
        })();
        (v, out)
    });
    let ((v, out), _) = ran.ok("writing reports")?;
    st.nontrivial = out.reports > 0 && (out.shorts + out.interrupts + out.failures > 0);
    st.fault("write:short", out.shorts);
    st.fault("write:interrupted", out.interrupts);
    st.fault("write:failure", out.failures);
    *st.counts.entry("reports".into()).or_insert(0) += out.reports;
    *st.counts.entry("report bytes".into()).or_insert(0) += out.bytes;
    st.see(crate::rng::mix(out.bytes ^ (out.shorts << 20)));
    v
}

/// each report names the place: file, line and column
fn check_reports_located(m: &Model, o: &Obs) -> Verdict {
    if o.load_err.is_some() {
        return Ok(());
    }
    let text = strip_ansi(&o.report);
    for e in o.errors.iter().chain(&o.warnings) {
        located(m, &text, e)?;
    }
    for (e, r) in &o.made {
        if r == "ELEMENTS LOST" {
            return Err(format!("report: an error about an element is about other places: {:?}", e));
        }
        located(m, &strip_ansi(r), e)?;
    }
    Ok(())
}

/// what a report must say of a place, and the line it must show, where that is beyond doubt
fn place<'a>(m: &'a Model, sp: &OSpan) -> Option<(String, &'a str)> {
    let f = file_of(m, sp)?;
    let t = &m.texts[f];
    if sp.start > t.len() || !t.is_char_boundary(sp.start) {
        return None;
    }
    let bol = t[..sp.start].rfind('\n').map(|i| i + 1).unwrap_or(0);
    let line = &t[bol..];
    let line = &line[..line.find('\n').unwrap_or(line.len())];
    // ariadne has its own idea of what ends a line, and of where an empty place at the end is
    if t.contains(['\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}']) || has_lone_cr(t) || sp.content.is_empty() || sp.start >= bol + line.trim_end().len() {
        return None;
    }
    let col = t[bol..sp.start].chars().count() + 1;
    let name = sp.file.clone().unwrap_or("inline".into());
    Some((format!("{}:{}:{}", name, sp.l0, col), line.trim_end()))
}

fn located(m: &Model, text: &str, e: &OErr) -> Verdict {
    let plain = |s: &str| s.chars().map(|c| if c.is_whitespace() && c != '\n' { ' ' } else { c }).collect::<String>();
    let shows = |line: &str| line.contains('\t') || text.contains(line) || plain(text).contains(&plain(line));
    if let Some((want, line)) = place(m, &e.span) {
        if !text.contains(&want) {
            return Err(format!("report: no report names {} for {:?}", want, short(&e.full())));
        }
        if !shows(line) {
            return Err(format!("report: the report of {:?} does not show its line {:?}", short(&e.full()), short(line)));
        }
    }
    // what is in other files is shown under a heading of that file
    let mut others: BTreeMap<Option<String>, Vec<&OSpan>> = BTreeMap::new();
    for (_, sp) in e.contexts.iter().chain(&e.related) {
        others.entry(sp.file.clone()).or_default().push(sp);
    }
    for (name, v) in others {
        let ps: Vec<_> = v.iter().map(|sp| place(m, sp)).collect();
        if ps.iter().any(|p| p.is_none()) {
            continue;
        }
        if name != e.span.file && !ps.iter().flatten().any(|p| text.contains(&p.0)) {
            return Err(format!("report: the report of {:?} does not name the related place {}", short(&e.full()), ps[0].as_ref().unwrap().0));
        }
        for p in ps.iter().flatten() {
            if !shows(p.1) {
                return Err(format!("report: the report of {:?} does not show the related line {:?}", short(&e.full()), short(p.1)));
            }
        }
    }
    Ok(())
}

fn has_lone_cr(t: &str) -> bool {
    let b = t.as_bytes();
    b.iter().enumerate().any(|(i, c)| *c == b'\r' && b.get(i + 1) != Some(&b'\n'))
}

// -------- synthetic sources

#[derive(Clone)]
struct SynModel {
    content: BTreeMap<String, String>,
    spans: Vec<(Span, String, usize, usize)>, // span, name, start, end
}

fn run_c08(s: &Scenario, st: &mut Stats) -> Verdict {
    let w = &s.worlds[0];
    let ran = simulate(w, f0(s), &s.chaos[0], &[], st, || -> (Verdict, u64, u64) {
        let mut made = 0u64;
        let mut looked = 0u64;
        let v = (|| -> Verdict {
            let src = load(w).map_err(|e| format!("refused: {}", e))?;
            let p = BeancountParser::new(&src);
            let parsed = p.parse();
            let mut real: Vec<Span> = vec![];
            match &parsed {
                Ok(ok) => {
                    for d in &ok.directives {
                        real.push(*d.span());
                        real.push(*d.date().span());
                    }
                }
                Err(e) => real.extend(e.errors.iter().map(|e| e.span())),
            }
            let before: Vec<obs::OSpan> = real.iter().map(|x| src.res(x)).collect();
            let mut syns = vec![SyntheticSources::new(&src)];
            let mut models = vec![SynModel { content: BTreeMap::new(), spans: vec![] }];
            for op in &s.hops {
                match op {
                    HOp::Create(name, frag) => {
                        let i = syns.len() - 1;
                        // the clone made last and the first take turns
                        let i = if frag.len() % 2 == 0 { i } else { 0 };
                        let sp = syns[i].create_synthetic_span(name, frag);
                        let c = models[i].content.entry(name.clone()).or_default();
                        let a = c.len();
                        c.push_str(frag);
                        let b = c.len();
                        models[i].spans.push((sp, name.clone(), a, b));
                        made += 1;
                        check_syn(&syns[i], &models[i], models[i].spans.len() - 1)?;
                        if real.contains(&sp) && sp.source < 1 {
                            return Err("clash: a synthetic span equals a real one".into());
                        }
                    }
                    HOp::CloneSyn => {
                        if syns.len() < 4 {
                            let c = syns[syns.len() - 1].clone();
                            syns.push(c);
                            let m = models[models.len() - 1].clone();
                            models.push(m);
                        }
                    }
                    HOp::ResolveSyn(k) => {
                        let i = k % syns.len();
                        if !models[i].spans.is_empty() {
                            looked += 1;
                            check_syn(&syns[i], &models[i], k % models[i].spans.len())?;
                        }
                    }
                    HOp::ReportSyn(k) => {
                        let i = k % syns.len();
                        if !models[i].spans.is_empty() {
                            looked += 1;
                            check_syn_report(&syns[i], &models[i], k % models[i].spans.len(), real.first())?;
                        }
                    }
                    HOp::Resolve(k) | HOp::Report(k) => {
                        if !real.is_empty() {
                            let j = k % real.len();
                            let i = k % syns.len();
                            let r = syns[i].res(&real[j]);
                            if r != before[j] {
                                return Err(format!("real: a span of a real file resolves to {:?} instead of {:?}", r, before[j]));
                            }
                            if matches!(op, HOp::Report(_)) {
                                let e = || spanned(Flag::Asterisk, real[j]).error("reality");
                                let (mut a, mut b) = (vec![], vec![]);
                                src.write_errors_or_warnings(&mut a, vec![e()]).map_err(|e| format!("failed: {}", e))?;
                                syns[i].write_errors_or_warnings(&mut b, vec![e()]).map_err(|e| format!("failed: {}", e))?;
                                if a != b {
                                    return Err(format!("real: a report on a real file differs: {:?} instead of {:?}", short(&strip_ansi(&String::from_utf8_lossy(&b))), short(&strip_ansi(&String::from_utf8_lossy(&a)))));
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            for (sy, m) in syns.iter().zip(&models) {
                for k in 0..m.spans.len() {
                    looked += 1;
                    check_syn(sy, m, k)?;
                    check_syn_report(sy, m, k, None)?;
                }
                for (x, b) in real.iter().zip(&before) {
                    if sy.res(x) != *b {
                        return Err(format!("real: a span of a real file resolves to {:?} instead of {:?}", sy.res(x), b));
                    }
                }
            }
            Ok(())
        })();
        (v, made, looked)
    });
    let ((v, made, looked), _) = ran.ok("synthetic sources")?;
    st.nontrivial = made > 1;
    *st.counts.entry("synthetic spans created".into()).or_insert(0) += made;
    *st.counts.entry("synthetic spans looked at".into()).or_insert(0) += looked;
    st.see(crate::rng::fnv(format!("{:?}", s.hops).as_bytes()));
    st.hashes.push(crate::rng::fnv(format!("{:?}", s.hops).as_bytes()));
    v
}

fn trimmed(t: &str) -> &str {
    if t.trim_end().is_empty() {
        t
    } else {
        t.trim_end()
    }
}

fn check_syn(sy: &SyntheticSources, m: &SynModel, k: usize) -> Verdict {
    let (sp, name, a, b) = &m.spans[k];
    let all = &m.content[name];
    let frag = &all[*a..*b];
    let r = sy.resolve_span(sp);
    if r.file_name != Some(name.as_str()) {
        return Err(format!("name: fragment {} resolves to source {:?} instead of {:?}", k, r.file_name, name));
    }
    let want = trimmed(frag);
    if r.content != want && r.content.trim_end() != frag.trim_end() {
        return Err(format!("text: fragment {} of {:?} resolves to {:?} instead of {:?}", k, name, r.content, want));
    }
    let l0 = 1 + all[..*a].matches('\n').count();
    let l1 = l0 + r.content.matches('\n').count();
    if (r.start_line, r.end_line) != (l0, l1) {
        return Err(format!("lines: fragment {} of {:?} resolves to lines {}-{} instead of {}-{}", k, name, r.start_line, r.end_line, l0, l1));
    }
    let e = spanned(Flag::Asterisk, *sp).error("x");
    let t = sy.error_source_text(&e);
    if t != r.content {
        return Err(format!("text: error_source_text of fragment {} is {:?} instead of {:?}", k, t, r.content));
    }
    Ok(())
}

fn check_syn_report(sy: &SyntheticSources, m: &SynModel, k: usize, real: Option<&Span>) -> Verdict {
    let (sp, name, a, b) = &m.spans[k];
    let all = &m.content[name];
    let frag = &all[*a..*b];
    let mut e = spanned(Flag::Asterisk, *sp).error(format!("reason-{}", k));
    if let Some(r) = real {
        e = e.related_to(&spanned(Flag::Exclamation, *r));
    }
    let mut w = vec![];
    sy.write_errors_or_warnings(&mut w, vec![e]).map_err(|e| format!("failed: writing the report of a synthetic span failed: {}", e))?;
    let text = strip_ansi(&String::from_utf8_lossy(&w));
    if !text.contains(&format!("reason-{}", k)) && !frag.trim().is_empty() {
        return Err(format!("report: the reason is not shown for fragment {}: {:?}", k, short(&text)));
    }
    if !text.contains(name.as_str()) {
        return Err(format!("report: source {:?} is not named for fragment {}: {:?}", name, k, short(&text)));
    }
    // ariadne has its own idea of lines other than those ended by a newline
    if has_lone_cr(all) || frag.trim().is_empty() || frag.starts_with(['\n', '\r', ' ']) {
        return Ok(());
    }
    let bol = all[..*a].rfind('\n').map(|i| i + 1).unwrap_or(0);
    let col = all[bol..*a].chars().count() + 1;
    let l0 = 1 + all[..*a].matches('\n').count();
    let want = format!("{}:{}:{}", name, l0, col);
    if !text.contains(&want) {
        return Err(format!("report: {} is not named for fragment {}: {:?}", want, k, short(&text)));
    }
    let line = all[bol..].split(['\n', '\r']).next().unwrap_or("").trim_end();
    if !line.contains('\t') && !text.contains(line) {
        return Err(format!("report: the line {:?} is not shown for fragment {}: {:?}", line, k, short(&text)));
    }
    Ok(())
}

// -------- damage

fn run_c09(s: &Scenario, st: &mut Stats) -> Verdict {
    let w = &s.worlds[0];
    let bytes: usize = w.files.iter().map(|f| f.bytes().len()).sum();
    crate::alloc::BUDGET.store(3_000_000 + 3000 * bytes as u64, std::sync::atomic::Ordering::SeqCst);
    crate::alloc::LIVE_BUDGET.store((256 << 20) + 4000 * bytes as i64, std::sync::atomic::Ordering::SeqCst);
    let (o, rec) = observe(w, f0(s), &s.chaos[0], st)?;
    st.nontrivial = w.files.iter().any(|f| f.raw.is_some());
    st.count(if o.load_err.is_some() {
        "load failed"
    } else if o.ok {
        "parse succeeded"
    } else {
        "parse failed"
    });
    for f in &w.files {
        if let Some(b) = &f.raw {
            st.fault("corruption", 1);
            if std::str::from_utf8(b).is_err() {
                st.fault("corruption:not-utf8", 1);
            }
        }
    }
    if !o.ok && o.load_err.is_none() && o.errors.is_empty() {
        return Err("silent: parsing failed with no error".into());
    }
    // what is no longer UTF-8 is never accepted
    let vfs = w.vfs();
    for (i, f) in w.files.iter().enumerate() {
        let Some(b) = &f.raw else { continue };
        if std::str::from_utf8(b).is_ok() {
            continue;
        }
        if i == 0 {
            match &o.load_err {
                Some((k, _)) if k == "InvalidData" => {}
                x => return Err(format!("partial: the root file is not UTF-8 but loading gives {:?}", x)),
            }
        } else if rec.opens.contains_key(&f.path) {
            if o.ok {
                return Err(format!("partial: {} is not UTF-8 and was read, but parsing succeeded", f.path));
            }
            let base = f.path.rsplit('/').next().unwrap();
            let names: Vec<String> = std::iter::once(base.to_string())
                .chain(w.links.iter().filter(|(l, _)| vfs.canon_str(l).as_deref() == Some(&f.path)).map(|(l, _)| l.rsplit('/').next().unwrap().to_string()))
                .collect();
            // an include which is itself damaged may be reported as such instead
            let m = Model::new(w);
            let mut asked = BTreeSet::from([0usize]);
            loop {
                let more: Vec<usize> = asked
                    .iter()
                    .filter(|g| w.files[**g].raw.is_none())
                    .flat_map(|g| w.files[*g].items.iter().map(|it| (*g, it)))
                    .flat_map(|(g, it)| match it {
                        Item::Include { pat, .. } if !pattern_error(pat) => m.expand(&m.dir_of(g), pat, &mut BTreeSet::new()),
                        _ => vec![],
                    })
                    .filter_map(|y| match y {
                        Match::File(h, _) if !asked.contains(&h) => Some(h),
                        _ => None,
                    })
                    .collect();
                if more.is_empty() {
                    break;
                }
                asked.extend(more);
            }
            let asked = asked.contains(&i);
            if asked && o.load_err.is_none() && !o.errors.iter().any(|e| e.full().contains("UTF-8") && names.iter().any(|n| e.full().contains(n))) {
                return Err(format!("partial: {} is not UTF-8 and was read, but no error says so", f.path));
            }
        }
    }
    // whatever was returned, its text is in the files
    if o.load_err.is_none() {
        let texts: Vec<Option<String>> = w.files.iter().map(|f| String::from_utf8(f.bytes()).ok()).collect();
        let mut spans: Vec<&obs::OSpan> = vec![];
        for d in &o.dirs {
            spans.push(&d.span);
            spans.extend(d.spans.iter().map(|x| &x.1));
        }
        for e in o.errors.iter().chain(&o.warnings) {
            spans.push(&e.span);
        }
        for sp in spans {
            let ok = texts.iter().flatten().any(|t| t.get(sp.start..sp.start + sp.content.len()) == Some(&sp.content));
            if !ok {
                return Err(format!("garbled: a span {}..{} resolves to {:?}, which is nowhere in the files there", sp.start, sp.end, short(&sp.content)));
            }
        }
    }
    Ok(())
}

// -------- file system discipline

fn run_c14(s: &Scenario, st: &mut Stats) -> Verdict {
    let mut ops = vec![];
    for w in &s.worlds {
        let m = Model::with_faults(w, f0(s));
        // what may be opened does not depend on the faults
        let m0 = Model::new(w);
        let e0 = m0.expect();
        let (dirs, files) = m0.allowed(&e0);
        let (o, rec) = observe(w, f0(s), &s.chaos[0], st)?;
        st.nontrivial = rec.ops > 0;
        ops.push(rec.ops);
        *st.counts.entry("files opened".into()).or_insert(0) += rec.opens.len() as u64;
        st.count(&format!("kind {}", s.kind));
        let e = st.counts.entry("most descriptors open at once".into()).or_insert(0);
        *e = (*e).max(rec.max_open as u64);
        if let Some(a) = rec.alarms.first() {
            return Err(format!("writes: {}", a));
        }
        if !rec.leaked.is_empty() {
            return Err(format!("leak: left open: {:?}", rec.leaked));
        }
        for (p, n) in &rec.opens {
            if !files.contains(p) && !dirs.contains(p) {
                return Err(format!("foreign: opened {}, which is not part of the ledger", p));
            }
            // a failed attempt may be repeated, but what was read whole is not read again
            if *n > 1 && s.faults.iter().all(|f| f.is_empty()) && files.contains(p) {
                return Err(format!("reread: opened {} {} times", p, n));
            }
        }
        for d in &rec.opendirs {
            if !dirs.contains(d) {
                return Err(format!("foreign: listed {}, which no wildcard needs", d));
            }
        }
        for (p, n) in &rec.bytes_read {
            if let Some(f) = w.files.iter().find(|f| &f.path == p) {
                if *n > f.bytes().len() as u64 {
                    return Err(format!("reread: read {} bytes of {}, which has {}", n, p, f.bytes().len()));
                }
            }
        }
        if s.kind != "io" {
            let e = m.expect();
            check_outcome(&m, &e, &o)?;
        } else if s.chaos[0].fd_limit > 0 && f0(s).is_empty() {
            // a handful of descriptors is enough for any ledger
            let e = m.expect();
            check_outcome(&m, &e, &o)?;
        }
    }
    if s.kind == "scale" && ops[1] > ops[0] * 5 / 2 + 40 {
        return Err(format!("superlinear: {} file system calls for {} files, {} for {}", ops[0], s.worlds[0].files.len(), ops[1], s.worlds[1].files.len()));
    }
    Ok(())
}

// -------- attempts

fn run_c15(s: &Scenario, st: &mut Stats) -> Verdict {
    let mut bases = vec![];
    let mut k = 0;
    for op in &s.hops {
        if let HOp::Attempt(i) = op {
            let b = pristine(&s.worlds[*i], &s.faults[k], &s.chaos[0], st)?;
            bases.push(b);
            k += 1;
        }
    }
    st.nontrivial = bases.iter().any(|b| !b.ok) && bases.iter().any(|b| !b.dirs.is_empty() || !b.errors.is_empty());
    *st.counts.entry("attempts".into()).or_insert(0) += bases.len() as u64;
    *st.counts.entry("failed attempts".into()).or_insert(0) += bases.iter().filter(|b| !b.ok).count() as u64;
    let ran = simulate(&s.worlds[0], &[], &s.chaos[0], &[], st, || -> Option<(usize, String)> {
        let mut kept: Vec<(usize, BeancountSources)> = vec![];
        let mut k = 0;
        for op in &s.hops {
            match op {
                HOp::Attempt(i) => {
                    let w = &s.worlds[*i];
                    sim::with_sim(|x| {
                        x.vfs = w.vfs();
                        x.faults = s.faults[k].iter().map(|f| (f.clone(), 0, 0)).collect();
                    });
                    let o = match load(w) {
                        Err(e) => obs::load_error(&e),
                        Ok(src) => {
                            let o = {
                                let p = BeancountParser::new(&src);
                                if k % 2 == 1 {
                                    // a parse and a report given up first
                                    if let Err(e) = p.parse() {
                                        let _ = src.write_errors_or_warnings(&mut Broken, e.errors);
                                    }
                                }
                                obs::parse(&src, &p)
                            };
                            kept.push((k, src));
                            o
                        }
                    };
                    if o != bases[k] {
                        return Some((k, obs::diff(&bases[k], &o)));
                    }
                    k += 1;
                }
                HOp::Parse(j) => {
                    if !kept.is_empty() {
                        let (n, src) = &kept[j % kept.len()];
                        let p = BeancountParser::new(src);
                        let o = obs::parse(src, &p);
                        if o != bases[*n] {
                            return Some((*n, format!("(parsed again later) {}", obs::diff(&bases[*n], &o))));
                        }
                    }
                }
                _ => {}
            }
        }
        None
    });
    let (v, _) = ran.ok("repeated attempts")?;
    match v {
        None => Ok(()),
        Some((k, d)) => Err(format!("trace: attempt {} differs from the same in a fresh process: {}", k, d)),
    }
}

// -------- replacement during loading

fn run_c16(s: &Scenario, st: &mut Stats) -> Verdict {
    let w = &s.worlds[0];
    let (o, rec) = simulate(w, f0(s), &s.chaos[0], &s.mutations, st, || load_and_parse(w)).ok("load and parse")?;
    st.see(o.digest());
    st.nontrivial = rec.mutations_done > 0;
    *st.counts.entry("replacements during load".into()).or_insert(0) += rec.mutations_done as u64;
    // all combinations of versions
    let n = s.versions.len();
    let mut first: Option<String> = None;
    // 0 old, 1 new (or removed, found missing when listed), 2 removed, found missing when opened
    let mut choice = vec![0u8; n];
    loop {
        let mut v = w.clone();
        let mut fs: Vec<Fault> = vec![];
        let mut skip = false;
        for (i, (f, ver)) in s.versions.iter().enumerate() {
            let removal = ver.path.is_empty();
            match choice[i] {
                0 => {}
                1 if !removal => v.files[*f] = ver.clone(),
                1 => {
                    // out of the way, but keeping its index
                    v.files[*f].path = format!("/removed-file-{}", f);
                }
                _ if removal => fs.push(Fault { op: "open".into(), path: w.files[*f].path.clone(), kind: FKind::Errno(libc::ENOENT), skip: 0, times: 0 }),
                _ => skip = true,
            }
        }
        if !skip {
            let m = Model::with_faults(&v, &fs);
            let e = m.expect();
            match check_all(&m, &e, &o) {
                Ok(()) => {
                    st.count(&format!("new versions seen: {}", choice.iter().filter(|c| **c > 0).count()));
                    return Ok(());
                }
                Err(x) => {
                    let k = choice.iter().map(|c| c.to_string()).collect::<String>();
                    let x = format!("[versions {}] {}", k, x);
                    first = Some(match first {
                        None => x,
                        Some(f) if f.len() < 900 => format!("{}; {}", f, x),
                        Some(f) => f,
                    });
                }
            }
        }
        let mut i = 0;
        while i < n {
            choice[i] += 1;
            if choice[i] < 3 {
                break;
            }
            choice[i] = 0;
            i += 1;
        }
        if i == n {
            break;
        }
    }
    Err(format!("mixed: the result fits no combination of complete versions: {}", first.unwrap_or_default()))
}
