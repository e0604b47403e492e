//! The search: many seeds over many forked processes, then shrinking, reporting and evidence.
use crate::probes;
use crate::rng::{fnv, mix};
use crate::run::*;
use crate::scen::*;
use crate::{shrink, sim};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

pub type Gen = fn(&str, u64, u64) -> Scenario;
pub type Run = fn(&Scenario, &mut Stats) -> Result<(), String>;

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub violation: String,
    pub base_seed: u64,
    pub run: u64,
    pub shrink_steps: u64,
    pub scenario: Scenario,
}

#[derive(Default, Serialize, Deserialize)]
struct Part {
    runs: u64,
    stats: Stats,
    distinct: BTreeSet<u64>,
    nontrivial: BTreeSet<u64>,
    rerun: u64,
    rerun_same: u64,
    violation: Option<(u64, String)>,
    digests: Vec<(u64, u64)>,
}

fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    mix(mix(base) ^ fnv(prop.as_bytes()) ^ i.wrapping_mul(0x9e3779b97f4a7c15))
}

const CPU_S: u64 = 60;
const WALL_S: u64 = 240;

/// one scenario in a process of its own
pub fn isolated(run: Run, s: &Scenario) -> (Result<(), String>, Stats) {
    match forked(CPU_S, WALL_S, || {
        let mut st = Stats::default();
        let v = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut st = Stats::default();
            let r = if s.kind.starts_with("probe:") { probes::run(s, run, &mut st) } else { run(s, &mut st) };
            (r, st)
        })) {
            Ok((r, x)) => {
                st = x;
                r
            }
            Err(_) => Err(format!("harness: the check itself panicked: {}", take_panic())),
        };
        (v, st)
    }) {
        Ok(x) => x,
        Err(e) => (Err(e.say()), Stats::default()),
    }
}

fn shared_min() -> &'static AtomicU64 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        let a = &*(p as *const AtomicU64);
        a.store(u64::MAX, Ordering::SeqCst);
        a
    }
}

struct Search {
    prop: String,
    base: u64,
    runs: u64,
    workers: u64,
    wall_limit: u64,
    keep_digests: bool,
    keep_going: bool,
}

fn search(gen: Gen, run: Run, q: &Search) -> Part {
    let min = shared_min();
    let t0 = Instant::now();
    let mut total = Part::default();
    let children: Vec<_> = (0..q.workers).map(|w| spawn(1_000_000, || worker(gen, run, q, w, min, t0))).collect();
    let parts: Vec<Result<Part, End>> = children.into_iter().map(|c| collect(c, q.wall_limit + 600)).collect();
    for p in parts {
        match p {
            Ok(p) => {
                total.runs += p.runs;
                total.stats.merge(&p.stats);
                total.distinct.extend(p.distinct);
                total.nontrivial.extend(p.nontrivial);
                total.rerun += p.rerun;
                total.rerun_same += p.rerun_same;
                total.digests.extend(p.digests);
                if let Some((i, v)) = p.violation {
                    if total.violation.as_ref().map(|x| i < x.0).unwrap_or(true) {
                        total.violation = Some((i, v));
                    }
                }
            }
            Err(e) => {
                eprintln!("a worker process was lost: {}", e.say());
                std::process::exit(2);
            }
        }
    }
    total
}

fn worker(gen: Gen, run: Run, q: &Search, w: u64, min: &AtomicU64, t0: Instant) -> Part {
    let mut p = Part::default();
    let mut i = w;
    while i < q.runs {
        if !q.keep_going && i > min.load(Ordering::SeqCst) {
            break;
        }
        if t0.elapsed().as_secs() > q.wall_limit {
            break;
        }
        let s = gen(&q.prop, seed_of(q.base, &q.prop, i), i);
        let (r, st) = isolated(run, &s);
        p.runs += 1;
        let d = st.digest;
        if i % 50 == 7 {
            p.rerun += 1;
            let (r2, st2) = isolated(run, &s);
            if st2.digest == d && r2 == r {
                p.rerun_same += 1;
            } else if q.prop == "C03" && r.is_ok() {
                min.fetch_min(i, Ordering::SeqCst);
                p.violation.get_or_insert((i, "nondeterministic: the same simulated execution, repeated, went differently".into()));
            }
        }
        for h in &st.hashes {
            p.distinct.insert(*h);
        }
        if st.nontrivial {
            p.nontrivial.insert(d);
        }
        if q.keep_digests {
            p.digests.push((i, d));
        }
        let mut st = st;
        st.hashes.clear();
        p.stats.merge(&st);
        if let Err(v) = r {
            if q.keep_going {
                println!("{} run {} seed {:#x}: {}", q.prop, i, s.seed, v);
                p.violation.get_or_insert((i, v));
            } else {
                min.fetch_min(i, Ordering::SeqCst);
                if p.violation.as_ref().map(|x| i < x.0).unwrap_or(true) {
                    p.violation = Some((i, v));
                }
                break;
            }
        }
        i += q.workers;
    }
    p
}

pub fn runs_for(prop: &str, thorough: bool) -> u64 {
    let quick = match prop {
        "C01" | "C02" => 20000,
        "C03" => 6000,
        "C04" => 6000,
        "C05" => 6000,
        "C06" => 30000,
        "C07" => 10000,
        "C08" => 25000,
        "C09" => 30000,
        "C10" => 15000,
        "C11" => 8000,
        "C12" => 12000,
        "C13" => 30000,
        "C14" => 3000,
        "C15" => 5000,
        "C16" => 30000,
        _ => 1000,
    };
    if thorough {
        quick * 25
    } else {
        quick
    }
}

struct Args(Vec<String>);
impl Args {
    fn opt(&self, k: &str) -> Option<String> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1).cloned())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.opt(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
    fn has(&self, k: &str) -> bool {
        self.0.iter().any(|a| a == k)
    }
}

pub fn verif_dir() -> String {
    std::env::var("LIMASIM_VERIF").unwrap_or("/verif".into())
}

pub fn main(gen: Gen, run: Run) {
    sim::set_mode(sim::HOST);
    install_hook();
    let a = Args(std::env::args().skip(1).collect());
    let cmd = a.0.first().cloned().unwrap_or_default();
    let arg = a.0.get(1).cloned().unwrap_or_default();
    let code = match cmd.as_str() {
        "check" => check(gen, run, &arg, &a),
        "replay" => replay(run, &arg),
        "show" => {
            let i = a.num("--run", 0);
            let s = gen(&arg, seed_of(a.num("--seed", 1), &arg, i), i);
            println!("{}", show(&s));
            0
        }
        "one" => {
            let i = a.num("--run", 0);
            let s = gen(&arg, seed_of(a.num("--seed", 1), &arg, i), i);
            if a.has("--trace") {
                TRACE.store(true, Ordering::Relaxed);
            }
            let (r, st) = isolated(run, &s);
            println!("{:?}\n{:?}", r, st);
            if r.is_err() && a.has("--show") {
                println!("{}", show(&s));
            }
            if r.is_err() && a.has("--shrink") {
                let (s, n) = shrink::shrink(&s, r.as_ref().unwrap_err(), 600, 200, |c| isolated(run, c).0);
                println!("after {} steps: {:?}\n{}", n, isolated(run, &s).0, show(&s));
                std::fs::write("/tmp/one.json", serde_json::to_string(&s).unwrap()).unwrap();
            }
            r.is_err() as i32
        }
        "sweep" => {
            let q = Search { prop: arg.clone(), base: a.num("--seed", 1), runs: a.num("--runs", 1000), workers: a.num("--workers", 8), wall_limit: a.num("--wall", 3600), keep_digests: false, keep_going: true };
            let t0 = Instant::now();
            let p = search(gen, run, &q);
            let s = t0.elapsed().as_secs_f64();
            println!(
                "{}: {} runs in {:.1}s ({:.0}/s), {} distinct executions, {} nontrivial, rerun {}/{}",
                arg,
                p.runs,
                s,
                p.runs as f64 / s,
                p.distinct.len(),
                p.nontrivial.len(),
                p.rerun_same,
                p.rerun
            );
            if a.has("--stats") {
                println!("{:#?}", (p.stats.fired, p.stats.counts, p.stats.by_op, p.stats.ops, p.stats.allocs, p.stats.switches, p.stats.points, p.stats.blocks));
            }
            p.violation.is_some() as i32
        }
        "twice" => {
            let mut ds: Vec<BTreeMap<u64, u64>> = vec![];
            for w in [8u64, 3] {
                let q = Search { prop: arg.clone(), base: a.num("--seed", 1), runs: a.num("--runs", 300), workers: w, wall_limit: 3600, keep_digests: true, keep_going: true };
                ds.push(search(gen, run, &q).digests.into_iter().collect());
            }
            let same = ds[0].iter().filter(|(k, v)| ds[1].get(k) == Some(v)).count();
            println!("{}: {} of {} runs identical at 8 and at 3 workers", arg, same, ds[0].len());
            (same != ds[0].len()) as i32
        }
        "digests" => {
            let q = Search { prop: arg.clone(), base: a.num("--seed", 1), runs: a.num("--runs", 100), workers: a.num("--workers", 8), wall_limit: 3600, keep_digests: true, keep_going: true };
            let mut d = search(gen, run, &q).digests;
            d.sort();
            for (i, x) in d {
                println!("{} {:016x}", i, x);
            }
            0
        }
        _ => {
            eprintln!("usage: limasim check|replay|one|show|sweep|twice|digests ...");
            2
        }
    };
    std::process::exit(code);
}

fn replay(run: Run, path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let (s, want): (Scenario, String) = match serde_json::from_str::<Replay>(&t) {
        Ok(r) => (r.scenario, r.violation),
        Err(_) => match serde_json::from_str::<Scenario>(&t) {
            Ok(s) => (s, String::new()),
            Err(e) => {
                eprintln!("{}: {}", path, e);
                return 2;
            }
        },
    };
    println!("{}", show(&s));
    TRACE.store(true, Ordering::Relaxed);
    let (r, st) = isolated(run, &s);
    println!("execution digest {:016x}", st.digest);
    match r {
        Ok(()) => {
            println!("no violation");
            0
        }
        Err(v) => {
            println!("violation: {}", v);
            if !want.is_empty() {
                println!("{}", if v == want { "exactly as recorded" } else { "NOT as recorded" });
            }
            println!("VIOLATION property={} replay={}", s.property, path);
            1
        }
    }
}

/// a scenario for people
pub fn show(s: &Scenario) -> String {
    let mut o = format!("property {} kind {} seed {:#x}\n", s.property, s.kind, s.seed);
    for (i, w) in s.worlds.iter().enumerate() {
        o += &format!("world {}: cwd {} root {:?}{}\n", i, w.cwd, w.root, if w.inline { " (inline)" } else { "" });
        for d in &w.dirs {
            o += &format!("  dir  {}\n", d);
        }
        for (l, t) in &w.links {
            o += &format!("  link {} -> {}\n", l, t);
        }
        for f in &w.files {
            let b = f.bytes();
            o += &format!("  file {} ({} bytes{})\n", f.path, b.len(), if f.raw.is_some() { ", damaged" } else { "" });
            let t = String::from_utf8_lossy(&b).into_owned();
            let cut: String = t.chars().take(3000).collect();
            for l in cut.split_inclusive('\n') {
                o += &format!("    | {}\n", l.escape_debug());
            }
        }
    }
    for (i, f) in s.faults.iter().enumerate() {
        for x in f {
            o += &format!("fault[{}] {:?}\n", i, x);
        }
    }
    for c in &s.chaos {
        o += &format!("chaos {:?}\n", c);
    }
    for m in &s.mutations {
        o += &format!("mutation {:?}\n", m);
    }
    for (k, v) in &s.versions {
        o += &format!("version of file {}: {:?} {:?}\n", k, v.path, v.text());
    }
    if !s.hops.is_empty() {
        o += &format!("operations {:?}\n", s.hops);
    }
    for (i, t) in s.threads.iter().enumerate() {
        o += &format!("thread {}: {:?}\n", i, t);
    }
    if !s.threads.is_empty() {
        o += &format!("schedule (thread, steps) {:?} then round robin by {} (switch points mask {})\n", s.slices, s.sched_tail, s.sched_mask);
    }
    if !s.wsteps.is_empty() {
        o += &format!("writer {:?}\n", s.wsteps);
    }
    if !s.nums.is_empty() {
        o += &format!("parameters {:?}\n", s.nums);
    }
    o
}

fn check(gen: Gen, run: Run, prop: &str, a: &Args) -> i32 {
    let t0 = Instant::now();
    let tier = a.opt("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let base = a.opt("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let runs = a.num("--runs", runs_for(prop, thorough));
    let vd = verif_dir();
    println!("{} {}: base seed {}, {} runs", prop, tier, base, runs);

    // fixed scenarios: repaired defects stay repaired, recorded findings are announced
    let listed = probes::listed(&vd);
    let mut probe_lines = vec![];
    let mut known = vec![];
    let mut bad: Option<(Scenario, String, u64)> = None;
    for s in probes::all(prop) {
        let (r, _) = isolated(run, &s);
        let name = s.kind.trim_start_matches("probe:").to_string();
        match r {
            Ok(()) => probe_lines.push(json!({"probe": name, "result": "held"})),
            Err(v) => {
                if let Some(what) = listed.get(&(prop.to_string(), name.clone())) {
                    println!("KNOWN-FINDING: property={} {} ({})", prop, what, name);
                    known.push(name.clone());
                    probe_lines.push(json!({"probe": name, "result": "known finding", "violation": v}));
                } else {
                    println!("probe {}: {}", name, v);
                    bad.get_or_insert((s, v, 0));
                }
            }
        }
    }

    let q = Search { prop: prop.into(), base, runs, workers: a.num("--workers", 8), wall_limit: a.num("--wall", if thorough { 3000 } else { 240 }), keep_digests: false, keep_going: false };
    let mut p = Part::default();
    let mut search_s = 0.0;
    if bad.is_none() {
        let t1 = Instant::now();
        p = search(gen, run, &q);
        search_s = t1.elapsed().as_secs_f64();
        if let Some((i, v)) = &p.violation {
            let s = gen(prop, seed_of(base, prop, *i), *i);
            println!("run {} (seed {:#x}): {}", i, s.seed, v);
            bad = Some((s, v.clone(), *i));
        }
    }

    let mut replay_path = String::new();
    if let Some((s, v, i)) = &bad {
        let dir = format!("{}/out", vd);
        let _ = std::fs::create_dir_all(&dir);
        replay_path = format!("{}/{}-{}-{}.json", dir, prop, base, i);
        let orig = format!("{}/{}-{}-{}.original.json", dir, prop, base, i);
        let write = |path: &str, s: &Scenario, v: &str, n: u64| {
            let r = Replay { property: prop.into(), violation: v.into(), base_seed: base, run: *i, shrink_steps: n, scenario: s.clone() };
            if let Err(e) = std::fs::write(path, serde_json::to_string_pretty(&r).unwrap()) {
                eprintln!("cannot write {}: {}", path, e);
            }
        };
        write(&orig, s, v, 0);
        if s.kind.starts_with("probe:") {
            write(&replay_path, s, v, 0);
        } else {
            let (m, n) = shrink::shrink(s, v, 500, 90, |c| isolated(run, c).0);
            // once more, as the replay will
            let (r, _) = isolated(run, &m);
            match r {
                Err(v) => {
                    println!("minimised in {} steps: {}", n, v);
                    write(&replay_path, &m, &v, n)
                }
                Ok(()) => write(&replay_path, s, v, 0),
            }
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    let samples: Vec<Value> = (0..3u64.min(runs))
        .map(|i| {
            let s = gen(prop, seed_of(base, prop, i), i);
            let t = show(&s);
            json!({"run": i, "seed": s.seed, "scenario": t.chars().take(2500).collect::<String>()})
        })
        .collect();
    let st = &p.stats;
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": p.runs,
            "distinct_nontrivial": p.nontrivial.len(),
            "rule": crate::probes::rule(prop),
            "samples": samples,
            "seeds": format!("run i of 0..{} uses splitmix(base seed {}, property, i)", runs, base),
            "simulated_executions": st.execs,
            "simulated_steps": {"file_system_calls": st.ops, "allocations": st.allocs, "scheduler_points": st.points, "context_switches": st.switches, "blocking_waits": st.blocks},
            "simulated_time": "a step clock: each simulated system call (and, for schedules, each allocation) is one tick; the library reads no wall clock and sets no timers, but if it did it would get a simulated one, which jumps forward and backward",
            "system_calls_by_kind": st.by_op,
            "faults_injected": st.fired,
            "distinct_executions": p.distinct.len(),
            "distinct_executions_measure": "hash of the complete ordered log of simulated system calls with their arguments and results (and, with threads, of all context switches)",
            "conditions_reached": st.counts,
            "runs_per_hour": if search_s > 0.0 { (p.runs as f64 * 3600.0 / search_s) as u64 } else { 0 },
            "executions_per_hour": if search_s > 0.0 { (st.execs as f64 * 3600.0 / search_s) as u64 } else { 0 },
            "repeated_runs": p.rerun,
            "repeated_runs_identical": p.rerun_same,
            "fixed_scenarios": probe_lines,
            "known_findings": known,
            "real": ["beancount-parser-lima as built from /repo", "its dependencies (chumsky, logos, glob, path-clean, ariadne, rust_decimal, time, ...)", "the Rust standard library above the system call layer"],
            "stub": ["the file system and its system calls (in-memory, libc symbols interposed)", "getrandom (hash keys)", "thread scheduling (one thread at a time, chosen by the scenario) where threads are used", "writers given to reports"],
        },
        "assumptions": [
            "the library does its I/O through libc calls (checked: any real path it opened would not exist in the simulated file system)",
            "the sampled ledgers, faults and schedules; a clean batch is evidence, not proof"
        ],
        "wall_s": wall,
        "violations": bad.is_some() as u64,
    });
    let ed = format!("{}/evidence", vd);
    let _ = std::fs::create_dir_all(&ed);
    let path = a.opt("--evidence").unwrap_or(format!("{}/{}.json", ed, prop));
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("cannot write {}: {}", path, e);
        return 2;
    }
    println!("{} runs, {} executions, {} distinct, {} fault kinds, {:.1}s", p.runs, st.execs, p.distinct.len(), st.fired.len(), wall);
    if bad.is_some() {
        println!("VIOLATION property={} replay={}", prop, replay_path);
        return 1;
    }
    if p.runs < runs {
        println!("stopped by the wall clock limit after {} of {} runs", p.runs, runs);
    }
    0
}
