//! C05: real threads of the library under the deterministic scheduler.
use crate::gen::*;
use crate::obs::{self, Obs, Resolve};
use crate::props::{self, Broken};
use crate::rng::{fnv, Rng};
use crate::run::*;
use crate::scen::*;
use crate::sim::{self, Fault};
use crate::{alloc, sched};
use beancount_parser_lima::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

/// Sources, parser and results can be shared between and sent to threads: decided by the compiler.
#[allow(dead_code)]
mod can_be_shared {
    use beancount_parser_lima::*;
    fn both<T: Send + Sync>() {}
    fn all() {
        both::<BeancountSources>();
        both::<BeancountParser<'static>>();
        both::<ParseSuccess<'static>>();
        both::<ParseError>();
        both::<Error>();
        both::<Warning>();
        both::<Spanned<Directive<'static>>>();
        both::<Options<'static>>();
        both::<Plugin<'static>>();
        both::<SyntheticSources<'static>>();
    }
}

pub fn generate(prop: &str, seed: u64, index: u64) -> Scenario {
    if prop != "C05" {
        panic!("limaconc decides C05 only");
    }
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let mut s = Scenario { property: prop.into(), seed, kind: "threads".into(), ..Default::default() };
    let mut id = 0;
    let nw = r.range(1, 3);
    let bases = ["/led", "/other", "/third"];
    for i in 0..nw {
        let mut p = Prof::random(r);
        p.files = *r.pick(&[(1, 2), (2, 4), (3, 7)]);
        p.big = 0;
        p.bad = *r.pick(&[0usize, 0, 15]);
        p.unbalanced = *r.pick(&[0usize, 0, 40]);
        if i > 0 {
            p.inline = 0;
        }
        let mut w = gen_world(r, &p, bases[i], &mut id).world;
        if i > 0 {
            w.cwd = s.worlds[0].cwd.clone();
            w.root = w.files[0].path.clone();
        }
        s.worlds.push(w);
    }
    // a fault belongs to one ledger and lasts
    let mut fs: Vec<Fault> = vec![];
    for i in 0..nw {
        if r.chance(35) {
            let n = r.range(1, 2);
            let root = i > 0 || r.chance(20);
            fs.extend(props::faults(r, &s.worlds[i], n, true, root, true));
        }
    }
    s.faults = vec![fs];
    let mut c = props::chaos(r, &s.worlds[0]);
    c.read_max = c.read_max.max(31);
    s.chaos = vec![c];
    let k = r.range(2, 4);
    for _ in 0..k {
        let n = r.range(1, 3);
        let ops = (0..n)
            .map(|_| match r.below(12) {
                0..=3 => HOp::Attempt(r.below(nw)),
                4..=5 => HOp::Parse(0),
                6 => HOp::NewParser(0),
                7 => HOp::Clone(0),
                8 => HOp::Resolve(0),
                9 => HOp::Report(0),
                10 => HOp::ResolveSyn(r.below(4)),
                _ => HOp::Drop(r.below(nw)),
            })
            .collect();
        s.threads.push(ops);
    }
    // sometimes everyone does the same, in lockstep
    if r.chance(25) {
        let t = s.threads[0].clone();
        for x in s.threads.iter_mut() {
            *x = t.clone();
        }
    }
    s.sched_mask = *r.pick(&[
        sched::FS,
        sched::ALLOC,
        sched::FS | sched::ALLOC,
        sched::EDGE,
        sched::SHARED,
        sched::SHARED,
        sched::SHARED | sched::FS,
        sched::EDGE | sched::ALLOC,
    ]);
    let style = r.below(5);
    let n = r.range(3, 60);
    for _ in 0..n {
        let len = match style {
            0 => r.range(1, 3),
            1 => 1 << r.below(12),
            2 => r.range(1, 5000),
            3 => *r.pick(&[1usize, 1, 2, 3000]),
            _ => 1 << r.below(7),
        };
        s.slices.push((r.below(k) as u8, len as u32));
    }
    s.sched_tail = *r.pick(&[1u32, 2, 5, 17, 100, 1000, 100_000]);
    if s.sched_mask & sched::EDGE != 0 {
        for (_, n) in s.slices.iter_mut() {
            if r.chance(50) {
                *n = 1 << r.below(20);
            }
        }
        s.sched_tail = *r.pick(&[300u32, 3000, 30_000, 1_000_000]);
    }
    let _ = index;
    s
}

/// what a thread makes of shared sources through synthetic ones of its own
fn syn(src: &BeancountSources, k: usize) -> String {
    let mut o = String::new();
    let mut x = SyntheticSources::new(src);
    let mut spans = vec![];
    for i in 0..4 {
        let text = ["2024-01-01 open Assets:X", "é😱 second", "line\nother line", "z"][(i + k) % 4];
        spans.push(x.create_synthetic_span(["plugin-a", "plugin-b"][(i * (k + 1)) % 2], text));
    }
    for sp in &spans {
        o += &format!("{:?}\n", x.res(sp));
        let mut w = vec![];
        let r = x.write_errors_or_warnings(&mut w, vec![spanned(Booking::Strict, *sp).error("why")]);
        o += &format!("{:?} {}\n", r.map_err(|e| e.kind()), String::from_utf8_lossy(&w));
    }
    o
}

/// resolve nonsense and report every directive to a writer which refuses
fn failing_reports(src: &BeancountSources, r: &Result<ParseSuccess, ParseError>) -> String {
    let mut o = String::new();
    match r {
        Err(e) => {
            for e in e.errors.iter().take(5) {
                o += &format!("{:?};", src.write_errors_or_warnings(&mut Broken, vec![e.clone()]).map_err(|e| e.kind()));
            }
        }
        Ok(ok) => {
            for d in ok.directives.iter().take(5) {
                o += &format!("{:?};", src.write_errors_or_warnings(&mut Broken, vec![d.error("x")]).map_err(|e| e.kind()));
            }
        }
    }
    o
}

#[derive(serde::Serialize, serde::Deserialize, Clone, PartialEq)]
enum Seen {
    Obs(Box<Obs>),
    Text(String),
    Skipped,
}

struct Shared<'a> {
    src: &'a BeancountSources,
    parser: BeancountParser<'a>,
    result: Result<ParseSuccess<'a>, ParseError>,
}

fn perform(s: &Scenario, op: &HOp, sh: Option<&Shared>) -> Seen {
    let see = |o: Obs| Seen::Obs(Box::new(o));
    match op {
        HOp::Attempt(i) => see(load_and_parse(&s.worlds[*i])),
        HOp::Drop(i) => {
            // loaded here, used and dropped elsewhere: only what is counted comes back
            match load(&s.worlds[*i]) {
                Err(e) => see(obs::load_error(&e)),
                Ok(src) => {
                    let src = Arc::new(src);
                    let p = BeancountParser::new(&src);
                    let _ = p.parse();
                    see(obs::parse(&src, &p))
                }
            }
        }
        _ => {
            let Some(sh) = sh else { return Seen::Skipped };
            match op {
                HOp::Parse(_) => see(obs::parse(sh.src, &sh.parser)),
                HOp::NewParser(_) => see(obs::parse(sh.src, &BeancountParser::new(sh.src))),
                HOp::Clone(_) => {
                    let c = sh.src.clone();
                    let p = BeancountParser::new(&c);
                    see(obs::parse(&c, &p))
                }
                HOp::Resolve(_) => see(obs::result(sh.src, &sh.result)),
                HOp::Report(_) => Seen::Text(failing_reports(sh.src, &sh.result)),
                HOp::ResolveSyn(k) => Seen::Text(syn(sh.src, *k)),
                _ => Seen::Skipped,
            }
        }
    }
}

/// the same worlds on one disk
fn disk(s: &Scenario) -> crate::vfs::Vfs {
    let mut v = s.worlds[0].vfs();
    for w in &s.worlds[1..] {
        for d in &w.dirs {
            v.mkdirs(d);
        }
        for f in &w.files {
            v.put_file(&f.path, f.bytes());
        }
        for (l, t) in &w.links {
            v.put_link(l, t);
        }
    }
    v
}

fn with_shared<T>(s: &Scenario, f: impl FnOnce(Option<&Shared>) -> T) -> T {
    match load(&s.worlds[0]) {
        Err(_) => f(None),
        Ok(src) => {
            let parser = BeancountParser::new(&src);
            let p2 = BeancountParser::new(&src);
            let result = p2.parse();
            f(Some(&Shared { src: &src, parser, result }))
        }
    }
}

pub fn run(s: &Scenario, st: &mut Stats) -> Result<(), String> {
    let faults = s.faults.first().cloned().unwrap_or_default();
    // each operation alone in a process of its own
    let mut kinds: Vec<HOp> = vec![];
    for op in s.threads.iter().flatten() {
        if !kinds.contains(op) {
            kinds.push(op.clone());
        }
    }
    let mut alone: Vec<(HOp, Seen)> = vec![];
    for op in &kinds {
        let r: Result<(Result<Seen, String>, Stats), End> = forked(60, 200, || {
            let mut st = Stats::default();
            let shared = !matches!(op, HOp::Attempt(_) | HOp::Drop(_));
            let r = simulate_vfs(disk(s), &faults, &s.chaos[0], &[], &mut st, || if shared { with_shared(s, |sh| perform(s, op, sh)) } else { perform(s, op, None) });
            (r.ok("a thread alone").map(|x| x.0), st)
        });
        match r {
            Ok((r, x)) => {
                st.merge(&x);
                alone.push((op.clone(), r?));
            }
            Err(e) => return Err(e.say()),
        }
    }
    let n = s.threads.len();
    if n == 0 {
        return Ok(());
    }
    let results: Vec<Mutex<Vec<Result<Seen, String>>>> = (0..n).map(|_| Mutex::new(vec![])).collect();
    let ran = simulate_vfs(disk(s), &faults, &s.chaos[0], &[], st, || {
        with_shared(s, |sh| {
            sim::host(|| {
                std::thread::scope(|scope| {
                    let shared = sh.map_or([(0, 0); 2], |sh| {
                        let at = |p: *const u8, n: usize| (p as usize, n);
                        [
                            at(sh.src as *const _ as *const u8, std::mem::size_of_val(sh.src)),
                            at(&sh.parser as *const _ as *const u8, std::mem::size_of_val(&sh.parser)),
                        ]
                    });
                    sched::start(n, s.slices.clone(), s.sched_mask, s.sched_tail, shared);
                    for (t, ops) in s.threads.iter().enumerate() {
                        let results = &results;
                        std::thread::Builder::new()
                            .stack_size(STACK)
                            .spawn_scoped(scope, move || {
                                sim::set_mode(sim::HOST);
                                sched::enter(t as u32);
                                sim::guest(|| {
                                    drop(std::collections::hash_map::RandomState::new());
                                    for op in ops {
                                        let v = catch_unwind(AssertUnwindSafe(|| perform(s, op, sh)));
                                        sim::host(|| results[t].lock().unwrap().push(v.map_err(|_| take_panic())));
                                    }
                                });
                                sched::leave(t as u32);
                            })
                            .unwrap();
                    }
                    sched::go();
                });
                sched::stop();
            })
        })
    });
    let points = sched::POINTS.load(Ordering::SeqCst);
    let switches = sched::SWITCHES.load(Ordering::SeqCst);
    st.points += points;
    st.switches += switches;
    st.blocks += sched::BLOCKS.load(Ordering::SeqCst);
    let h = sched::HASH.load(Ordering::SeqCst);
    st.see(h);
    st.hashes.push(h);
    st.count_n("basic blocks run", sched::EDGES.load(Ordering::SeqCst));
    st.count_n("accesses to shared memory as switch points", sched::SHARES.load(Ordering::SeqCst));
    ran.ok("the shared ledger")?;
    st.nontrivial = switches > n as u64;
    st.count(&format!("{} threads", n));
    for (t, ops) in s.threads.iter().enumerate() {
        let got = results[t].lock().unwrap();
        for (i, op) in ops.iter().enumerate() {
            let want = &alone.iter().find(|x| &x.0 == op).unwrap().1;
            let name = match op {
                HOp::Attempt(_) => "load and parse",
                HOp::Parse(_) => "parse with the shared parser",
                HOp::NewParser(_) => "new parser on shared sources",
                HOp::Clone(_) => "parse of cloned sources",
                HOp::Resolve(_) => "use of a shared result",
                HOp::Report(_) => "reports to a failing writer",
                HOp::ResolveSyn(_) => "synthetic spans",
                _ => "load and parse twice",
            };
            st.count(name);
            match got.get(i) {
                None => return Err(format!("lost: thread {} never got to step {}", t, i)),
                Some(Err(p)) => return Err(format!("panic: thread {} ({}) panicked: {}", t, name, p)),
                Some(Ok(v)) => {
                    st.see(match v {
                        Seen::Obs(o) => o.digest(),
                        Seen::Text(t) => fnv(t.as_bytes()),
                        Seen::Skipped => 0,
                    });
                    if v != want {
                        let d = match (want, v) {
                            (Seen::Obs(a), Seen::Obs(b)) => obs::diff(a, b),
                            (Seen::Text(a), Seen::Text(b)) => format!("{:?} versus {:?}", a.chars().take(300).collect::<String>(), b.chars().take(300).collect::<String>()),
                            _ => "another kind of outcome".into(),
                        };
                        return Err(format!("differs: thread {} ({}), alone versus among {} threads: {}", t, name, n, d));
                    }
                }
            }
        }
    }
    Ok(())
}
