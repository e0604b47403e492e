//! Minimising a failing scenario: drop what can be dropped while the same class of violation stays.
use crate::scen::*;
use crate::sim::Chaos;
use std::time::Instant;

pub fn class(v: &str) -> &str {
    v.split(':').next().unwrap_or(v)
}

struct Sh<'a> {
    best: Scenario,
    class: String,
    tries: u64,
    steps: u64,
    max: u64,
    t0: Instant,
    wall: u64,
    run: &'a dyn Fn(&Scenario) -> Result<(), String>,
}

impl Sh<'_> {
    fn out(&self) -> bool {
        self.tries >= self.max || self.t0.elapsed().as_secs() >= self.wall
    }
    fn attempt(&mut self, c: Scenario) -> bool {
        if self.out() || c == self.best {
            return false;
        }
        self.tries += 1;
        // stay within what is generated
        if c.worlds.iter().any(crate::model::Model::ambiguous) {
            return false;
        }
        match (self.run)(&c) {
            Err(v) if class(&v) == self.class => {
                self.best = c;
                self.steps += 1;
                true
            }
            _ => false,
        }
    }
    /// remove pieces of a list, large ones first
    fn list(&mut self, len: impl Fn(&Scenario) -> usize, drop: impl Fn(&mut Scenario, usize, usize)) {
        let mut k = len(&self.best);
        while k > 0 {
            let mut at = 0;
            while at < len(&self.best) {
                let n = len(&self.best);
                let end = (at + k).min(n);
                let mut c = self.best.clone();
                drop(&mut c, at, end);
                if !self.attempt(c) {
                    at += k;
                }
                if self.out() {
                    return;
                }
            }
            k /= 2;
        }
    }
}

pub fn shrink(s: &Scenario, violation: &str, max: u64, wall: u64, run: impl Fn(&Scenario) -> Result<(), String>) -> (Scenario, u64) {
    let mut h = Sh { best: s.clone(), class: class(violation).to_string(), tries: 0, steps: 0, max, t0: Instant::now(), wall, run: &run };
    loop {
        let before = h.steps;
        for i in 0..h.best.chaos.len() {
            let mut c = h.best.clone();
            c.chaos[i] = Chaos { hash_seed: c.chaos[i].hash_seed, ..Default::default() };
            if !h.attempt(c) {
                let fields: [fn(&mut Chaos); 8] = [
                    |c| {
                        c.read_mode = 0;
                        c.read_max = 0
                    },
                    |c| c.eintr_pct = 0,
                    |c| c.dtype_unknown = false,
                    |c| c.dir_order = 0,
                    |c| c.size_lie = 0,
                    |c| c.fd_limit = 0,
                    |c| c.clock = 0,
                    |c| c.addr = 0,
                ];
                for f in fields {
                    let mut c = h.best.clone();
                    f(&mut c.chaos[i]);
                    h.attempt(c);
                }
            }
        }
        for i in 0..h.best.faults.len() {
            h.list(|s| s.faults[i].len(), |s, a, b| {
                s.faults[i].drain(a..b);
            });
        }
        h.list(|s| s.mutations.len(), |s, a, b| {
            s.mutations.drain(a..b);
        });
        if h.best.property != "C15" {
            h.list(|s| s.hops.len(), |s, a, b| {
                s.hops.drain(a..b);
            });
        } else {
            // an attempt goes with its faults
            h.list(|s| s.hops.len(), |s, a, b| {
                for i in (a..b).rev() {
                    if matches!(s.hops[i], HOp::Attempt(_)) {
                        let k = s.hops[..i].iter().filter(|o| matches!(o, HOp::Attempt(_))).count();
                        s.faults.remove(k);
                    }
                    s.hops.remove(i);
                }
            });
        }
        for t in 0..h.best.threads.len() {
            h.list(|s| s.threads[t].len(), |s, a, b| {
                s.threads[t].drain(a..b);
            });
        }
        h.list(|s| s.slices.len(), |s, a, b| {
            s.slices.drain(a..b);
        });
        h.list(|s| s.wsteps.len(), |s, a, b| {
            s.wsteps.drain(a..b);
        });
        for w in 0..h.best.worlds.len() {
            // whole files, emptied (their indices stay)
            h.list(|s| s.worlds[w].files.len(), |s, a, b| {
                for f in &mut s.worlds[w].files[a..b] {
                    f.items.clear();
                    f.raw = None;
                    f.chop = false;
                }
                if s.versions.is_empty() && a > 0 {
                    s.worlds[w].files.drain(a..b);
                }
            });
            h.list(|s| s.worlds[w].links.len(), |s, a, b| {
                s.worlds[w].links.drain(a..b);
            });
            h.list(|s| s.worlds[w].dirs.len(), |s, a, b| {
                s.worlds[w].dirs.drain(a..b);
            });
            let mut f = 0;
            while f < h.best.worlds[w].files.len() {
                let is_raw = h.best.worlds[w].files[f].raw.is_some();
                if is_raw {
                    let mut c = h.best.clone();
                    c.worlds[w].files[f].raw = None;
                    h.attempt(c);
                    h.list(|s| s.worlds[w].files[f].raw.as_ref().map(|r| r.len()).unwrap_or(0), |s, a, b| {
                        s.worlds[w].files[f].raw.as_mut().unwrap().drain(a..b);
                    });
                } else {
                    h.list(|s| s.worlds[w].files[f].items.len(), |s, a, b| {
                        s.worlds[w].files[f].items.drain(a..b);
                    });
                    if h.best.worlds[w].files[f].chop {
                        let mut c = h.best.clone();
                        c.worlds[w].files[f].chop = false;
                        h.attempt(c);
                    }
                }
                f += 1;
            }
        }
        if h.steps == before || h.out() {
            break;
        }
    }
    (h.best, h.steps)
}
