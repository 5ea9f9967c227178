//! Runs one scenario: symbolic exploration, then replay of its paths on the real curve.
use crate::sym::engine::{self, st};
use crate::sym::explore::*;
use crate::world::*;
use ark_bls12_381::Fr;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone)]
pub struct Scen {
    pub prop: &'static str,
    pub name: String,
    /// runs only in the thorough tier
    pub deep: bool,
    pub depth: u32,
    pub paths: usize,
    pub replays: usize,
    pub sym: Arc<dyn Fn() + Send + Sync>,
    pub real: Arc<dyn Fn() + Send + Sync>,
    /// worker threads the whole scenario runs with
    pub pool: usize,
    /// see bind::LAST
    pub last: usize,
    /// see `joint`
    pub joint: bool,
    pub bounds: String,
}

impl Scen {
    /// the same scenario under a pool of another size
    pub fn pooled(&self, pool: usize, paths: usize) -> Scen {
        Scen {
            name: format!("{}/pool={}", self.name, pool),
            depth: self.depth.min(1),
            paths: paths.min(self.paths),
            replays: self.replays.min(2),
            pool,
            bounds: format!("{}; {} worker threads", self.bounds, pool),
            ..self.clone()
        }
    }
    /// the same scenario with ark-inner-products built without its "parallel" feature (run_check uses the other binary)
    pub fn seq(&self) -> Scen {
        Scen { name: format!("{}/seq", self.name), paths: self.paths.min(4), replays: self.replays.min(2), bounds: format!("{}; ark-inner-products built without its parallel feature", self.bounds), ..self.clone() }
    }
    /// the same scenario with another conjunct of its relation decided last
    pub fn alone(&self, last: usize) -> Scen {
        Scen { name: format!("{}/alone={}", self.name, last), last, bounds: format!("{}; conjunct {} decided last", self.bounds, last), ..self.clone() }
    }
    /// the same scenario, any number of relations combined: only conditions on challenges alone count towards the depth
    pub fn joint(&self) -> Scen {
        Scen { name: format!("{}/joint", self.name), joint: true, bounds: format!("{}; any relations combined", self.bounds), ..self.clone() }
    }
    fn run_sym(&self) {
        crate::scen::bind::LAST.store(self.last, std::sync::atomic::Ordering::SeqCst);
        in_pool(self.pool, || (self.sym)())
    }
    fn run_real(&self) {
        crate::scen::bind::LAST.store(self.last, std::sync::atomic::Ordering::SeqCst);
        in_pool(self.pool, || (self.real)())
    }
}
pub fn in_pool<R: Send>(n: usize, f: impl FnOnce() -> R + Send) -> R {
    // deep recursion over large terms
    rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(1 << 28).build().unwrap().install(f)
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Replay {
    failures: Vec<(String, String)>,
    obs: Vec<(String, String)>,
    panic: Option<String>,
}
fn replay(sc: &Scen, seed: u64, assign: &BTreeMap<String, Fr>, out: &PathOut) -> Replay {
    let mut p = patches(assign, &out.bools);
    p.extend(out.forced.iter().cloned());
    real_reset(seed, assign.clone(), out.chals.clone(), p);
    let r = catch_unwind(AssertUnwindSafe(|| sc.run_real()));
    let s = real_take();
    Replay {
        failures: s.failures.iter().map(|f| (f.label.clone(), f.detail.clone())).collect(),
        obs: s.observations,
        panic: r.err().map(|e| panic_text(&*e)),
    }
}

pub fn run(sc: &Scen, seed: u64, secs: f64, deep: bool) -> String {
    let t0 = Instant::now();
    engine::init(seed, if deep { 60_000 } else { 20_000 });
    let lim = Limits {
        paths: if deep { sc.paths * 12 } else { sc.paths },
        sides: if deep { 4 } else { 2 },
        depth: if deep { sc.depth + 1 + (sc.depth > 0) as u32 } else { sc.depth },
        secs,
        joint: sc.joint,
    };
    let o = explore(&|| sc.run_sym(), lim);
    let t_sym = t0.elapsed().as_secs_f64();
    let mut fails = vec![];
    let (mut validated, mut mismatches) = (0u64, vec![]);
    let cap = if deep { sc.replays * 6 } else { sc.replays };
    let n_ok = o.paths.iter().filter(|p| p.failures.is_empty()).count();
    let stride = (n_ok / cap.max(1)).max(1);
    let mut seen_ok = 0;
    for p in &o.paths {
        if !p.failures.is_empty() {
            // counterexample: replay it, the solver's point first
            let mut rep = None;
            let mut used = &p.assign;
            for a in p.model.iter().chain(std::iter::once(&p.assign)) {
                let r = replay(sc, seed, a, p);
                let hit = !r.failures.is_empty() || r.panic.is_some();
                used = a;
                let stop = hit;
                rep = Some(r);
                if stop {
                    break;
                }
            }
            let r = rep.unwrap();
            let confirmed = !r.failures.is_empty() || r.panic.is_some();
            fails.push(format!(
                "{{\"labels\":[{}],\"detail\":{},\"trail\":[{}],\"confirmed\":{},\"real\":[{}],\"real_panic\":{},\"assign\":{{{}}},\"bools\":{{{}}}}}",
                p.failures.iter().map(|f| esc(&f.label)).collect::<Vec<_>>().join(","),
                esc(&p.failures.iter().map(|f| f.detail.chars().take(300).collect::<String>()).collect::<Vec<_>>().join(" | ")),
                p.trail.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
                confirmed,
                r.failures.iter().map(|f| esc(&f.0)).collect::<Vec<_>>().join(","),
                r.panic.as_ref().map(|s| esc(s)).unwrap_or("null".into()),
                used.iter().map(|(k, v)| format!("{}:{}", esc(k), esc(&fr_hex(v)))).collect::<Vec<_>>().join(","),
                p.bools.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
            ));
            continue;
        }
        seen_ok += 1;
        let stopped = p.stopped.is_some();
        if !(stopped || ((seen_ok - 1) % stride == 0 && (validated as usize) < cap)) {
            continue;
        }
        let r = replay(sc, seed, &p.assign, p);
        if !r.failures.is_empty() || (r.panic.is_some()) {
            // the real code violates the assertion at a point the symbolic run did not flag
            fails.push(format!(
                "{{\"labels\":[{}],\"detail\":{},\"trail\":[{}],\"confirmed\":true,\"real\":[{}],\"real_panic\":{},\"assign\":{{}},\"bools\":{{}},\"only_real\":true}}",
                r.failures.iter().map(|f| esc(&f.0)).collect::<Vec<_>>().join(","),
                esc(p.stopped.as_deref().unwrap_or("symbolic run passed")),
                p.trail.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
                r.failures.iter().map(|f| esc(&f.0)).collect::<Vec<_>>().join(","),
                r.panic.as_ref().map(|s| esc(s)).unwrap_or("null".into()),
            ));
            continue;
        }
        if stopped {
            continue;
        }
        if r.obs == p.observations {
            validated += 1;
        } else {
            let d = r
                .obs
                .iter()
                .zip(&p.observations)
                .find(|(a, b)| a != b)
                .map(|(a, b)| format!("real {:?} symbolic {:?}", a, b))
                .unwrap_or_else(|| format!("{} vs {} observations", r.obs.len(), p.observations.len()));
            mismatches.push(format!("{} [{}]", d, p.trail.join("; ")));
        }
    }
    let left = (secs - t0.elapsed().as_secs_f64()).max(5.0);
    let ops = crate::sym::ops::validate(if deep { 400_000 } else { 60_000 }, if deep { left } else { left.min(20.0) });
    let mut g = st();
    for e in ops.errors.iter().take(3) {
        g.errors.push(e.clone());
    }
    let dec: u64 = o.paths.iter().map(|p| p.decisions).sum();
    let asserts: u64 = o.paths.iter().map(|p| p.asserts).sum();
    let mut verdicts: BTreeMap<&str, u64> = BTreeMap::new();
    for (_, v) in o.paths.iter().flat_map(|p| p.observations.iter()).filter(|x| x.0.contains("verdict")) {
        *verdicts.entry(v.as_str()).or_insert(0) += 1;
    }
    let stopped = o.paths.iter().filter(|p| p.stopped.is_some()).count();
    let js = format!(
        "{{\"scenario\":{},\"property\":{},\"bounds\":{},\"paths\":{},\"stopped\":{},\"branches\":{},\"decisions\":{},\"assertions\":{},\"unexplored\":{{{}}},\"failures\":[{}],\"validated\":{},\"mismatches\":[{}],\"z3\":{{\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"secs\":{:.3}}},\"cvc5\":{{\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"secs\":{:.3}}},\"op_batches\":{},\"op_checked\":{},\"op_skipped\":{},\"op_secs\":{:.2},\"identity_queries\":{},\"identities_proved\":{},\"cross_agree\":{},\"cross_unknown\":{},\"inconclusive\":{},\"coef_checks\":{},\"max_query_bytes\":{},\"terms\":{},\"errors\":[{}],\"samples\":[{}],\"trails\":[{}],\"observations\":[{}],\"verdicts\":{{{}}},\"sym_secs\":{:.2},\"secs\":{:.2}}}",
        esc(&sc.name),
        esc(sc.prop),
        esc(&sc.bounds),
        o.paths.len(),
        stopped,
        o.flipped,
        dec,
        asserts,
        o.unexplored.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
        fails.join(","),
        validated,
        mismatches.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        g.z3.queries, g.z3.unsat, g.z3.sat, g.z3.unknown, g.z3.time,
        g.cvc5.queries, g.cvc5.unsat, g.cvc5.sat, g.cvc5.unknown, g.cvc5.time,
        ops.batches,
        ops.checked,
        ops.skipped,
        ops.secs,
        g.stats.identity_queries,
        g.stats.identities_proved,
        g.stats.cross_agree,
        g.stats.cross_unknown,
        g.stats.inconclusive,
        g.stats.coef_checks,
        g.stats.max_query_bytes,
        g.nodes.len(),
        g.errors.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        g.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        o.paths.iter().take(40).map(|p| esc(&p.trail.join("; "))).collect::<Vec<_>>().join(","),
        o.paths.first().map(|p| p.observations.iter().take(12).map(|(a, b)| esc(&format!("{}={}", a, b))).collect::<Vec<_>>().join(",")).unwrap_or_default(),
        verdicts.iter().map(|(k, n)| format!("{}:{}", esc(k), n)).collect::<Vec<_>>().join(","),
        t_sym,
        t0.elapsed().as_secs_f64(),
    );
    drop(g);
    engine::shutdown();
    js
}

/// Replays one stored assignment on the real curve; prints what failed.
pub fn replay_file(sc: &Scen, seed: u64, assign: BTreeMap<String, Fr>, bools: BTreeMap<String, bool>) -> bool {
    engine::init(seed, 20_000);
    // the challenge registry of the path comes from the symbolic run with the same assignment
    let o = explore(&|| sc.run_sym(), Limits { paths: 1, depth: 0, sides: 0, secs: 600.0, joint: false });
    let mut p = o.paths.into_iter().next().unwrap_or_default();
    p.bools = bools;
    for c in p.chals.iter_mut() {
        if let Some(v) = assign.get(&c.name) {
            c.value = *v;
        }
    }
    let r = replay(sc, seed, &assign, &p);
    for (l, d) in &r.failures {
        println!("FAILED {} {}", l, d);
    }
    if let Some(s) = &r.panic {
        println!("PANIC {}", s);
    }
    for (l, d) in &r.obs {
        println!("observed {} = {}", l, d);
    }
    engine::shutdown();
    !(r.failures.is_empty() && r.panic.is_none())
}
