//! Path exploration: every recorded decision is flipped by solving its factor for one variable.
use super::engine::*;
use super::q::Q;
use ark_bls12_381::Fr;
use ark_ff::{PrimeField, Zero};
use num_bigint::BigUint;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

#[derive(Clone, Default)]
pub struct Spec {
    pub subst: HashMap<u32, T>,
    pub bools: HashMap<String, bool>,
    pub done: HashSet<T>,
    pub depth: u32,
    /// zero-coefficient side cases taken on the way here
    pub sides: u32,
    /// relations passed over before the ones that hold (`joint`: fewest first)
    pub skips: u32,
    pub trail: Vec<String>,
    /// terms still to be forced to zero before the path runs
    pub pending: Vec<T>,
}

#[derive(Clone, Copy, Debug)]
pub struct Limits {
    pub paths: usize,
    pub depth: u32,
    pub sides: u32,
    pub secs: f64,
    pub joint: bool,
}

#[derive(Clone, Default)]
pub struct PathOut {
    pub trail: Vec<String>,
    pub observations: Vec<(String, String)>,
    pub failures: Vec<Failure>,
    pub assign: BTreeMap<String, Fr>,
    pub bools: BTreeMap<String, bool>,
    pub chals: Vec<ChalRec>,
    pub forced: Vec<(usize, usize, Vec<u8>)>,
    pub stopped: Option<String>,
    pub decisions: u64,
    pub asserts: u64,
    pub queries: usize,
    /// an alternative witness returned by the solver
    pub model: Option<BTreeMap<String, Fr>>,
}
#[derive(Clone, Debug)]
pub struct ChalRec {
    pub name: String,
    pub value: Fr,
    pub ordinal: Option<usize>,
    pub bits: u32,
    pub at: usize,
    pub pos: usize,
}

#[derive(Default)]
pub struct Outcome {
    pub paths: Vec<PathOut>,
    pub unexplored: BTreeMap<String, u64>,
    pub flipped: u64,
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

fn spec_key(s: &Spec) -> u128 {
    let g = st();
    let mut v: Vec<String> = s
        .subst
        .iter()
        .map(|(k, t)| format!("{}={:x}", g.vars[*k as usize].name, g.keys[*t as usize]))
        .chain(s.bools.iter().map(|(k, b)| format!("{}:{}", k, b)))
        .collect();
    v.sort();
    h128(v.join(";").as_bytes())
}

fn rank(c: Class) -> u32 {
    match c {
        Class::Free => 0,
        Class::Stmt => 1,
        Class::Key => 2,
        Class::Rng => 3,
        Class::Frb => 4,
        Class::Ch128 => 5,
    }
}

/// Forces t (a term over unsubstituted variables) to zero in `sp`; pushes side cases to `extra`.
fn impose(sp: &Spec, t: T, extra: &mut Vec<Spec>) -> Result<Spec, String> {
    let mut g = st();
    let (_, fs) = g.factors(t);
    let fs: Vec<T> = fs.into_iter().filter(|(f, e)| *e > 0 && !sp.done.contains(f)).map(|x| x.0).collect();
    if fs.is_empty() {
        return Err("cannot vanish".into());
    }
    // other factors become alternative specs
    for f in fs.iter().skip(1) {
        let mut s = sp.clone();
        s.pending.push(*f);
        extra.push(s);
    }
    let f = fs[0];
    let vars = g.var_set(f);
    let mut best: Option<(u32, u32, T, T)> = None;
    for v in vars.iter() {
        let (class, name) = (g.vars[*v as usize].class, g.vars[*v as usize].name.clone());
        if name.starts_with('u') && class == Class::Ch128 {
            continue;
        }
        let c = match g.coefs_in(f, *v, &mut HashMap::new()) {
            Some(c) if c.len() == 2 => c,
            _ => continue,
        };
        let (b, a) = (c[0], c[1]);
        if g.shadow[a as usize].is_zero() {
            continue;
        }
        if class == Class::Ch128 {
            // only a constant in range, or another challenge
            let na = g.powi(a, -1);
            let mut r = g.mul(b, na);
            r = g.neg(r);
            let ok = match g.const_of(r) {
                Some(q) => q.is_int() && !num_traits::Signed::is_negative(&q.n) && q.n.bits() <= 128,
                None => match g.nodes[r as usize] {
                    Node::Var(w) => g.vars[w as usize].class == Class::Ch128,
                    _ => false,
                },
            };
            if !ok {
                continue;
            }
        }
        let (_, af) = g.factors(a);
        let safe = af.iter().all(|(x, _)| sp.done.contains(x));
        let is_const = g.const_of(a).is_some();
        let score = rank(class) * 10 + if is_const { 0 } else if safe { 3 } else { 25 };
        let size = g.var_set(a).len() as u32;
        let better = match &best {
            None => true,
            Some((s, _, _, _)) => score * 1000 + size < *s,
        };
        if better {
            best = Some((score * 1000 + size, *v, a, b));
        }
    }
    let (_, v, a, b) = match best {
        Some(x) => x,
        None => {
            let s = g.show(f);
            let cut: String = s.chars().take(80).collect();
            return Err(format!("no variable to solve for in {}", cut));
        }
    };
    // complement: A = 0 and B = 0
    let (_, af) = g.factors(a);
    for (x, e) in af.iter().copied() {
        if e > 0 && !sp.done.contains(&x) {
            let mut s = sp.clone();
            s.pending.push(f);
            s.pending.push(x);
            s.sides += 1;
            s.trail.push(format!("side case {}=0", short(&g, x)));
            extra.push(s);
        }
    }
    let na = g.powi(a, -1);
    let r = g.mul(b, na);
    let by = g.neg(r);
    let mut n = sp.clone();
    let mut memo = HashMap::new();
    n.subst = HashMap::new();
    for (k, t) in sp.subst.iter() {
        let y = g.subst(*t, v, by, &mut memo);
        n.subst.insert(*k, y);
    }
    n.subst.insert(v, by);
    n.done = HashSet::new();
    // the solution divides by A: this branch has A != 0
    for d in sp.done.iter().chain(af.iter().filter(|(_, e)| *e > 0).map(|(x, _)| x)) {
        let y = g.subst(*d, v, by, &mut memo);
        if y == T_ZERO {
            return Err("contradicts an earlier branch".into());
        }
        if g.shadow[y as usize].is_zero() {
            return Err(match g.prove_zero(y) {
                Some(true) => "contradicts an earlier branch".into(),
                _ => "unresolved contradiction with an earlier branch".into(),
            });
        }
        let (_, fs) = g.factors(y);
        n.done.extend(fs.into_iter().map(|x| x.0));
    }
    n.pending = vec![];
    for p in sp.pending.iter() {
        let y = g.subst(*p, v, by, &mut memo);
        n.pending.push(y);
    }
    n.trail.push(format!("{} := {}", g.vars[v as usize].name, short(&g, by)));
    Ok(n)
}
fn short(g: &State, t: T) -> String {
    let s = g.show(t);
    if s.len() > 120 {
        format!("{}...", s.chars().take(120).collect::<String>())
    } else {
        s
    }
}

fn run_path(sp: &Spec, scen: &dyn Fn(), joint: bool) -> (PathOut, Vec<(DecKind, u32)>, HashSet<T>) {
    {
        let mut g = st();
        g.path = PathState {
            subst: sp.subst.clone(),
            bools: sp.bools.clone(),
            known_nz: sp.done.clone(),
            cost: !joint as u32,
            chal_cost: joint as u32,
            ..Default::default()
        };
    }
    let r = catch_unwind(AssertUnwindSafe(|| scen()));
    let mut out = PathOut { trail: sp.trail.clone(), ..Default::default() };
    if let Err(e) = r {
        let s = panic_text(&*e);
        if s.starts_with(UNSUPPORTED) {
            out.stopped = Some(s);
        } else {
            // a panic outside `guard`: the scenario itself or the code under test where no panic is allowed
            let mut g = st();
            g.path.failures.push(Failure { label: "no-panic".into(), detail: s, witness: None });
        }
    }
    let g = st();
    let p = &g.path;
    out.observations = p.observations.clone();
    out.failures = p.failures.clone();
    out.decisions = p.n_dec;
    out.asserts = p.n_asserts;
    out.queries = p.queries.len();
    out.forced = p.forced.clone();
    for v in &p.used {
        let t = p.subst.get(v).copied().unwrap_or(g.vars[*v as usize].t);
        out.assign.insert(g.vars[*v as usize].name.clone(), g.shadow[t as usize]);
    }
    for (k, d) in &p.decisions {
        let _ = d;
        if let DecKind::Bool(n, b) = k {
            out.bools.insert(n.clone(), *b);
        }
    }
    for (n, b) in &p.bools {
        out.bools.insert(n.clone(), *b);
    }
    for c in &p.chals {
        out.chals.push(ChalRec {
            name: c.name.clone(),
            value: g.shadow[c.t as usize],
            ordinal: c.ordinal,
            bits: c.bits,
            at: c.at,
            pos: c.pos,
        });
    }
    let dec = p.decisions.clone();
    let nz = p.known_nz.clone();
    (out, dec, nz)
}

/// After a failing path: ask the solver for a small concrete point of it.
fn model_of(out: &mut PathOut, dec: &[(DecKind, u32)]) {
    let mut g = st();
    if out.failures.is_empty() {
        return;
    }
    let nz: Vec<T> = dec.iter().filter_map(|d| if let DecKind::Zero(t) = d.0 { Some(t) } else { None }).collect();
    if nz.len() > 60 {
        return;
    }
    let goal = nz.last().copied().unwrap_or(T_ONE);
    let m = match g.model_nonzero(goal, &nz) {
        Some(m) => m,
        None => return,
    };
    // evaluate every used variable under the model
    let mut a = BTreeMap::new();
    let used = g.path.used.clone();
    for v in used {
        let t = g.path.subst.get(&v).copied().unwrap_or(g.vars[v as usize].t);
        match eval(&g, t, &m, &mut HashMap::new()) {
            Some(x) => {
                a.insert(g.vars[v as usize].name.clone(), x);
            }
            None => return,
        }
    }
    out.model = Some(a);
}
pub fn eval(g: &State, t: T, m: &HashMap<u32, Fr>, memo: &mut HashMap<T, Fr>) -> Option<Fr> {
    use ark_ff::Field;
    use ark_ff::One;
    if let Some(x) = memo.get(&t) {
        return Some(*x);
    }
    let r = match &g.nodes[t as usize] {
        Node::Const(q) => fr_of_q(q),
        Node::Var(v) => m.get(v).copied().unwrap_or(g.vars[*v as usize].shadow),
        Node::Lin(k, ts) => {
            let mut s = fr_of_q(k);
            for (x, q) in ts {
                s += eval(g, *x, m, memo)? * fr_of_q(q);
            }
            s
        }
        Node::Prod(fs) => {
            let mut s = Fr::one();
            for (x, e) in fs {
                let y = eval(g, *x, m, memo)?;
                let y = if *e < 0 { y.inverse()? } else { y };
                s *= y.pow([e.unsigned_abs() as u64]);
            }
            s
        }
    };
    memo.insert(t, r);
    Some(r)
}

pub fn explore(scen: &dyn Fn(), lim: Limits) -> Outcome {
    let t0 = Instant::now();
    let mut o = Outcome::default();
    let mut seen: HashSet<u128> = HashSet::new();
    let mut work: VecDeque<Spec> = VecDeque::new();
    work.push_back(Spec::default());
    let note = |o: &mut Outcome, s: &str| *o.unexplored.entry(s.chars().take(100).collect()).or_insert(0) += 1;
    let next = |work: &mut VecDeque<Spec>| {
        if !lim.joint {
            return work.pop_front();
        }
        let i = (0..work.len()).min_by_key(|i| (work[*i].skips, usize::MAX - *i))?;
        work.remove(i)
    };
    while let Some(mut sp) = next(&mut work) {
        if o.paths.len() >= lim.paths {
            note(&mut o, "path limit");
            continue;
        }
        if t0.elapsed().as_secs_f64() > lim.secs {
            note(&mut o, "time limit");
            continue;
        }
        // resolve pending constraints
        let mut bad = false;
        while let Some(p) = sp.pending.pop() {
            if p == T_ZERO {
                continue;
            }
            let mut extra = vec![];
            let r = catch_unwind(AssertUnwindSafe(|| {
                let proved = {
                    let mut g = st();
                    g.shadow[p as usize].is_zero() && g.prove_zero(p) == Some(true)
                };
                if proved {
                    Ok(sp.clone())
                } else {
                    impose(&sp, p, &mut extra)
                }
            }));
            for e in extra {
                if e.sides <= lim.sides {
                    work.push_back(e);
                } else {
                    note(&mut o, "side-case limit");
                }
            }
            match r {
                Ok(Ok(n)) => sp = n,
                Ok(Err(e)) => {
                    if e != "cannot vanish" && e != "contradicts an earlier branch" {
                        note(&mut o, &e);
                    }
                    bad = true;
                    break;
                }
                Err(e) => {
                    note(&mut o, &panic_text(&*e));
                    bad = true;
                    break;
                }
            }
        }
        if bad || !seen.insert(spec_key(&sp)) {
            continue;
        }
        let (mut out, dec, _nz) = run_path(&sp, scen, lim.joint);
        if let Some(s) = &out.stopped {
            note(&mut o, s);
        }
        if !out.failures.is_empty() {
            model_of(&mut out, &dec);
        }
        let failing = !out.failures.is_empty();
        o.paths.push(out);
        if failing {
            // the violation is known on this path; its refinements would repeat it
            continue;
        }
        let mut done = sp.done.clone();
        let mut bools = sp.bools.clone();
        let mut later: Vec<Spec> = vec![];
        let mut skips = sp.skips;
        for (k, cost) in dec {
            let c = cost;
            let can = c != u32::MAX && sp.depth + c <= lim.depth;
            match k {
                DecKind::Zero(f) => {
                    if can {
                        o.flipped += 1;
                        let mut n = sp.clone();
                        n.done = done.clone();
                        n.bools = bools.clone();
                        n.depth += c;
                        n.skips = skips + 2 * c;
                        skips += (c == 0) as u32;
                        n.pending = vec![f];
                        later.push(n);
                    } else if c != u32::MAX {
                        note(&mut o, "depth limit");
                    }
                    done.insert(f);
                }
                DecKind::Bool(b, v) => {
                    if can {
                        o.flipped += 1;
                        let mut n = sp.clone();
                        n.done = done.clone();
                        n.bools = bools.clone();
                        n.bools.insert(b.clone(), !v);
                        n.depth += c;
                        n.skips = skips + 2 * c;
                        n.trail.push(format!("{}={}", b, !v));
                        later.push(n);
                    }
                    bools.insert(b, v);
                }
            }
        }
        // cheap branches (verdict decisions) first
        for n in later {
            if n.depth == sp.depth && !lim.joint {
                work.push_front(n);
            } else {
                work.push_back(n);
            }
        }
    }
    o
}

/// 16-byte big-endian / 32-byte little-endian patches that make the concrete oracle return the path's challenges.
pub fn patches(assign: &BTreeMap<String, Fr>, bools: &BTreeMap<String, bool>) -> Vec<(usize, usize, Vec<u8>)> {
    let mut out = vec![];
    let parse = |n: &str| -> Option<(usize, usize, String)> {
        let at = n.find('@')?;
        let plus = n.find('+')?;
        let ord = n[2..at].parse().ok()?;
        let off = n[at + 1..plus].parse().ok()?;
        Some((ord, off, n[plus + 1..].to_string()))
    };
    for (n, v) in assign {
        if n.starts_with("ch") && n.contains('@') {
            if let Some((o, off, rest)) = parse(n) {
                let digits: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
                let nb: usize = digits.parse().unwrap_or(16);
                let le = rest.ends_with("le");
                let u: BigUint = (*v).into_bigint().into();
                let mut b = u.to_bytes_le();
                b.resize(nb, 0);
                if !le {
                    b.reverse();
                }
                out.push((o, off, b));
            }
        } else if (n.starts_with("fr") || n.starts_with("mo")) && n.contains('@') {
            if let Some((o, off, rest)) = parse(n) {
                let digits: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
                let nb: usize = digits.parse().unwrap_or(32);
                let u: BigUint = (*v).into_bigint().into();
                let mut b = u.to_bytes_le();
                b.resize(nb, 0);
                if rest.contains("mbe") != rest.ends_with('r') {
                    b.reverse();
                }
                out.push((o, off, b));
            }
        }
    }
    for (n, b) in bools {
        if n.starts_with("fr") && n.ends_with("ok") && !*b {
            if let Some((o, off, _)) = parse(&n[..n.len() - 2]) {
                out.push((o, off, vec![0xff; 32]));
            }
        }
    }
    out
}
pub fn q(i: i64) -> Q {
    Q::int(i)
}
