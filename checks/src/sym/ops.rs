//! Re-checks the normaliser: every distinct rewrite a run used is handed to z3 as an obligation over the two
//! operands and the result, each seen one level deep (linear form for sums, Laurent monomial for products).
use super::engine::*;
use super::q::Q;
use super::solver::{Answer, Proc};
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Default)]
pub struct OpReport {
    pub batches: u64,
    pub checked: u64,
    pub skipped: u64,
    pub secs: f64,
    pub errors: Vec<String>,
}

fn lin(g: &State, t: T, atoms: &mut BTreeSet<T>) -> String {
    let (k, ts) = g.as_lin(t);
    let mut s: Vec<String> = vec![];
    if !k.is_zero() {
        s.push(k.smt());
    }
    for (x, q) in ts {
        atoms.insert(x);
        s.push(if q.is_one() { format!("a{}", x) } else { format!("(* {} a{})", q.smt(), x) });
    }
    match s.len() {
        0 => "0.0".into(),
        1 => s.pop().unwrap(),
        _ => format!("(+ {})", s.join(" ")),
    }
}
type Mono = (Q, BTreeMap<T, i32>);
fn mono(g: &mut State, t: T) -> Mono {
    let (q, f) = g.factors(t);
    let mut m = BTreeMap::new();
    for (x, e) in f {
        *m.entry(x).or_insert(0) += e;
    }
    (q, m)
}
/// exponents needed to clear the denominators of m
fn clear(m: &Mono) -> BTreeMap<T, i32> {
    m.1.iter().filter(|(_, e)| **e < 0).map(|(x, e)| (*x, -e)).collect()
}
/// q * prod x^(e+d), as a list of SMT factors; None if an exponent stays negative or grows too large
fn cleared(m: &Mono, d: &BTreeMap<T, i32>, atoms: &mut BTreeSet<T>) -> Option<Vec<String>> {
    let mut out = vec![];
    if !m.0.is_one() {
        out.push(m.0.smt());
    }
    let keys: BTreeSet<T> = m.1.keys().chain(d.keys()).copied().collect();
    for x in keys {
        let e = m.1.get(&x).unwrap_or(&0) + d.get(&x).unwrap_or(&0);
        if !(0..=64).contains(&e) {
            return None;
        }
        atoms.insert(x);
        for _ in 0..e {
            out.push(format!("a{}", x));
        }
    }
    Some(out)
}
fn prod(f: Vec<String>) -> String {
    match f.len() {
        0 => "1.0".into(),
        1 => f.into_iter().next().unwrap(),
        _ => format!("(* {})", f.join(" ")),
    }
}
fn addup(a: &BTreeMap<T, i32>, b: &BTreeMap<T, i32>, k: i32) -> BTreeMap<T, i32> {
    let mut r = a.clone();
    for (x, e) in b {
        *r.entry(*x).or_insert(0) += e * k;
    }
    r
}
fn obligation(g: &mut State, op: &Op, atoms: &mut BTreeSet<T>) -> Option<String> {
    Some(match op {
        Op::Add(a, b, r) => format!("(= (+ {} {}) {})", lin(g, *a, atoms), lin(g, *b, atoms), lin(g, *r, atoms)),
        Op::Scale(a, q, r) => format!("(= (* {} {}) {})", q.smt(), lin(g, *a, atoms), lin(g, *r, atoms)),
        Op::Mul(a, b, r) => {
            let (a, b, r) = (mono(g, *a), mono(g, *b), mono(g, *r));
            let (da, db) = (clear(&a), clear(&b));
            let mut l = cleared(&a, &da, atoms)?;
            l.extend(cleared(&b, &db, atoms)?);
            let rr = cleared(&r, &addup(&da, &db, 1), atoms)?;
            format!("(= {} {})", prod(l), prod(rr))
        }
        Op::Pow(a, e, r) => {
            let n = e.unsigned_abs() as usize;
            if n > 32 {
                return None;
            }
            let (a, r) = (mono(g, *a), mono(g, *r));
            let (da, dr) = (clear(&a), clear(&r));
            let mut l = vec![];
            for _ in 0..n {
                l.extend(cleared(&a, &da, atoms)?);
            }
            let unit: Mono = (Q::one(), BTreeMap::new());
            if *e > 0 {
                l.extend(cleared(&unit, &dr, atoms)?);
                let mut rr = cleared(&r, &dr, atoms)?;
                rr.extend(cleared(&unit, &addup(&BTreeMap::new(), &da, n as i32), atoms)?);
                format!("(= {} {})", prod(l), prod(rr))
            } else {
                // r * a^n = 1
                l.extend(cleared(&r, &dr, atoms)?);
                let rr = cleared(&unit, &addup(&dr, &da, n as i32), atoms)?;
                format!("(= {} {})", prod(l), prod(rr))
            }
        }
    })
}

/// Checks up to `cap` rewrites within `secs`.
pub fn validate(cap: usize, secs: f64) -> OpReport {
    let mut rep = OpReport::default();
    let t0 = std::time::Instant::now();
    let mut g = st();
    let mut z3 = Proc::z3(20_000);
    let mut cvc5 = Proc::cvc5(20_000);
    let mut done: HashSet<Op> = HashSet::new();
    loop {
        // views may normalise further, which logs new rewrites
        let mut todo: Vec<Op> = g.ops.iter().filter(|o| !done.contains(*o)).cloned().collect();
        if todo.is_empty() {
            break;
        }
        todo.sort();
        let mut i = 0;
        let mut over = false;
        while i < todo.len() {
            if rep.checked as usize >= cap || t0.elapsed().as_secs_f64() > secs {
                rep.skipped += (todo.len() - i) as u64;
                over = true;
                break;
            }
            let mut atoms = BTreeSet::new();
            let mut obs: Vec<(Op, String)> = vec![];
            let mut size = 0;
            while i < todo.len() && size < 100_000 && obs.len() < 400 {
                let op = todo[i].clone();
                i += 1;
                done.insert(op.clone());
                match obligation(&mut g, &op, &mut atoms) {
                    Some(s) => {
                        size += s.len();
                        obs.push((op, s));
                    }
                    None => rep.skipped += 1,
                }
            }
            if obs.is_empty() {
                continue;
            }
            let decl: String = atoms.iter().map(|a| format!("(declare-const a{} Real)\n", a)).collect();
            let all: Vec<&str> = obs.iter().map(|(_, s)| s.as_str()).collect();
            let body = format!("{}(assert (not (and true {})))\n", decl, all.join("\n"));
            rep.batches += 1;
            match z3.check(&body, &[]).0 {
                Answer::Unsat => rep.checked += obs.len() as u64,
                _ => {
                    for (op, s) in &obs {
                        let body = format!("{}(assert (not {}))\n", decl, s);
                        if z3.check_for(&body, &[], 3_000).0 == Answer::Unsat || cvc5.check_for(&body, &[], 3_000).0 == Answer::Unsat {
                            rep.checked += 1;
                        } else {
                            rep.errors.push(format!("rewrite not confirmed by the solver: {:?} {}", op, s.chars().take(300).collect::<String>()));
                        }
                    }
                }
            }
        }
        if over {
            break;
        }
    }
    for p in [&z3, &cvc5] {
        rep.secs += p.time;
    }
    let (q, u, s, k, t) = (z3.queries, z3.unsat, z3.sat, z3.unknown, z3.time);
    g.z3.queries += q;
    g.z3.unsat += u;
    g.z3.sat += s;
    g.z3.unknown += k;
    g.z3.time += t;
    let (q, u, s, k, t) = (cvc5.queries, cvc5.unsat, cvc5.sat, cvc5.unknown, cvc5.time);
    g.cvc5.queries += q;
    g.cvc5.unsat += u;
    g.cvc5.sat += s;
    g.cvc5.unknown += k;
    g.cvc5.time += t;
    rep.skipped += g.ops_dropped;
    rep
}
