use super::q::Q;
use super::solver::{Answer, Proc};
use ark_bls12_381::Fr;
use ark_ff::{BigInt as ABig, BigInteger, Field, One, PrimeField, Zero};
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{Signed, ToPrimitive};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::{Mutex, MutexGuard};

pub type T = u32;
pub const T_ZERO: T = 0;
pub const T_ONE: T = 1;
pub const T_GEN: T = 2;
pub const T_ROOT: T = 3;
pub const T_BAD: T = 4; // COFACTOR_INV etc: 1

pub const UNSUPPORTED: &str = "SYMARK-UNSUPPORTED";
/// Panic raised by the engine itself (never by the code under test).
pub fn unsupported(what: &str) -> ! {
    panic!("{}: {}", UNSUPPORTED, what)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    Const(Q),
    Var(u32),
    /// k + sum q_i t_i; t_i are Var or Prod nodes
    Lin(Q, Vec<(T, Q)>),
    /// product of bases (Var or primitive Lin) with non-zero exponents
    Prod(Vec<(T, i32)>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Class {
    Free,
    Stmt,
    Key,
    Rng,
    Frb,
    Ch128,
}

#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub class: Class,
    pub shadow: Fr,
    pub t: T,
}

#[derive(Clone, Debug)]
pub enum Tok {
    Byte(u8),
    Term { kind: u8, t: T },
}

#[derive(Clone, Debug)]
pub struct Query {
    pub raw: Vec<u8>,
    pub content: Vec<u8>,
    pub toks: Vec<Tok>,
    pub out: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Challenge {
    pub t: T,
    pub ordinal: Option<usize>,
    pub bits: u32,
    pub name: String,
    /// number of digest queries made before the challenge was derived
    pub at: usize,
    /// position in the log of the query it came from
    pub pos: usize,
}

#[derive(Clone, Debug)]
pub enum DecKind {
    /// factor p was taken non-zero though it can be zero
    Zero(T),
    /// named boolean taken with its default value
    Bool(String, bool),
}

#[derive(Clone, Debug, Default)]
pub struct PathState {
    pub subst: HashMap<u32, T>,
    pub bools: HashMap<String, bool>,
    pub known_nz: HashSet<T>,
    pub decisions: Vec<(DecKind, u32)>,
    /// where each factor was first decided; a cheaper later decision on it lowers the cost of branching there
    pub dec_at: HashMap<T, usize>,
    /// exploration cost of branching on decisions made now (u32::MAX: do not branch)
    pub cost: u32,
    /// least cost of branching on a condition on challenges alone
    pub chal_cost: u32,
    pub ro_map: HashMap<Vec<u8>, usize>,
    pub queries: Vec<Query>,
    /// ordinal of every digest query, in the order they were made
    pub log: Vec<usize>,
    pub rng_ctr: usize,
    pub used: Vec<u32>,
    pub used_set: HashSet<u32>,
    pub chals: Vec<Challenge>,
    pub formal: Vec<u32>,
    /// every wide challenge is formal
    pub formal_wide: bool,
    pub formal_ints: bool,
    /// reject this many digest outputs before each usable one
    pub stubborn: Option<usize>,
    pub rejected: HashMap<usize, bool>,
    pub run: usize,
    /// digest outputs made unusable that way: ordinal, offset, bytes
    pub forced: Vec<(usize, usize, Vec<u8>)>,
    pub n_dec: u64,
    pub n_asserts: u64,
    pub failures: Vec<Failure>,
    pub observations: Vec<(String, String)>,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub label: String,
    pub detail: String,
    /// a polynomial whose non-vanishing is the violation
    pub witness: Option<T>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub identity_queries: u64,
    pub identities_proved: u64,
    pub sat_models: u64,
    pub cross_agree: u64,
    pub cross_unknown: u64,
    pub inconclusive: u64,
    pub coef_checks: u64,
    pub max_query_bytes: u64,
}

/// A rewrite the normaliser performed, to be confirmed by the solver (ops.rs).
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Add(T, T, T),
    Scale(T, Q, T),
    Mul(T, T, T),
    Pow(T, i32, T),
}
/// no scenario needs more digest queries
pub const QUERIES_MAX: usize = 450_000;
/// time for one identity
const PROVE_SECS: u64 = 100;
/// terms with more live nodes are decided in parts
const SPLIT_AT: usize = 1500;
const OPS_MAX: usize = 400_000;

pub struct State {
    pub ops: HashSet<Op>,
    pub ops_dropped: u64,
    magic_used: bool,
    pub nodes: Vec<Node>,
    pub keys: Vec<u128>,
    pub shadow: Vec<Fr>,
    intern: HashMap<u128, T>,
    pub vars: Vec<Var>,
    pub var_by_name: HashMap<String, u32>,
    pub path: PathState,
    pub proved_zero: HashSet<T>,
    pub proved_nonid: HashSet<T>,
    pub z3: Proc,
    pub cvc5: Proc,
    pub cross: bool,
    /// cross-check attempts the second solver did not answer in time
    pub z3_slow: u32,
    pub stats: Stats,
    pub seed: u64,
    pub errors: Vec<String>,
    pub samples: Vec<String>,
    magic_low: u64,
}

fn h64(parts: &[u8], salt: u64) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    salt.hash(&mut h);
    parts.hash(&mut h);
    h.finish()
}
pub fn h128(parts: &[u8]) -> u128 {
    ((h64(parts, 0x1234567) as u128) << 64) | h64(parts, 0x89abcdef01) as u128
}
pub fn prf(seed: u64, name: &str, n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0u64;
    while out.len() < n {
        let mut b = name.as_bytes().to_vec();
        b.extend_from_slice(&i.to_le_bytes());
        out.extend_from_slice(&h64(&b, seed ^ 0x5bd1e995).to_le_bytes());
        i += 1;
    }
    out.truncate(n);
    out
}

pub fn fr_of_q(q: &Q) -> Fr {
    let n = fr_of_int(&q.n);
    if q.d.is_one() {
        n
    } else {
        n * fr_of_int(&q.d).inverse().expect("denominator divisible by r")
    }
}
pub fn fr_of_int(n: &BigInt) -> Fr {
    let m: BigUint = Fr::MODULUS.into();
    let mm = BigInt::from(m);
    let mut r = n % &mm;
    if r.is_negative() {
        r += mm;
    }
    Fr::from(r.to_biguint().unwrap())
}

const MAGIC_HI: u64 = 0x5A5A_A5A5;

pub static ST: Mutex<Option<State>> = Mutex::new(None);

pub struct Guard(MutexGuard<'static, Option<State>>);
impl std::ops::Deref for Guard {
    type Target = State;
    fn deref(&self) -> &State {
        self.0.as_ref().expect("engine not initialised")
    }
}
impl std::ops::DerefMut for Guard {
    fn deref_mut(&mut self) -> &mut State {
        self.0.as_mut().expect("engine not initialised")
    }
}
pub fn st() -> Guard {
    let g = ST.lock().unwrap_or_else(|e| e.into_inner());
    Guard(g)
}
pub fn init(seed: u64, z3_ms: u64) {
    let mut g = ST.lock().unwrap_or_else(|e| e.into_inner());
    *g = Some(State::new(seed, z3_ms));
}
pub fn is_init() -> bool {
    ST.lock().unwrap_or_else(|e| e.into_inner()).is_some()
}
pub fn shutdown() {
    let mut g = ST.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(s) = g.as_mut() {
        s.z3.kill();
        s.cvc5.kill();
    }
}

impl State {
    fn new(seed: u64, ms: u64) -> State {
        let mut s = State {
            ops: HashSet::new(),
            ops_dropped: 0,
            magic_used: false,
            nodes: vec![],
            keys: vec![],
            shadow: vec![],
            intern: HashMap::new(),
            vars: vec![],
            var_by_name: HashMap::new(),
            path: PathState::default(),
            proved_zero: HashSet::new(),
            proved_nonid: HashSet::new(),
            z3: Proc::z3(ms),
            cvc5: Proc::cvc5(ms),
            cross: true,
            z3_slow: 0,
            stats: Stats::default(),
            seed,
            errors: vec![],
            samples: vec![],
            magic_low: 0x9e3779b97f4a7c15 ^ seed,
        };
        // reserved handles, see T_ZERO..T_BAD
        s.mk(Node::Const(Q::zero()));
        s.mk(Node::Const(Q::one()));
        s.mk(Node::Const(Q::int(7)));
        use ark_ff::FftField;
        let root: BigUint = Fr::TWO_ADIC_ROOT_OF_UNITY.into();
        s.mk(Node::Const(Q::int(BigInt::from(root))));
        s.mk(Node::Const(Q::int(-1)));
        s
    }

    // ---------- terms ----------
    fn key_of(&self, n: &Node) -> u128 {
        let mut b: Vec<u8> = vec![];
        match n {
            Node::Const(q) => {
                b.push(1);
                b.extend(q.to_string().as_bytes());
            }
            Node::Var(v) => {
                b.push(2);
                b.extend(self.vars[*v as usize].name.as_bytes());
            }
            Node::Lin(k, ts) => {
                b.push(3);
                b.extend(k.to_string().as_bytes());
                for (t, q) in ts {
                    b.push(b'|');
                    b.extend(self.keys[*t as usize].to_le_bytes());
                    b.extend(q.to_string().as_bytes());
                }
            }
            Node::Prod(fs) => {
                b.push(4);
                for (t, e) in fs {
                    b.extend(self.keys[*t as usize].to_le_bytes());
                    b.extend(e.to_le_bytes());
                }
            }
        }
        h128(&b)
    }
    fn mk(&mut self, n: Node) -> T {
        let k = self.key_of(&n);
        if let Some(t) = self.intern.get(&k) {
            return *t;
        }
        let sh = match &n {
            Node::Const(q) => fr_of_q(q),
            Node::Var(v) => self.vars[*v as usize].shadow,
            Node::Lin(k, ts) => {
                let mut s = fr_of_q(k);
                for (t, q) in ts {
                    let x = self.shadow[*t as usize];
                    s += if q.is_one() { x } else { x * fr_of_q(q) };
                }
                s
            }
            Node::Prod(fs) => {
                let mut s = Fr::one();
                for (t, e) in fs {
                    let x = self.shadow[*t as usize];
                    let x = if *e < 0 {
                        match x.inverse() {
                            Some(i) => i,
                            None => unsupported("inverse of a term whose witness value is zero"),
                        }
                    } else {
                        x
                    };
                    s *= x.pow([e.unsigned_abs() as u64]);
                }
                s
            }
        };
        let t = self.nodes.len() as T;
        if self.nodes.len() > 40_000_000 {
            unsupported("term arena limit");
        }
        self.nodes.push(n);
        self.keys.push(k);
        self.shadow.push(sh);
        self.intern.insert(k, t);
        t
    }
    pub fn cst(&mut self, q: Q) -> T {
        if q.is_int() {
            if let Some((t, neg)) = self.unmagic(&q.n) {
                return if neg { self.neg(t) } else { t };
            }
        }
        self.mk(Node::Const(q))
    }
    pub fn int(&mut self, n: BigInt) -> T {
        self.cst(Q::int(n))
    }
    pub fn find_key(&self, k: u128) -> Option<T> {
        self.intern.get(&k).copied()
    }
    pub fn const_of(&self, t: T) -> Option<&Q> {
        match &self.nodes[t as usize] {
            Node::Const(q) => Some(q),
            _ => None,
        }
    }
    pub fn as_lin(&self, t: T) -> (Q, Vec<(T, Q)>) {
        match &self.nodes[t as usize] {
            Node::Const(q) => (q.clone(), vec![]),
            Node::Lin(k, v) => (k.clone(), v.clone()),
            _ => (Q::zero(), vec![(t, Q::one())]),
        }
    }
    fn mk_lin(&mut self, k: Q, ts: Vec<(T, Q)>) -> T {
        let mut extra: Vec<T> = vec![];
        let mut out: Vec<(T, Q)> = vec![];
        for (t, q) in ts {
            if q.is_zero() {
                continue;
            }
            if q.is_int() {
                if let Some((m, neg)) = self.unmagic(&q.n) {
                    let mut p = self.mul(m, t);
                    if neg {
                        p = self.neg(p);
                    }
                    extra.push(p);
                    continue;
                }
            }
            out.push((t, q));
        }
        let mut kk = k;
        if kk.is_int() {
            if let Some((m, neg)) = self.unmagic(&kk.n) {
                extra.push(if neg { self.neg(m) } else { m });
                kk = Q::zero();
            }
        }
        let base = if out.is_empty() {
            self.mk(Node::Const(kk))
        } else if kk.is_zero() && out.len() == 1 && out[0].1.is_one() {
            out[0].0
        } else {
            self.mk(Node::Lin(kk, out))
        };
        let mut r = base;
        let magic = !extra.is_empty();
        for e in extra {
            r = self.add(r, e);
        }
        self.magic_used = magic;
        r
    }
    fn log_op(&mut self, o: Op) {
        if self.ops.len() < OPS_MAX {
            self.ops.insert(o);
        } else {
            self.ops_dropped += 1;
        }
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        if a == T_ZERO {
            return b;
        }
        if b == T_ZERO {
            return a;
        }
        let (ka, ta) = self.as_lin(a);
        let (kb, tb) = self.as_lin(b);
        let k = ka.add(&kb);
        let mut out = Vec::with_capacity(ta.len() + tb.len());
        let (mut i, mut j) = (0, 0);
        while i < ta.len() || j < tb.len() {
            if j >= tb.len() {
                out.push(ta[i].clone());
                i += 1;
            } else if i >= ta.len() {
                out.push(tb[j].clone());
                j += 1;
            } else {
                let (x, y) = (self.keys[ta[i].0 as usize], self.keys[tb[j].0 as usize]);
                if x < y {
                    out.push(ta[i].clone());
                    i += 1;
                } else if y < x {
                    out.push(tb[j].clone());
                    j += 1;
                } else {
                    let q = ta[i].1.add(&tb[j].1);
                    if !q.is_zero() {
                        out.push((ta[i].0, q));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        let r = self.mk_lin(k, out);
        if !self.magic_used {
            self.log_op(Op::Add(a.min(b), a.max(b), r));
        }
        r
    }
    pub fn scale(&mut self, a: T, q: &Q) -> T {
        if q.is_zero() {
            return T_ZERO;
        }
        if q.is_one() {
            return a;
        }
        let (k, ts) = self.as_lin(a);
        let k = k.mul(q);
        let ts = ts.into_iter().map(|(t, c)| (t, c.mul(q))).collect();
        let r = self.mk_lin(k, ts);
        if !self.magic_used {
            self.log_op(Op::Scale(a, q.clone(), r));
        }
        r
    }
    pub fn neg(&mut self, a: T) -> T {
        self.scale(a, &Q::int(-1))
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        if a == b {
            return T_ZERO;
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn factors(&mut self, t: T) -> (Q, Vec<(T, i32)>) {
        match self.nodes[t as usize].clone() {
            Node::Const(q) => (q, vec![]),
            Node::Var(_) => (Q::one(), vec![(t, 1)]),
            Node::Prod(f) => (Q::one(), f),
            Node::Lin(k, ts) => {
                if k.is_zero() && ts.len() == 1 {
                    let (q0, f) = self.factors(ts[0].0);
                    return (q0.mul(&ts[0].1), f);
                }
                let lead = ts[0].1.clone();
                let n = if lead.is_one() { t } else { self.scale(t, &lead.inv()) };
                (lead, vec![(n, 1)])
            }
        }
    }
    fn from_factors(&mut self, q: Q, fs: Vec<(T, i32)>) -> T {
        if q.is_zero() {
            return T_ZERO;
        }
        let mut fs: Vec<(T, i32)> = fs.into_iter().filter(|x| x.1 != 0).collect();
        if fs.is_empty() {
            return self.cst(q);
        }
        if fs.len() == 1 && fs[0].1 == 1 {
            return self.scale(fs[0].0, &q);
        }
        fs.sort_by_key(|x| self.keys[x.0 as usize]);
        let p = self.mk(Node::Prod(fs));
        self.scale(p, &q)
    }
    fn merge(a: Vec<(T, i32)>, b: Vec<(T, i32)>) -> Vec<(T, i32)> {
        let mut m: Vec<(T, i32)> = a;
        for (t, e) in b {
            if let Some(x) = m.iter_mut().find(|x| x.0 == t) {
                x.1 += e;
            } else {
                m.push((t, e));
            }
        }
        m
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        if a == T_ZERO || b == T_ZERO {
            return T_ZERO;
        }
        if a == T_ONE {
            return b;
        }
        if b == T_ONE {
            return a;
        }
        if let Some(q) = self.const_of(a).cloned() {
            return self.scale(b, &q);
        }
        if let Some(q) = self.const_of(b).cloned() {
            return self.scale(a, &q);
        }
        let (qa, fa) = self.factors(a);
        let (qb, fb) = self.factors(b);
        let f = Self::merge(fa, fb);
        let r = self.from_factors(qa.mul(&qb), f);
        self.log_op(Op::Mul(a.min(b), a.max(b), r));
        r
    }
    /// Power with a small exponent; negative exponents assume the base is non-zero.
    pub fn powi(&mut self, a: T, e: i64) -> T {
        if e == 0 {
            return T_ONE;
        }
        let e = i32::try_from(e).unwrap_or_else(|_| unsupported("huge exponent"));
        if self.const_of(a).is_some() && e.unsigned_abs() > 4096 {
            unsupported("huge power of a constant");
        }
        let (q, f) = self.factors(a);
        let f = f.into_iter().map(|(t, x)| (t, x.checked_mul(e).expect("exponent overflow"))).collect();
        let r = self.from_factors(q.pow(e), f);
        if e != 1 {
            self.log_op(Op::Pow(a, e, r));
        }
        r
    }
    pub fn subst(&mut self, t: T, v: u32, by: T, memo: &mut HashMap<T, T>) -> T {
        if let Some(r) = memo.get(&t) {
            return *r;
        }
        let r = match self.nodes[t as usize].clone() {
            Node::Const(_) => t,
            Node::Var(x) => {
                if x == v {
                    by
                } else {
                    t
                }
            }
            Node::Lin(k, ts) => {
                let mut parts = vec![];
                let mut changed = false;
                for (x, q) in &ts {
                    let y = self.subst(*x, v, by, memo);
                    changed |= y != *x;
                    parts.push((y, q.clone()));
                }
                if !changed {
                    t
                } else {
                    let mut acc = self.cst(k);
                    for (y, q) in parts {
                        let z = self.scale(y, &q);
                        acc = self.add(acc, z);
                    }
                    acc
                }
            }
            Node::Prod(fs) => {
                let mut acc = T_ONE;
                let mut changed = false;
                let mut parts = vec![];
                for (x, e) in &fs {
                    let y = self.subst(*x, v, by, memo);
                    changed |= y != *x;
                    parts.push((y, *e));
                }
                if !changed {
                    t
                } else {
                    for (y, e) in parts {
                        if e < 0 && self.shadow[y as usize].is_zero() {
                            unsupported("substitution makes a denominator vanish");
                        }
                        let z = self.powi(y, e as i64);
                        acc = self.mul(acc, z);
                    }
                    acc
                }
            }
        };
        memo.insert(t, r);
        r
    }
    pub fn vars_of(&self, t: T, out: &mut HashSet<u32>, seen: &mut HashSet<T>) {
        if !seen.insert(t) {
            return;
        }
        match &self.nodes[t as usize] {
            Node::Const(_) => {}
            Node::Var(v) => {
                out.insert(*v);
            }
            Node::Lin(_, ts) => {
                for (x, _) in ts {
                    self.vars_of(*x, out, seen)
                }
            }
            Node::Prod(fs) => {
                for (x, _) in fs {
                    self.vars_of(*x, out, seen)
                }
            }
        }
    }
    pub fn var_set(&self, t: T) -> HashSet<u32> {
        let mut o = HashSet::new();
        self.vars_of(t, &mut o, &mut HashSet::new());
        o
    }
    /// Coefficients of t as a polynomial in v (None if v occurs in a denominator or the degree is > 64).
    pub fn coefs_in(&mut self, t: T, v: u32, memo: &mut HashMap<T, Option<Vec<T>>>) -> Option<Vec<T>> {
        if let Some(r) = memo.get(&t) {
            return r.clone();
        }
        let r = match self.nodes[t as usize].clone() {
            Node::Const(_) => Some(vec![t]),
            Node::Var(x) => Some(if x == v { vec![T_ZERO, T_ONE] } else { vec![t] }),
            Node::Lin(k, ts) => {
                let k = self.cst(k);
                let mut acc = vec![k];
                let mut ok = true;
                for (x, q) in ts {
                    match self.coefs_in(x, v, memo) {
                        None => {
                            ok = false;
                            break;
                        }
                        Some(c) => {
                            for (i, y) in c.into_iter().enumerate() {
                                let z = self.scale(y, &q);
                                if i < acc.len() {
                                    acc[i] = self.add(acc[i], z);
                                } else {
                                    acc.push(z);
                                }
                            }
                        }
                    }
                }
                if ok {
                    Some(acc)
                } else {
                    None
                }
            }
            Node::Prod(fs) => {
                let mut acc = vec![T_ONE];
                let mut ok = true;
                for (x, e) in fs {
                    match self.coefs_in(x, v, memo) {
                        None => {
                            ok = false;
                            break;
                        }
                        Some(c) => {
                            if c.len() == 1 {
                                let z = self.powi(c[0], e as i64);
                                acc = acc.into_iter().map(|y| self.mul(y, z)).collect();
                            } else if e < 0 {
                                ok = false;
                                break;
                            } else {
                                for _ in 0..e {
                                    let mut n = vec![T_ZERO; acc.len() + c.len() - 1];
                                    for (i, a) in acc.iter().enumerate() {
                                        for (j, b) in c.iter().enumerate() {
                                            let m = self.mul(*a, *b);
                                            n[i + j] = self.add(n[i + j], m);
                                        }
                                    }
                                    acc = n;
                                    if acc.len() > 65 {
                                        ok = false;
                                        break;
                                    }
                                }
                            }
                        }
                    }
                    if !ok {
                        break;
                    }
                }
                if ok {
                    Some(acc)
                } else {
                    None
                }
            }
        };
        memo.insert(t, r.clone());
        r
    }
    fn pmul(&mut self, a: &[T], b: &[T]) -> Option<Vec<T>> {
        if a.len() + b.len() > 130 {
            return None;
        }
        let mut n = vec![T_ZERO; a.len() + b.len() - 1];
        for (i, x) in a.iter().enumerate() {
            for (j, y) in b.iter().enumerate() {
                let m = self.mul(*x, *y);
                n[i + j] = self.add(n[i + j], m);
            }
        }
        Some(n)
    }
    /// t = (polynomial in v) / (product of bases that contain v, known to be non-zero because they were inverted)
    pub fn coefs_rat(&mut self, t: T, v: u32, memo: &mut HashMap<T, Option<(Vec<T>, BTreeMap<T, i32>)>>) -> Option<(Vec<T>, BTreeMap<T, i32>)> {
        if let Some(r) = memo.get(&t) {
            return r.clone();
        }
        if !self.var_set(t).contains(&v) {
            return Some((vec![t], BTreeMap::new()));
        }
        let r = (|| match self.nodes[t as usize].clone() {
            Node::Lin(k, ts) => {
                let k = self.cst(k);
                let mut parts = vec![(vec![k], BTreeMap::new())];
                for (x, q) in ts {
                    let (c, d) = self.coefs_rat(x, v, memo)?;
                    let c = c.into_iter().map(|y| self.scale(y, &q)).collect();
                    parts.push((c, d));
                }
                let mut lcm: BTreeMap<T, i32> = BTreeMap::new();
                for (_, d) in &parts {
                    for (b, e) in d {
                        let m = lcm.entry(*b).or_insert(0);
                        *m = (*m).max(*e);
                    }
                }
                let mut acc = vec![T_ZERO];
                for (c, d) in parts {
                    let mut c: Vec<T> = c;
                    for (b, e) in &lcm {
                        let miss = e - d.get(b).copied().unwrap_or(0);
                        if miss > 0 {
                            let bc = self.coefs_in(*b, v, &mut HashMap::new())?;
                            for _ in 0..miss {
                                c = self.pmul(&c, &bc)?;
                            }
                        }
                    }
                    for (i, y) in c.into_iter().enumerate() {
                        if i < acc.len() {
                            acc[i] = self.add(acc[i], y);
                        } else {
                            acc.push(y);
                        }
                    }
                }
                Some((acc, lcm))
            }
            Node::Prod(fs) => {
                let mut acc = vec![T_ONE];
                let mut den: BTreeMap<T, i32> = BTreeMap::new();
                for (x, e) in fs {
                    let has = self.var_set(x).contains(&v);
                    if !has {
                        let z = self.powi(x, e as i64);
                        acc = acc.into_iter().map(|y| self.mul(y, z)).collect();
                    } else if e < 0 {
                        self.coefs_in(x, v, &mut HashMap::new())?;
                        *den.entry(x).or_insert(0) += -e;
                    } else {
                        let (c, d) = self.coefs_rat(x, v, memo)?;
                        for _ in 0..e {
                            acc = self.pmul(&acc, &c)?;
                            for (b, m) in &d {
                                *den.entry(*b).or_insert(0) += m;
                            }
                        }
                    }
                }
                Some((acc, den))
            }
            Node::Var(_) => Some((vec![T_ZERO, T_ONE], BTreeMap::new())),
            Node::Const(_) => None,
        })();
        memo.insert(t, r.clone());
        r
    }
    pub fn show(&self, t: T) -> String {
        self.show_d(t, 0)
    }
    fn show_d(&self, t: T, d: usize) -> String {
        if d > 6 {
            return "...".into();
        }
        match &self.nodes[t as usize] {
            Node::Const(q) => q.to_string(),
            Node::Var(v) => self.vars[*v as usize].name.clone(),
            Node::Lin(k, ts) => {
                let mut s: Vec<String> = ts
                    .iter()
                    .take(12)
                    .map(|(t, q)| {
                        if q.is_one() {
                            self.show_d(*t, d + 1)
                        } else {
                            format!("{}*{}", q, self.show_d(*t, d + 1))
                        }
                    })
                    .collect();
                if ts.len() > 12 {
                    s.push(format!("...{} more", ts.len() - 12));
                }
                if !k.is_zero() {
                    s.push(k.to_string());
                }
                format!("({})", s.join(" + "))
            }
            Node::Prod(fs) => fs
                .iter()
                .map(|(t, e)| if *e == 1 { self.show_d(*t, d + 1) } else { format!("{}^{}", self.show_d(*t, d + 1), e) })
                .collect::<Vec<_>>()
                .join("*"),
        }
    }

    // ---------- integers that stand for symbolic scalars ----------
    fn unmagic(&self, n: &BigInt) -> Option<(T, bool)> {
        if n.bits() != 255 {
            return None;
        }
        let (s, d) = n.to_u64_digits();
        if d.len() != 4 || (d[3] >> 32) != MAGIC_HI {
            return None;
        }
        let t = d[0] ^ self.magic_low;
        if t >= self.nodes.len() as u64 {
            return None;
        }
        let k = self.keys[t as usize];
        if d[1] != k as u64 || d[2] != (k >> 64) as u64 {
            return None;
        }
        if (d[3] & 0xffff_ffff) != (h64(&d[0].to_le_bytes(), 77) & 0xffff_ffff) {
            return None;
        }
        Some((t as T, s == Sign::Minus))
    }
    pub fn to_bigint(&self, t: T) -> ABig<4> {
        if let Some(q) = self.const_of(t) {
            if q.is_int() && !q.n.is_negative() && q.n.bits() <= 128 {
                let v = q.n.to_u128().unwrap();
                return ABig::new([v as u64, (v >> 64) as u64, 0, 0]);
            }
        }
        let k = self.keys[t as usize];
        let lo = (t as u64) ^ self.magic_low;
        ABig::new([lo, k as u64, (k >> 64) as u64, (MAGIC_HI << 32) | (h64(&lo.to_le_bytes(), 77) & 0xffff_ffff)])
    }
    pub fn of_limbs(&mut self, l: &[u64]) -> T {
        let mut n = BigUint::zero();
        for (i, x) in l.iter().enumerate() {
            n += BigUint::from(*x) << (64 * i);
        }
        let m: BigUint = Fr::MODULUS.into();
        let half = &m >> 1;
        let n = BigInt::from(n);
        if self.unmagic(&n).is_some() {
            return self.int(n);
        }
        // residues close to r stand for small negative numbers
        let bm = BigInt::from(m);
        if n > BigInt::from(half) && n < bm && (&bm - &n).bits() <= 128 {
            return self.int(n - bm);
        }
        self.int(n)
    }

    // ---------- variables ----------
    pub fn var(&mut self, name: &str, class: Class, shadow: Option<Fr>) -> T {
        let id = match self.var_by_name.get(name) {
            Some(v) => *v,
            None => {
                let id = self.vars.len() as u32;
                let sh = shadow.unwrap_or_else(|| {
                    let b = prf(self.seed, &format!("var:{}", name), 40);
                    Fr::from_le_bytes_mod_order(&b)
                });
                self.vars.push(Var { name: name.into(), class, shadow: sh, t: 0 });
                let t = self.mk(Node::Var(id));
                self.vars[id as usize].t = t;
                self.var_by_name.insert(name.into(), id);
                id
            }
        };
        if self.path.used_set.insert(id) {
            self.path.used.push(id);
        }
        match self.path.subst.get(&id) {
            Some(t) => *t,
            None => self.vars[id as usize].t,
        }
    }

    // ---------- decisions ----------
    /// Decides whether t is zero on the current path.
    pub fn is_zero(&mut self, t: T) -> bool {
        self.path.n_dec += 1;
        self.zero_rec(t)
    }
    fn zero_rec(&mut self, t: T) -> bool {
        if let Some(q) = self.const_of(t) {
            return fr_of_q(q).is_zero();
        }
        let (_, fs) = self.factors(t);
        for (f, e) in fs {
            if e < 0 {
                continue;
            }
            if self.path.known_nz.contains(&f) {
                let lone = |g: &State| match g.nodes[f as usize] {
                    Node::Var(v) => matches!(g.vars[v as usize].class, Class::Ch128 | Class::Frb),
                    _ => false,
                };
                let fixed = if self.path.chal_cost > self.path.cost { self.only_chals(f) } else { lone(self) };
                if let Some(i) = self.path.dec_at.get(&f).copied().filter(|_| !fixed) {
                    let c = self.path.cost;
                    let d = &mut self.path.decisions[i].1;
                    *d = (*d).min(c);
                }
                continue;
            }
            if self.factor_zero(f) {
                return true;
            }
        }
        false
    }
    fn only_chals(&mut self, f: T) -> bool {
        let vs = self.var_set(f);
        vs.iter().all(|v| matches!(self.vars[*v as usize].class, Class::Ch128 | Class::Frb))
    }
    fn factor_zero(&mut self, f: T) -> bool {
        // formal variables: a polynomial vanishes iff every coefficient does
        let formal = self.path.formal.clone();
        if !formal.is_empty() || self.path.formal_wide || self.path.formal_ints {
            let vs = self.var_set(f);
            let v = formal.iter().copied().find(|v| vs.contains(v)).or_else(|| {
                let (wide, ints) = (self.path.formal_wide, self.path.formal_ints);
                vs.iter()
                    .copied()
                    .filter(|v| {
                        let x = &self.vars[*v as usize];
                        (wide && x.class == Class::Frb) || (ints && x.class == Class::Ch128 && x.name.starts_with('u'))
                    })
                    .min()
            });
            if let Some(v) = &v {
                match self.coefs_rat(f, *v, &mut HashMap::new()) {
                    Some((c, _)) => {
                        for x in c.into_iter().rev() {
                            self.stats.coef_checks += 1;
                            if !self.zero_rec(x) {
                                self.path.known_nz.insert(f);
                                return false;
                            }
                        }
                        return true;
                    }
                    None => unsupported("formal variable in a nested denominator or of too high degree"),
                }
            }
        }
        if !self.shadow[f as usize].is_zero() {
            self.path.known_nz.insert(f);
            let c = if self.path.chal_cost > self.path.cost && self.only_chals(f) { self.path.chal_cost } else { self.path.cost };
            self.path.dec_at.insert(f, self.path.decisions.len());
            self.path.decisions.push((DecKind::Zero(f), c));
            return false;
        }
        match self.prove_zero(f) {
            Some(true) => true,
            Some(false) => unsupported("witness point is a root of a polynomial that is not identically zero"),
            None => unsupported("solver could not decide an identity"),
        }
    }
    pub fn bool_dec(&mut self, name: &str, default: bool) -> bool {
        self.path.n_dec += 1;
        if let Some(b) = self.path.bools.get(name) {
            return *b;
        }
        let c = self.path.cost.max(self.path.chal_cost);
        self.path.decisions.push((DecKind::Bool(name.into(), default), c));
        default
    }

    // ---------- solver ----------
    /// Is the rational function t identically zero?  Some(true): proved by the solver (unsat of t != 0).
    pub fn prove_zero(&mut self, t: T) -> Option<bool> {
        if t == T_ZERO {
            return Some(true);
        }
        if self.proved_zero.contains(&t) {
            return Some(true);
        }
        if self.proved_nonid.contains(&t) {
            return Some(false);
        }
        let until = std::time::Instant::now() + std::time::Duration::from_secs(PROVE_SECS);
        match self.prove_part(t, &mut HashSet::new(), until) {
            Some(true) => {
                self.proved_zero.insert(t);
                Some(true)
            }
            Some(false) => {
                self.proved_nonid.insert(t);
                Some(false)
            }
            None => None,
        }
    }
    /// Is t identically zero once the variables in `zero` are?
    /// A large t of joint degree at most one in some variables S is zero iff it is with either half of S set to zero:
    /// t = t[S2=0] + t[S1=0] - t[S=0].
    fn prove_part(&mut self, t: T, zero: &mut HashSet<u32>, until: std::time::Instant) -> Option<bool> {
        if std::time::Instant::now() > until {
            self.stats.inconclusive += 1;
            return None;
        }
        if let Some(s) = self.split(t, zero) {
            let (l, r) = s.split_at(s.len() / 2);
            for half in [r, l] {
                zero.extend(half);
                let a = self.prove_part(t, zero, until);
                for v in half {
                    zero.remove(v);
                }
                if a != Some(true) {
                    return a;
                }
            }
            return Some(true);
        }
        let (decls, defs, num) = self.emit(t, zero);
        if num == "0.0" {
            return Some(true);
        }
        let body = format!("{}{}(assert (not (= {} 0.0)))\n", decls.join(""), defs, num);
        self.stats.identity_queries += 1;
        self.stats.max_query_bytes = self.stats.max_query_bytes.max(body.len() as u64);
        if self.samples.len() < 3 {
            let mut s = format!("unsat? {}", body.replace('\n', " "));
            s.truncate(1500);
            self.samples.push(s);
        }
        // cvc5 decides, z3 cross-checks while it is quick; the long attempts only if neither knows
        let (b, _) = self.cvc5.check_for(&body, &[], 5_000);
        let mut verdict = b;
        if b == Answer::Unknown || (self.cross && self.z3_slow < 3) {
            let (a, _) = self.z3.check_for(&body, &[], 1_000);
            match (a, b) {
                (x, Answer::Unknown) => verdict = x,
                (x, y) if x == y => self.stats.cross_agree += 1,
                (Answer::Unknown, _) => {
                    self.z3_slow += 1;
                    self.stats.cross_unknown += 1
                }
                (x, y) => {
                    self.errors.push(format!("solvers disagree: z3 {:?} cvc5 {:?}", x, y));
                    self.stats.inconclusive += 1;
                    return None;
                }
            }
        }
        if verdict == Answer::Unknown {
            verdict = self.z3.check(&body, &[]).0;
        }
        if verdict == Answer::Unknown {
            verdict = self.cvc5.check(&body, &[]).0;
        }
        match verdict {
            Answer::Unsat => {
                self.stats.identities_proved += 1;
                Some(true)
            }
            Answer::Sat => Some(false),
            Answer::Unknown => {
                self.stats.inconclusive += 1;
                None
            }
        }
    }
    /// Has no combination of these linear forms (constant part, coefficients) other than the trivial one a constant value?
    pub fn independent(&mut self, forms: &[(Q, Vec<(u32, Q)>)]) -> Option<bool> {
        let mut by_var: BTreeMap<u32, Vec<String>> = BTreeMap::new();
        let mut body = String::new();
        let mut some = vec![];
        for (i, (_, l)) in forms.iter().enumerate() {
            body.push_str(&format!("(declare-const c{} Real)\n", i));
            some.push(format!("(not (= c{} 0.0))", i));
            for (v, q) in l {
                by_var.entry(*v).or_default().push(format!("(* {} c{})", q.smt(), i));
            }
        }
        for l in by_var.values() {
            body.push_str(&format!("(assert (= 0.0 (+ 0.0 {})))\n", l.join(" ")));
        }
        body.push_str(&format!("(assert (or false {}))\n", some.join(" ")));
        self.stats.identity_queries += 1;
        match self.cvc5.check(&body, &[]).0 {
            Answer::Unsat => {
                self.stats.identities_proved += 1;
                Some(true)
            }
            Answer::Sat => Some(false),
            Answer::Unknown => None,
        }
    }
    /// Asks for values with t != 0 and every listed term non-zero, challenges pinned to their witness values.
    pub fn model_nonzero(&mut self, t: T, nz: &[T]) -> Option<HashMap<u32, Fr>> {
        let mut decls: Vec<String> = vec![];
        let mut defs = String::new();
        let mut nums = vec![];
        let mut em = Emitter::default();
        for x in std::iter::once(&t).chain(nz.iter()) {
            let m = self.emit_into(*x, &mut em);
            nums.push(m);
        }
        decls.extend(em.decls.iter().cloned());
        defs.push_str(&em.defs);
        let mut body = format!("{}{}", decls.join(""), defs);
        let mut pins: HashMap<u32, Fr> = HashMap::new();
        for v in em.vars.iter() {
            let c = self.vars[*v as usize].class;
            if c == Class::Ch128 {
                let u: BigUint = self.vars[*v as usize].shadow.into();
                body.push_str(&format!("(assert (= v{} {}.0))\n", v, u));
                pins.insert(*v, self.vars[*v as usize].shadow);
            }
        }
        for (lits, _) in nums {
            for l in lits {
                body.push_str(&format!("(assert (not (= {} 0.0)))\n", l));
            }
        }
        let want: Vec<String> = em.vars.iter().map(|v| format!("v{}", v)).collect();
        let (a, vals) = self.z3.check(&body, &want);
        if a != Answer::Sat || vals.len() != want.len() {
            return None;
        }
        self.stats.sat_models += 1;
        let mut out = HashMap::new();
        for (v, (_, s)) in em.vars.iter().zip(vals) {
            let q = parse_value(&s)?;
            out.insert(*v, fr_of_q_checked(&q)?);
        }
        out.extend(pins);
        Some(out)
    }
    /// the largest family of variables to split a large t by, if any
    fn split(&self, t: T, zero: &HashSet<u32>) -> Option<Vec<u32>> {
        // live nodes and how many they are
        let mut live: HashMap<T, bool> = HashMap::new();
        self.live(t, zero, &mut live);
        let count = live.values().filter(|b| **b).count();
        if count <= SPLIT_AT {
            return None;
        }
        let mut fams: BTreeMap<String, Vec<u32>> = BTreeMap::new();
        for (x, l) in &live {
            if let (true, Node::Var(v)) = (*l, &self.nodes[*x as usize]) {
                let w = &self.vars[*v as usize];
                if !matches!(w.class, Class::Ch128 | Class::Frb) {
                    let fam: String = w.name.chars().filter(|c| !c.is_ascii_digit()).collect();
                    fams.entry(fam).or_default().push(*v);
                }
            }
        }
        let mut fams: Vec<Vec<u32>> = fams.into_values().filter(|f| f.len() > 1).collect();
        fams.sort_by_key(|f| std::cmp::Reverse(f.len()));
        for mut f in fams {
            f.sort();
            let set: HashSet<u32> = f.iter().copied().collect();
            let mut deg = HashMap::new();
            // worth it only if much of t depends on them
            if self.joint_degree(t, &set, &live, &mut deg) <= 1 && deg.values().filter(|d| **d > 0).count() * 10 >= count {
                return Some(f);
            }
        }
        None
    }
    /// the nodes under t that do not vanish by themselves when the variables in `zero` do
    fn live(&self, t: T, zero: &HashSet<u32>, memo: &mut HashMap<T, bool>) -> bool {
        if let Some(b) = memo.get(&t) {
            return *b;
        }
        let b = match &self.nodes[t as usize] {
            Node::Const(_) => t != T_ZERO,
            Node::Var(v) => !zero.contains(v),
            Node::Lin(k, ts) => ts.iter().fold(!k.is_zero(), |a, (x, _)| self.live(*x, zero, memo) || a),
            Node::Prod(fs) => {
                // vanishing factors first: what they multiply is not reached
                let mut fs: Vec<T> = fs.iter().map(|(x, _)| *x).collect();
                fs.sort();
                fs.iter().all(|x| self.live(*x, zero, memo))
            }
        };
        memo.insert(t, b);
        b
    }
    /// a bound on the degree of t in the variables of s together (a large number if one is in a denominator)
    fn joint_degree(&self, t: T, s: &HashSet<u32>, live: &HashMap<T, bool>, memo: &mut HashMap<T, u32>) -> u32 {
        if live.get(&t) == Some(&false) {
            return 0;
        }
        if let Some(d) = memo.get(&t) {
            return *d;
        }
        let d = match &self.nodes[t as usize] {
            Node::Const(_) => 0,
            Node::Var(v) => s.contains(v) as u32,
            Node::Lin(_, ts) => ts.iter().map(|(x, _)| self.joint_degree(*x, s, live, memo)).max().unwrap_or(0),
            Node::Prod(fs) => fs.iter().fold(0u32, |a, (x, e)| {
                let d = self.joint_degree(*x, s, live, memo);
                let d = if *e < 0 && d > 0 { 1 << 20 } else { d.saturating_mul(e.unsigned_abs()) };
                a.saturating_add(d)
            }),
        };
        memo.insert(t, d);
        d
    }
    fn emit(&mut self, t: T, zero: &HashSet<u32>) -> (Vec<String>, String, String) {
        let mut em = Emitter { zero: zero.clone(), ..Default::default() };
        let (lits, _) = self.emit_into(t, &mut em);
        let num = match lits.len() {
            0 => "1.0".to_string(),
            1 => lits[0].clone(),
            _ => format!("(* {})", lits.join(" ")),
        };
        (em.decls, em.defs, num)
    }
    /// Emits t as coefficient * Laurent monomial over atoms; returns the atoms of the numerator.
    fn emit_into(&mut self, t: T, em: &mut Emitter) -> (Vec<String>, Q) {
        let (q, mono) = self.emit_mono(t, em);
        if q.is_zero() {
            return (vec!["0.0".into()], q);
        }
        let mut l: Vec<String> = mono.iter().filter(|(_, e)| **e > 0).map(|(a, _)| a.clone()).collect();
        if l.is_empty() {
            l.push("1.0".into());
        }
        (l, q)
    }
    fn emit_mono(&mut self, t: T, em: &mut Emitter) -> (Q, BTreeMap<String, i32>) {
        if let Some(r) = em.memo.get(&t) {
            return r.clone();
        }
        let r = match self.nodes[t as usize].clone() {
            Node::Const(q) => (q, BTreeMap::new()),
            Node::Var(v) if em.zero.contains(&v) => (Q::zero(), BTreeMap::new()),
            Node::Var(v) => {
                let s = format!("v{}", v);
                if em.vars_set.insert(v) {
                    em.vars.push(v);
                    em.decls.push(format!("(declare-const {} Real)\n", s));
                }
                (Q::one(), BTreeMap::from([(s, 1)]))
            }
            Node::Prod(fs) => {
                let mut q = Q::one();
                let mut m: BTreeMap<String, i32> = BTreeMap::new();
                for (f, e) in fs {
                    let (qf, mf) = self.emit_mono(f, em);
                    if qf.is_zero() {
                        if e < 0 {
                            unsupported("a denominator vanishes");
                        }
                        q = Q::zero();
                        m.clear();
                        break;
                    }
                    q = q.mul(&qf.pow(e));
                    for (a, x) in mf {
                        let y = m.entry(a).or_insert(0);
                        *y += x * e;
                    }
                }
                m.retain(|_, e| *e != 0);
                (q, m)
            }
            Node::Lin(k, ts) => {
                let mut parts: Vec<(Q, BTreeMap<String, i32>)> = vec![];
                if !k.is_zero() {
                    parts.push((k, BTreeMap::new()));
                }
                for (x, q) in ts {
                    let (qx, mx) = self.emit_mono(x, em);
                    let qq = q.mul(&qx);
                    if !qq.is_zero() {
                        parts.push((qq, mx));
                    }
                }
                let mut low: BTreeMap<String, i32> = BTreeMap::new();
                let mut atoms: HashSet<String> = HashSet::new();
                for (_, m) in &parts {
                    atoms.extend(m.keys().cloned());
                }
                for a in atoms {
                    let e = parts.iter().map(|(_, m)| *m.get(&a).unwrap_or(&0)).min().unwrap_or(0);
                    if e != 0 {
                        low.insert(a, e);
                    }
                }
                let mut sum = vec![];
                for (q, m) in &parts {
                    let mut l: Vec<String> = vec![];
                    if !q.is_one() {
                        l.push(q.smt());
                    }
                    let mut names: HashSet<&String> = m.keys().collect();
                    names.extend(low.keys());
                    let mut names: Vec<_> = names.into_iter().collect();
                    names.sort();
                    for a in names {
                        let e = m.get(a).unwrap_or(&0) - low.get(a).unwrap_or(&0);
                        for _ in 0..e {
                            l.push(a.clone());
                        }
                    }
                    sum.push(match l.len() {
                        0 => "1.0".into(),
                        1 => l[0].clone(),
                        _ => format!("(* {})", l.join(" ")),
                    });
                }
                if sum.is_empty() {
                    (Q::zero(), BTreeMap::new())
                } else {
                    let name = format!("n{}", t);
                    let e = if sum.len() == 1 { sum[0].clone() } else { format!("(+ {})", sum.join(" ")) };
                    em.defs.push_str(&format!("(define-fun {} () Real {})\n", name, e));
                    let mut m = low;
                    m.insert(name, 1);
                    (Q::one(), m)
                }
            }
        };
        em.memo.insert(t, r.clone());
        r
    }

    // ---------- serialization tags ----------
    pub fn tag(&self, t: T, kind: u8) -> [u8; 32] {
        let mut b = [0u8; 32];
        b[..7].copy_from_slice(b"\xf7SYMTAG");
        b[7] = kind;
        b[8..24].copy_from_slice(&self.keys[t as usize].to_le_bytes());
        let c = h64(&b[..24], 99).to_le_bytes();
        b[24..32].copy_from_slice(&c);
        b
    }
    pub fn untag(&self, b: &[u8]) -> Option<(T, u8)> {
        if b.len() < 32 || &b[..7] != b"\xf7SYMTAG" {
            return None;
        }
        if h64(&b[..24], 99).to_le_bytes() != b[24..32] {
            return None;
        }
        let mut k = [0u8; 16];
        k.copy_from_slice(&b[8..24]);
        self.find_key(u128::from_le_bytes(k)).map(|t| (t, b[7]))
    }

    // ---------- random oracle ----------
    pub fn ro(&mut self, input: &[u8], outlen: usize) -> Vec<u8> {
        let mut toks = vec![];
        let mut content = vec![];
        let mut i = 0;
        while i < input.len() {
            if input[i] == 0xf7 {
                if let Some((t, kind)) = self.untag(&input[i..]) {
                    toks.push(Tok::Term { kind, t });
                    content.push(1);
                    content.push(kind);
                    content.extend(self.shadow[t as usize].into_bigint().to_bytes_le());
                    i += 32;
                    continue;
                }
            }
            toks.push(Tok::Byte(input[i]));
            content.push(0);
            content.push(input[i]);
            i += 1;
        }
        content.push(outlen as u8);
        if let Some(o) = self.path.ro_map.get(&content).copied() {
            // same content: equal tokens, or tokens the solver proves equal
            let old = self.path.queries[o].toks.clone();
            for (a, b) in old.iter().zip(&toks) {
                if let (Tok::Term { t: x, .. }, Tok::Term { t: y, .. }) = (a, b) {
                    if x != y {
                        let d = self.sub(*x, *y);
                        if self.prove_zero(d) != Some(true) {
                            unsupported("digest inputs coincide only at the witness point");
                        }
                    }
                }
            }
            self.path.log.push(o);
            if self.path.log.len() > QUERIES_MAX {
                panic!("the digest is queried without end");
            }
            return self.path.queries[o].out.clone();
        }
        let o = self.path.queries.len();
        let out = prf(self.seed, &format!("ro:{}", o), outlen);
        self.path.log.push(o);
        self.path.ro_map.insert(content.clone(), o);
        self.path.queries.push(Query { raw: input.to_vec(), content, toks, out: out.clone() });
        out
    }
    fn pos_of(&self, o: Option<usize>) -> usize {
        match o {
            Some(o) => self.path.log.iter().rposition(|x| *x == o).unwrap_or(0),
            None => self.path.log.len().saturating_sub(1),
        }
    }
    /// Decides whether the queries with these ordinals have equal inputs (outputs of unequal queries are unequal).
    pub fn same_query(&mut self, a: usize, b: usize) -> bool {
        if a == b {
            return true;
        }
        let (x, y) = (self.path.queries[a].toks.clone(), self.path.queries[b].toks.clone());
        if x.len() != y.len() || self.path.queries[a].out.len() != self.path.queries[b].out.len() {
            return false;
        }
        let chal = |s: &State, t: T| -> Option<usize> {
            match &s.nodes[t as usize] {
                Node::Var(_) => s.path.chals.iter().find(|c| c.t == t).and_then(|c| c.ordinal),
                Node::Prod(fs) if fs.len() == 1 => {
                    let f = fs[0].0;
                    s.path.chals.iter().find(|c| c.t == f).and_then(|c| c.ordinal)
                }
                _ => None,
            }
        };
        let mut i = 0;
        while i < x.len() {
            match (&x[i], &y[i]) {
                (Tok::Byte(p), Tok::Byte(q)) => {
                    // outputs of earlier queries are equal iff those queries are
                    let run = |t: &[Tok]| -> Vec<u8> {
                        t.iter().take(64).map_while(|k| if let Tok::Byte(b) = k { Some(*b) } else { None }).collect()
                    };
                    let (p8, q8) = (run(&x[i..]), run(&y[i..]));
                    if p8.len() >= 8 && q8.len() >= 8 {
                        if let (Some((oa, fa, ra)), Some((ob, fb, rb))) = (self.locate(&p8[..8]), self.locate(&q8[..8])) {
                            if oa != ob {
                                if (fa, ra) != (fb, rb) || oa >= a || ob >= b || !self.same_query(oa, ob) {
                                    return false;
                                }
                                // the rest of the output, as far as both inputs carry it
                                let (va, vb) = (self.path.queries[oa].out.clone(), self.path.queries[ob].out.clone());
                                let mut n = 8;
                                while !ra && fa + n < va.len() && n < p8.len() && n < q8.len() && p8[n] == va[fa + n] && q8[n] == vb[fb + n] {
                                    n += 1;
                                }
                                i += n;
                                continue;
                            }
                        }
                    }
                    if p != q {
                        return false;
                    }
                }
                (Tok::Term { kind: k, t: p }, Tok::Term { kind: l, t: q }) => {
                    if k != l {
                        return false;
                    }
                    if p != q {
                        if let (Some(oa), Some(ob)) = (chal(self, *p), chal(self, *q)) {
                            if oa != ob {
                                if !self.same_query(oa, ob) {
                                    return false;
                                }
                                i += 1;
                                continue;
                            }
                        }
                        let d = self.sub(*p, *q);
                        if !self.is_zero(d) {
                            return false;
                        }
                    }
                }
                _ => return false,
            }
            i += 1;
        }
        true
    }
    /// Which digest output (ordinal, offset, reversed) do these bytes come from?
    pub fn locate(&self, b: &[u8]) -> Option<(usize, usize, bool)> {
        if b.len() < 8 {
            return None;
        }
        let mut rev = b.to_vec();
        rev.reverse();
        // the query made last, then any
        for i in self.path.log.last().copied().into_iter().chain((0..self.path.queries.len()).rev()) {
            let q = &self.path.queries[i];
            for off in 0..(q.out.len() + 1).saturating_sub(b.len()) {
                if &q.out[off..off + b.len()] == b {
                    return Some((i, off, false));
                }
                if q.out[off..off + b.len()] == rev[..] {
                    return Some((i, off, true));
                }
            }
        }
        None
    }
    /// Is the output of this query to be made unusable?
    fn reject(&mut self, o: usize, off: usize, unusable: Vec<u8>) -> bool {
        let k = match self.path.stubborn {
            Some(k) => k,
            None => return false,
        };
        if let Some(r) = self.path.rejected.get(&o) {
            return *r;
        }
        let r = self.path.run < k;
        self.path.run = if r { self.path.run + 1 } else { 0 };
        self.path.rejected.insert(o, r);
        if r {
            self.path.forced.push((o, off, unusable));
        }
        r
    }
    pub fn of_int_challenge(&mut self, v: u128, bits: u32) -> T {
        let n = (bits / 8) as usize;
        let be = v.to_be_bytes();
        let (name, ord) = match self.locate(&be[16 - n..]) {
            Some((o, off, _)) if self.reject(o, off, vec![0; n]) => return self.cst(Q::int(BigInt::from(0))),
            Some((o, off, rev)) => (format!("ch{}@{}+{}{}", o, off, n, if rev { "le" } else { "be" }), Some(o)),
            None => (format!("u{}:{:x}", bits, v), None),
        };
        let t = self.var(&name, Class::Ch128, Some(Fr::from(v)));
        let at = self.path.log.len();
        let pos = self.pos_of(ord);
        self.path.chals.push(Challenge { t, ordinal: ord, bits, name, at, pos });
        t
    }
    /// A field element read from (digest) bytes; None when the bytes are not a field element.
    pub fn of_random_bytes(&mut self, b: &[u8]) -> Option<T> {
        // the widest prefix that matters to a 255-bit field
        let m = b.len().min(32);
        match self.locate(&b[..m]) {
            Some((o, off, rev)) if !rev => {
                if self.reject(o, off, vec![0xff; m]) {
                    return None;
                }
                let name = format!("fr{}@{}+{}", o, off, m);
                if !self.bool_dec(&format!("{}ok", name), true) {
                    return None;
                }
                let t = self.var(&name, Class::Frb, None);
                let bits = (m as u32 * 8).min(255);
                let at = self.path.log.len();
                let pos = self.pos_of(Some(o));
                self.path.chals.push(Challenge { t, ordinal: Some(o), bits, name, at, pos });
                Some(t)
            }
            _ => {
                let f = Fr::from_random_bytes(b)?;
                let l: BigUint = f.into();
                Some(self.of_limbs(&l.to_u64_digits()))
            }
        }
    }
    pub fn of_mod_order(&mut self, b: &[u8], be: bool) -> T {
        match self.locate(b) {
            Some((o, off, rev)) => {
                // as wide as a field element: named like any other wide challenge
                let name = format!("{}{}@{}+{}m{}{}", if b.len() >= 32 { "fr" } else { "mo" }, o, off, b.len(), if be { "be" } else { "le" }, if rev { "r" } else { "" });
                let sh = if be { Fr::from_be_bytes_mod_order(b) } else { Fr::from_le_bytes_mod_order(b) };
                let t = self.var(&name, if b.len() >= 32 { Class::Frb } else { Class::Ch128 }, Some(sh));
                let at = self.path.log.len();
                let pos = self.pos_of(Some(o));
                self.path.chals.push(Challenge { t, ordinal: Some(o), bits: (b.len() as u32 * 8).min(255), name, at, pos });
                t
            }
            None => {
                let f = if be { Fr::from_be_bytes_mod_order(b) } else { Fr::from_le_bytes_mod_order(b) };
                let l: BigUint = f.into();
                self.of_limbs(&l.to_u64_digits())
            }
        }
    }
}

#[derive(Default)]
struct Emitter {
    /// variables emitted as zero
    zero: HashSet<u32>,
    memo: HashMap<T, (Q, BTreeMap<String, i32>)>,
    decls: Vec<String>,
    defs: String,
    vars: Vec<u32>,
    vars_set: HashSet<u32>,
}

fn fr_of_q_checked(q: &Q) -> Option<Fr> {
    let d = fr_of_int(&q.d);
    d.inverse().map(|i| i * fr_of_int(&q.n))
}

/// Parses "((v3 (- (/ 1.0 2.0))))".
fn parse_value(s: &str) -> Option<Q> {
    let toks: Vec<String> =
        s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
    // skip "( ( name"
    let mut pos = 3;
    fn p(t: &[String], pos: &mut usize) -> Option<Q> {
        let x = t.get(*pos)?;
        *pos += 1;
        if x == "(" {
            let op = t.get(*pos)?.clone();
            *pos += 1;
            let a = p(t, pos)?;
            let r = match op.as_str() {
                "-" => a.neg(),
                "/" => {
                    let b = p(t, pos)?;
                    if b.is_zero() {
                        return None;
                    }
                    a.mul(&b.inv())
                }
                _ => return None,
            };
            if t.get(*pos)? != ")" {
                return None;
            }
            *pos += 1;
            Some(r)
        } else {
            let y = x.strip_suffix(".0").unwrap_or(x);
            y.parse::<BigInt>().ok().map(Q::int)
        }
    }
    p(&toks, &mut pos)
}
