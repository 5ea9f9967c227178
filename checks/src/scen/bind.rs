//! What the challenges of a run depend on (C06, C07).
use crate::world::*;
use ark_ff::Zero;

/// The usable challenges drawn since `from`, in order, repetitions and zero draws dropped.
pub fn drawn<W: World>(from: usize) -> Vec<Chal<F<W>>> {
    let mut out: Vec<Chal<F<W>>> = vec![];
    for c in W::chals().into_iter().skip(from) {
        if !out.iter().any(|o| o.name == c.name) && !c.v.is_zero() {
            out.push(c);
        }
    }
    out
}
/// Runs the same code on two inputs; returns the challenges of each run.
pub fn twice<W: World>(a: &dyn Fn(), b: &dyn Fn()) -> (Vec<Chal<F<W>>>, Vec<Chal<F<W>>>) {
    let old = W::set_cost(u32::MAX);
    let n = W::chals().len();
    a();
    let m = W::chals().len();
    let x = drawn::<W>(n);
    b();
    let y = drawn::<W>(m);
    W::set_cost(old);
    (x, y)
}
/// The inputs differ only in values that are first hashed for challenge `at`:
/// earlier challenges agree, challenge `at` agrees only if the values do, later ones differ when it does.
pub fn determines<W: World>(label: &str, count: usize, at: usize, x: &[Chal<F<W>>], y: &[Chal<F<W>>], pairs: &[(F<W>, F<W>)]) {
    if x.len() != count || y.len() != count {
        return W::fail("number of challenges", format!("{}: {} and {} challenges, expected {}", label, x.len(), y.len(), count));
    }
    let old = W::set_cost(u32::MAX);
    for r in 0..at {
        W::check(&format!("{}: challenges before the change agree", label), W::same_query(x[r].pos, y[r].pos));
    }
    W::set_cost(0);
    let eq = W::same_query(x[at].pos, y[at].pos);
    W::observe(label, format!("{}", eq));
    if eq {
        for (i, (a, b)) in pairs.iter().enumerate() {
            W::check_msg(label, a == b, || format!("value {} is not determined by the digest input", i));
        }
    } else {
        W::set_cost(u32::MAX);
        for r in at + 1..count {
            W::check(&format!("{}: later challenges differ", label), !W::same_query(x[r].pos, y[r].pos));
        }
    }
    W::set_cost(old);
}
/// Every challenge `f` draws carries at least 128 bits of digest output.
/// `f` returns a value that depends on each of the first `count` challenges.
pub fn entropy<W: World>(count: usize, f: &dyn Fn() -> Vec<u8>) {
    let old = W::set_cost(u32::MAX);
    let l = W::log_len();
    if f().is_empty() {
        return W::fail("something is computed", String::new());
    }
    for c in drawn::<W>(0) {
        if c.ordinal.is_some() && W::SYM {
            W::check_msg("a challenge carries at least 128 bits of digest output", c.bits >= 128, || format!("{}: {} bits", c.name, c.bits));
        }
    }
    for i in 0..count {
        if let Some(b) = W::sensitivity(l + i, 8, f) {
            W::check_msg("a challenge carries at least 128 bits of digest output", b >= 128, || format!("challenge {}: {} bits", i, b));
        }
    }
    W::set_cost(old);
}

/// The challenge whose digest input contains most of these elements (None: none contains any).
pub fn find_chal<W: World>(wide: bool, elems: &[Vec<u8>]) -> Option<F<W>> {
    let mut best: Option<(usize, F<W>)> = None;
    for c in drawn::<W>(0) {
        if c.name.starts_with("fr") != wide {
            continue;
        }
        let n = elems.iter().filter(|e| W::query_has(c.pos, e)).count();
        if n > 0 && best.as_ref().map(|b| n > b.0).unwrap_or(true) {
            best = Some((n, c.v));
        }
    }
    if best.is_none() && wide && W::chals().iter().any(|c| c.name.starts_with("fr") && c.v.is_zero() && elems.iter().any(|e| W::query_has(c.pos, e))) {
        // zero is as good a wide challenge as any other
        return Some(F::<W>::zero());
    }
    best.map(|b| b.1)
}
/// The challenge of each round, found by the round's messages.
pub fn find_rounds<W: World>(msgs: &[Vec<Vec<u8>>]) -> Option<Vec<F<W>>> {
    msgs.iter().map(|m| find_chal::<W>(false, m)).collect()
}
/// The conjunct `judge` looks at last: paths on which it is the only one to fail come from this order.
pub static LAST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);

/// Compares a verdict with a conjunction; a conjunct is None when the code did not draw the challenge it needs
/// (a verifier may stop early, but only when another conjunct fails).
pub fn judge<W: World>(got: &Verdict, conj: &[&dyn Fn() -> Option<bool>]) {
    let mut unknown = false;
    let last = LAST.load(std::sync::atomic::Ordering::SeqCst).min(conj.len() - 1);
    for c in conj.iter().enumerate().filter(|(i, _)| *i != last).map(|x| x.1).chain(Some(&conj[last])) {
        match c() {
            Some(false) => return W::check("rejects when the relation fails", got.refused() && *got != Verdict::Panic),
            Some(true) => {}
            None => unknown = true,
        }
    }
    if unknown {
        return W::fail("every challenge of the relation is drawn", format!("{:?}", got));
    }
    W::check("accepts when the relation holds", *got == Verdict::Accept);
}
