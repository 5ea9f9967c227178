//! C01 inner products; these are also run against ark-inner-products built without its "parallel" feature.
use crate::runner::Scen;
use crate::scen;
use crate::world::*;
use ark_ec::Group;
use ark_inner_products::*;

pub fn fs<W: World>(p: &str, n: usize) -> Vec<F<W>> {
    (0..n).map(|i| W::f(&format!("{}{}", p, i), STMT)).collect()
}
pub fn g1s<W: World>(p: &str, n: usize) -> Vec<G1<W>> {
    fs::<W>(p, n).into_iter().map(|x| G1::<W>::generator() * x).collect()
}
pub fn g2s<W: World>(p: &str, n: usize) -> Vec<G2<W>> {
    fs::<W>(p, n).into_iter().map(|x| G2::<W>::generator() * x).collect()
}
pub fn dot<W: World>(a: &[F<W>], b: &[F<W>]) -> F<W> {
    a.iter().zip(b).map(|(x, y)| *x * y).sum()
}

/// kind 0 pairing, 1 multiexponentiation G1, 2 multiexponentiation G2, 3 scalar, 4 cfg_multi_pairing
fn ip<W: World>(kind: u8, n: usize, m: usize) {
    let (a, b) = (fs::<W>("a", n), fs::<W>("b", m));
    let want = dot::<W>(&a, &b);
    let r: Result<Result<bool, ()>, String> = match kind {
        0 => {
            let (x, y) = (g1s::<W>("a", n), g2s::<W>("b", m));
            guard(|| PairingInnerProduct::<W::P>::inner_product(&x, &y).map(|v| v == gtgen::<W>() * want).map_err(|_| ()))
        }
        1 => {
            let x = g1s::<W>("a", n);
            guard(|| MultiexponentiationInnerProduct::<G1<W>>::inner_product(&x, &b).map(|v| v == G1::<W>::generator() * want).map_err(|_| ()))
        }
        2 => {
            let x = g2s::<W>("a", n);
            guard(|| MultiexponentiationInnerProduct::<G2<W>>::inner_product(&x, &b).map(|v| v == G2::<W>::generator() * want).map_err(|_| ()))
        }
        3 => guard(|| ScalarInnerProduct::<F<W>>::inner_product(&a, &b).map(|v| v == want).map_err(|_| ())),
        _ => {
            let (x, y) = (g1s::<W>("a", n), g2s::<W>("b", m));
            guard(|| cfg_multi_pairing::<W::P>(&x, &y).map(|v| v == gtgen::<W>() * want).ok_or(()))
        }
    };
    W::observe("inner product", format!("{:?}", r));
    if n == m {
        W::check(&format!("inner product kind {} of length {} is the sum of products", kind, n), r == Ok(Ok(true)));
    } else if kind != 4 {
        W::check(&format!("inner product kind {} of lengths {},{} is an error", kind, n, m), r == Ok(Err(())));
    }
}
fn ip_lengths<W: World>(kind: u8, ns: &'static [usize]) {
    for n in ns {
        ip::<W>(kind, *n, *n);
    }
}
/// the inner products under pools of any size
fn ip_pools<W: World>(kind: u8, ns: &'static [usize]) {
    W::set_cost(u32::MAX);
    for t in [1usize, 2, 3, 4, 6, 7, 8, 12, 16, 33] {
        crate::runner::in_pool(t, || ns.iter().for_each(|n| ip::<W>(kind, *n, *n)));
    }
}
fn ip_mismatch<W: World>(kind: u8, max: usize) {
    for n in 0..=max {
        for m in 0..=max {
            if n != m {
                ip::<W>(kind, n, m);
            }
        }
    }
    for (n, m) in [(8, 9), (16, 8), (1, 33), (33, 32)] {
        ip::<W>(kind, n, m);
    }
}

pub fn register(v: &mut Vec<Scen>) {
    const NAMES: [&str; 5] = ["pairing", "msm-g1", "msm-g2", "scalar", "cfg_multi_pairing"];
    for k in 0..5u8 {
        let nm = NAMES[k as usize];
        scen!(v, "C01", format!("C01/{}/lengths", nm), "lengths 0..=9,13,16,17,31..=33,64,100; one thread", depth = 1, paths = 60, replays = 1,
            ip_lengths(k, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 31, 32, 33, 64, 100]));
        scen!(v, "C01", format!("C01/{}/long", nm), "lengths 127,128,129,255,256,257,512,1000,1024", depth = 0, paths = 10, replays = 1,
            ip_lengths(k, &[127, 128, 129, 255, 256, 257, 512, 1000, 1024]));
        scen!(v, "C26", format!("C26/{}/pools", nm), "lengths 0..=17,31,32,33,64,65; pools of 1,2,3,4,6,7,8,12,16 and 33 threads", depth = 0, paths = 2, replays = 1,
            ip_pools(k, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 64, 65]));
        if k != 4 {
            scen!(v, "C01", format!("C01/{}/mismatch", nm), "all length pairs up to 6, and four longer pairs", depth = 1, paths = 20, replays = 1, ip_mismatch(k, 6));
        }
    }
}
