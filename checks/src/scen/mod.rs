#[cfg(feature = "full")]
pub mod basic;
pub mod bind;
pub mod products;
#[cfg(feature = "full")]
pub mod groth;
#[cfg(feature = "full")]
pub mod ipa;
#[cfg(feature = "full")]
pub mod poly;
#[cfg(feature = "full")]
pub mod setup;
#[cfg(feature = "full")]
pub mod sipp;
#[cfg(feature = "full")]
pub mod ssm;
#[cfg(feature = "full")]
pub mod tipa;
use crate::runner::Scen;

#[macro_export]
macro_rules! scen {
    ($v:expr, $prop:expr, $name:expr, $bounds:expr, depth=$d:expr, paths=$p:expr, replays=$r:expr, $($f:ident)::+ ($($a:expr),*)) => {
        $crate::scen!(@ $v, $prop, $name, $bounds, false, $d, $p, $r, $($f)::+ ($($a),*))
    };
    (deep $v:expr, $prop:expr, $name:expr, $bounds:expr, depth=$d:expr, paths=$p:expr, replays=$r:expr, $($f:ident)::+ ($($a:expr),*)) => {
        $crate::scen!(@ $v, $prop, $name, $bounds, true, $d, $p, $r, $($f)::+ ($($a),*))
    };
    (@ $v:expr, $prop:expr, $name:expr, $bounds:expr, $deep:expr, $d:expr, $p:expr, $r:expr, $($f:ident)::+ ($($a:expr),*)) => {
        $v.push($crate::runner::Scen {
            prop: $prop,
            name: $name.to_string(),
            deep: $deep,
            depth: $d,
            paths: $p,
            replays: $r,
            sym: std::sync::Arc::new(move || $($f)::+ ::<$crate::world::Sym>($($a),*)),
            real: std::sync::Arc::new(move || $($f)::+ ::<$crate::world::RealRoW>($($a),*)),
            pool: 1,
            last: usize::MAX,
            joint: false,
            bounds: $bounds.to_string(),
        })
    };
}

/// the length named by a scenario
fn size(name: &str) -> usize {
    name.split('/').filter_map(|p| p.strip_prefix("n=")).filter_map(|n| n.parse().ok()).next().unwrap_or(0)
}

pub fn all() -> Vec<Scen> {
    let mut v = vec![];
    products::register(&mut v);
    #[cfg(feature = "full")]
    for register in [basic::register, ipa::register, tipa::register, ssm::register, poly::register, groth::register, sipp::register, setup::register] {
        register(&mut v);
    }
    // exact relations: each conjunct in turn is the only one to fail
    let mut more = vec![];
    for s in v.iter().filter(|s| s.name.contains("/exact") && size(&s.name) <= 128) {
        let conjuncts = match s.prop {
            "C05" => 3,
            "C09" => 5,
            "C11" if s.name.contains("gipa") => 2,
            "C11" => 3,
            "C16" | "C18" => 4,
            "C20" => 9,
            _ => 1,
        };
        for last in 0..conjuncts - 1 {
            more.push(s.alone(last));
        }
        more.push(s.joint());
    }
    let exact = more;
    // the same scenarios under other pools: chunk sizes and reductions depend on the number of worker threads
    let mut more = vec![];
    for (i, s) in v.iter().enumerate() {
        if s.deep || s.prop == "C26" || size(&s.name) > 128 {
            continue;
        }
        let odd = [3, 2, 5, 7][i % 4];
        more.push(s.pooled(odd, 1));
        if ["C01", "C02", "C03", "C08", "C11", "C14", "C17", "C19", "C21"].contains(&s.prop) {
            more.push(s.pooled(8, 2));
        }
        if ["C01", "C21"].contains(&s.prop) {
            more.push(s.pooled(16, 1));
            more.push(s.pooled(33, 1));
        }
    }
    // the same without worker threads
    let mut products_only = vec![];
    products::register(&mut products_only);
    more.extend(products_only.iter().map(|s| s.seq()));
    v.extend(more);
    v.extend(exact);
    v
}
