#![allow(dead_code)]
mod runner;
mod scen;
mod sym;
mod world;

fn arg(n: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned())
}
fn main() {
    if std::env::var("VERBOSE_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let deep = arg("--tier").as_deref() == Some("thorough");
    // deep recursion over large terms
    let child = std::thread::Builder::new().stack_size(1 << 30).spawn(move || { let all = scen::all(); match cmd.as_str() {
        "list" => {
            for s in &all {
                if arg("--property").map_or(true, |p| p == s.prop) && (deep || !s.deep) {
                    println!("{}", s.name);
                }
            }
        }
        "run" => {
            let name = arg("--scenario").expect("--scenario");
            let secs: f64 = arg("--secs").and_then(|s| s.parse().ok()).unwrap_or(60.0);
            for s in all.iter().filter(|s| s.name == name) {
                println!("{}", runner::run(s, seed, secs, deep));
            }
        }
        "replay" => {
            let name = arg("--scenario").expect("--scenario");
            let file = arg("--values").expect("--values");
            let txt = std::fs::read_to_string(file).expect("values file");
            let mut assign = std::collections::BTreeMap::new();
            let mut bools = std::collections::BTreeMap::new();
            for l in txt.lines() {
                if let Some((k, v)) = l.split_once(' ') {
                    if let Some(h) = v.strip_prefix("0x") {
                        let n = num_bigint::BigUint::parse_bytes(h.as_bytes(), 16).expect("hex");
                        assign.insert(k.to_string(), ark_bls12_381::Fr::from(n));
                    } else {
                        bools.insert(k.to_string(), v == "true");
                    }
                }
            }
            for s in all.iter().filter(|s| s.name == name) {
                let bad = runner::replay_file(s, seed, assign.clone(), bools.clone());
                println!("{}", if bad { "REPRODUCED" } else { "NOT REPRODUCED" });
            }
        }
        _ => eprintln!("usage: ripp-checks list|run|replay"),
    }});
    child.unwrap().join().unwrap();
}
