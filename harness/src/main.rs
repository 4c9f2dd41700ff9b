//! Drives the bnf crate and records what it does as one JSON line per case.
//!   run   FAMILY SEED TIER COUNT OUT   generate and execute COUNT cases
//!   exec  FAMILY IN OUT                execute the cases of a file
//!   one   FAMILY SEED TIER K           print one generated case
//!   worker FAMILY SEED TIER            (internal) execute cases from stdin
//! Cases run in worker processes, so that a crash or a hang of the code under
//! test is recorded as the outcome of the case that caused it.
mod fams;
mod g;
mod ggen;
mod pool;
mod rng;

use serde_json::{Value, json};
use std::io::{BufRead, Write};

pub struct Family {
    pub name: &'static str,
    /// k-th case; must not call the code under test
    pub make: fn(&mut rng::R, u64, &str) -> Value,
    /// executes the case on the code under test; returns the observations
    pub run: fn(&Value) -> Value,
}

pub fn family(name: &str) -> &'static Family {
    fams::ALL
        .iter()
        .find(|f| f.name == name)
        .unwrap_or_else(|| panic!("unknown family {name}"))
}

pub fn make_case(f: &Family, seed: u64, tier: &str, k: u64) -> Value {
    let mut r = rng::R::new(seed, f.name, k);
    let mut c = (f.make)(&mut r, k, tier);
    c["k"] = json!(k);
    c
}

pub fn merge(case: &Value, obs: Value) -> Value {
    let mut o = case.clone();
    for (k, v) in obs.as_object().unwrap() {
        o[k] = v.clone();
    }
    o
}

fn worker(f: &'static Family, seed: u64, tier: String) {
    use std::sync::{Arc, Mutex};
    let msg = Arc::new(Mutex::new(String::new()));
    let m2 = msg.clone();
    std::panic::set_hook(Box::new(move |i| {
        *m2.lock().unwrap() = i.to_string();
    }));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let case: Value = match line.strip_prefix("k ") {
            Some(k) => make_case(f, seed, &tier, k.trim().parse().unwrap()),
            None => serde_json::from_str(&line).unwrap(),
        };
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (f.run)(&case)));
        let out = match res {
            Ok(mut o) => {
                if o.get("outcome").is_none() {
                    o["outcome"] = json!("ok");
                }
                merge(&case, o)
            }
            Err(_) => {
                let m = msg.lock().unwrap().clone();
                merge(&case, json!({"outcome": "panic", "detail": m}))
            }
        };
        let mut so = std::io::stdout().lock();
        writeln!(so, "{out}").unwrap();
        so.flush().unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    match arg(1).as_str() {
        "worker" => {
            let f = family(&arg(2));
            let seed = arg(3).parse().unwrap();
            let tier = arg(4);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || worker(f, seed, tier))
                .unwrap()
                .join()
                .unwrap();
        }
        "run" => pool::run(&arg(2), arg(3).parse().unwrap(), &arg(4), arg(5).parse().unwrap(), None, &arg(6)),
        "exec" => {
            let cases: Vec<Value> = std::fs::read_to_string(arg(3))
                .unwrap()
                .lines()
                .filter(|l| !l.trim().is_empty())
                .map(|l| serde_json::from_str(l).unwrap())
                .collect();
            pool::run(&arg(2), 0, "quick", cases.len() as u64, Some(cases), &arg(4));
        }
        "one" => println!("{}", make_case(family(&arg(2)), arg(3).parse().unwrap(), &arg(4), arg(5).parse().unwrap())),
        x => panic!("unknown mode {x}"),
    }
}
