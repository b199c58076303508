//! Replays cases against the real crate. `harness run PROP SEED SECONDS` generates cases,
//! `harness case "TEXT"` runs one, `harness dump` prints every shipped constant.
#[macro_use]
mod inst;
mod spec;
mod trees;
mod util;
mod props;

use std::time::{Duration, Instant};
use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        Some("case") => {
            let mut bad = 0;
            for t in &a[2..] {
                match one(t) {
                    Ok(n) => println!("OK {} {}", n, t),
                    Err(e) => {
                        bad += 1;
                        println!("FAIL {} || {}", t, e)
                    }
                }
            }
            std::process::exit(if bad > 0 { 1 } else { 0 });
        }
        Some("run") => {
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            run(&a[2], seed, secs);
        }
        Some("dump") => props::dump(),
        Some("draw") => props::draws(),
        _ => std::process::exit(2),
    }
}

fn one(t: &str) -> Result<bool, String> {
    let c = Case::parse(t);
    match quiet(|| props::eval(&c)) {
        Some(r) => r,
        None => Err("the evaluation stopped with a panic".to_string()),
    }
}

fn run(prop: &str, seed: u64, secs: f64) {
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let mut rng = Rng(seed.wrapping_mul(0x9E37).wrapping_add(prop.bytes().fold(7, |a, b| a * 31 + b as u64)));
    let fixed = props::fixed(prop, seed);
    let nfixed = fixed.len();
    let mut evals = 0usize;
    let mut good = std::collections::HashSet::new();
    let mut fails = 0;
    let mut samples: Vec<String> = vec![];
    let mut i = 0;
    // a case that does not return: report it and stop; the current case is also written to a file
    // (a crash of the process is attributed to it)
    let cur = std::sync::Arc::new(std::sync::Mutex::new((String::new(), Instant::now())));
    let limit: u64 = std::env::var("HARNESS_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(90);
    let trace = std::env::var("HARNESS_TRACE").ok();
    {
        let cur = cur.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let (t, s) = cur.lock().unwrap().clone();
            if !t.is_empty() && s.elapsed().as_secs() >= limit {
                println!("FAIL {} || does not return within {} s", t, limit);
                println!("DONE evaluations=1 distinct=0 fixed=0 fails=1");
                std::process::exit(1);
            }
        });
    }
    // the fixed list is always completed; random cases follow until the time is used up
    loop {
        let t = if i < nfixed {
            fixed[i].clone()
        } else if Instant::now() >= end {
            break;
        } else {
            match props::random(prop, &mut rng) {
                Some(t) => t,
                None => break,
            }
        };
        i += 1;
        evals += 1;
        *cur.lock().unwrap() = (t.clone(), Instant::now());
        if let Some(p) = &trace {
            let _ = std::fs::write(p, &t);
        }
        match one(&t) {
            Ok(true) => {
                if samples.len() < 3 || (samples.len() < 6 && i > nfixed) {
                    samples.push(t.clone());
                }
                good.insert(t);
            }
            Ok(false) => {}
            Err(e) => {
                fails += 1;
                println!("FAIL {} || {}", t, e.chars().take(1500).collect::<String>());
                if fails >= 5 {
                    break;
                }
            }
        }
    }
    for s in samples {
        println!("SAMPLE {}", s);
    }
    println!("DONE evaluations={} distinct={} fixed={} fails={}", evals, good.len(), nfixed, fails);
    std::process::exit(if fails > 0 { 1 } else { 0 });
}
