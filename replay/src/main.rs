//! Bounded stand-ins and search for failing inputs, against the real crates.
//!
//! replay run <property> --seed N --tier quick|thorough [--only KIND] --out FILE
//! replay case <property> <kind> <seed>
mod gen;
mod mock;
mod oracle;
mod props;

use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

/// What a case found: a description of the case, or of what fails.
pub type Case = Result<String, String>;
pub type CaseFn = fn(u64) -> Case;

pub struct Kind {
    pub name: &'static str,
    /// number of cases in the quick tier
    pub quick: u64,
    pub run: CaseFn,
}

fn guarded(f: CaseFn, seed: u64) -> Case {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = catch_unwind(AssertUnwindSafe(|| f(seed)));
        let _ = tx.send(r.unwrap_or_else(|e| {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("panic: {m}"))
        }));
    });
    match rx.recv_timeout(Duration::from_secs(60)) {
        Ok(r) => r,
        Err(_) => Err("no answer within 60 s (hang)".into()),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars().take(2000) {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let prop = a.get(2).cloned().unwrap_or_default();
    let kinds = props::kinds(&prop);
    if kinds.is_empty() {
        eprintln!("unknown property {prop}");
        std::process::exit(3);
    }
    if a[1] == "case" {
        let k = kinds.iter().find(|k| k.name == a[3]).expect("kind");
        match guarded(k.run, a[4].parse().unwrap()) {
            Ok(d) => println!("holds: {d}"),
            Err(d) => {
                println!("FAILS: {d}");
                std::process::exit(1);
            }
        }
        std::process::exit(0);
    }
    let seed: u64 = opt("--seed").map_or(1, |s| s.parse().unwrap());
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let budget: u64 = opt("--budget").map_or(if thorough { 400 } else { 60 }, |s| s.parse().unwrap());
    let out = opt("--out");
    let start = Instant::now();
    let (mut evals, mut fails) = (0u64, vec![]);
    let mut distinct = std::collections::HashSet::new();
    let mut per_kind = vec![];
    let mut samples = vec![];
    for k in &kinds {
        let n = if thorough { k.quick * 20 } else { k.quick };
        let t = Instant::now();
        let share = Duration::from_secs(budget) / kinds.len() as u32;
        let mut done = 0;
        for i in 0..n {
            // The first half of the cases does not depend on the seed.
            let s = if i < n / 2 || thorough { i } else { i.wrapping_add(seed.wrapping_mul(1 << 32)) };
            let r = guarded(k.run, s);
            done += 1;
            match r {
                Ok(d) => {
                    if samples.len() < 3 * per_kind.len() + 3 {
                        samples.push(format!("{} {s}: {d}", k.name));
                    }
                    distinct.insert(format!("{}{d}", k.name));
                }
                Err(d) => {
                    fails.push((k.name, s, d));
                    break;
                }
            }
            if t.elapsed() > share {
                break;
            }
        }
        evals += done;
        per_kind.push(format!("{}:{done}", esc(k.name)));
    }
    let f: Vec<String> = fails
        .iter()
        .map(|(k, s, d)| format!("{{\"kind\":{},\"seed\":{s},\"what\":{}}}", esc(k), esc(d)))
        .collect();
    let s: Vec<String> = samples.iter().map(|s| esc(s)).collect();
    let json = format!(
        "{{\"property\":{},\"evaluations\":{evals},\"distinct\":{},\"per_kind\":{{{}}},\"samples\":[{}],\"failures\":[{}],\"wall_s\":{:.2}}}\n",
        esc(&prop),
        distinct.len(),
        per_kind.join(","),
        s.join(","),
        f.join(","),
        start.elapsed().as_secs_f64()
    );
    match out {
        Some(p) => std::fs::File::create(p).unwrap().write_all(json.as_bytes()).unwrap(),
        None => print!("{json}"),
    }
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
