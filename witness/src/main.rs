//! Replays and searches concrete inputs against the real code.
//!   witness suite NAME --seed N --secs S --tier quick|deep --out FILE --last FILE
//!   witness case "..."
mod spec;
mod util;
mod cases;
#[cfg(feature = "c")]
mod ccases;
mod suites;
use std::time::{Duration, Instant};

fn run_guarded(case: &str) -> Result<(), String> {
    let c = case.to_string();
    match std::panic::catch_unwind(move || cases::run(&c)) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into());
            let loc = LOC.with(|l| l.borrow().clone());
            Err(format!("PANIC {} at {}", m, loc))
        }
    }
}
thread_local! { static LOC: std::cell::RefCell<String> = Default::default(); }
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"');
    o
}

fn main() {
    std::panic::set_hook(Box::new(|i| { LOC.with(|l| *l.borrow_mut() = i.location().map(|l| l.to_string()).unwrap_or_default()); }));
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    match a.get(1).map(|s| s.as_str()) {
        Some("case") => match run_guarded(&a[2]) {
            Ok(()) => println!("OK"),
            Err(e) => { println!("MISMATCH {}", e); std::process::exit(1); }
        },
        Some("suite") => {
            let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let secs: f64 = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0);
            let deep = opt("--tier").as_deref() == Some("deep");
            let last = opt("--last").expect("--last");
            let out = opt("--out").expect("--out");
            let f = std::fs::File::create(&last).unwrap();
            let start = Instant::now();
            let (mut n, mut fails, mut kinds, mut samples) = (0u64, vec![], std::collections::BTreeMap::<String, u64>::new(), vec![]);
            let mut distinct = std::collections::HashSet::new();
            let mut gen = suites::Gen::new(&a[2], seed, deep);
            while let Some(case) = gen.next() {
                if start.elapsed() > Duration::from_secs_f64(secs) && !gen.must() { break; }
                use std::os::unix::fs::FileExt;
                let mut line = case.clone();
                line.push('\n');
                f.write_at(line.as_bytes(), 0).unwrap();
                f.set_len(line.len() as u64).unwrap();
                n += 1;
                distinct.insert(case.clone());
                let kind = case.split_whitespace().next().unwrap().to_string();
                let k = kinds.entry(kind).or_insert(0);
                *k += 1;
                if *k <= 2 { samples.push(case.clone()); }
                if let Err(e) = run_guarded(&case) {
                    fails.push((case, e));
                    if fails.len() >= 3 { break; }
                }
            }
            std::fs::write(&last, "DONE\n").unwrap();
            let mut s = format!("{{\"suite\":{},\"evaluations\":{},\"distinct\":{},\"exhausted\":{},\"secs\":{:.2},\"kinds\":{{", esc(&a[2]), n, distinct.len(), gen.exhausted, start.elapsed().as_secs_f64());
            s += &kinds.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
            s += "},\"samples\":[";
            s += &samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",");
            s += "],\"fails\":[";
            s += &fails.iter().map(|(c, e)| format!("{{\"case\":{},\"error\":{}}}", esc(c), esc(e))).collect::<Vec<_>>().join(",");
            s += "]}\n";
            std::fs::write(out, s).unwrap();
            if !fails.is_empty() { std::process::exit(1); }
        }
        _ => { eprintln!("usage"); std::process::exit(2); }
    }
}
