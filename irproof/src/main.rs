//! irproof LL... < JOBS > RESULTS: one job per line (key=value words), one JSON line per result.
mod decide;
mod exec;
mod ir;
mod jobs;
mod spec;
mod term;
use std::collections::HashMap;
use std::io::BufRead;
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }
fn main() {
    let th = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
    let mut mods = vec![];
    for (k, f) in std::env::args().skip(1).enumerate() {
        match std::fs::read_to_string(&f).map_err(|e| e.to_string()).and_then(|t| ir::parse(&t, &f, k)) { Ok(m) => mods.push(m), Err(e) => { println!("{{\"fatal\":{}}}", js(&format!("{}: {}", f, e))); return } }
    }
        let mut m = exec::M::new(mods); m.link();
        let mut e = jobs::Env { m, vars: HashMap::new(), z3: 0.0 };
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap(); if l.trim().is_empty() { continue }
            let kv: HashMap<&str, &str> = l.split_whitespace().filter_map(|w| w.split_once('=')).collect();
            // the case template has = in it: it is given with : and , instead
            let tpl = kv.get("case").map(|s| s.replace(':', "=").replace(',', " ")).unwrap_or_default();
            let mut kv = kv; kv.insert("case", &tpl);
            let j = jobs::J { kv };
            e.m.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs(j.s("secs").parse().unwrap_or(120)));
            let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jobs::run(&mut e, &j))) { Ok(r) => r, Err(_) => jobs::Rep { name: j.s("name").into(), func: j.s("fn").into(), und: vec!["the verifier stopped with an internal error".into()], obl: vec![("post", 1, 0)], ..Default::default() } };
            let fails: Vec<String> = r.fails.iter().map(|f| format!("{{\"kind\":\"{}\",\"msg\":{},\"case\":{}}}", f.kind, js(&f.msg), js(&f.case))).collect();
            let obl: Vec<String> = r.obl.iter().map(|o| format!("\"{}\":[{},{}]", o.0, o.1, o.2)).collect();
            let ct: Vec<String> = r.ct.iter().map(|c| format!("{{\"what\":{},\"at\":{}}}", js(&c.what), js(&c.at))).collect();
            println!("{{\"name\":{},\"fn\":{},\"obl\":{{{}}},\"fails\":[{}],\"und\":[{}],\"ct\":[{}],\"steps\":{},\"accesses\":{},\"paths\":{},\"ms\":{:.1},\"z3_ms\":{:.1},\"atoms\":{},\"fns\":[{}]}}", js(&r.name), js(&r.func), obl.join(","), fails.join(","), r.und.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), ct.join(","), r.steps, r.accesses, r.paths, r.ms, r.z3_ms, r.atoms, r.fns.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        }
    }).unwrap();
    th.join().unwrap();
}
