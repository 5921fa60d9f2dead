#![allow(deprecated, dead_code)]
mod util;
mod oracle;
mod low;
mod model;
mod tags;
mod stdio;
use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    if prop == "known-deep-nesting" { tags::deep_nesting(seed as usize); println!("no crash"); return; }
    std::panic::set_hook(Box::new(|_| ()));
    let c = Ctx::new(seed, n);
    fn run(prop: String, mut c: Ctx) -> std::thread::JoinHandle<Ctx> {
      std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        match prop.as_str() {
            "C01" => low::c01(&mut c), "C02" => low::c02(&mut c), "C03" => low::c03(&mut c), "C04" => low::c04(&mut c),
            "C05" => low::c05(&mut c), "C06" => low::c06(&mut c), "C07" => low::c07(&mut c),
            "C08" => stdio::c08(&mut c), "C09" => tags::c09(&mut c), "C10" => tags::c10(&mut c), "C11" => tags::c11(&mut c), "C12" => tags::c12(&mut c), "C13" => tags::c13(&mut c),
            "C14" => tags::c14(&mut c), "C15" => tags::c15(&mut c), "C16" => tags::c16(&mut c), "C17" => tags::c17(&mut c), "C18" => tags::c18(&mut c), "C19" => tags::c19(&mut c), "C20" => tags::c20(&mut c),
            _ => { eprintln!("unknown property"); std::process::exit(3) }
        }
        c
      }).unwrap()
    }
    let harness = |h: std::thread::JoinHandle<Ctx>| match h.join() { Ok(c) => c, Err(_) => { eprintln!("harness panicked"); std::process::exit(4) } };
    let mut c = harness(run(prop.to_string(), c));
    if c.fail.is_none() {
        // the same cases in several threads at once: nothing is shared but the code, its statics and (where a case says so) a factory
        let hs: Vec<_> = (1..=3u64).map(|k| { let mut d = Ctx::new(seed + 7777 * k, n / 6); d.light = true; run(prop.to_string(), d) }).collect();
        for h in hs { let d = harness(h); c.evals += d.evals; if let (None, Some((w, i, o))) = (&c.fail, d.fail) { c.fail = Some((w, i, format!("{} (three threads at once)", o))); } }
        c.rules.push("the enumerated cases and other random ones again in three threads at once".to_string());
    }
    let s: Vec<String> = c.samples.iter().map(|s| jstr(s)).collect();
    let ru: Vec<String> = c.rules.iter().map(|s| jstr(s)).collect();
    let f = match &c.fail { None => "null".to_string(), Some((w, i, o)) => format!("{{\"check\":{},\"input\":{},\"observed\":{}}}", jstr(w), jstr(i), jstr(o)) };
    println!("{{\"property\":{},\"seed\":{},\"n\":{},\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"rules\":[{}],\"failure\":{}}}",
        jstr(prop), seed, n, c.evals, c.distinct.len(), s.join(","), ru.join(","), f);
}
