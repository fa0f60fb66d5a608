//! Bounded companion of the deductive checks: searches concrete failing inputs against the real crate.
//! kxh run PROP SEED SECONDS TIER OUTDIR   -> one JSON line; replay file OUTDIR/PROP.json on failure
//! kxh replay FILE                          -> exit 1 if the recorded input still fails
mod assume; mod gen; mod model; mod props; mod real;
use gen::Rng;
use props::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 || (c as u32) > 126 => { let mut b = [0; 2]; for u in c.encode_utf16(&mut b) { o += &format!("\\u{:04x}", u); } } c => o.push(c) } } o + "\"" }
fn unjs(s: &str) -> String { // parses what js() wrote
    let c: Vec<char> = s.chars().collect(); let mut u: Vec<u16> = vec![]; let mut i = 0;
    while i < c.len() { if c[i] == '\\' { match c[i + 1] { 'u' => { let h: String = c[i + 2..i + 6].iter().collect(); u.push(u16::from_str_radix(&h, 16).unwrap()); i += 6; } x => { u.push(x as u16); i += 2; } } } else { u.push(c[i] as u16); i += 1; } }
    String::from_utf16(&u).unwrap()
}
#[derive(Clone)]
enum Work { Str(String), Case(u64) }
struct Fail { work: Work, msg: String, log: String }
fn one(prop: &str, w: &Work, seed: u64, log: &mut String, tmp: &std::path::Path) -> R {
    match w {
        Work::Str(s) => match guard(|| check_str(prop, s)) { Ok(x) => x, Err(p) => Err(p) },
        Work::Case(n) => { let mut r = Rng::new(seed ^ n.wrapping_mul(0x9E37_79B9)); match guard(|| check_case(prop, &mut r, *n, log, tmp)) { Ok(x) => x, Err(p) => Err(p) } }
    }
}
fn shrink(prop: &str, s: &str, tmp: &std::path::Path) -> String {
    let mut cur: Vec<char> = s.chars().collect(); let t0 = Instant::now();
    let mut step = cur.len() / 2;
    while step >= 1 {
        let mut i = 0; let mut any = false;
        while i + step <= cur.len() && t0.elapsed() < Duration::from_secs(10) {
            let mut c = cur.clone(); c.drain(i..i + step); let t: String = c.iter().collect();
            if one(prop, &Work::Str(t), 0, &mut String::new(), tmp).is_err() { cur = c; any = true; } else { i += step; }
        }
        if !any || step > 1 { if step == 1 { break; } step /= 2; }
        if t0.elapsed() > Duration::from_secs(10) { break; }
    }
    cur.into_iter().collect()
}
fn write_replay(path: &str, prop: &str, seed: u64, w: &Work, msg: &str, log: &str) {
    let _ = std::fs::write(path, replay_text(prop, seed, w, msg, log));
}
fn replay_text(prop: &str, seed: u64, w: &Work, msg: &str, log: &str) -> String {
    let (kind, val) = match w { Work::Str(s) => ("str", js(s)), Work::Case(n) => ("case", n.to_string()) };
    format!("{{\n\"property\":{},\n\"kind\":\"{kind}\",\n\"seed\":{seed},\n\"dict\":{},\n\"input\":{val},\n\"message\":{},\n\"log\":{}\n}}\n", js(prop), js(&std::env::var("KXH_DICT").unwrap_or_default()), js(msg), js(log))
}
/// one entry per line: n123 or s"text"
fn load_dict(t: &str) {
    let mut d = gen::Dict::default();
    for l in t.lines() { if let Some(n) = l.strip_prefix('n') { d.nums.extend(n.parse::<usize>().ok().filter(|n| *n <= 1 << 40)); } else if l.len() > 2 && l.starts_with("s\"") { d.strs.push(unjs(&l[2..l.len() - 1])); } }
    d.strs.retain(|s| !s.is_empty()); let _ = gen::DICT.set(d);
}
const KNOWN: &[(&str, &str)] = &[("C15", "<?xml version=\"1.0\"?><?xml-stylesheet href=\"a\"?><r/>")];
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "assume" { match assume::run() { Ok(n) => { println!("{n}"); return; } Err(m) => { println!("ASSUMPTION REFUTED {m}"); std::process::exit(1); } } }
    if a.len() < 3 { eprintln!("usage"); std::process::exit(3); }
    let tmpdir = |t: usize| { let p = std::env::temp_dir().join(format!("kxh-{}-{}", std::process::id(), t)); std::fs::create_dir_all(&p).unwrap(); p };
    if a[1] == "replay" {
        let f = std::fs::read_to_string(&a[2]).expect("replay file");
        let get = |k: &str| f.lines().find_map(|l| l.strip_prefix(&format!("\"{k}\":"))).map(|l| l.trim_end_matches(',').to_string()).unwrap_or_default();
        let strv = |v: String| unjs(&v[1..v.len() - 1]);
        load_dict(&strv(get("dict")));
        let prop = strv(get("property")); let seed = get("seed").parse().unwrap_or(0);
        let w = if get("kind") == "\"str\"" { Work::Str(strv(get("input"))) } else { Work::Case(get("input").parse().unwrap()) };
        let t = tmpdir(0); let mut log = String::new();
        let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || { let r = one(&prop, &w, seed, &mut log, &t); let _ = std::fs::remove_dir_all(&t); (r, log) }).unwrap().join().unwrap();
        match r { (Ok(()), _) => { println!("not reproduced"); } (Err(m), log) => { println!("{log}\nVIOLATED: {m}"); std::process::exit(1); } }
        return;
    }
    let (prop, seed, secs, tier, out) = (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4].parse::<f64>().unwrap(), a[5].clone(), a[6].clone());
    let _ = std::fs::create_dir_all(&out);
    load_dict(&std::env::var("KXH_DICT").unwrap_or_default());
    let thorough = tier == "thorough";
    let det = Arc::new(det_strs(&prop, thorough));
    let nt = std::env::var("KXH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let t0 = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let (di, ctr) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let fail: Arc<Mutex<Option<Fail>>> = Arc::new(Mutex::new(None));
    let cur: Arc<Vec<Mutex<(Option<Work>, Instant)>>> = Arc::new((0..nt).map(|_| Mutex::new((None, Instant::now()))).collect());
    let stats: Arc<Mutex<(u64, u64, std::collections::HashSet<u64>, Vec<String>)>> = Arc::new(Mutex::new(Default::default()));
    let slow: Arc<Mutex<(f64, Option<Work>)>> = Arc::new(Mutex::new((0.0, None)));
    let budget = Duration::from_secs_f64(secs);
    let mut hs = vec![];
    for t in 0..nt {
        let (prop, det, stop, di, ctr, fail, cur, stats, out, slow) = (prop.clone(), det.clone(), stop.clone(), di.clone(), ctr.clone(), fail.clone(), cur.clone(), stats.clone(), out.clone(), slow.clone());
        let tmp = tmpdir(t);
        hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let mut top = 0.05;
            let mut n_det = 0u64; let mut n_rnd = 0u64; let mut seen = std::collections::HashSet::new(); let mut samples = vec![];
            let keep = !matches!(prop.as_str(), "C01" | "C02" | "C03" | "C11"); let curf = format!("{out}/cur.{t}"); let mut cf = std::fs::File::create(&curf).unwrap();
            // deterministic enumerations get 60% of the budget, in a seed-independent order; the rest is seeded
            while !stop.load(SeqCst) {
                let el = t0.elapsed();
                let k = if el < budget.mul_f64(0.6) { di.fetch_add(1, SeqCst) as usize } else { usize::MAX };
                let w = if k < det.len() { n_det += 1; Work::Str(det[k].clone()) } else {
                    if el >= budget { break; }
                    let n = ctr.fetch_add(1, SeqCst); n_rnd += 1;
                    let mut r = Rng::new(seed.wrapping_mul(1_000_003) ^ n.wrapping_mul(0x5851_F42D));
                    match gen_str(&prop, &mut r, n) { Some(s) => Work::Str(s), None => if supports_case(&prop) { Work::Case(n) } else { continue } }
                };
                if seen.len() < 2_000_000 { match &w { Work::Str(s) => if s.len() > 1 { seen.insert(h(s)); }, Work::Case(n) => { seen.insert(n.wrapping_add(1 << 60)); } } }
                if samples.len() < 2 { if let Work::Str(s) = &w { samples.push(s.clone()) } else if let Work::Case(n) = &w { samples.push(format!("history #{n} of seed {seed}")) } }
                *cur[t].lock().unwrap() = (Some(w.clone()), Instant::now());
                if keep { use std::io::{Seek, Write}; let x = replay_text(&prop, seed, &w, "running", ""); let _ = cf.rewind(); let _ = cf.write_all(x.as_bytes()); let _ = cf.set_len(x.len() as u64); }
                let mut log = String::new();
                let t1 = Instant::now();
                let r = one(&prop, &w, seed, &mut log, &tmp);
                cur[t].lock().unwrap().0 = None;
                let dt = t1.elapsed().as_secs_f64(); if dt > top { top = dt; let mut s = slow.lock().unwrap(); if dt > s.0 { *s = (dt, Some(w.clone())); } }
                if let Err(msg) = r {
                    if let Work::Str(s) = &w { if KNOWN.iter().any(|(p, k)| *p == prop && k == s) { continue; } }
                    let mut f = fail.lock().unwrap();
                    if f.is_none() { *f = Some(Fail { work: w, msg, log }); }
                    stop.store(true, SeqCst);
                }
            }
            let _ = std::fs::remove_dir_all(&tmp); let _ = std::fs::remove_file(&curf);
            let mut s = stats.lock().unwrap(); s.0 += n_det; s.1 += n_rnd; s.2.extend(seen); if s.3.len() < 6 { s.3.extend(samples); }
        }).unwrap());
    }
    // watchdog: an input that runs this long does not terminate
    let limit = Duration::from_secs(std::env::var("KXH_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(25));
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if hs.iter().all(|h| h.is_finished()) { break; }
        for c in cur.iter() {
            let g = c.lock().unwrap();
            if let (Some(w), t) = (&g.0, g.1) { if t.elapsed() > limit {
                let p = format!("{out}/{prop}.json");
                write_replay(&p, &prop, seed, w, "no answer within the time limit (does not terminate)", "");
                println!("{{\"evaluations\":{},\"distinct\":0,\"seconds\":{:.1},\"hang\":true,\"failure\":{{\"replay\":{},\"message\":\"does not terminate\"}}}}", ctr.load(SeqCst), t0.elapsed().as_secs_f64(), js(&p));
                for t in 0..nt { let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("kxh-{}-{}", std::process::id(), t))); }
                std::process::exit(0);
            } }
        }
    }
    for h in hs { let _ = h.join(); }
    let s = stats.lock().unwrap();
    let mut fj = "null".to_string();
    if let Some(f) = fail.lock().unwrap().take() {
        let tmp = tmpdir(99);
        let (w, msg, log) = match &f.work { Work::Str(x) => { let y = shrink(&prop, x, &tmp); let m = one(&prop, &Work::Str(y.clone()), seed, &mut String::new(), &tmp).err().unwrap_or(f.msg.clone()); (Work::Str(y), m, String::new()) } w => (w.clone(), f.msg.clone(), f.log.clone()) };
        let _ = std::fs::remove_dir_all(&tmp);
        let p = format!("{out}/{prop}.json");
        write_replay(&p, &prop, seed, &w, &msg, &log);
        fj = format!("{{\"replay\":{},\"message\":{},\"input\":{}}}", js(&p), js(&msg), match &w { Work::Str(s) => js(s), Work::Case(n) => n.to_string() });
    }
    let known: Vec<String> = KNOWN.iter().filter(|(p, s)| *p == prop && known_fails(s)).map(|(_, s)| js(s)).collect();
    let sl = slow.lock().unwrap(); let sl = format!("[{:.2},{}]", sl.0, match &sl.1 { Some(Work::Str(x)) => js(&x.chars().take(40).collect::<String>()), Some(Work::Case(n)) => n.to_string(), None => "null".into() });
    println!("{{\"slowest\":{sl},\"evaluations\":{},\"enumerated\":{},\"enumeration_size\":{},\"random\":{},\"distinct\":{},\"seconds\":{:.1},\"samples\":[{}],\"known\":[{}],\"failure\":{}}}", s.0 + s.1, s.0, det.len(), s.1, s.2.len(), t0.elapsed().as_secs_f64(), s.3.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), known.join(","), fj);
}
fn known_fails(s: &str) -> bool { // a second <?xml...?> tag replaces the declaration
    match kiss_xml::parse_str(s) { Ok(d) => d.declaration().as_ref().map(|x| x.to_string()) != Some("<?xml version=\"1.0\"?>".to_string()), Err(_) => false }
}
fn h(s: &str) -> u64 { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h); h.finish() }
