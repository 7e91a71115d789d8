//! Replays and bounded searches on the real parser.  See DESIGN.md.
mod check; mod gen; mod grammar; mod oracle; mod reflex; mod rng; mod tables; mod tree;
use check::*; use gen::*; use oracle::*; use rng::Rng;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use std::os::unix::fs::FileExt;

fn arg(name: &str) -> Option<String> { let a: Vec<String> = std::env::args().collect(); a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned()) }
pub fn json(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } } o + "\"" }

/// inputs of one property, by index
fn input(g: &Gen, p: &str, seed: u64, i: u64) -> String {
    let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i).wrapping_add(p.bytes().map(|b| b as u64).sum::<u64>() << 40));
    let r = &mut r;
    match p {
        "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C03" => match r.below(10) {
            0 | 1 | 2 => soup(p, r, 12), 3 | 4 => fragment(p, r), 5 => format!("select {} , {}", fragment(p, r), fragment(p, r)), 6 => { let s = g.sql(r); mutate(&s, p, r) }
            7 => { let a = fragment(p, r); let b = soup(p, r, 3); format!("{}{}{}", a, b, fragment(p, r)) } 8 => { let f = fragment(p, r); mutate(&f, p, r) } _ => format!("{}{}{}", soup("", r, 3), fragment(p, r), soup("", r, 3)),
        },
        "C11" => if r.chance(1, 4) { g.sql(r) } else { g.lookahead_text(r) },
        "C10" => match r.below(8) { 0 => g.sql(r), 1 | 2 => soup("", r, 14), 3 => soup("C03", r, 8), k => { let q = ["C04", "C05", "C06", "C07", "C08", "C09"][r.below(6)]; if k < 6 { fragment(q, r) + &soup(q, r, 4) } else { soup(q, r, 10) } } },
        "C01" => match r.below(8) { 0 => g.sql(r), 1 | 2 => { let s = g.sql(r); mutate(&s, "", r) } 3 | 4 => soup("", r, 16), 5 => { let q = ["C03", "C04", "C05", "C06", "C07", "C08", "C09"][r.below(7)]; soup(q, r, 12) } 6 => { let q = ["C03", "C04", "C05", "C06", "C07", "C08", "C09"][r.below(7)]; fragment(q, r) } _ => { let n = r.below(12); (0..n).map(|_| char::from_u32([r.below(128), r.below(0x800), r.below(0x3000), 0x1F600 + r.below(40)][r.below(4)] as u32).unwrap_or('x')).collect() } },
        "C02" => match r.below(8) { 0 => { let s = g.sql(r); mutate(&s, "C03", r) } 1 => { let s = g.sql(r); mutate(&s, "C04", r) } 2 => { let s = g.sql(r); mutate(&s, "", r) } _ => g.sql(r) },
        "C14" => match r.below(8) { 0 | 1 => { let n = 1 + r.below(20); let v = g.walk(r, n); g.spell_tokens(&v, r, false) } 2 => { let s = g.sql(r); mutate(&s, "", r) } 3 => { let s = g.sql(r); let c: Vec<char> = s.chars().collect(); let n = r.below(c.len() + 1); c[..n].iter().collect() } 4 => { let f = fragment("C06", r); format!("select {}", f) } _ => g.sql(r) },
        _ => g.sql(r),
    }
}
/// all short strings over a property's characters, by index
fn enumerated(p: &str, i: u64) -> Option<String> {
    let (abc, max): (&[&str], u32) = match p {
        "C04" => (&["/", "*", "-", "\n", "a", " "], 7),
        "C05" => (&["'", "\"", "$", "a", "\n", "e", "\\", " ", "b", "U&"], 5),
        "C06" => (&["\\", "'", "u", "x", "7", "D800", "\\uDC00", "0", "8"], 5),
        "C07" => (&["+", "-", "*", "/", "<", ">", "=", "~", "!", ":", ".", "?"], 4),
        "C08" => (&["0", "1", "9", "a", "x", "o", "b", "e", "_", ".", "+", "$"], 5),
        "C03" => (&[" ", "\t", "\n", "\r", "\x0b", "\x0c", "\u{a0}", "\u{85}", "\x01", "\x1f", "a", ";", "\x08"], 4),
        "C01" => (&["'", "\"", "$", "\\", "/", "*", "-", "\n", "é", "1", "e", "U&", "\x01"], 4),
        _ => return None,
    };
    let pre = if p == "C06" { "E'" } else { "" }; let post = "";
    let n = abc.len() as u64; let mut i = i; let mut len = 0; let mut block = 1u64;
    loop { if i < block { break; } i -= block; block *= n; len += 1; if len > max { return None; } }
    let mut s = String::from(pre); for _ in 0..len { s += abc[(i % n) as usize]; i /= n; } s += post; Some(s)
}
fn enum_total(p: &str) -> u64 { let mut lo = 0u64; let mut hi = 1u64 << 32; if enumerated(p, 0).is_none() { return 0; } while lo + 1 < hi { let m = (lo + hi) / 2; if enumerated(p, m).is_some() { lo = m } else { hi = m } } lo + 1 }

fn shrink(o: &Oracle, p: &str, s: &str) -> String {
    let until = Instant::now() + Duration::from_secs(5);
    let bad = |t: &str| check_input(o, t).iter().any(|f| f.tags.contains(&p));
    let mut cur: Vec<char> = s.chars().collect(); let mut step = cur.len().max(2) / 2;
    while step >= 1 && Instant::now() < until {
        let mut i = 0; let mut any = false;
        while i + step <= cur.len() && Instant::now() < until { let mut t = cur.clone(); t.drain(i..i + step); let x: String = t.iter().collect(); if bad(&x) { cur = t; any = true; } else { i += step; } }
        if !any { step /= 2; }
    }
    cur.into_iter().collect()
}
fn report(dir: &str, p: &str, s: &str, msg: &str) -> String {
    std::fs::create_dir_all(dir).ok();
    let f = format!("{}/{}-input.json", dir, p);
    std::fs::write(&f, format!("{{\"property\": {}, \"kind\": \"input\", \"input\": {}, \"finding\": {}}}\n", json(p), json(s), json(msg))).ok();
    f
}
pub fn unjson(s: &str) -> String {
    // the value of "input" in a replay file
    let i = s.find("\"input\": \"").expect("input") + 10; let c: Vec<char> = s[i..].chars().collect(); let mut o = String::new(); let mut k = 0;
    while c[k] != '"' { if c[k] == '\\' { k += 1; match c[k] { 'u' => { let h: String = c[k + 1..k + 5].iter().collect(); o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap_or('?')); k += 4; } 'n' => o.push('\n'), 't' => o.push('\t'), 'r' => o.push('\r'), x => o.push(x) } } else { o.push(c[k]); } k += 1; }
    o
}
const THREADS: usize = 8;
fn main() {
    std::panic::set_hook(Box::new(|i| { *LAST_PANIC.lock().unwrap() = i.to_string(); if std::env::var("REPLAY_PANICS").is_ok() { eprintln!("{}", i); } }));
    std::thread::Builder::new().stack_size(2 << 30).spawn(run).unwrap().join().map_err(|_| std::process::exit(3)).unwrap();
}
fn run() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let gram = arg("--gram").unwrap_or("/repo/crates/parser-generator/resources/gram.y".into());
    let o = match std::panic::catch_unwind(|| Oracle::load(&gram)) { Ok(o) => o, Err(_) => { println!("ERROR the reference cannot read {}", gram); std::process::exit(3) } };
    match cmd {
        "fuzz" => fuzz(&o, &a[2]),
        "one" => {
            let s = unjson(&std::fs::read_to_string(&a[3]).unwrap()); let p = a[2].as_str();
            let done = Arc::new(AtomicBool::new(false)); let d = done.clone(); let pp = p.to_string();
            std::thread::spawn(move || { std::thread::sleep(Duration::from_secs(10)); if !d.load(SeqCst) { println!("FAIL {} no answer within 10 s", pp); std::process::exit(1); } });
            let f = check_input(&o, &s); done.store(true, SeqCst);
            for x in &f { println!("{} {:?} {}", if x.tags.contains(&p) { "FAIL" } else { "other" }, x.tags, x.msg); }
            std::process::exit(if f.iter().any(|x| x.tags.contains(&p)) { 1 } else { 0 });
        }
        "show" => { println!("{:?}", reflex::lex(&a[2], &o.kw)); for f in check_input(&o, &a[2]) { println!("{:?} {}", f.tags, f.msg); } }
        "outcomes" => {
            // one hash per index, for comparing builds
            let g = Gen::new(&o); let p = a[2].clone(); let seed: u64 = arg("--seed").unwrap().parse().unwrap(); let n: u64 = arg("--n").unwrap().parse().unwrap(); let from: u64 = arg("--from").unwrap_or("0".into()).parse().unwrap();
            let until = Instant::now() + Duration::from_secs(arg("--secs").unwrap_or("600".into()).parse().unwrap());
            let res: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![]); let next = AtomicU64::new(from);
            std::thread::scope(|sc| { for _ in 0..THREADS { std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(sc, || loop {
                let i = next.fetch_add(1, SeqCst); if i >= from + n || Instant::now() > until { return; }
                let s = input(&g, &p, seed, i); let out = outcome(&s);
                let h = out.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)); res.lock().unwrap().push((i, h));
            }).unwrap(); } });
            let mut v = res.into_inner().unwrap(); v.sort(); for (i, h) in v { println!("{} {:016x}", i, h); }
        }
        "input" => { let g = Gen::new(&o); print!("{}", json(&input(&g, &a[2], a[3].parse().unwrap(), a[4].parse().unwrap()))); }
        "outcome" => println!("{}", outcome(&unjson(&std::fs::read_to_string(&a[2]).unwrap()))),
        "tables" => tables::run(&o, &a[2], &arg("--out").unwrap_or("/verif/build/replays".into())),
        _ => { eprintln!("unknown command"); std::process::exit(2) }
    }
}
fn fuzz(o: &Oracle, p: &str) {
    let g = Gen::new(o); let seed: u64 = arg("--seed").unwrap_or("1".into()).parse().unwrap(); let secs: u64 = arg("--secs").unwrap_or("20".into()).parse().unwrap();
    let dir = arg("--out").unwrap_or("/verif/build/replays".into()); let curdir = arg("--cur").unwrap_or(dir.clone()); std::fs::create_dir_all(&curdir).ok();
    let start = Instant::now(); let until = start + Duration::from_secs(secs);
    let total = enum_total(p); let ienum = AtomicU64::new(0); let irand = AtomicU64::new(0);
    let count = AtomicU64::new(0); let lexok = AtomicU64::new(0); let trees = AtomicU64::new(0);
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new()); let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let found: Mutex<Option<(String, String)>> = Mutex::new(None); let stop = AtomicBool::new(false);
    let cur: Vec<(Mutex<String>, AtomicU64)> = (0..THREADS).map(|_| (Mutex::new(String::new()), AtomicU64::new(0))).collect();
    let live = AtomicUsize::new(THREADS);
    std::thread::scope(|sc| {
        for th in 0..THREADS {
            let (g, p, cur, live, ienum, irand, count, distinct, samples, found, stop, lexok, trees, curdir) = (&g, p, &cur, &live, &ienum, &irand, &count, &distinct, &samples, &found, &stop, &lexok, &trees, &curdir);
            std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(sc, move || {
                let f = std::fs::File::create(format!("{}/{}-cur-{}", curdir, p, th)).unwrap();
                let mut local: HashSet<u64> = HashSet::new(); let mut n = 0u64;
                loop {
                    if stop.load(SeqCst) || Instant::now() > until { break; }
                    let e = if n % 2 == 0 && total > 0 { let i = ienum.fetch_add(1, SeqCst); if i < total { enumerated(p, i) } else { None } } else { None };
                    let s = e.unwrap_or_else(|| { let i = irand.fetch_add(1, SeqCst); match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| input(g, p, seed, i))) { Ok(s) => s, Err(_) => { println!("INTERNAL generator panics: {}", LAST_PANIC.lock().unwrap()); std::process::exit(3) } } }); n += 1;
                    *cur[th].0.lock().unwrap() = s.clone(); cur[th].1.store(start.elapsed().as_millis() as u64 + 1, SeqCst);
                    let mut buf = (s.len() as u64).to_le_bytes().to_vec(); buf.extend(s.as_bytes()); f.write_all_at(&buf, 0).ok();
                    let fs = match std::panic::catch_unwind(|| check_input(o, &s)) { Ok(f) => f, Err(_) => { println!("INTERNAL the oracle panics on {}: {}", json(&s), LAST_PANIC.lock().unwrap()); std::process::exit(3) } }; cur[th].1.store(0, SeqCst);
                    count.fetch_add(1, SeqCst);
                    local.insert(s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)));
                    if n % 16 == 0 { match o.expect(&s) { Expect::Tree(..) => { trees.fetch_add(1, SeqCst); lexok.fetch_add(1, SeqCst); } Expect::Syntax { .. } => { lexok.fetch_add(1, SeqCst); } _ => {} } }
                    if n % 5000 == 7 { let mut sm = samples.lock().unwrap(); if sm.len() < 12 { sm.push(s.clone()); } }
                    if let Some(x) = fs.iter().find(|x| x.tags.contains(&p)) {
                        stop.store(true, SeqCst); let mut fd = found.lock().unwrap();
                        if fd.is_none() { *fd = Some((s.clone(), x.msg.clone())); }
                    } else if let (Some(x), true) = (fs.first(), std::env::var("REPLAY_ALL").is_ok()) { println!("OTHER {:?} {} {}", x.tags, x.msg, json(&s)); }
                }
                distinct.lock().unwrap().extend(local); live.fetch_sub(1, SeqCst);
            }).unwrap();
        }
        // watchdog
        let (cur, live, dir) = (&cur, &live, &dir);
        sc.spawn(move || while live.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(100));
            for c in cur.iter() { let t = c.1.load(SeqCst); if t != 0 && start.elapsed().as_millis() as u64 > t + 20_000 {
                let s = c.0.lock().unwrap().clone(); let f = report(dir, p, &s, "no answer within 20 s");
                println!("FAIL {} {} no answer within 20 s", p, f); std::process::exit(1);
            } }
        });
    });
    let sm = samples.into_inner().unwrap();
    println!("STATS {{\"evaluations\": {}, \"distinct\": {}, \"enumerated\": {}, \"enumeration_total\": {}, \"sampled_16th_lexed\": {}, \"sampled_16th_trees\": {}, \"samples\": [{}]}}", count.load(SeqCst), distinct.lock().unwrap().len(), ienum.load(SeqCst).min(total), total, lexok.load(SeqCst), trees.load(SeqCst), sm.iter().take(8).map(|s| json(s)).collect::<Vec<_>>().join(", "));
    if let Some((s, _)) = found.into_inner().unwrap() {
        let t = shrink(o, p, &s);
        let msg = check_input(o, &t).into_iter().find(|f| f.tags.contains(&p)).map(|f| f.msg).unwrap_or_default();
        let f = report(&dir, p, &t, &msg); println!("FAIL {} {} {}", p, f, msg); std::process::exit(1);
    }
}
