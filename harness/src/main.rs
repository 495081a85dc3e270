//! Bounded exploration of the real cache through its public API.
//!   explore seq  PROP SEED FIRST COUNT MILLIS PROGRESS   random operation sequences
//!   explore scen PROP SEED MILLIS PROGRESS              fixed scenarios with random parameters
//!   explore show SEED INDEX                              print a case
//!   explore replay SEED INDEX PROP                       run one case
mod model;
mod scen;
mod seq;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Counting;
pub static BYTES: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

pub static TICK: AtomicU64 = AtomicU64::new(0);
pub static CURRENT: AtomicU64 = AtomicU64::new(0);

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let mut t = msg;
        if let Some(l) = i.location() {
            t += &format!(" at {}:{}", l.file(), l.line());
            if let Ok(f) = std::fs::read_to_string(l.file()).or_else(|_| std::fs::read_to_string(format!("/repo/{}", l.file()))) {
                // the whole statement, for multi-line assertions
                let lines: Vec<&str> = f.lines().collect();
                let n = l.line() as usize;
                t += " src:";
                for x in lines.iter().skip(n - 1).take(4) {
                    t += x.trim();
                    if x.trim().ends_with(';') {
                        break;
                    }
                }
            }
        }
        seq::LAST_PANIC.with(|p| *p.borrow_mut() = t);
    }));
}
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let t = TICK.load(Ordering::Relaxed);
            if t != last.0 {
                last = (t, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(12) {
                println!("HANG {}", CURRENT.load(Ordering::Relaxed));
                std::process::exit(3);
            }
        }
    });
}
fn case_seed(seed: u64, i: u64) -> u64 {
    let mut r = seq::Rng(seed ^ i.wrapping_mul(0xD134_2543_DE82_EF95));
    r.next()
}
fn shrink(case: seq::Case, want: &str) -> seq::Case {
    let mut best = case;
    let t0 = Instant::now();
    let mut size = best.ops.len() / 2;
    while size >= 1 && t0.elapsed() < Duration::from_secs(5) {
        let mut i = 0;
        let mut any = false;
        while i < best.ops.len() {
            let mut c = best.clone();
            let e = (i + size).min(c.ops.len());
            c.ops.drain(i..e);
            TICK.fetch_add(1, Ordering::Relaxed);
            if seq::run_case(&c, want).viol.iter().any(|v| v.1.tags.contains(&want)) {
                best = c;
                any = true;
            } else {
                i += size;
            }
        }
        if !any {
            size /= 2;
        }
    }
    best
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn found(prop: &str, kind: &str, detail: &str) -> ! {
    println!("{{\"found\": {}, \"kind\": {}, \"detail\": {}}}", esc(prop), esc(kind), esc(detail));
    std::io::stdout().flush().unwrap();
    std::process::exit(1)
}
fn describe(case: &seq::Case, viol: &[(usize, model::Viol)], want: &str) -> String {
    let mut s = format!("configuration: {:?}\n", case.cfg);
    for (i, o) in case.ops.iter().enumerate() {
        s += &format!("{i}: {o:?}\n");
    }
    for (i, v) in viol {
        if v.tags.contains(&want) {
            s += &format!("-> at operation {i}: {} {:?}\n", v.msg, v.tags);
        }
    }
    s
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_hook();
    watchdog();
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    match a[1].as_str() {
        "seq" => {
            let prop = a[2].clone();
            let (seed, first, count, ms) = (num(3), num(4), num(5), num(6));
            let mut prog = std::fs::File::create(&a[7]).unwrap();
            let t0 = Instant::now();
            let (mut cases, mut ops, mut evs, mut loads, mut other) = (0u64, 0u64, 0u64, 0u64, 0u64);
            let mut nontrivial = 0u64;
            let mut sample = String::new();
            for i in first..first + count {
                if t0.elapsed() > Duration::from_millis(ms) {
                    break;
                }
                prog.seek(SeekFrom::Start(0)).unwrap();
                prog.write_all(format!("{i:020}").as_bytes()).unwrap();
                CURRENT.store(i, Ordering::Relaxed);
                TICK.fetch_add(1, Ordering::Relaxed);
                let case = seq::gen_case(case_seed(seed, i));
                let o = seq::run_case(&case, &prop);
                cases += 1;
                ops += case.ops.len() as u64;
                evs += o.evictions as u64;
                loads += o.loads as u64;
                if o.evictions > 1 {
                    nontrivial += 1;
                }
                if sample.is_empty() && o.evictions > 3 {
                    sample = format!("seed {seed} case {i}: {:?} {:?}", case.cfg, &case.ops[..case.ops.len().min(6)]);
                }
                if o.viol.iter().any(|v| v.1.tags.iter().any(|t| *t == prop)) {
                    let c = shrink(case, &prop);
                    let o = seq::run_case(&c, &prop);
                    found(&prop, "sequence", &format!("seed {seed} case {i}\n{}", describe(&c, &o.viol, &prop)));
                }
                if !o.viol.is_empty() {
                    other += 1;
                }
            }
            println!(
                "{{\"cases\": {cases}, \"operations\": {ops}, \"insertions\": {evs}, \"loads\": {loads}, \"nontrivial\": {nontrivial}, \"cases_violating_other_properties\": {other}, \"sample\": {}}}",
                esc(&sample)
            );
        }
        "scen" => {
            let prop = a[2].clone();
            let (seed, ms) = (num(3), num(4));
            let mut prog = std::fs::File::create(&a[5]).unwrap();
            let t0 = Instant::now();
            let mut rounds = 0u64;
            let mut names = std::collections::BTreeMap::new();
            'o: for round in 0.. {
                for (name, tags, f) in scen::all() {
                    if !tags.contains(&prop.as_str()) {
                        continue;
                    }
                    prog.seek(SeekFrom::Start(0)).unwrap();
                    prog.write_all(format!("{round:06} {name:40}").as_bytes()).unwrap();
                    CURRENT.store(round, Ordering::Relaxed);
                    TICK.fetch_add(1, Ordering::Relaxed);
                    *names.entry(name).or_insert(0u64) += 1;
                    let mut r = seq::Rng(case_seed(seed ^ 0x5ce9, round));
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r)));
                    let err = match res {
                        Ok(Ok(())) => None,
                        Ok(Err((t, m))) => t.contains(&prop.as_str()).then_some(m),
                        Err(_) => Some(format!("panic: {}", seq::LAST_PANIC.with(|p| p.borrow().clone()))),
                    };
                    if let Some(m) = err {
                        found(&prop, "scenario", &format!("scenario {name} seed {seed} round {round}: {m}"));
                    }
                }
                rounds += 1;
                if t0.elapsed() > Duration::from_millis(ms) || names.is_empty() {
                    break 'o;
                }
            }
            let ns: Vec<String> = names.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect();
            println!("{{\"rounds\": {rounds}, \"scenarios\": {{{}}}}}", ns.join(", "));
        }
        "show" => {
            let c = seq::gen_case(case_seed(num(2), num(3)));
            println!("{}", describe(&c, &[], ""));
        }
        "replay" => {
            let c = seq::gen_case(case_seed(num(2), num(3)));
            let o = seq::run_case(&c, &a[4]);
            println!("{}", describe(&c, &o.viol, &a[4]));
            for (i, v) in &o.viol {
                println!("{i}: {:?} {}", v.tags, v.msg);
            }
            std::process::exit(!o.viol.is_empty() as i32);
        }
        _ => panic!("usage"),
    }
}
