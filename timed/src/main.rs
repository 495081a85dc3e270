//! Bounded check of waits with a time limit, on the real cache with real threads and the real clock.
//!   timed PROP SEED MILLIS PROGRESS
//! The margins are seconds where the effects looked for are of the length of the longer limit or endless.
use quick_cache::sync::{Cache, GuardResult};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc};
use std::thread;
use std::time::{Duration, Instant};

type C = Cache<u64, u64>;
const SLACK: Duration = Duration::from_secs(3);
static RNG: AtomicU64 = AtomicU64::new(0);
fn rnd(n: u64) -> u64 {
    let mut z = RNG.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    (z ^ (z >> 31)) % n
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
#[derive(Debug, PartialEq, Clone, Copy)]
enum Out {
    Value(u64),
    Turn,
    Timeout,
}
fn ask(c: &C, k: u64, limit: Option<Duration>) -> (Out, Duration) {
    let t = Instant::now();
    let o = match c.get_value_or_guard(&k, limit) {
        GuardResult::Value(v) => Out::Value(v),
        GuardResult::Guard(_) => Out::Turn,
        GuardResult::Timeout => Out::Timeout,
    };
    (o, t.elapsed())
}
fn guard(c: &C, k: u64) -> quick_cache::sync::PlaceholderGuard<'_, u64, u64, quick_cache::UnitWeighter, quick_cache::DefaultHashBuilder, quick_cache::sync::DefaultLifecycle<u64, u64>> {
    match c.get_value_or_guard(&k, None) {
        GuardResult::Guard(g) => g,
        _ => panic!("TIMED the first to ask for key {k} is not told to load"),
    }
}
/// runs f in a thread; None if it does not end in time (the thread is left behind)
fn within<T: Send + 'static>(d: Duration, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let (s, r) = mpsc::channel();
    thread::spawn(move || s.send(f()));
    r.recv_timeout(d).ok()
}

/// nobody finishes the load: the wait ends at the limit, not before and not long after, and leaves the load as it was
fn plain(c: Arc<C>, k: u64) -> Result<(), String> {
    let g = guard(&c, k);
    let limit = ms([0, 1, 30, 80][rnd(4) as usize]);
    let c2 = c.clone();
    let Some((o, t)) = within(limit + SLACK, move || ask(&c2, k, Some(limit))) else {
        return Err(format!("a wait with limit {limit:?} did not end within {:?}", limit + SLACK));
    };
    if o != Out::Timeout {
        return Err(format!("a wait for a load that goes on ended with {o:?}"));
    }
    if t < limit {
        return Err(format!("a wait with limit {limit:?} timed out after {t:?}"));
    }
    if rnd(2) == 0 {
        g.insert(7).map_err(|_| "a timeout of a waiter made the load unwanted")?;
        if ask(&c, k, Some(Duration::ZERO)).0 != Out::Value(7) {
            return Err("the value loaded after a timeout is not there".into());
        }
    } else {
        drop(g);
        let c2 = c.clone();
        let Some((o, _)) = within(SLACK, move || ask(&c2, k, Some(ms(2000)))) else { return Err("after a timeout and an abandoned load the key hangs".into()) };
        if o != Out::Turn {
            return Err(format!("after a timeout and an abandoned load the next request got {o:?}"));
        }
    }
    Ok(())
}
/// somebody else unparks the waiter again and again: the limit is for the whole wait
fn unparked(c: Arc<C>, k: u64) -> Result<(), String> {
    let g = guard(&c, k);
    let limit = ms(100 + rnd(100));
    let c2 = c.clone();
    let (s, r) = mpsc::channel();
    let t = thread::spawn(move || s.send(ask(&c2, k, Some(limit))));
    let end = Instant::now() + limit + SLACK;
    let step = ms(20 + rnd(30));
    let got = loop {
        t.thread().unpark();
        if let Ok(x) = r.recv_timeout(step) {
            break Some(x);
        }
        if Instant::now() > end {
            break None;
        }
    };
    let _ = &g;
    match got {
        None => Err(format!("a wait with limit {limit:?} that is unparked every {step:?} did not end within {:?}", limit + SLACK)),
        Some((Out::Timeout, t)) if t >= limit => Ok(()),
        Some((o, t)) => Err(format!("a wait with limit {limit:?} that is unparked every {step:?} ended with {o:?} after {t:?}")),
    }
}
/// the load ends long before the limit: the waiters do not wait for the limit, and none times out
fn early(c: Arc<C>, k: u64) -> Result<(), String> {
    let g = guard(&c, k);
    let limit = if rnd(2) == 0 { Duration::MAX } else { Duration::from_secs(60) };
    let n = 1 + rnd(3);
    let rs: Vec<_> = (0..n)
        .map(|_| {
            let (s, r) = mpsc::channel();
            let c2 = c.clone();
            thread::spawn(move || s.send(ask(&c2, k, Some(limit))));
            r
        })
        .collect();
    let store = rnd(2) == 0;
    thread::sleep(ms(rnd(60)));
    if store {
        g.insert(9).map_err(|_| "a load nobody interfered with was unwanted")?;
    } else {
        drop(g);
    }
    for r in rs {
        // a waiter that takes over drops its guard at once, so that the next one takes over
        match r.recv_timeout(SLACK) {
            Err(_) => return Err(format!("a waiter with limit {limit:?} does not notice that the load ended (stored: {store})")),
            Ok((o, _)) if o != if store { Out::Value(9) } else { Out::Turn } => return Err(format!("a waiter with limit {limit:?} got {o:?} from a load that ended (stored: {store})")),
            Ok(_) => {}
        }
    }
    Ok(())
}
/// one of several waiters times out: the others and the load go on
fn others(c: Arc<C>, k: u64) -> Result<(), String> {
    let g = guard(&c, k);
    let n = 2 + rnd(3);
    let short = rnd(n);
    let mut long = vec![];
    let mut brief = None;
    for i in 0..n {
        let (s, r) = mpsc::channel();
        let c2 = c.clone();
        let limit = match (i == short, rnd(2)) {
            (true, _) => Some(ms(30)),
            (_, 0) => None,
            _ => Some(Duration::from_secs(60)),
        };
        thread::spawn(move || s.send(ask(&c2, k, limit)));
        thread::sleep(ms(rnd(8)));
        if i == short { brief = Some(r) } else { long.push(r) }
    }
    match brief.unwrap().recv_timeout(ms(30) + SLACK) {
        Err(_) => return Err("one of several waiters, with limit 30ms, did not end in time".into()),
        Ok((Out::Timeout, _)) => {}
        Ok((o, _)) => return Err(format!("one of several waiters, with limit 30ms, got {o:?} while the load goes on")),
    }
    for r in &long {
        if let Ok((o, t)) = r.try_recv() {
            return Err(format!("a waiter got {o:?} after {t:?} when another one timed out"));
        }
    }
    let store = rnd(2) == 0;
    if store { g.insert(5).map_err(|_| "unwanted")? } else { drop(g) }
    for r in long {
        match r.recv_timeout(SLACK) {
            Err(_) => return Err(format!("a waiter is forgotten after another one timed out (stored: {store})")),
            Ok((o, _)) if o != if store { Out::Value(5) } else { Out::Turn } => return Err(format!("after another one timed out a waiter got {o:?} (stored: {store})")),
            Ok(_) => {}
        }
    }
    Ok(())
}
/// limits that run out about when the load ends: nobody hangs, and the key can be used afterwards
fn race(c: Arc<C>, k: u64) -> Result<(), String> {
    let g = guard(&c, k);
    let limit = ms(1 + rnd(3));
    let go = Arc::new(AtomicBool::new(false));
    let rs: Vec<_> = (0..1 + rnd(3))
        .map(|_| {
            let (s, r) = mpsc::channel();
            let (c2, go) = (c.clone(), go.clone());
            thread::spawn(move || {
                while !go.load(SeqCst) {
                    thread::yield_now();
                }
                s.send(ask(&c2, k, Some(limit)))
            });
            r
        })
        .collect();
    let store = rnd(2) == 0;
    let t = Instant::now();
    go.store(true, SeqCst);
    let wait = limit.saturating_sub(Duration::from_micros(500)) + Duration::from_micros(rnd(1000));
    while t.elapsed() < wait {}
    if store { g.insert(3).map_err(|_| "unwanted")? } else { drop(g) }
    for r in rs {
        match r.recv_timeout(limit + SLACK) {
            Err(_) => return Err(format!("a wait with limit {limit:?} ending about when the load ends did not end (stored: {store})")),
            Ok((Out::Value(v), _)) if !store || v != 3 => return Err(format!("a waiter got {v}, which was not loaded")),
            Ok((Out::Turn, _)) if store => return Err("a waiter is told to load what is loaded".into()),
            Ok(_) => {}
        }
    }
    let c2 = c.clone();
    match within(SLACK, move || ask(&c2, k, Some(ms(2000)))) {
        Some((o, _)) if o == if store { Out::Value(3) } else { Out::Turn } => Ok(()),
        x => Err(format!("after waits that ended about when the load did (stored: {store}), the next request got {x:?}")),
    }
}

fn esc(s: &str) -> String {
    s.chars().flat_map(|c| match c { '"' | '\\' => vec!['\\', c], '\n' => vec!['\\', 'n'], c if (c as u32) < 32 => vec![' '], c => vec![c] }).collect()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, millis, progress) = (&a[1], a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), &a[4]);
    RNG.store(seed.wrapping_mul(0xD134_2543_DE82_EF95), SeqCst);
    let all: [(&str, fn(Arc<C>, u64) -> Result<(), String>); 5] = [("plain", plain), ("unparked", unparked), ("early", early), ("others", others), ("race", race)];
    let end = Instant::now() + ms(millis);
    let c: Arc<C> = Arc::new(Cache::new(1 << 20));
    let (mut n, mut per) = (0u64, [0u64; 5]);
    while Instant::now() < end {
        let w = if rnd(3) == 0 { 4 } else { rnd(4) as usize };
        let _ = std::fs::write(progress, format!("{} number {n} of seed {seed}", all[w].0));
        let c2 = c.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || all[w].1(c2, 1000 + n))).unwrap_or_else(|e| Err(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()));
        if let Err(e) = r {
            println!("{{\"found\": true, \"kind\": \"timed:{}\", \"detail\": \"{prop} {} (number {n} of seed {seed})\"}}", all[w].0, esc(&e));
            std::process::exit(1);
        }
        n += 1;
        per[w] += 1;
    }
    println!("{{\"rounds\": {n}, \"plain\": {}, \"unparked\": {}, \"early\": {}, \"others\": {}, \"race\": {}}}", per[0], per[1], per[2], per[3], per[4]);
    std::process::exit(0);
}
