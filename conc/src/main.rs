//! Bounded exploration of schedules of the real cache (feature `shuttle`: its locks, atomics, threads and
//! parking are those of the shuttle scheduler).
//!   conc PROP SEED MILLIS PROGRESS
//!   conc replay SCHEDULE-FILE
//! Each execution draws a small scenario (parties that ask for a key by thread, by task, with and without a
//! time limit or cancellation, loaders that store or give up, bystanders that insert, remove or clear) and
//! a random schedule; the oracle is a ledger of what was asked, granted and stored.  A deadlock of all parties
//! is a waiter that never gets an outcome.
use quick_cache::sync::{Cache, DefaultLifecycle, GuardResult, PlaceholderGuard};
use quick_cache::{OptionsBuilder, UnitWeighter};
use shuttle::rand::{thread_rng, Rng};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::hash::BuildHasherDefault;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::{Duration, Instant};

type B = BuildHasherDefault<DefaultHasher>;
type L = DefaultLifecycle<u64, u64>;
type C = Cache<u64, u64, UnitWeighter, B, L>;
type G<'a> = PlaceholderGuard<'a, u64, u64, UnitWeighter, B, L>;

static EXECS: AtomicU64 = AtomicU64::new(0);
static GRANTS: AtomicU64 = AtomicU64::new(0);
static WAITS: AtomicU64 = AtomicU64::new(0);
static TIMEOUTS: AtomicU64 = AtomicU64::new(0);
static CANCELS: AtomicU64 = AtomicU64::new(0);
static LATE: AtomicU64 = AtomicU64::new(0);

/// what was asked, granted and stored; never held across a scheduling point
#[derive(Default)]
struct Ledger {
    /// a clock of ledger events
    now: u64,
    next: u64,
    /// guards alive, by key
    alive: BTreeMap<u64, u64>,
    /// (start, end) of operations by bystanders, by key; end 0 while they run
    meddled: BTreeMap<u64, Vec<(u64, u64)>>,
    /// values offered so far, by key
    offered: BTreeMap<u64, BTreeSet<u64>>,
    /// values stored by loaders, by key
    stored: BTreeMap<u64, Vec<u64>>,
}
type Led = Arc<Mutex<Ledger>>;

impl Ledger {
    fn tick(&mut self) -> u64 {
        self.now += 1;
        self.now
    }
    /// a bystander's operation on the key overlaps [a, b]
    fn touched(&self, k: u64, a: u64, b: u64) -> bool {
        self.meddled.get(&k).is_some_and(|v| v.iter().any(|&(s, e)| s <= b && (e == 0 || e >= a)))
    }
    /// a bystander's operation on the key lies within [a, b]
    fn changed(&self, k: u64, a: u64, b: u64) -> bool {
        self.meddled.get(&k).is_some_and(|v| v.iter().any(|&(s, e)| s >= a && e != 0 && e <= b))
    }
    fn fresh(&mut self, k: u64) -> u64 {
        self.next += 1;
        let v = k * 1000 + self.next;
        self.offered.entry(k).or_default().insert(v);
        v
    }
    fn got(&mut self, k: u64, v: u64) {
        assert!(self.offered.get(&k).is_some_and(|s| s.contains(&v)), "ORACLE a request for key {k} got {v}, which nobody offered for it");
        if self.meddled.get(&k).is_none() {
            let first = self.stored.get(&k).and_then(|v| v.first());
            // the loader's store may still be in progress: its waiters are told first
            if let Some(first) = first {
                assert_eq!(*first, v, "ORACLE a request for key {k} got a value other than the one loaded");
            }
        }
    }
    fn granted(&mut self, k: u64) {
        GRANTS.fetch_add(1, Ordering::Relaxed);
        *self.alive.entry(k).or_default() += 1;
        if self.meddled.get(&k).is_none() {
            assert!(self.alive[&k] == 1, "ORACLE two loaders for key {k} at the same time");
            assert!(self.stored.get(&k).is_none(), "ORACLE a second load of key {k} although it is loaded");
        }
    }
}

fn pause(n: u32) {
    for _ in 0..thread_rng().gen_range(0..n) {
        shuttle::thread::yield_now();
    }
}
async fn apause(n: u32) {
    for _ in 0..thread_rng().gen_range(0..n) {
        shuttle::future::yield_now().await;
    }
}

/// what a loader does with the guard it was granted
fn load(led: &Led, k: u64, since: u64, g: G<'_>, store: bool) -> bool {
    let at = led.lock().unwrap().tick();
    pause(4);
    if store {
        let (v, start) = {
            let mut l = led.lock().unwrap();
            (l.fresh(k), l.tick())
        };
        if led.lock().unwrap().meddled.get(&k).is_none() {
            led.lock().unwrap().stored.entry(k).or_default().push(v);
        }
        let r = g.insert(v);
        let mut l = led.lock().unwrap();
        let end = l.tick();
        *l.alive.get_mut(&k).unwrap() -= 1;
        match r {
            Ok(()) => assert!(!l.changed(k, at, start), "ORACLE a late value for key {k} was stored over a change made meanwhile"),
            Err(back) => {
                LATE.fetch_add(1, Ordering::Relaxed);
                assert_eq!(back, v, "ORACLE a loader got another value back");
                assert!(l.touched(k, since, end), "ORACLE the value loaded for key {k} was handed back although nobody touched the key");
            }
        }
        true
    } else {
        // gives up: the guard counts as gone from here on, its drop may let another one in
        *led.lock().unwrap().alive.get_mut(&k).unwrap() -= 1;
        drop(g);
        false
    }
}

/// (the value) or (the guard) for a key, by a thread
fn ask(c: &C, led: &Led, k: u64, limit: Option<Duration>, gives_up: &mut u32) -> Option<u64> {
    loop {
        let since = led.lock().unwrap().tick();
        match c.get_value_or_guard(&k, limit) {
            GuardResult::Value(v) => {
                led.lock().unwrap().got(k, v);
                return Some(v);
            }
            GuardResult::Guard(g) => {
                led.lock().unwrap().granted(k);
                let store = *gives_up == 0;
                if load(led, k, since, g, store) {
                    return None;
                }
                *gives_up -= 1;
                if thread_rng().gen_bool(0.5) {
                    return None;
                }
            }
            GuardResult::Timeout => {
                TIMEOUTS.fetch_add(1, Ordering::Relaxed);
                assert!(limit.is_some(), "ORACLE a request without a time limit timed out");
                if thread_rng().gen_bool(0.5) {
                    return None;
                }
            }
        }
    }
}

fn noop() -> Waker {
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
/// polls the future; with `left` it is polled again at once and given up after so many polls; with `moved` it
/// is first polled by another task
struct Some1<F> {
    f: Option<Pin<Box<F>>>,
    left: Option<u32>,
    moved: bool,
}
impl<F: Future> Future for Some1<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let moved = std::mem::take(&mut self.moved);
        let f = self.f.as_mut().unwrap();
        if moved {
            let w = noop();
            if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                return Poll::Ready(Some(x));
            }
        }
        match f.as_mut().poll(cx) {
            Poll::Ready(x) => Poll::Ready(Some(x)),
            Poll::Pending => {
                WAITS.fetch_add(1, Ordering::Relaxed);
                match self.left {
                    Some(0) => {
                        CANCELS.fetch_add(1, Ordering::Relaxed);
                        self.f = None;
                        Poll::Ready(None)
                    }
                    Some(n) => {
                        self.left = Some(n - 1);
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    }
                    None => Poll::Pending,
                }
            }
        }
    }
}
async fn ask_async(c: Arc<C>, led: Led, k: u64, cancels: bool, mut gives_up: u32) {
    loop {
        let since = led.lock().unwrap().tick();
        let left = if cancels && thread_rng().gen_bool(0.7) { Some(thread_rng().gen_range(0..5)) } else { None };
        let moved = thread_rng().gen_bool(0.3);
        let f = Some1 { f: Some(Box::pin(c.get_value_or_guard_async(&k))), left, moved };
        match f.await {
            Some(Ok(v)) => {
                led.lock().unwrap().got(k, v);
                return;
            }
            Some(Err(g)) => {
                led.lock().unwrap().granted(k);
                apause(3).await;
                if load(&led, k, since, g, gives_up == 0) {
                    return;
                }
                gives_up -= 1;
                if thread_rng().gen_bool(0.5) {
                    return;
                }
            }
            None => {
                if thread_rng().gen_bool(0.5) {
                    return;
                }
            }
        }
    }
}

fn execution() {
    EXECS.fetch_add(1, Ordering::Relaxed);
    let keys: u64 = if thread_rng().gen_bool(0.8) { 1 } else { 2 };
    let meddle = thread_rng().gen_bool(0.4);
    let o = OptionsBuilder::new().estimated_items_capacity(16).weight_capacity(16).shards(1).build().unwrap();
    let c: Arc<C> = Arc::new(Cache::with_options(o, UnitWeighter, B::default(), L::default()));
    let led = Led::default();
    let n = thread_rng().gen_range(2..6);
    let mut threads = Vec::new();
    let mut tasks = Vec::new();
    let quitters = thread_rng().gen_range(0..4u32);
    if meddle {
        let (c, led) = (c.clone(), led.clone());
        threads.push(shuttle::thread::spawn(move || {
            for _ in 0..thread_rng().gen_range(1..3) {
                pause(8);
                let k = thread_rng().gen_range(0..keys);
                let what = thread_rng().gen_range(0..4);
                let touched: Vec<u64> = if what == 3 { (0..keys).collect() } else { vec![k] };
                let v = {
                    let mut l = led.lock().unwrap();
                    let t = l.tick();
                    for k in &touched {
                        l.meddled.entry(*k).or_default().push((t, 0));
                    }
                    if what <= 1 { l.fresh(k) } else { 0 }
                };
                match what {
                    0 | 1 => c.insert(k, v),
                    2 => drop(c.remove(&k)),
                    _ => c.clear(),
                }
                let mut l = led.lock().unwrap();
                let t = l.tick();
                for k in &touched {
                    l.meddled.get_mut(k).unwrap().last_mut().unwrap().1 = t;
                }
            }
        }));
    }
    for i in 0..n {
        let k = thread_rng().gen_range(0..keys);
        let (c, led) = (c.clone(), led.clone());
        let mut gives_up = u32::from(i < quitters) * thread_rng().gen_range(1..3);
        match thread_rng().gen_range(0..5) {
            0 => threads.push(shuttle::thread::spawn(move || {
                ask(&c, &led, k, None, &mut gives_up);
            })),
            1 => {
                // the clock of shuttle stands still: whoever is woken without having been told has timed out
                let t = shuttle::thread::spawn(move || {
                    ask(&c, &led, k, Some(Duration::ZERO), &mut gives_up);
                });
                let h = t.thread().clone();
                threads.push(t);
                threads.push(shuttle::thread::spawn(move || {
                    for _ in 0..thread_rng().gen_range(0..4) {
                        pause(6);
                        h.unpark();
                    }
                }));
            }
            2 => threads.push(shuttle::thread::spawn(move || {
                // get_or_insert_with: the closure runs for the one loader only
                let fail = gives_up > 0;
                let since = led.lock().unwrap().tick();
                let mine = Mutex::new(None);
                let r: Result<u64, ()> = c.get_or_insert_with(&k, || {
                    let v = {
                        let mut l = led.lock().unwrap();
                        l.granted(k);
                        l.fresh(k)
                    };
                    pause(4);
                    let mut l = led.lock().unwrap();
                    *l.alive.get_mut(&k).unwrap() -= 1;
                    if fail {
                        return Err(());
                    }
                    *mine.lock().unwrap() = Some(v);
                    if l.meddled.get(&k).is_none() {
                        l.stored.entry(k).or_default().push(v);
                    }
                    Ok(v)
                });
                let _ = since;
                let mine = mine.lock().unwrap().take();
                match (r, mine) {
                    (Ok(v), Some(m)) => assert_eq!(v, m, "ORACLE the loader was answered with another value"),
                    (Ok(v), None) => led.lock().unwrap().got(k, v),
                    (Err(()), None) => assert!(fail, "ORACLE a failure of nobody's load"),
                    (Err(()), Some(_)) => panic!("ORACLE a load that succeeded is reported failed"),
                }
            })),
            x => tasks.push(shuttle::future::spawn(ask_async(c, led, k, x == 3, gives_up))),
        }
    }
    shuttle::future::block_on(async {
        for t in tasks {
            t.await.unwrap();
        }
    });
    for t in threads {
        t.join().unwrap();
    }
    // nobody loads any more: what is stored is found, and what is not can be loaded
    for k in 0..keys {
        let have = c.get(&k);
        {
            let l = led.lock().unwrap();
            assert_eq!(l.alive.get(&k).copied().unwrap_or(0), 0);
            if l.meddled.get(&k).is_none() {
                assert_eq!(have, l.stored.get(&k).map(|v| v[0]), "ORACLE key {k} does not hold what its loader stored");
            }
        }
        if let Some(v) = have {
            led.lock().unwrap().got(k, v);
        }
        let len = c.len();
        match (have, c.get_value_or_guard(&k, None)) {
            (Some(v), GuardResult::Value(w)) => assert_eq!(v, w, "ORACLE two lookups of key {k} differ"),
            (None, GuardResult::Guard(g)) => {
                assert_eq!(c.len(), len, "ORACLE a load in progress is counted");
                drop(g);
                assert_eq!(c.len(), len, "ORACLE an abandoned load is counted");
                assert!(c.get(&k).is_none(), "ORACLE an abandoned load left a value");
            }
            _ => panic!("ORACLE the last request for key {k} got neither the value nor the turn to load"),
        }
    }
}

fn config(dir: Option<&str>) -> shuttle::Config {
    let mut cfg = shuttle::Config::new();
    cfg.max_steps = shuttle::MaxSteps::FailAfter(200_000);
    cfg.failure_persistence = match dir {
        Some(d) => shuttle::FailurePersistence::File(Some(d.into())),
        None => shuttle::FailurePersistence::None,
    };
    cfg
}
fn esc(s: &str) -> String {
    s.chars().flat_map(|c| match c { '"' | '\\' => vec!['\\', c], '\n' => vec!['\\', 'n'], c if (c as u32) < 32 => vec![' '], c => vec![c] }).collect()
}
fn text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        let s = std::fs::read_to_string(&a[2]).expect("schedule file");
        let r = shuttle::Runner::new(shuttle::scheduler::ReplayScheduler::new_from_encoded(s.trim()), config(None));
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.run(execution))) {
            Ok(_) => println!("no failure on this schedule"),
            Err(e) => {
                println!("fails: {}", text(e));
                std::process::exit(1);
            }
        }
        return;
    }
    let (prop, seed, millis, progress) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].clone());
    let first = Arc::new(Mutex::new(String::new()));
    let f2 = first.clone();
    std::panic::set_hook(Box::new(move |i| {
        let mut f = f2.lock().unwrap_or_else(|e| e.into_inner());
        if f.is_empty() {
            *f = i.to_string();
        }
    }));
    let dir = format!("{progress}.sched");
    let _ = std::fs::create_dir_all(&dir);
    let end = Instant::now() + Duration::from_millis(millis);
    let mut round = 0u64;
    while Instant::now() < end {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(round);
        let _ = std::fs::write(&progress, format!("seed {s}"));
        let run = || {
            let cfg = config(Some(&dir));
            if round % 2 == 0 {
                shuttle::Runner::new(shuttle::scheduler::RandomScheduler::new_from_seed(s, 300), cfg).run(execution)
            } else {
                shuttle::Runner::new(shuttle::scheduler::PctScheduler::new_from_seed(s, 3, 300), cfg).run(execution)
            }
        };
        if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)) {
            let mut msg = first.lock().unwrap_or_else(|e| e.into_inner()).clone();
            if msg.is_empty() {
                msg = text(e);
            }
            let kind = if msg.contains("deadlock") { "deadlock" } else if msg.contains("ORACLE") { "ledger" } else { "panic" };
            let sched = std::fs::read_dir(&dir).ok().and_then(|mut d| d.next()).and_then(|f| std::fs::read_to_string(f.ok()?.path()).ok()).unwrap_or_default();
            println!("{{\"found\": true, \"kind\": \"schedule:{kind}\", \"detail\": \"{prop} {} (seed {s}); replay with: conc replay FILE, FILE holding the schedule {}\"}}", esc(&msg), esc(&sched));
            let _ = std::fs::remove_dir_all(&dir);
            std::process::exit(1);
        }
        round += 1;
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "{{\"executions\": {}, \"grants\": {}, \"waits\": {}, \"timeouts\": {}, \"cancelled\": {}, \"handed_back\": {}, \"rounds\": {round}}}",
        EXECS.load(Ordering::Relaxed), GRANTS.load(Ordering::Relaxed), WAITS.load(Ordering::Relaxed), TIMEOUTS.load(Ordering::Relaxed), CANCELS.load(Ordering::Relaxed), LATE.load(Ordering::Relaxed)
    );
}
