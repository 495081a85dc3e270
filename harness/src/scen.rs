//! Scenarios for guarantees that single steps do not show.
use crate::model::*;
use crate::seq::Rng;
use quick_cache::sync::GuardResult;
use quick_cache::{sync, unsync, OptionsBuilder, UnitWeighter};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

pub type Res = Result<(), (&'static [&'static str], String)>;
pub type Scen = (&'static str, &'static [&'static str], fn(&mut Rng) -> Res);
pub fn all() -> Vec<Scen> {
    vec![
        ("options", &["C15"], options),
        ("target", &["C15", "C06"], target),
        ("sharding", &["C14"], sharding),
        ("shard_routing", &["C14"], shard_routing),
        ("abandoned_unsync", &["C10"], abandoned_unsync),
        ("abandoned_sync", &["C10"], abandoned_sync),
        ("ghost_memory", &["C11"], ghost_memory),
        ("ghost_invisible", &["C11"], ghost_invisible),
        ("read_only", &["C17"], read_only),
        ("soft_replace", &["C18"], soft_replace),
        ("fewest_hits", &["C18"], fewest_hits),
        ("waited_for", &["C18"], waited_for),
        ("scan_resistance", &["C18"], scan_resistance),
        ("promotion", &["C18"], promotion),
        ("ghost_hit", &["C18"], ghost_hit),
        ("cloning", &["C21"], cloning),
    ]
}
macro_rules! ensure {
    ($t:expr, $c:expr, $($f:tt)*) => { if !$c { return Err((&$t, format!($($f)*))); } };
}
type UC = unsync::Cache<K, V, We, HB, Li>;

fn options(r: &mut Rng) -> Res {
    for bad in [-0.1f64, 1.1, f64::NAN, f64::INFINITY, -f64::INFINITY, 1.0000000001, -1e-9] {
        let p = std::panic::catch_unwind(|| {
            OptionsBuilder::new().hot_allocation(bad);
        });
        ensure!(["C15"], p.is_err(), "hot_allocation({bad}) accepted");
        let p = std::panic::catch_unwind(|| {
            OptionsBuilder::new().ghost_allocation(bad);
        });
        ensure!(["C15"], p.is_err(), "ghost_allocation({bad}) accepted");
    }
    let x = r.below(1001) as f64 / 1000.0;
    let p = std::panic::catch_unwind(|| {
        OptionsBuilder::new().hot_allocation(x).ghost_allocation(1.0 - x);
        OptionsBuilder::new().hot_allocation(1.0).ghost_allocation(0.0).ghost_allocation(1.0).hot_allocation(0.0);
    });
    ensure!(["C15"], p.is_ok(), "valid allocation {x} rejected");
    let e = OptionsBuilder::new().weight_capacity(r.below(9)).build();
    ensure!(["C15"], e.is_err(), "build without estimated_items_capacity succeeded");
    let e = OptionsBuilder::new().estimated_items_capacity(r.below(9) as usize).build();
    ensure!(["C15"], e.is_err(), "build without weight_capacity succeeded");
    let (i, w, s, g) = (r.below(1 << 20) as usize, r.next(), 1 + r.below(64) as usize, r.below(1001) as f64 / 1000.0);
    let mut b = OptionsBuilder::new();
    b.shards(s).hot_allocation(x);
    b.weight_capacity(w).estimated_items_capacity(i).ghost_allocation(g);
    let d = format!("{:?}", b.build().unwrap());
    let want = [format!("shards: {s},"), format!("hot_allocation: {x:?},"), format!("ghost_allocation: {g:?},"), format!("estimated_items_capacity: {i},"), format!("weight_capacity: {w} ")];
    for f in want {
        ensure!(["C15"], d.contains(&f), "built options {d} lack {f}");
    }
    let d = format!("{:?}", OptionsBuilder::new().weight_capacity(w).estimated_items_capacity(i).build().unwrap());
    ensure!(["C15"], d.contains("hot_allocation: 0.97,") && d.contains("ghost_allocation: 0.5,"), "defaults: {d}");
    let par = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1) * 4;
    ensure!(["C15"], d.contains(&format!("shards: {par},")), "default shards: {d}, expected {par}");
    // the last setting wins
    let d = format!("{:?}", OptionsBuilder::new().weight_capacity(w).weight_capacity(3).estimated_items_capacity(i).estimated_items_capacity(4).shards(7).shards(s).build().unwrap());
    ensure!(["C15"], d.contains("weight_capacity: 3 ") && d.contains("estimated_items_capacity: 4,") && d.contains(&format!("shards: {s},")), "{d}");
    Ok(())
}
/// the admission limit is floor(capacity * hot_allocation), at least 1 and at most the capacity
fn target(r: &mut Rng) -> Res {
    let cap = match r.below(3) {
        0 => r.below(20),
        1 => r.below(1000),
        _ => r.next() >> 2,
    };
    let hot = r.pick(&[0.0, 0.01, 0.1, 0.25, 0.5, 0.75, 0.97, 1.0]);
    let lim = limit(cap, hot);
    for d in [-1i64, 0, 1] {
        let w = (lim as i128 + d as i128).max(0) as u64;
        let log: Arc<Mutex<Log>> = Default::default();
        let mut b = OptionsBuilder::new();
        b.estimated_items_capacity(10).weight_capacity(cap).hot_allocation(hot).shards(1);
        let tok = Arc::new(0);
        let v = V { id: 0, w, pin: false, mode: 0, tok };
        let mut c: UC = unsync::Cache::with_options(b.build().unwrap(), We, HB(0), Li(log.clone()));
        ensure!(["C15"], c.capacity() == cap, "unsync capacity {} configured {cap}", c.capacity());
        c.insert(K { id: 1, inst: 1 }, v.clone());
        ensure!(["C06", "C15"], c.contains_key(&QK(1)) == (w <= lim), "unsync: capacity {cap} hot_allocation {hot}: weight {w} resident {} (limit {lim})", c.contains_key(&QK(1)));
        let s = sync::Cache::with_options(b.build().unwrap(), We, HB(0), Li(log));
        s.insert(K { id: 1, inst: 1 }, v);
        ensure!(["C06", "C15"], s.contains_key(&QK(1)) == (w <= lim), "sync: capacity {cap} hot_allocation {hot}: weight {w} resident {} (limit {lim})", s.contains_key(&QK(1)));
    }
    // the convenience constructors
    let n = r.below(300) as usize;
    let u = unsync::Cache::<u64, u64>::new(n);
    ensure!(["C15"], u.capacity() == n as u64, "unsync::Cache::new({n}).capacity() == {}", u.capacity());
    let mut u = unsync::Cache::<u64, u64, _>::with_weighter(5, n as u64, W3);
    ensure!(["C15"], u.capacity() == n as u64, "unsync with_weighter({n})");
    u.insert(1, 2);
    ensure!(["C15"], u.weight() == if limit(n as u64, 0.97) >= 3 { 3 } else { 0 }, "with_weighter ignores the weighter: {}", u.weight());
    let s = sync::Cache::<u64, u64>::new(n);
    ensure!(["C15"], s.capacity() >= n as u64 && s.capacity() < (n + s.num_shards()) as u64, "sync::Cache::new({n}).capacity() == {}", s.capacity());
    Ok(())
}
#[derive(Clone)]
struct W3;
impl quick_cache::Weighter<u64, u64> for W3 {
    fn weight(&self, _: &u64, _: &u64) -> u64 {
        3
    }
}
fn sharding(r: &mut Rng) -> Res {
    let req = 1 + r.below(70) as usize;
    let items = r.below(5000) as usize;
    let cap = if r.chance(10) { r.next() >> 1 } else { r.below(6000) };
    let o = OptionsBuilder::new().shards(req).estimated_items_capacity(items).weight_capacity(cap).build().unwrap();
    let s: sync::Cache<u64, u64> = sync::Cache::with_options(o, UnitWeighter, Default::default(), Default::default());
    let n = s.num_shards();
    ensure!(["C14"], n.is_power_of_two() && n <= req.next_power_of_two(), "{req} shards requested, {n} made");
    let per = |n: usize| items.div_ceil(n);
    ensure!(["C14"], n == 1 || per(n) >= 32, "{n} shards for {items} items");
    ensure!(["C14"], n == req.next_power_of_two() || per(n * 2) < 32, "{n} shards for {items} items though {} would hold 32 each", n * 2);
    ensure!(["C14", "C03"], s.capacity() as u128 == s.shard_capacity() as u128 * n as u128, "capacity {} shards {n} of {}", s.capacity(), s.shard_capacity());
    ensure!(["C14", "C03"], s.capacity() >= cap && s.capacity() - cap < n as u64, "capacity {} configured {cap} shards {n}", s.capacity());
    Ok(())
}
/// every key is served by one shard, no matter how its hash looks
fn now<T>(f: impl std::future::Future<Output = T>) -> Option<T> {
    match std::pin::pin!(f).as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(x) => Some(x),
        _ => None,
    }
}
fn shard_routing(r: &mut Rng) -> Res {
    let log: Arc<Mutex<Log>> = Default::default();
    let req = r.pick(&[1usize, 2, 4, 8, 16]);
    let o = OptionsBuilder::new().shards(req).estimated_items_capacity(32 * req).weight_capacity(4000).build().unwrap();
    let s = sync::Cache::with_options(o, We, HB(r.pick(&[0, 0, 1, 2, 3, 4, 5])), Li(log));
    let n = 1 + r.below(60) as u16;
    for k in 0..n {
        let (key, v) = (K { id: k, inst: 0 }, V { id: k as u32, w: 1, pin: false, mode: 0, tok: Arc::new(0) });
        match r.below(5) {
            0 => {
                let GuardResult::Guard(g) = s.get_value_or_guard(&key, None) else { return Err((&["C14"], format!("no guard for the absent key {k}"))) };
                let _ = g.insert(v);
            }
            1 => drop(s.get_or_insert_with(&key, || Ok::<_, ()>(v))),
            2 => drop(now(s.get_or_insert_async(&key, async move { Ok::<_, ()>(v) }))),
            3 => {
                let Some(Err(g)) = now(s.get_value_or_guard_async(&key)) else { return Err((&["C14"], format!("no guard for the absent key {k}"))) };
                let _ = g.insert(v);
            }
            _ => s.insert(key, v),
        }
    }
    let room = s.shard_capacity() >= n as u64 * 2;
    for k in 0..n {
        let g = s.get(&QK(k)).map(|v| v.id);
        ensure!(["C14"], !room || g == Some(k as u32), "key {k} of {n} is {g:?}");
        ensure!(["C14"], s.contains_key(&QK(k)) == g.is_some() && s.peek(&QK(k)).is_some() == g.is_some(), "operations disagree on key {k}");
    }
    ensure!(["C14"], !room || (s.len() == n as usize && s.weight() == n as u64), "len {} weight {} of {n} keys", s.len(), s.weight());
    for k in 0..n {
        let g = s.get(&QK(k)).is_some();
        ensure!(["C14"], s.remove(&QK(k)).is_some() == g, "remove misses key {k}");
    }
    ensure!(["C14"], s.is_empty() && s.len() == 0 && s.weight() == 0, "not empty after removing every key");
    // all shards are used with a good hash
    if n > 1 {
        let s2: sync::Cache<u64, u64> = sync::Cache::with_options(OptionsBuilder::new().shards(8).estimated_items_capacity(800).weight_capacity(800).build().unwrap(), UnitWeighter, Default::default(), Default::default());
        for k in 0..20000 {
            s2.insert(k, k);
        }
        ensure!(["C14"], s2.len() as u64 > s2.capacity() / 2, "only {} of {} used after inserting 20000 keys", s2.len(), s2.capacity());
    }
    Ok(())
}
fn measure(mut f: impl FnMut(u64)) -> (i64, i64) {
    for i in 0..600 {
        f(i);
    }
    let a = crate::BYTES.load(Ordering::Relaxed);
    for i in 600..4600 {
        f(i);
    }
    (a, crate::BYTES.load(Ordering::Relaxed))
}
fn mk_log() -> Arc<Mutex<Log>> {
    let mut l = Log::default();
    l.ev.reserve(64);
    Arc::new(Mutex::new(l))
}
fn abandoned_unsync(r: &mut Rng) -> Res {
    let cap = r.below(8);
    let o = OptionsBuilder::new().estimated_items_capacity(r.below(8) as usize).weight_capacity(cap).ghost_allocation(r.pick(&[0.0, 0.5])).build().unwrap();
    let log = mk_log();
    let mut c: UC = unsync::Cache::with_options(o, We, HB(r.pick(&[0, 0, 1])), Li(log.clone()));
    let tok = Arc::new(0);
    let kind = r.below(7);
    let w = if kind == 3 { 1000 } else { 1 };
    let mk = |w| V { id: 0, w, pin: false, mode: 0, tok: tok.clone() };
    let mut bad = None;
    let (a, b) = measure(|i| {
        let k = K { id: (i % 5000) as u16, inst: 0 };
        match kind {
            0 => {
                let _ = c.get_or_insert_with(&k, || Err::<V, ()>(()));
            }
            1 => {
                let _ = c.get_mut_or_insert_with(&k, || Err::<V, ()>(())).map(|_| ());
            }
            2 => drop(c.get_ref_or_guard(&k)),
            4 => drop(c.get_mut_or_guard(&k)),
            3 => {
                if let Err(g) = c.get_ref_or_guard(&k) {
                    g.insert(mk(w));
                }
            }
            5 => {
                if let Err(g) = c.get_ref_or_guard(&k) {
                    drop(g)
                }
                c.remove(&QK(k.id));
            }
            _ => {
                let _ = c.get_or_insert_with(&k, || Err::<V, ()>(()));
                let _ = c.get_or_insert_with(&k, || Ok::<V, ()>(mk(w)));
                c.remove(&QK(k.id));
            }
        }
        log.lock().unwrap().ev.clear();
        if kind != 6 && kind != 3 && (c.len() != 0 || c.contains_key(&QK(k.id)) || c.iter().next().is_some()) {
            bad = Some(format!("an abandoned load left a pair behind (kind {kind})"));
        }
    });
    if let Some(m) = bad {
        return Err((&["C10"], m));
    }
    ensure!(["C10"], b - a < 16384, "abandoned loads (kind {kind}) of distinct keys leak: {} bytes after 4000 of them", b - a);
    Ok(())
}
fn abandoned_sync(r: &mut Rng) -> Res {
    let cap = r.below(8);
    let o = OptionsBuilder::new().shards(1).estimated_items_capacity(r.below(8) as usize).weight_capacity(cap).ghost_allocation(r.pick(&[0.0, 0.5])).build().unwrap();
    let log = mk_log();
    let c = sync::Cache::with_options(o, We, HB(r.pick(&[0, 0, 1])), Li(log.clone()));
    let tok = Arc::new(0);
    let kind = r.below(7);
    let mk = |w| V { id: 0, w, pin: false, mode: 0, tok: tok.clone() };
    let mut bad = None;
    let (a, b) = measure(|i| {
        let k = K { id: (i % 5000) as u16, inst: 0 };
        match kind {
            0 => {
                let _ = c.get_or_insert_with(&k, || Err::<V, ()>(()));
            }
            1 => drop(c.get_value_or_guard(&k, None)),
            2 => {
                if let GuardResult::Guard(g) = c.get_value_or_guard(&k, None) {
                    let _ = g.insert(mk(1000));
                }
            }
            3 => {
                if let GuardResult::Guard(g) = c.get_value_or_guard(&k, None) {
                    c.remove(&QK(k.id));
                    if g.insert(mk(1)).is_ok() {
                        bad = Some("guard insert succeeded after remove".to_string());
                    }
                }
            }
            4 => {
                if let GuardResult::Guard(g) = c.get_value_or_guard(&k, None) {
                    c.remove(&QK(k.id));
                    drop(g);
                }
            }
            5 => {
                if let GuardResult::Guard(g) = c.get_value_or_guard(&k, None) {
                    c.insert(k.clone(), mk(1));
                    drop(g);
                    c.remove(&QK(k.id));
                }
            }
            _ => {
                if let GuardResult::Guard(g) = c.get_value_or_guard(&k, None) {
                    c.clear();
                    drop(g);
                }
            }
        }
        log.lock().unwrap().ev.clear();
        if c.len() != 0 || c.contains_key(&QK(k.id)) {
            bad = Some(format!("an abandoned load left a pair behind (kind {kind})"));
        }
        match c.get_value_or_guard(&k, Some(std::time::Duration::ZERO)) {
            GuardResult::Guard(_) => {}
            _ => bad = Some(format!("key still loading or present after its load was given up (kind {kind})")),
        }
        log.lock().unwrap().ev.clear();
    });
    if let Some(m) = bad {
        return Err((&["C10"], m));
    }
    ensure!(["C10"], b - a < 16384, "abandoned loads (kind {kind}) of distinct keys leak: {} bytes after 4000 of them", b - a);
    Ok(())
}
fn ghost_memory(r: &mut Rng) -> Res {
    let (items, cap, g) = (r.below(40) as usize, 1 + r.below(20), r.pick(&[0.0, 0.25, 0.5, 1.0]));
    let o = OptionsBuilder::new().shards(1).estimated_items_capacity(items).weight_capacity(cap).ghost_allocation(g).hot_allocation(r.pick(&[0.1, 0.5, 0.97])).build().unwrap();
    let log = mk_log();
    let mut c: UC = unsync::Cache::with_options(o, We, HB(0), Li(log.clone()));
    let tok = Arc::new(0);
    let pat = r.below(3);
    let mut n = 0u64;
    let (a, b) = measure(|i| {
        let k = if pat == 0 { i } else { r.below(6000) };
        let v = V { id: 0, w: 1, pin: false, mode: 0, tok: tok.clone() };
        if pat == 2 && i % 3 == 0 {
            if let Err(g) = c.get_ref_or_guard(&K { id: k as u16, inst: 0 }) {
                if i % 2 == 0 {
                    g.insert(v);
                }
            }
        } else {
            c.insert(K { id: k as u16, inst: 0 }, v);
        }
        log.lock().unwrap().ev.clear();
        n = n.max(c.len() as u64);
    });
    // what a cache of this size may need, with slack for table growth
    let bound = 16384 + 600 * (cap as i64 + (items as f64 * g) as i64);
    ensure!(["C11"], b - a < bound, "memory grew by {} bytes over 4000 insertions of distinct keys (capacity {cap}, {items} items, ghost {g})", b - a);
    Ok(())
}
/// keys that were evicted are absent in every way
fn ghost_invisible(r: &mut Rng) -> Res {
    let (items, cap) = (10 + r.below(30) as usize, 2 + r.below(10));
    let o = OptionsBuilder::new().shards(1).estimated_items_capacity(items).weight_capacity(cap).ghost_allocation(1.0).hot_allocation(r.pick(&[0.1, 0.5, 0.9])).build().unwrap();
    let log = mk_log();
    let mut c: UC = unsync::Cache::with_options(o, We, HB(r.pick(&[0, 1, 2])), Li(log.clone()));
    let tok = Arc::new(0);
    for i in 0..60u16 {
        c.insert(K { id: i, inst: 0 }, V { id: i as u32, w: 1, pin: false, mode: 0, tok: tok.clone() });
        let gone: Vec<u16> = log.lock().unwrap().ev.drain(..).filter_map(|e| if let Ev::Evict { k, .. } = e { Some(k.id) } else { None }).collect();
        for g in gone {
            let q = QK(g);
            let vis = c.get(&q).is_some() || c.peek(&q).is_some() || c.contains_key(&q) || c.get_mut(&q).is_some() || c.peek_mut(&q).is_some() || c.iter().any(|(k, _)| k.id == g);
            ensure!(["C11"], !vis, "evicted key {g} is still visible");
            let v = V { id: 99, w: 1, pin: false, mode: 0, tok: tok.clone() };
            ensure!(["C11"], c.replace(K { id: g, inst: 1 }, v, false).is_err(), "replace found the evicted key {g}");
            ensure!(["C11"], c.len() == c.iter().count() && c.weight() == c.len() as u64, "len {} weight {} of {} pairs", c.len(), c.weight(), c.iter().count());
            ensure!(["C11"], c.remove(&q).is_none(), "remove found the evicted key {g}");
            log.lock().unwrap().ev.clear();
        }
    }
    let mut n = 0;
    c.retain(|_, _| {
        // (counted below)
        true
    });
    for _ in c.iter() {
        n += 1;
    }
    ensure!(["C11"], n == c.len(), "iter yields {n} of {}", c.len());
    let len = c.len();
    ensure!(["C11"], c.drain().count() == len, "drain yields ghosts");
    Ok(())
}
/// the trace of evicted keys and the final contents
fn trace(seed: u64, reads: u8) -> Vec<(u16, u64)> {
    let mut r = Rng(seed);
    let cap = 2 + r.below(14);
    let o = OptionsBuilder::new()
        .shards(1)
        .estimated_items_capacity(r.below(30) as usize)
        .weight_capacity(cap)
        .ghost_allocation(r.pick(&[0.0, 0.5, 1.0]))
        .hot_allocation(r.pick(&[0.1, 0.5, 0.9, 0.97, 1.0]))
        .build()
        .unwrap();
    let log = mk_log();
    let hm = r.pick(&[0, 0, 1]);
    let mut c: UC = unsync::Cache::with_options(o, We, HB(hm), Li(log.clone()));
    let tok = Arc::new(0);
    let keys = 2 * cap + 4;
    let mut out = vec![];
    let mut extra = Rng(seed ^ 77);
    let wmax = r.pick(&[1u64, 3]);
    for _ in 0..60 + r.below(60) {
        let k = r.below(keys) as u16;
        let w = 1 + r.below(wmax);
        match r.below(6) {
            0 | 1 => {
                c.get(&QK(k));
            }
            2 => {
                c.remove(&QK((k + 1) % 5));
            }
            _ => c.insert(K { id: k, inst: 0 }, V { id: 0, w, pin: k % 7 == 3, mode: 0, tok: tok.clone() }),
        }
        for e in log.lock().unwrap().ev.drain(..) {
            if let Ev::Evict { k, v, .. } = e {
                out.push((k.id, v.w));
            }
        }
        if reads == 1 {
            for _ in 0..extra.below(4) {
                let q = QK(extra.below(keys) as u16);
                match extra.below(9) {
                    0 => drop(c.peek(&q)),
                    1 => drop(c.contains_key(&q)),
                    2 => drop(c.iter().count()),
                    3 => drop((c.len(), c.weight(), c.is_empty(), c.capacity())),
                    4 => drop(c.peek_mut(&q)),
                    5 => {
                        if !c.contains_key(&q) {
                            c.get(&q);
                            drop(c.get_mut(&q));
                        }
                    }
                    6 => {
                        if !c.contains_key(&q) {
                            let _ = c.replace(K { id: q.0, inst: 0 }, V { id: 0, w: 1, pin: false, mode: 0, tok: tok.clone() }, extra.chance(50));
                        }
                    }
                    7 => c.retain(|_, _| true),
                    _ => c.reserve(extra.below(30) as usize),
                }
            }
            log.lock().unwrap().ev.clear();
        }
        if reads == 2 {
            for _ in 0..extra.below(3) {
                let q = QK(extra.below(keys) as u16);
                let cur = c.peek(&q).map(|v| v.w);
                // a cache that pinned pairs keep above its capacity evicts on every replacement
                if let (Some(w), true) = (cur, c.weight() <= c.capacity()) {
                    let _ = c.replace(K { id: q.0, inst: 0 }, V { id: 0, w, pin: q.0 % 7 == 3, mode: 0, tok: tok.clone() }, true);
                }
            }
            log.lock().unwrap().ev.clear();
        }
    }
    let mut fin: Vec<(u16, u64)> = c.iter().map(|(k, v)| (k.id, v.w)).collect();
    fin.sort();
    out.push((u16::MAX, 0));
    out.extend(fin);
    out
}
fn read_only(r: &mut Rng) -> Res {
    for _ in 0..40 {
        let s = r.next();
        let (a, b) = (trace(s, 0), trace(s, 1));
        ensure!(["C17"], a == b, "history {s}: evictions and contents {a:?} become {b:?} when read-only operations are added");
    }
    Ok(())
}
fn soft_replace(r: &mut Rng) -> Res {
    for _ in 0..40 {
        let s = r.next();
        let (a, b) = (trace(s, 0), trace(s, 2));
        ensure!(["C18"], a == b, "history {s}: evictions and contents {a:?} become {b:?} when soft replacements are added");
    }
    Ok(())
}
fn unit(cap: u64, hot: f64, items: usize) -> (UC, Arc<Mutex<Log>>, Arc<u32>) {
    let o = OptionsBuilder::new().shards(1).estimated_items_capacity(items).weight_capacity(cap).ghost_allocation(1.0).hot_allocation(hot).build().unwrap();
    let log = mk_log();
    (unsync::Cache::with_options(o, We, HB(0), Li(log.clone())), log, Arc::new(0))
}
fn put(c: &mut UC, k: u16, tok: &Arc<u32>, pin: bool) {
    c.insert(K { id: k, inst: 0 }, V { id: 0, w: 1, pin, mode: 0, tok: tok.clone() });
}
fn hit(c: &mut UC, k: u16, how: u64, tok: &Arc<u32>, pin: bool) {
    match how {
        0 => drop(c.get(&QK(k))),
        1 => drop(c.get_mut(&QK(k))),
        2 => drop(c.get_ref_or_guard(&K { id: k, inst: 0 })),
        3 => drop(c.get_or_insert_with(&K { id: k, inst: 0 }, || Err::<V, ()>(()))),
        4 => drop(c.replace(K { id: k, inst: 0 }, V { id: 0, w: 1, pin, mode: 0, tok: tok.clone() }, false)),
        _ => put(c, k, tok, pin),
    }
}
/// the pair given up first is one that was hit least often
fn fewest_hits(r: &mut Rng) -> Res {
    let n = 2 + r.below(8);
    let (mut c, log, tok) = unit(n, 1.0, 20);
    let pins: Vec<bool> = (0..n).map(|_| r.chance(15)).collect();
    for k in 0..n {
        put(&mut c, k as u16, &tok, pins[k as usize]);
    }
    let mut hits = vec![0; n as usize];
    for _ in 0..r.below(3 * n) {
        let k = r.below(n);
        hits[k as usize] += 1;
        hit(&mut c, k as u16, r.below(6), &tok, pins[k as usize]);
    }
    log.lock().unwrap().ev.clear();
    put(&mut c, 500, &tok, false);
    let gone: Vec<u16> = log.lock().unwrap().ev.drain(..).filter_map(|e| if let Ev::Evict { k, .. } = e { Some(k.id) } else { None }).collect();
    let least = (0..n as usize).filter(|k| !pins[*k]).map(|k| hits[k].min(2)).min();
    if let Some(least) = least {
        ensure!(["C18"], gone.len() == 1 && hits[gone[0] as usize].min(2) == least, "hits {hits:?}, pinned {pins:?}: evicted {gone:?}");
    }
    Ok(())
}
/// a value that others waited for while it was loaded counts as used once
fn waited_for(r: &mut Rng) -> Res {
    use std::future::Future;
    use std::task::{Context, Poll};
    let n = 2 + r.below(8);
    let o = OptionsBuilder::new().shards(1).estimated_items_capacity(20).weight_capacity(n).ghost_allocation(1.0).hot_allocation(1.0).build().unwrap();
    let log = mk_log();
    let c = sync::Cache::with_options(o, We, HB(0), Li(log.clone()));
    let tok = Arc::new(0);
    let mk = || V { id: 0, w: 1, pin: false, mode: 0, tok: tok.clone() };
    let cx = &mut Context::from_waker(std::task::Waker::noop());
    let mut hits = vec![0; n as usize];
    for k in 0..n {
        let key = K { id: k as u16, inst: 0 };
        let mut waiters: Vec<_> = (0..r.below(3)).map(|_| Box::pin(c.get_value_or_guard_async(&key))).collect();
        let gone = r.below(3) as usize;
        let GuardResult::Guard(g) = c.get_value_or_guard(&key, None) else { return Err((&["C18"], format!("no guard for the absent key {k}"))) };
        for w in &mut waiters {
            ensure!(["C18"], w.as_mut().poll(cx).is_pending(), "a load of key {k} is in progress, but another was not made to wait");
        }
        if gone < waiters.len() {
            waiters.remove(gone);
        }
        hits[k as usize] = if waiters.is_empty() { 0 } else { 1 };
        let ok = if r.chance(50) { g.insert(mk()).is_ok() } else { g.insert_with_lifecycle(mk()).is_ok() };
        ensure!(["C18"], ok, "insert of an undisturbed guard failed");
        for w in &mut waiters {
            ensure!(["C18"], matches!(w.as_mut().poll(cx), Poll::Ready(Ok(_))), "a waiter of key {k} did not get the value");
        }
    }
    for _ in 0..r.below(n) {
        let k = r.below(n);
        hits[k as usize] += 1;
        c.get(&QK(k as u16));
    }
    log.lock().unwrap().ev.clear();
    c.insert(K { id: 500, inst: 0 }, mk());
    let gone: Vec<u16> = log.lock().unwrap().ev.drain(..).filter_map(|e| if let Ev::Evict { k, .. } = e { Some(k.id) } else { None }).collect();
    let least = hits.iter().map(|h| *h.min(&2)).min().unwrap();
    ensure!(["C18"], gone.len() == 1 && hits[gone[0] as usize].min(2) == least, "uses (waiters included) {hits:?}: evicted {gone:?}");
    Ok(())
}
/// pairs of the hot section survive a scan over keys that are never hit
fn scan_resistance(r: &mut Rng) -> Res {
    let cap = 10 + r.below(90);
    let hot = r.pick(&[0.5, 0.8, 0.9]);
    let t = limit(cap, hot);
    let (mut c, _log, tok) = unit(cap, hot, r.below(200) as usize);
    for k in 0..t {
        put(&mut c, k as u16, &tok, false);
    }
    for k in 0..r.below(3 * cap) {
        put(&mut c, 1000 + k as u16, &tok, false);
    }
    for k in 0..t {
        ensure!(["C18"], c.contains_key(&QK(k as u16)), "capacity {cap} hot_allocation {hot}: resident key {k} of {t} was evicted by a scan over new keys");
    }
    Ok(())
}
/// a new pair that is hit while it waits is kept in favour of pairs that never were
fn promotion(r: &mut Rng) -> Res {
    let cap = 20 + r.below(80);
    let hot = r.pick(&[0.5, 0.8, 0.9]);
    let t = limit(cap, hot);
    let cold = cap - t;
    let (mut c, _log, tok) = unit(cap, hot, r.below(200) as usize);
    for k in 0..cap {
        put(&mut c, k as u16, &tok, false);
    }
    let mut lucky = vec![];
    for k in t..cap {
        if r.chance(40) && lucky.len() as u64 + 1 < t / 2 {
            hit(&mut c, k as u16, r.below(6), &tok, false);
            lucky.push(k as u16);
        }
    }
    for k in 0..cold + r.below(cap) {
        put(&mut c, 1000 + k as u16, &tok, false);
    }
    for k in &lucky {
        ensure!(["C18"], c.contains_key(&QK(*k)), "capacity {cap} hot_allocation {hot}: key {k} was hit while new, but evicted by a scan; hit keys {lucky:?}");
    }
    for k in t..cap {
        ensure!(["C18"], lucky.contains(&(k as u16)) || !c.contains_key(&QK(k as u16)), "key {k} was never hit but outlived a scan of the whole cold section");
    }
    Ok(())
}
/// a key seen again shortly after its eviction is admitted to the hot section
fn ghost_hit(r: &mut Rng) -> Res {
    let cap = 20 + r.below(60);
    let hot = r.pick(&[0.5, 0.8]);
    let t = limit(cap, hot);
    let (mut c, log, tok) = unit(cap, hot, 200);
    for k in 0..cap {
        put(&mut c, k as u16, &tok, false);
    }
    put(&mut c, 1000, &tok, false);
    let gone: Vec<u16> = log.lock().unwrap().ev.drain(..).filter_map(|e| if let Ev::Evict { k, .. } = e { Some(k.id) } else { None }).collect();
    ensure!(["C18"], gone.len() == 1 && gone[0] as u64 >= t, "evicted {gone:?} on the first overflow (capacity {cap}, limit {t})");
    let g = gone[0];
    if r.chance(50) {
        put(&mut c, g, &tok, false);
    } else {
        let _ = c.get_or_insert_with(&K { id: g, inst: 0 }, || Ok::<V, ()>(V { id: 0, w: 1, pin: false, mode: 0, tok: tok.clone() }));
    }
    ensure!(["C18"], c.contains_key(&QK(g)), "re-admitted key {g} is absent");
    for k in 0..2 * cap {
        put(&mut c, 2000 + k as u16, &tok, false);
    }
    ensure!(["C18"], c.contains_key(&QK(g)), "key {g} came back after its eviction but was not kept through a scan (capacity {cap}, limit {t})");
    Ok(())
}

/// one random operation; what came of it, with the pairs handed out
fn act(c: &mut UC, log: &Arc<Mutex<Log>>, mut r: Rng, keys: u64, wmax: u64, tok: &Arc<u32>) -> String {
    let k = r.below(keys) as u16;
    let v = V { id: r.below(1000) as u32, w: r.below(wmax + 1), pin: r.chance(8), mode: 0, tok: tok.clone() };
    let key = K { id: k, inst: 0 };
    let res = match r.below(14) {
        0 | 1 => format!("{:?}", c.get(&QK(k)).map(|v| (v.id, v.w))),
        2 => format!("{:?}", c.peek(&QK(k)).map(|v| (v.id, v.w))),
        3 => format!("{:?}", c.remove(&QK(k)).map(|(k, v)| (k.id, v.id, v.w))),
        4 => format!("{}", c.replace(key, v, r.chance(50)).is_ok()),
        5 => {
            if let Some(mut x) = c.get_mut(&QK(k)) {
                x.w = v.w;
            }
            String::new()
        }
        6 => format!("{:?}", c.get_or_insert_with(&key, || Ok::<V, ()>(v)).map(|o| o.map(|v| (v.id, v.w)))),
        7 => {
            let x = c.get_ref_or_guard(&key).is_ok();
            format!("{x}")
        }
        8 if r.chance(15) => {
            c.retain(|k, _| k.id % 3 != 0);
            String::new()
        }
        9 if r.chance(5) => {
            c.clear();
            String::new()
        }
        _ => {
            c.insert(key, v);
            String::new()
        }
    };
    let gone: Vec<_> = log.lock().unwrap().ev.drain(..).filter_map(|e| if let Ev::Evict { k, v, .. } = e { Some((k.id, v.id, v.w)) } else { None }).collect();
    let mut all: Vec<_> = c.iter().map(|(k, v)| (k.id, v.id, v.w)).collect();
    all.sort();
    format!("{res} evicted {gone:?} len {} weight {} capacity {} hits {} misses {} contents {all:?}", c.len(), c.weight(), c.capacity(), c.hits(), c.misses())
}
/// a clone behaves as its original from then on, and independently of it
fn cloning(r: &mut Rng) -> Res {
    let cap = 1 + r.below(14);
    let items = r.below(30) as usize;
    let o = OptionsBuilder::new().shards(1).estimated_items_capacity(items).weight_capacity(cap).ghost_allocation(r.pick(&[0.0, 0.5, 1.0])).hot_allocation(r.pick(&[0.1, 0.5, 0.9, 0.97, 1.0])).build().unwrap();
    let log = mk_log();
    let mut c: UC = unsync::Cache::with_options(o, We, HB(r.pick(&[0, 0, 1, 2])), Li(log.clone()));
    let tok = Arc::new(0);
    let (keys, wmax) = (2 * cap + 4, r.pick(&[1u64, 3]));
    for _ in 0..r.below(120) {
        act(&mut c, &log, Rng(r.next()), keys, wmax, &tok);
    }
    let show = |c: &UC| {
        let mut all: Vec<_> = c.iter().map(|(k, v)| (k.id, v.id, v.w)).collect();
        all.sort();
        format!("len {} weight {} capacity {} hits {} misses {} {all:?}", c.len(), c.weight(), c.capacity(), c.hits(), c.misses())
    };
    let mut d = c.clone();
    ensure!(["C21"], show(&c) == show(&d), "the clone differs: {} became {}", show(&c), show(&d));
    let was = show(&c);
    let mut e = d.clone();
    for _ in 0..r.below(30) {
        act(&mut e, &log, Rng(r.next()), keys, wmax, &tok);
    }
    drop(e);
    ensure!(["C21"], show(&c) == was && show(&d) == was, "operations on a clone changed the original: {was} became {} and {}", show(&c), show(&d));
    for i in 0..20 + r.below(80) {
        let s = r.next();
        let (a, b) = (act(&mut d, &log, Rng(s), keys, wmax, &tok), act(&mut c, &log, Rng(s), keys, wmax, &tok));
        ensure!(["C21"], a == b, "operation {i} after cloning: the original gives {b}, the clone {a}");
    }
    Ok(())
}
