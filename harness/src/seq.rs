//! Operation sequences on the real caches, checked step by step against the model.
use crate::model::*;
use quick_cache::sync::{GuardResult, PlaceholderGuard};
use quick_cache::{sync, unsync, OptionsBuilder};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut x = self.0;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^ (x >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T {
        s[self.below(s.len() as u64) as usize]
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub sync: bool,
    pub cap: u64,
    pub items: usize,
    pub hot: f64,
    pub ghost: f64,
    pub shards: usize,
    pub hash: u8,
    pub keys: u16,
}
#[derive(Clone, Copy, Debug)]
pub struct Vs {
    pub w: u64,
    pub pin: bool,
    pub mode: u8,
}
#[derive(Clone, Debug)]
pub enum Op {
    Insert(u16, Vs, bool),
    Replace(u16, Vs, bool, bool),
    Get(u16, bool),
    Peek(u16, bool),
    Contains(u16, bool),
    GetMut(u16, Option<Vs>),
    PeekMut(u16, Option<Vs>),
    Remove(u16, bool),
    Retain(u64),
    Clear,
    Drain(usize),
    Iter,
    Reserve(usize),
    Clone,
    /// get_or_insert_with; None: the load fails
    Load(u16, Option<Vs>),
    /// get_mut_or_insert_with, then write through the reference
    LoadMut(u16, Option<Vs>, Option<Vs>),
    /// guard obtained and used at once
    Guard(u16, Option<(Vs, bool)>, bool),
    // sync only
    Open(u16),
    OpenFut(u16),
    Poll(usize),
    DropFut(usize),
    Finish(usize, Option<(Vs, bool)>),
    TryJoin(u16),
    AsyncLoad(u16, Option<Vs>),
}
#[derive(Clone, Debug)]
pub struct Case {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}

fn gen_vs(r: &mut Rng, c: &Cfg, style: u64) -> Vs {
    let big = if c.cap > 1 << 40 { c.cap / 6 } else { 0 };
    let w = match style {
        0 => 1,
        1 => r.below(4),
        2 => match r.below(10) {
            0 | 1 => 0,
            2 => c.cap.min(1 << 60),
            3 => (c.cap.min(1 << 60)) + r.below(3),
            4 => limit(c.cap, c.hot).min(1 << 60) + r.below(2),
            _ => 1 + r.below(1 + (c.cap / 2).min(40)),
        },
        _ => {
            if big > 0 && r.chance(50) {
                big
            } else {
                1 + r.below(5)
            }
        }
    };
    Vs { w, pin: style != 0 && r.chance(15), mode: if style == 0 || r.chance(70) { 0 } else { r.below(4) as u8 } }
}
pub fn gen_case(seed: u64) -> Case {
    let mut r = Rng(seed);
    let sync = r.chance(45);
    let cap = match r.below(12) {
        0 => r.below(3),
        1..=6 => 1 + r.below(8),
        7 | 8 => 5 + r.below(30),
        9 => 1 << 62,
        _ => 3 + r.below(12),
    };
    let hash = if r.chance(45) { 0 } else { 1 + r.below(5) as u8 };
    let cfg = Cfg {
        sync,
        cap,
        items: match r.below(4) {
            0 => cap.min(64) as usize,
            1 => r.below(6) as usize,
            _ => r.below(20) as usize,
        },
        hot: r.pick(&[0.0, 0.1, 0.34, 0.5, 0.5, 0.8, 0.97, 0.97, 1.0]),
        ghost: r.pick(&[0.0, 0.1, 0.5, 0.5, 1.0]),
        shards: if sync && r.chance(25) { r.pick(&[2usize, 3, 4, 8]) } else { 1 },
        hash,
        keys: r.pick(&[2u16, 3, 4, 6, 10, 16]),
    };
    let mut cfg = cfg;
    if cfg.shards > 1 {
        cfg.items = 32 * cfg.shards + r.below(64) as usize;
        cfg.keys = 24;
        cfg.cap = cfg.shards as u64 * (1 + r.below(5)) + r.below(4);
    }
    let style = r.below(4);
    let most = if r.chance(20) { 150 } else { 40 };
    let n = 4 + r.below(most) as usize;
    // each case concentrates on a few kinds of operation
    let focus = r.below(8);
    let ops = (0..n).map(|_| gen_op(&mut r, &cfg, style, focus)).collect();
    Case { cfg, ops }
}
fn gen_op(r: &mut Rng, c: &Cfg, style: u64, focus: u64) -> Op {
    let k = r.below(c.keys as u64) as u16;
    let v = gen_vs(r, c, style);
    let b = r.chance(50);
    let ov = |r: &mut Rng| if r.chance(70) { Some(gen_vs(r, c, style)) } else { None };
    let d = r.below(100);
    if focus <= 1 && d < 70 || d < 32 {
        return Op::Insert(k, v, b);
    }
    if focus == 2 && r.chance(50) {
        return if c.sync {
            match r.below(8) {
                0 | 1 => Op::Open(k),
                2 | 3 => Op::OpenFut(k),
                4 => Op::Poll(r.below(8) as usize),
                5 => Op::DropFut(r.below(8) as usize),
                6 => Op::TryJoin(k),
                _ => Op::Finish(r.below(8) as usize, if r.chance(50) { Some((v, b)) } else { None }),
            }
        } else {
            match r.below(3) {
                0 => Op::Load(k, ov(r)),
                1 => Op::LoadMut(k, ov(r), ov(r)),
                _ => Op::Guard(k, if r.chance(60) { Some((v, b)) } else { None }, r.chance(50)),
            }
        };
    }
    match r.below(24) {
        0 | 1 => Op::Get(k, b),
        2 => Op::Peek(k, b),
        3 => Op::Contains(k, b),
        4 => Op::Replace(k, v, b, r.chance(50)),
        5 | 6 => Op::Remove(k, b),
        7 if r.chance(40) => Op::Retain(r.next()),
        8 if r.chance(30) => Op::Clear,
        9 if r.chance(30) => Op::Drain(r.below(6) as usize),
        10 => Op::Iter,
        11 if r.chance(40) => Op::Reserve(r.below(40) as usize),
        12 if r.chance(20) => Op::Clone,
        13 | 14 if !c.sync => Op::GetMut(k, ov(r)),
        15 if !c.sync => Op::PeekMut(k, ov(r)),
        16 => Op::Load(k, ov(r)),
        17 if !c.sync => Op::LoadMut(k, ov(r), ov(r)),
        18 => Op::Guard(k, if r.chance(60) { Some((v, b)) } else { None }, r.chance(50)),
        13 | 14 if c.sync => Op::Open(k),
        15 | 17 if c.sync => Op::OpenFut(k),
        19 if c.sync => Op::Poll(r.below(8) as usize),
        20 if c.sync => Op::DropFut(r.below(8) as usize),
        21 | 22 if c.sync => Op::Finish(r.below(8) as usize, if r.chance(60) { Some((v, b)) } else { None }),
        23 if c.sync => {
            if b {
                Op::TryJoin(k)
            } else {
                Op::AsyncLoad(k, ov(r))
            }
        }
        _ => Op::Get(k, b),
    }
}
fn home(op: &Op) -> &'static str {
    match op {
        Op::Insert(..) => "C06",
        Op::Replace(..) => "C08",
        Op::Get(..) | Op::Peek(..) | Op::Contains(..) => "C01",
        Op::GetMut(..) | Op::PeekMut(..) => "C12",
        Op::Remove(..) | Op::Retain(..) | Op::Clear | Op::Drain(..) | Op::Iter => "C09",
        Op::Reserve(..) | Op::Clone => "C07",
        Op::Load(..) | Op::LoadMut(..) | Op::Guard(..) => "C10",
        Op::Open(..) | Op::Finish(..) | Op::TryJoin(..) => "C10",
        Op::OpenFut(..) | Op::Poll(..) | Op::DropFut(..) | Op::AsyncLoad(..) => "C16",
    }
}
fn opts(c: &Cfg) -> quick_cache::Options {
    OptionsBuilder::new()
        .estimated_items_capacity(c.items)
        .weight_capacity(c.cap)
        .hot_allocation(c.hot)
        .ghost_allocation(c.ghost)
        .shards(c.shards)
        .build()
        .unwrap()
}
// text of the source line a panic came from
thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
fn panic_text() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
fn validate_tags(msg: &str) -> Vec<&'static str> {
    // the panic hook appends the source line of the assertion
    let src = msg.rsplit("src:").next().unwrap_or("");
    if src.contains("num_non_resident <=") {
        vec!["C11"]
    } else if src.contains("num_non_resident") {
        vec!["C07", "C11"]
    } else if src.contains("weight_capacity") {
        vec!["C03"]
    } else if src.contains("num_") || src.contains("weight_") {
        vec!["C02"]
    } else {
        vec!["C07"]
    }
}

type UC = unsync::Cache<K, V, We, HB, Li>;
type SC = sync::Cache<K, V, We, HB, Li>;

pub struct Outcome {
    pub viol: Vec<(usize, Viol)>,
    pub evictions: usize,
    pub loads: usize,
}
pub fn run_case(case: &Case, want: &str) -> Outcome {
    if case.cfg.sync {
        run_sync(case, want)
    } else {
        run_unsync(case, want)
    }
}
struct Ctx {
    m: Model,
    log: Arc<Mutex<Log>>,
    inst: u32,
}
impl Ctx {
    fn new(c: &Cfg, cap: u64) -> Ctx {
        let m = Model { cap, lim: limit(cap, c.hot), hash_mode: c.hash, ..Default::default() };
        Ctx { m, log: Default::default(), inst: 0 }
    }
    fn key(&mut self, id: u16) -> K {
        self.inst += 1;
        K { id, inst: self.inst }
    }
    fn events(&self) -> Vec<Ev> {
        std::mem::take(&mut self.log.lock().unwrap().ev)
    }
    fn val(&mut self, s: Vs) -> V {
        self.m.value(s.w, s.pin, s.mode)
    }
    fn quiet(&mut self, what: &str) {
        let e = self.events();
        if !e.is_empty() {
            self.m.bad(&["C13", "C17"], format!("{what} caused lifecycle events {e:?}"));
        }
    }
    fn got(&mut self, what: &str, k: u16, got: Option<Img>, tag: &'static str) {
        let want = self.m.m.get(&k).map(|x| x.1);
        if got != want {
            let mut t = vec!["C01"];
            if tag != "C01" {
                t.push(tag);
            }
            self.m.bad(&t, format!("{what}({k}) returned {got:?}, last stored {want:?}"));
        }
    }
    /// compares the contents with the model after an operation
    fn after(&mut self, op: &Op, seen: &Cells, iter: &[(u16, u32, Img)], len: usize, weight: u64, empty: bool, shards: usize, inserted: bool, touched: Option<u16>) {
        let h = home(op);
        let all: BTreeSet<u16> = seen.keys().chain(self.m.m.keys()).copied().collect();
        for k in all {
            let (g, w) = (seen.get(&k).copied(), self.m.m.get(&k).copied());
            if g != w {
                let mut t = vec!["C01"];
                if touched == Some(k) && h != "C01" {
                    t.push(h);
                }
                if matches!(op, Op::Clear | Op::Drain(_) | Op::Retain(_)) {
                    t.push("C09");
                }
                if g.is_none() {
                    t.push("C05");
                    if inserted {
                        if let Some((_, v)) = w {
                            if v.pin || v.w == 0 {
                                t.push("C04");
                            }
                        }
                    }
                }
                if touched != Some(k) && !matches!(op, Op::Clear | Op::Drain(_) | Op::Retain(_)) && !inserted {
                    t.push("C17");
                }
                self.m.bad(&t, format!("after the operation key {k} holds {g:?}, expected {w:?}"));
            }
        }
        let mut it: Vec<(u16, u32, Img)> = iter.to_vec();
        it.sort();
        let want: Vec<(u16, u32, Img)> = seen.iter().map(|(k, (i, v))| (*k, *i, *v)).collect();
        if it != want {
            self.m.bad(&["C09"], format!("iter yields {it:?}, lookups give {want:?}"));
        }
        let rw: u64 = seen.values().map(|x| x.1.w).sum();
        if len != seen.len() || empty != (len == 0) {
            self.m.bad(&["C02"], format!("len {len}, is_empty {empty}, but {} pairs are resident", seen.len()));
        }
        if weight != rw {
            let mut t = vec!["C02"];
            if h == "C12" || matches!(op, Op::LoadMut(..)) {
                t.push("C12");
            }
            self.m.bad(&t, format!("weight() is {weight}, resident pairs weigh {rw}"));
        }
        let free: u64 = seen.values().filter(|x| !x.1.pin).map(|x| x.1.w).sum();
        if !self.m.grown && free > self.m.cap.saturating_mul(shards as u64) {
            self.m.bad(&["C03"], format!("unpinned pairs weigh {free}, capacity {}", self.m.cap * shards as u64));
        }
        // resync, so that later steps are judged on their own
        self.m.m = seen.clone();
    }
    /// every value is held exactly as often as the cache holds it
    fn refs(&mut self, extra: &BTreeMap<u32, usize>) {
        let mut held: BTreeMap<u32, usize> = extra.clone();
        for (_, v) in self.m.m.values() {
            *held.entry(v.id).or_default() += 1;
        }
        let mut msg = None;
        for (i, t) in self.m.reg.iter().enumerate() {
            let n = Arc::strong_count(t) - 1;
            let w = held.get(&(i as u32)).copied().unwrap_or(0);
            if n != w {
                msg = Some(format!("value #{i} is held {n} times, expected {w} (leaked or dropped twice)"));
            }
        }
        if let Some(m) = msg {
            self.m.bad(&["C05", "C07"], m);
        }
    }
}
fn step_guard(ctx: &mut Ctx, op: &Op, r: std::thread::Result<()>) -> bool {
    if r.is_err() {
        let t = panic_text();
        let h = home(op);
        let mut tags = vec!["C07"];
        if h != "C07" {
            tags.push(h);
        }
        if matches!(op, Op::Load(..) | Op::LoadMut(..) | Op::Guard(..) | Op::Open(..) | Op::Finish(..) | Op::TryJoin(..)) {
            tags.push("C16");
        }
        if matches!(op, Op::LoadMut(..)) {
            tags.push("C12");
        }
        ctx.m.bad(&tags, format!("panic in {op:?}: {t}"));
        return false;
    }
    true
}

fn run_unsync(case: &Case, want: &str) -> Outcome {
    let c = &case.cfg;
    let mut ctx = Ctx::new(c, c.cap);
    let mut cache: UC = unsync::Cache::with_options(opts(c), We, HB(c.hash), Li(ctx.log.clone()));
    let mut out = Outcome { viol: vec![], evictions: 0, loads: 0 };
    if cache.capacity() != c.cap {
        ctx.m.bad(&["C03"], format!("capacity() {} configured {}", cache.capacity(), c.cap));
    }
    for (n, op) in case.ops.iter().enumerate() {
        let mut inserted = false;
        let mut touched = None;
        let tally = (cache.hits(), cache.misses(), out.loads, asked(op).map(|k| (ctx.m.m.contains_key(&k), false)));
        let budget_ok = |m: &Model, w: u64| m.total().checked_add(w).is_some_and(|x| x < 1 << 63);
        let r = catch_unwind(AssertUnwindSafe(|| match op {
            Op::Insert(k, s, lc) => {
                if !budget_ok(&ctx.m, s.w) {
                    return;
                }
                inserted = true;
                touched = Some(*k);
                let (key, v) = (ctx.key(*k), ctx.val(*s));
                let img = v.img();
                let grown = ctx.m.grown;
                if *lc {
                    let _ = cache.insert_with_lifecycle(key.clone(), v);
                } else {
                    cache.insert(key.clone(), v);
                }
                let e = ctx.events();
                ctx.m.insertion("C06", &key, img, Strat::Insert, &e, !*lc, None, false);
                if grown && e.len() > 1 {
                    ctx.m.grown = ctx.m.free() > ctx.m.cap;
                }
            }
            Op::Replace(k, s, soft, lc) => {
                if !budget_ok(&ctx.m, s.w) {
                    return;
                }
                inserted = true;
                touched = Some(*k);
                let (key, v) = (ctx.key(*k), ctx.val(*s));
                let img = v.img();
                let err = if *lc {
                    cache.replace_with_lifecycle(key.clone(), v, *soft).err()
                } else {
                    cache.replace(key.clone(), v, *soft).err()
                };
                let err = err.map(|(k, v)| (k.inst, v.img()));
                let e = ctx.events();
                ctx.m.insertion("C08", &key, img, Strat::Replace, &e, !*lc, err, false);
            }
            Op::Get(k, q) => {
                let g = if *q { cache.get(&QK(*k)) } else { cache.get(&K { id: *k, inst: 0 }) }.map(|v| v.img());
                ctx.got("get", *k, g, "C01");
                ctx.quiet("get");
            }
            Op::Peek(k, q) => {
                let g = if *q { cache.peek(&QK(*k)) } else { cache.peek(&K { id: *k, inst: 0 }) }.map(|v| v.img());
                ctx.got("peek", *k, g, "C01");
                ctx.quiet("peek");
            }
            Op::Contains(k, q) => {
                let g = if *q { cache.contains_key(&QK(*k)) } else { cache.contains_key(&K { id: *k, inst: 0 }) };
                if g != ctx.m.m.contains_key(k) {
                    ctx.m.bad(&["C01"], format!("contains_key({k}) is {g}"));
                }
                ctx.quiet("contains_key");
            }
            Op::GetMut(k, s) | Op::PeekMut(k, s) => {
                touched = Some(*k);
                let s = s.filter(|s| budget_ok(&ctx.m, s.w));
                let nv = s.map(|s| ctx.val(s));
                let r = if matches!(op, Op::GetMut(..)) { cache.get_mut(&QK(*k)) } else { cache.peek_mut(&QK(*k)) };
                let mut rr = None;
                let mut set = None;
                if let Some(mut r) = r {
                    rr = Some(r.img());
                    if let Some(nv) = nv {
                        set = Some(nv.img());
                        *r = nv;
                    }
                }
                ctx.got("get_mut/peek_mut", *k, rr, "C12");
                if let (Some(s), Some(o)) = (set, ctx.m.m.get(k).copied()) {
                    ctx.m.m.insert(*k, (o.0, s));
                    ctx.m.grown |= ctx.m.free() > ctx.m.cap;
                }
                ctx.quiet("get_mut/peek_mut");
            }
            Op::Remove(k, q) => {
                touched = Some(*k);
                let g = if *q { cache.remove(&QK(*k)) } else { cache.remove(&K { id: *k, inst: 0 }) };
                let g = g.map(|(k, v)| (k.id, k.inst, v.img()));
                let w = ctx.m.m.remove(k).map(|(i, v)| (*k, i, v));
                if g != w {
                    ctx.m.bad(&["C09", "C01"], format!("remove({k}) returned {g:?}, expected {w:?}"));
                }
                ctx.quiet("remove");
            }
            Op::Retain(mask) => {
                let calls = Mutex::new(vec![]);
                cache.retain(|k, v| {
                    calls.lock().unwrap().push((k.id, k.inst, v.img()));
                    mask >> (k.id % 64) & 1 == 1
                });
                ctx.retained(*mask, calls.into_inner().unwrap());
            }
            Op::Clear => {
                cache.clear();
                ctx.m.m.clear();
                ctx.m.seen.clear();
                ctx.quiet("clear");
            }
            Op::Drain(n) => {
                let mut got: Vec<(u16, u32, Img)> = vec![];
                {
                    let mut d = cache.drain();
                    for _ in 0..*n {
                        if let Some((k, v)) = d.next() {
                            got.push((k.id, k.inst, v.img()));
                        }
                    }
                }
                got.sort();
                let all: Vec<(u16, u32, Img)> = ctx.m.m.iter().map(|(k, (i, v))| (*k, *i, *v)).collect();
                let dup = got.windows(2).any(|w| w[0] == w[1]);
                if dup || got.len() != (*n).min(all.len()) || got.iter().any(|x| !all.contains(x)) {
                    ctx.m.bad(&["C09"], format!("drain yielded {got:?} of {all:?}"));
                }
                ctx.m.m.clear();
                ctx.m.seen.clear();
                ctx.quiet("drain");
            }
            Op::Iter => {}
            Op::Reserve(n) => {
                cache.reserve(*n);
                ctx.quiet("reserve");
            }
            Op::Clone => {
                let c2 = cache.clone();
                let old = std::mem::replace(&mut cache, c2);
                drop(old);
                ctx.quiet("clone");
            }
            Op::Load(k, s) => {
                if s.is_some_and(|s| !budget_ok(&ctx.m, s.w)) {
                    return;
                }
                out.loads += 1;
                touched = Some(*k);
                let nv = s.map(|s| ctx.val(s));
                let img = nv.as_ref().map(|v| v.img());
                let mut called = 0;
                let q = ctx.key(*k);
                let res = cache
                    .get_or_insert_with(&q, || {
                        called += 1;
                        nv.ok_or(17u8)
                    })
                    .map(|o| o.map(|v| v.img()));
                inserted = ctx.loaded(&q, img, called, res, true);
            }
            Op::LoadMut(k, s, w) => {
                if s.is_some_and(|s| !budget_ok(&ctx.m, s.w)) {
                    return;
                }
                out.loads += 1;
                touched = Some(*k);
                let nv = s.map(|s| ctx.val(s));
                let img = nv.as_ref().map(|v| v.img());
                let mut called = 0;
                let q = ctx.key(*k);
                let wv = w.filter(|w| w.w < 1 << 50).map(|w| ctx.val(w));
                let mut set = None;
                let res = cache
                    .get_mut_or_insert_with(&q, || {
                        called += 1;
                        nv.ok_or(17u8)
                    })
                    .map(|o| {
                        o.map(|mut v| {
                            let i = v.img();
                            if let Some(w) = wv {
                                set = Some(w.img());
                                *v = w;
                            }
                            i
                        })
                    });
                inserted = ctx.loaded(&q, img, called, res, true);
                if let (Some(s), Some(o)) = (set, ctx.m.m.get(k).copied()) {
                    ctx.m.m.insert(*k, (o.0, s));
                    ctx.m.grown |= ctx.m.free() > ctx.m.cap;
                }
            }
            Op::Guard(k, s, mutable) => {
                if s.is_some_and(|s| !budget_ok(&ctx.m, s.0.w)) {
                    return;
                }
                out.loads += 1;
                touched = Some(*k);
                let nv = s.map(|s| ctx.val(s.0));
                let img = nv.as_ref().map(|v| v.img());
                let lc = s.is_some_and(|s| s.1);
                let q = ctx.key(*k);
                let fin = |g: unsync::Guard<'_, K, V, We, HB, Li>| {
                    if let Some(nv) = nv {
                        if lc {
                            let _ = g.insert_with_lifecycle(nv);
                        } else {
                            g.insert(nv);
                        }
                    }
                };
                let mut got = None;
                let mut guard = false;
                if *mutable {
                    match cache.get_mut_or_guard(&q) {
                        Ok(r) => got = r.map(|v| v.img()),
                        Err(g) => {
                            guard = true;
                            fin(g)
                        }
                    }
                } else {
                    match cache.get_ref_or_guard(&q) {
                        Ok(r) => got = Some(r.img()),
                        Err(g) => {
                            guard = true;
                            fin(g)
                        }
                    }
                }
                if guard == ctx.m.m.contains_key(k) {
                    ctx.m.bad(&["C10", "C01"], format!("key {k} present {}, but a guard was {}returned", !guard, if guard { "" } else { "not " }));
                } else if !guard {
                    ctx.got("get_ref_or_guard", *k, got, "C10");
                    ctx.quiet("get_ref_or_guard");
                } else if let Some(img) = img {
                    inserted = true;
                    let e = ctx.events();
                    ctx.m.insertion("C10", &q, img, Strat::Guard, &e, !lc, None, false);
                } else {
                    ctx.quiet("dropped guard");
                    ctx.m.seen.insert(*k);
                }
            }
            _ => {}
        }));
        if !step_guard(&mut ctx, op, r) {
            for v in ctx.m.v.drain(..) {
                out.viol.push((n, v));
            }
            std::mem::forget(cache);
            return out;
        }
        if inserted {
            ctx.m.grown = ctx.m.grown && ctx.m.free() > ctx.m.cap;
        }
        // observe
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut seen: Cells = Default::default();
            let iter: Vec<(u16, u32, Img)> = cache.iter().map(|(k, v)| (k.id, k.inst, v.img())).collect();
            for k in 0..c.keys {
                let p = cache.peek(&QK(k)).map(|v| v.img());
                if p.is_some() != cache.contains_key(&QK(k)) {
                    ctx.m.bad(&["C01"], format!("contains_key({k}) disagrees with peek"));
                }
                if let Some(p) = p {
                    let inst = iter.iter().find(|x| x.0 == k && x.2 == p).map(|x| x.1).unwrap_or(u32::MAX);
                    seen.insert(k, (inst, p));
                }
            }
            let (len, w, em) = (cache.len(), cache.weight(), cache.is_empty());
            ctx.tallied(op, tally, (cache.hits(), cache.misses(), out.loads), false);
            ctx.after(op, &seen, &iter, len, w, em, 1, inserted, touched);
            ctx.quiet("observation");
        }));
        if !step_guard(&mut ctx, op, r) {
            for v in ctx.m.v.drain(..) {
                out.viol.push((n, v));
            }
            std::mem::forget(cache);
            return out;
        }
        if catch_unwind(AssertUnwindSafe(|| cache.validate(true))).is_err() {
            let t = panic_text();
            let tags = validate_tags(&t);
            ctx.m.bad(&tags, format!("internal validation: {t}"));
        }
        ctx.refs(&Default::default());
        let fatal = ctx.m.v.iter().any(|v| v.tags.contains(&"C07"));
        for v in ctx.m.v.drain(..) {
            out.viol.push((n, v));
        }
        if fatal || out.viol.iter().any(|v| v.1.tags.contains(&want)) {
            std::mem::forget(cache);
            return out;
        }
        out.evictions += inserted as usize;
    }
    // dropping the cache releases every value
    if catch_unwind(AssertUnwindSafe(|| drop(cache))).is_err() {
        ctx.m.bad(&["C07"], format!("panic in drop: {}", panic_text()));
    }
    ctx.m.m.clear();
    ctx.refs(&Default::default());
    for v in ctx.m.v.drain(..) {
        out.viol.push((case.ops.len(), v));
    }
    out
}
/// the key whose lookup the operation counts
fn asked(op: &Op) -> Option<u16> {
    match op {
        Op::Get(k, _) | Op::GetMut(k, _) | Op::Load(k, _) | Op::LoadMut(k, _, _) | Op::Guard(k, _, _) => Some(*k),
        Op::Open(k) | Op::OpenFut(k) | Op::TryJoin(k) | Op::AsyncLoad(k, _) => Some(*k),
        _ => None,
    }
}
impl Ctx {
    /// hits and misses counted by one operation; a lookup that may load is looked up again under the write lock in
    /// the concurrent cache if the first lookup misses, and then a load in progress counts as a hit
    fn tallied(&mut self, op: &Op, before: (u64, u64, usize, Option<(bool, bool)>), after: (u64, u64, usize), sync: bool) {
        let plain = matches!(op, Op::Get(..) | Op::GetMut(..));
        let ran = if sync { !matches!(op, Op::GetMut(..) | Op::LoadMut(..)) } else { !matches!(op, Op::Open(..) | Op::OpenFut(..) | Op::TryJoin(..) | Op::AsyncLoad(..)) };
        let want = match before.3 {
            Some((present, loading)) if ran && (plain || after.2 > before.2) => match (present, sync && !plain) {
                (true, _) => (1, 0),
                (false, true) => if loading { (1, 1) } else { (0, 2) },
                (false, false) => (0, 1),
            },
            _ => (0, 0),
        };
        let got = (after.0.wrapping_sub(before.0), after.1.wrapping_sub(before.1));
        if got != want {
            self.m.bad(&["C19"], format!("{op:?} counted {} hits and {} misses, expected {} and {}", got.0, got.1, want.0, want.1));
        }
    }
    fn retained(&mut self, mask: u64, mut calls: Vec<(u16, u32, Img)>) {
        calls.sort();
        let all: Vec<(u16, u32, Img)> = self.m.m.iter().map(|(k, (i, v))| (*k, *i, *v)).collect();
        if calls != all {
            self.m.bad(&["C09"], format!("retain asked about {calls:?}, resident {all:?}"));
        }
        self.m.m.retain(|k, _| mask >> (*k % 64) & 1 == 1);
        self.quiet("retain");
    }
    /// checks a get_or_insert_with; returns whether something was inserted
    fn loaded(&mut self, q: &K, img: Option<Img>, called: usize, res: Result<Option<Img>, u8>, returns_stored: bool) -> bool {
        let k = q.id;
        if let Some((_, cur)) = self.m.m.get(&k).copied() {
            if called != 0 || res != Ok(Some(cur)) {
                self.m.bad(&["C10", "C01"], format!("get_or_insert_with({k}): load called {called} times, result {res:?}, present value {cur:?}"));
            }
            self.quiet("get_or_insert_with of a present key");
            return false;
        }
        if called != 1 {
            self.m.bad(&["C10"], format!("get_or_insert_with({k}) of an absent key called the load {called} times"));
        }
        match img {
            None => {
                if res != Err(17) {
                    self.m.bad(&["C10"], format!("failed load returned {res:?}"));
                }
                self.quiet("failed load");
                self.m.seen.insert(k);
                false
            }
            Some(img) => {
                let e = self.events();
                self.m.insertion("C10", q, img, Strat::Guard, &e, true, None, false);
                let now = self.m.m.get(&k).map(|x| x.1);
                let want = if returns_stored { now } else { Some(img) };
                if res != Ok(want) {
                    self.m.bad(&["C10", "C01"], format!("get_or_insert_with({k}) returned {res:?}, expected {want:?}"));
                }
                true
            }
        }
    }
}

struct Wk(AtomicUsize);
impl Wake for Wk {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
type G = PlaceholderGuard<'static, K, V, We, HB, Li>;
type F = Pin<Box<dyn Future<Output = Result<V, G>>>>;
struct Load {
    key: u16,
    /// the key instance the load was started with
    inst: u32,
    /// still the placeholder of its key
    alive: bool,
    /// inserted value
    done: Option<Img>,
    waiters: Vec<usize>,
}
enum Fs {
    /// not notified
    Wait,
    /// notified, not polled yet
    Woken,
}
struct Fut {
    f: F,
    id: usize,
    load: usize,
    wk: Arc<Wk>,
    seen: usize,
    st: Fs,
}
/// single-threaded histories of the concurrent cache, with guards and futures held across operations
fn run_sync(case: &Case, want: &str) -> Outcome {
    let c = &case.cfg;
    let log: Arc<Mutex<Log>> = Default::default();
    let cache: Box<SC> = Box::new(sync::Cache::with_options(opts(c), We, HB(c.hash), Li(log.clone())));
    let mut ctx = Ctx::new(c, cache.shard_capacity());
    ctx.log = log;
    let shards = cache.num_shards();
    let raw = Box::into_raw(cache);
    let cache: &'static SC = unsafe { &*raw };
    let mut out = Outcome { viol: vec![], evictions: 0, loads: 0 };
    if cache.capacity() < c.cap || cache.capacity() - c.cap >= shards as u64 || cache.capacity() != cache.shard_capacity() * shards as u64 {
        ctx.m.bad(&["C14", "C03"], format!("capacity() {} shard_capacity {} shards {shards}, configured {}", cache.capacity(), cache.shard_capacity(), c.cap));
    }
    let mut loads: Vec<Load> = vec![];
    let mut guards: Vec<(G, usize)> = vec![];
    let mut futs: Vec<Fut> = vec![];
    let mut polls = 0usize;
    let mut next_fut = 0;
    let mut failed = false;
    // after the ops, everything still open is closed
    let mut ops: Vec<Op> = case.ops.clone();
    let n_ops = ops.len();
    for i in 0..12 {
        ops.push(if i % 2 == 0 { Op::DropFut(i) } else { Op::Finish(i, None) });
    }
    for i in 0..24 {
        ops.push(Op::DropFut(i));
        ops.push(Op::Finish(i, None));
    }
    for k in 0..c.keys {
        ops.push(Op::TryJoin(k));
        ops.push(Op::Finish(0, None));
    }
    for (n, op) in ops.iter().enumerate() {
        if matches!(op, Op::DropFut(_)) && futs.is_empty() || matches!(op, Op::Finish(..)) && guards.is_empty() {
            continue;
        }
        let budget_ok = |m: &Model, w: u64| m.total().checked_add(w).is_some_and(|x| x < 1 << 63);
        let mut inserted = false;
        let mut touched = None;
        let cur = |loads: &Vec<Load>, k: u16| loads.iter().position(|l| l.alive && l.key == k);
        let tally = (cache.hits(), cache.misses(), out.loads, asked(op).map(|k| (ctx.m.m.contains_key(&k), cur(&loads, k).is_some())));
        let r = catch_unwind(AssertUnwindSafe(|| match op {
            Op::Insert(k, s, lc) => {
                if !budget_ok(&ctx.m, s.w) {
                    return;
                }
                inserted = true;
                touched = Some(*k);
                let (key, v) = (ctx.key(*k), ctx.val(*s));
                let img = v.img();
                if *lc {
                    let _ = cache.insert_with_lifecycle(key.clone(), v);
                } else {
                    cache.insert(key.clone(), v);
                }
                let e = ctx.events();
                let adm = img.pin || img.w <= ctx.m.lim || hook_image(img).w <= ctx.m.lim;
                if adm {
                    if let Some(l) = cur(&loads, *k) {
                        loads[l].alive = false;
                    }
                }
                ctx.m.insertion("C06", &key, img, Strat::Insert, &e, !*lc, None, true);
            }
            Op::Replace(k, s, soft, lc) => {
                if !budget_ok(&ctx.m, s.w) {
                    return;
                }
                inserted = true;
                touched = Some(*k);
                let (key, v) = (ctx.key(*k), ctx.val(*s));
                let img = v.img();
                let err = if *lc {
                    cache.replace_with_lifecycle(key.clone(), v, *soft).err()
                } else {
                    cache.replace(key.clone(), v, *soft).err()
                };
                let err = err.map(|(k, v)| (k.inst, v.img()));
                let e = ctx.events();
                ctx.m.insertion("C08", &key, img, Strat::Replace, &e, !*lc, err, true);
            }
            Op::Get(k, q) => {
                let g = if *q { cache.get(&QK(*k)) } else { cache.get(&K { id: *k, inst: 0 }) }.map(|v| v.img());
                ctx.got("get", *k, g, "C01");
                ctx.quiet("get");
            }
            Op::Peek(k, q) => {
                let g = if *q { cache.peek(&QK(*k)) } else { cache.peek(&K { id: *k, inst: 0 }) }.map(|v| v.img());
                ctx.got("peek", *k, g, "C01");
                ctx.quiet("peek");
            }
            Op::Contains(k, q) => {
                let g = if *q { cache.contains_key(&QK(*k)) } else { cache.contains_key(&K { id: *k, inst: 0 }) };
                if g != ctx.m.m.contains_key(k) {
                    ctx.m.bad(&["C01"], format!("contains_key({k}) is {g}"));
                }
                ctx.quiet("contains_key");
            }
            Op::Remove(k, q) => {
                touched = Some(*k);
                let g = if *q { cache.remove(&QK(*k)) } else { cache.remove(&K { id: *k, inst: 0 }) };
                let g = g.map(|(k, v)| (k.id, k.inst, v.img()));
                let w = ctx.m.m.remove(k).map(|(i, v)| (*k, i, v));
                if g != w {
                    ctx.m.bad(&["C09", "C01"], format!("remove({k}) returned {g:?}, expected {w:?}"));
                }
                if let Some(l) = cur(&loads, *k) {
                    loads[l].alive = false;
                }
                ctx.quiet("remove");
            }
            Op::Retain(mask) => {
                let calls = Mutex::new(vec![]);
                cache.retain(|k, v| {
                    calls.lock().unwrap().push((k.id, k.inst, v.img()));
                    mask >> (k.id % 64) & 1 == 1
                });
                ctx.retained(*mask, calls.into_inner().unwrap());
            }
            Op::Clear => {
                cache.clear();
                ctx.m.m.clear();
                ctx.m.seen.clear();
                for l in &mut loads {
                    l.alive = false;
                }
                ctx.quiet("clear");
            }
            Op::Reserve(n) => {
                cache.reserve(*n);
                ctx.quiet("reserve");
            }
            Op::Load(k, s) | Op::AsyncLoad(k, s) => {
                if s.is_some_and(|s| !budget_ok(&ctx.m, s.w)) || cur(&loads, *k).is_some() {
                    return;
                }
                out.loads += 1;
                touched = Some(*k);
                let nv = s.map(|s| ctx.val(s));
                let img = nv.as_ref().map(|v| v.img());
                let mut called = 0;
                let q = ctx.key(*k);
                let res = if matches!(op, Op::Load(..)) {
                    cache.get_or_insert_with(&q, || {
                        called += 1;
                        nv.ok_or(17u8)
                    })
                } else {
                    let called = &mut called;
                    let f = cache.get_or_insert_async(&q, async move {
                        *called += 1;
                        nv.ok_or(17u8)
                    });
                    let wk = Arc::new(Wk(AtomicUsize::new(0)));
                    let w = Waker::from(wk);
                    match std::pin::pin!(f).as_mut().poll(&mut Context::from_waker(&w)) {
                        Poll::Ready(r) => r,
                        Poll::Pending => panic!("load without contention is pending"),
                    }
                };
                inserted = ctx.loaded(&q, img, called, res.map(|v| Some(v.img())), false);
            }
            Op::Guard(k, s, _) => {
                if s.is_some_and(|s| !budget_ok(&ctx.m, s.0.w)) || cur(&loads, *k).is_some() {
                    return;
                }
                out.loads += 1;
                touched = Some(*k);
                let nv = s.map(|s| ctx.val(s.0));
                let img = nv.as_ref().map(|v| v.img());
                let lc = s.is_some_and(|s| s.1);
                let q = ctx.key(*k);
                let mut got = None;
                let mut guard = false;
                match cache.get_value_or_guard(&q, None) {
                    GuardResult::Value(v) => got = Some(v.img()),
                    GuardResult::Guard(g) => {
                        guard = true;
                        if let Some(nv) = nv {
                            let ok = if lc { g.insert_with_lifecycle(nv).is_ok() } else { g.insert(nv).is_ok() };
                            if !ok {
                                ctx.m.bad(&["C10"], "insert of an undisturbed guard failed".into());
                            }
                        }
                    }
                    GuardResult::Timeout => ctx.m.bad(&["C10"], "timeout without a timeout".into()),
                }
                if guard == ctx.m.m.contains_key(k) {
                    ctx.m.bad(&["C10", "C01"], format!("key {k} present {}, but a guard was {}returned", !guard, if guard { "" } else { "not " }));
                } else if !guard {
                    ctx.got("get_value_or_guard", *k, got, "C10");
                    ctx.quiet("get_value_or_guard");
                } else if let Some(img) = img {
                    inserted = true;
                    let e = ctx.events();
                    ctx.m.insertion("C10", &q, img, Strat::Guard, &e, !lc, None, true);
                } else {
                    ctx.quiet("dropped guard");
                    ctx.m.seen.insert(*k);
                }
            }
            Op::Open(k) | Op::TryJoin(k) => {
                touched = Some(*k);
                out.loads += 1;
                let q = ctx.key(*k);
                let r = cache.get_value_or_guard(&q, Some(Duration::ZERO));
                ctx.quiet("get_value_or_guard");
                let present = ctx.m.m.get(k).map(|x| x.1);
                let l = cur(&loads, *k);
                match r {
                    GuardResult::Value(v) => {
                        let g = Some(v.img());
                        ctx.got("get_value_or_guard", *k, g, "C10");
                    }
                    GuardResult::Guard(g) => {
                        if present.is_some() || l.is_some() {
                            ctx.m.bad(&["C10", "C16"], format!("a guard for key {k} was handed out while {}", if l.is_some() { "another load is in progress" } else { "a value is present" }));
                        }
                        loads.push(Load { key: *k, inst: q.inst, alive: true, done: None, waiters: vec![] });
                        ctx.m.seen.insert(*k);
                        guards.push((g, loads.len() - 1));
                    }
                    GuardResult::Timeout => {
                        if l.is_none() {
                            ctx.m.bad(&["C10", "C16"], format!("waiting for a load of key {k}, but none is in progress"));
                        }
                    }
                }
            }
            Op::OpenFut(k) => {
                touched = Some(*k);
                out.loads += 1;
                let q: &'static K = Box::leak(Box::new(ctx.key(*k)));
                let mut f: F = Box::pin(cache.get_value_or_guard_async(q));
                let wk = Arc::new(Wk(AtomicUsize::new(0)));
                let w = Waker::from(wk.clone());
                let r = f.as_mut().poll(&mut Context::from_waker(&w));
                ctx.quiet("get_value_or_guard_async");
                let present = ctx.m.m.get(k).map(|x| x.1);
                let l = cur(&loads, *k);
                match r {
                    Poll::Ready(Ok(v)) => {
                        let g = Some(v.img());
                        ctx.got("get_value_or_guard_async", *k, g, "C16");
                    }
                    Poll::Ready(Err(g)) => {
                        if present.is_some() || l.is_some() {
                            ctx.m.bad(&["C10", "C16"], format!("a guard for key {k} was handed out while {}", if l.is_some() { "another load is in progress" } else { "a value is present" }));
                        }
                        loads.push(Load { key: *k, inst: q.inst, alive: true, done: None, waiters: vec![] });
                        ctx.m.seen.insert(*k);
                        guards.push((g, loads.len() - 1));
                    }
                    Poll::Pending => match l {
                        None => ctx.m.bad(&["C10", "C16"], format!("future for key {k} waits, but no load is in progress")),
                        Some(l) => {
                            next_fut += 1;
                            loads[l].waiters.push(next_fut);
                            futs.push(Fut { f, id: next_fut, load: l, wk, seen: 0, st: Fs::Wait });
                        }
                    },
                }
            }
            Op::Poll(i) => {
                if futs.is_empty() {
                    return;
                }
                let i = i % futs.len();
                let fu = &mut futs[i];
                // every other poll comes from a new task: its waker is the one to be woken from then on
                polls += 1;
                let wk = if polls % 2 == 1 { Arc::new(Wk(AtomicUsize::new(0))) } else { fu.wk.clone() };
                let w = Waker::from(wk.clone());
                let r = fu.f.as_mut().poll(&mut Context::from_waker(&w));
                if r.is_pending() && matches!(fu.st, Fs::Wait) {
                    fu.wk = wk;
                }
                ctx.quiet("poll");
                let l = fu.load;
                match (&fu.st, r) {
                    (Fs::Wait, Poll::Pending) => {}
                    (Fs::Wait, Poll::Ready(_)) => ctx.m.bad(&["C16"], "a waiting future that was not woken is ready".into()),
                    (Fs::Woken, Poll::Pending) => ctx.m.bad(&["C16"], "a woken future is still pending".into()),
                    (Fs::Woken, Poll::Ready(Ok(v))) => {
                        if loads[l].done != Some(v.img()) {
                            ctx.m.bad(&["C16", "C01"], format!("waiter of key {} received {:?}, inserted {:?}", loads[l].key, v.img(), loads[l].done));
                        }
                        futs.remove(i);
                    }
                    (Fs::Woken, Poll::Ready(Err(g))) => {
                        if loads[l].done.is_some() {
                            ctx.m.bad(&["C16", "C10"], "waiter received a guard although the value was inserted".into());
                        }
                        guards.push((g, l));
                        futs.remove(i);
                    }
                }
            }
            Op::DropFut(i) => {
                if futs.is_empty() {
                    return;
                }
                let i = i % futs.len();
                let fu = futs.remove(i);
                let (l, id, woken) = (fu.load, fu.id, matches!(fu.st, Fs::Woken));
                drop(fu);
                ctx.quiet("dropping a future");
                if woken && loads[l].done.is_none() {
                    // it held the right to load: passes on
                    abandoned(&mut loads[l], &mut futs, &mut ctx);
                } else {
                    loads[l].waiters.retain(|w| *w != id);
                }
            }
            Op::Finish(i, s) => {
                if guards.is_empty() {
                    return;
                }
                let i = i % guards.len();
                if s.is_some_and(|s| !budget_ok(&ctx.m, s.0.w)) {
                    return;
                }
                let (g, l) = guards.remove(i);
                touched = Some(loads[l].key);
                match s {
                    None => {
                        drop(g);
                        ctx.quiet("dropping a guard");
                        abandoned(&mut loads[l], &mut futs, &mut ctx);
                    }
                    Some((s, lc)) => {
                        let v = ctx.val(*s);
                        let img = v.img();
                        let r = if *lc { g.insert_with_lifecycle(v).map(|_| ()) } else { g.insert(v) };
                        let r = r.map_err(|v| v.img());
                        let e = ctx.events();
                        if loads[l].alive {
                            inserted = true;
                            // the key stored is the one the first load was started with
                            let k = K { id: loads[l].key, inst: loads[l].inst };
                            if r.is_err() {
                                ctx.m.bad(&["C10"], format!("insert of a valid guard for key {} failed", k.id));
                            }
                            ctx.m.insertion("C10", &k, img, Strat::Guard, &e, !*lc, None, true);
                        } else {
                            if r != Err(img) {
                                ctx.m.bad(&["C10"], format!("insert of a guard whose placeholder is gone returned {r:?}"));
                            }
                            if !matches!(e[..], [Ev::Begin(_)]) {
                                ctx.m.bad(&["C13", "C10"], format!("failed guard insert caused {e:?}"));
                            }
                        }
                        loads[l].alive = false;
                        loads[l].done = Some(img);
                        for w in std::mem::take(&mut loads[l].waiters) {
                            if let Some(f) = futs.iter_mut().find(|f| f.id == w) {
                                f.st = Fs::Woken;
                            }
                        }
                    }
                }
            }
            _ => {}
        }));
        if !step_guard(&mut ctx, op, r) {
            failed = true;
        }
        if !failed {
            // wake-ups: a future is woken exactly when the protocol says so
            for f in &mut futs {
                let woken = f.wk.0.load(Ordering::SeqCst) > f.seen;
                let want = matches!(f.st, Fs::Woken);
                if woken != want && f.seen == 0 {
                    ctx.m.bad(&["C16"], format!("future {} waiting for key {}: woken {woken}, expected {want}", f.id, loads[f.load].key));
                    f.seen = usize::MAX - 1;
                }
            }
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut seen: Cells = Default::default();
                let mut iter: Vec<(u16, u32, Img)> = vec![];
                for k in 0..c.keys {
                    let p = cache.peek(&QK(k)).map(|v| v.img());
                    if p.is_some() != cache.contains_key(&QK(k)) {
                        ctx.m.bad(&["C01"], format!("contains_key({k}) disagrees with peek"));
                    }
                    if let Some(p) = p {
                        let inst = ctx.m.m.get(&k).map(|x| x.0).unwrap_or(u32::MAX);
                        seen.insert(k, (inst, p));
                        iter.push((k, inst, p));
                    }
                }
                let (len, w, em) = (cache.len(), cache.weight(), cache.is_empty());
                ctx.tallied(op, tally, (cache.hits(), cache.misses(), out.loads), true);
                ctx.after(op, &seen, &iter, len, w, em, shards, inserted, touched);
                ctx.quiet("observation");
            }));
            if !step_guard(&mut ctx, op, r) {
                failed = true;
            }
        }
        if !failed && catch_unwind(AssertUnwindSafe(|| cache.validate())).is_err() {
            let t = panic_text();
            let tags = validate_tags(&t);
            ctx.m.bad(&tags, format!("internal validation: {t}"));
        }
        if !failed && futs.is_empty() && guards.is_empty() {
            ctx.refs(&Default::default());
        }
        let fatal = failed || ctx.m.v.iter().any(|v| v.tags.contains(&"C07") || v.tags.contains(&"C16") || v.tags.contains(&"C10"));
        for v in ctx.m.v.drain(..) {
            out.viol.push((n.min(n_ops), v));
        }
        if fatal || out.viol.iter().any(|v| v.1.tags.contains(&want)) {
            std::mem::forget(guards);
            std::mem::forget(futs);
            return out;
        }
        out.evictions += inserted as usize;
    }
    drop(futs);
    drop(guards);
    unsafe { drop(Box::from_raw(raw)) };
    ctx.m.m.clear();
    ctx.refs(&Default::default());
    for v in ctx.m.v.drain(..) {
        out.viol.push((n_ops, v));
    }
    out
}
/// a load given up: exactly one waiter takes over, or the placeholder goes
fn abandoned(l: &mut Load, futs: &mut [Fut], ctx: &mut Ctx) {
    if l.waiters.is_empty() {
        l.alive = false;
        return;
    }
    let mut woken = vec![];
    for f in futs.iter_mut() {
        if l.waiters.contains(&f.id) && f.wk.0.load(Ordering::SeqCst) > f.seen {
            woken.push(f.id);
            f.st = Fs::Woken;
        }
    }
    if woken.len() != 1 {
        ctx.m.bad(&["C16"], format!("load of key {} given up with {} waiters: {} woken, expected one", l.key, l.waiters.len(), woken.len()));
    }
    l.waiters.retain(|w| !woken.contains(w));
}
