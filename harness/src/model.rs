//! Instrumented keys, values, weighter, hasher and lifecycle, and the reference model that checks what the hooks report.
use quick_cache::{Equivalent, Lifecycle, Weighter};
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct K {
    pub id: u16,
    pub inst: u32,
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.id == o.id
    }
}
impl Eq for K {}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.id as u64)
    }
}
/// a borrowed form of the key
pub struct QK(pub u16);
impl Hash for QK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.0 as u64)
    }
}
impl Equivalent<K> for QK {
    fn equivalent(&self, k: &K) -> bool {
        self.0 == k.id
    }
}

#[derive(Clone, Debug)]
pub struct V {
    pub id: u32,
    pub w: u64,
    pub pin: bool,
    /// what before_evict does: 0 nothing, 1 weight 0, 2 halve the weight, 3 weight + 1
    pub mode: u8,
    pub tok: Arc<u32>,
}
impl V {
    pub fn img(&self) -> Img {
        Img { id: self.id, w: self.w, pin: self.pin, mode: self.mode }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Img {
    pub id: u32,
    pub w: u64,
    pub pin: bool,
    pub mode: u8,
}
pub fn hook_image(mut v: Img) -> Img {
    match v.mode {
        1 => v.w = 0,
        2 => v.w /= 2,
        3 => v.w += 1,
        _ => {}
    }
    v
}

#[derive(Clone)]
pub struct We;
impl Weighter<K, V> for We {
    fn weight(&self, _: &K, v: &V) -> u64 {
        v.w
    }
}

#[derive(Clone)]
pub struct HB(pub u8);
pub struct H(u8, u64);
impl Hasher for H {
    fn finish(&self) -> u64 {
        match self.0 {
            0 => {
                let mut x = self.1.wrapping_add(0x9E37_79B9_7F4A_7C15);
                x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                x ^ (x >> 31)
            }
            1 => 7,
            2 => self.1 % 2,
            3 => (self.1 % 3) << 32,
            4 => self.1 << 57,
            _ => self.1,
        }
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.1 = (self.1 << 8) | *x as u64;
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.1 = v
    }
}
impl BuildHasher for HB {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        H(self.0, 0)
    }
}

#[derive(Clone, Debug)]
pub enum Ev {
    Begin(u32),
    Before { req: u32, k: u16, inst: u32, old: Img, new: Img },
    Evict { req: u32, k: K, v: V },
    End(u32),
}
#[derive(Default)]
pub struct Log {
    pub ev: Vec<Ev>,
    pub next: u32,
}
#[derive(Clone)]
pub struct Li(pub Arc<Mutex<Log>>);
impl Lifecycle<K, V> for Li {
    type RequestState = u32;
    fn is_pinned(&self, _: &K, v: &V) -> bool {
        v.pin
    }
    fn begin_request(&self) -> u32 {
        let mut l = self.0.lock().unwrap();
        l.next += 1;
        let n = l.next;
        l.ev.push(Ev::Begin(n));
        n
    }
    fn before_evict(&self, s: &mut u32, k: &K, v: &mut V) {
        let old = v.img();
        let new = hook_image(old);
        v.w = new.w;
        self.0.lock().unwrap().ev.push(Ev::Before { req: *s, k: k.id, inst: k.inst, old, new });
    }
    fn on_evict(&self, s: &mut u32, k: K, v: V) {
        self.0.lock().unwrap().ev.push(Ev::Evict { req: *s, k, v });
    }
    fn end_request(&self, s: u32) {
        self.0.lock().unwrap().ev.push(Ev::End(s));
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub tags: Vec<&'static str>,
    pub msg: String,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Strat {
    Insert,
    Replace,
    Guard,
}
/// the admission limit of a shard of capacity `cap`
pub fn limit(cap: u64, hot: f64) -> u64 {
    ((cap as f64 * hot) as u64).clamp(cap.min(1), cap)
}
pub type Cells = BTreeMap<u16, (u32, Img)>;

#[derive(Default)]
pub struct Model {
    /// resident pairs: key -> (key instance, value)
    pub m: Cells,
    /// keys that ever were resident or loading since the last clear (they may have left a ghost)
    pub seen: std::collections::BTreeSet<u16>,
    /// strong references registered per value id
    pub reg: Vec<Arc<u32>>,
    pub cap: u64,
    pub lim: u64,
    pub v: Vec<Viol>,
    /// unpinned weight may exceed the capacity (grown through a mutable reference)
    pub grown: bool,
    pub hash_mode: u8,
}
impl Model {
    pub fn bad(&mut self, tags: &[&'static str], msg: String) {
        self.v.push(Viol { tags: tags.to_vec(), msg });
    }
    pub fn value(&mut self, w: u64, pin: bool, mode: u8) -> V {
        let id = self.reg.len() as u32;
        let tok = Arc::new(id);
        self.reg.push(tok.clone());
        V { id, w, pin, mode, tok }
    }
    pub fn total(&self) -> u64 {
        self.m.values().map(|x| x.1.w).sum()
    }
    pub fn free(&self) -> u64 {
        self.m.values().filter(|x| !x.1.pin).map(|x| x.1.w).sum()
    }
    /// checks the hook events of one insertion request and applies them. `load` tells whether a load of that key is in progress.
    pub fn insertion(&mut self, home: &'static str, k: &K, v: Img, strat: Strat, ev: &[Ev], end: bool, err: Option<(u32, Img)>, shared: bool) {
        let home2: &[&'static str] = &[home];
        let mut it = ev.iter().peekable();
        let ok = err.is_none();
        // request protocol
        let req = match it.next() {
            Some(Ev::Begin(n)) => *n,
            x => {
                self.bad(&["C13"], format!("request did not start with begin_request: {x:?}"));
                return;
            }
        };
        let ends = ev.iter().filter(|e| matches!(e, Ev::End(_))).count();
        let want_end = (end && ok) as usize;
        if ends != want_end || (want_end == 1 && !matches!(ev.last(), Some(Ev::End(n)) if *n == req)) {
            self.bad(&["C13"], format!("end_request called {ends} times, expected {want_end}, as the last call of the request"));
        }
        for e in ev.iter().skip(1) {
            let r = match e {
                Ev::Begin(_) => None,
                Ev::Before { req, .. } | Ev::Evict { req, .. } | Ev::End(req) => Some(*req),
            };
            if r != Some(req) {
                self.bad(&["C13"], format!("event {e:?} does not carry the state of request {req}"));
            }
        }
        let mut v = v;
        if v.w > self.lim && !v.pin {
            match it.peek() {
                Some(Ev::Before { k: bk, inst, old, new, .. }) if *bk == k.id && *inst == k.inst && *old == v => {
                    v = *new;
                    it.next();
                }
                x => self.bad(&["C13", "C06"], format!("pair {k:?} {v:?} above the admission limit {} was not offered to before_evict, next event {x:?}", self.lim)),
            }
            if v.w > self.lim {
                // refused
                if strat != Strat::Guard {
                    if let Some((oi, ov)) = self.m.remove(&k.id) {
                        self.expect_evict(&mut it, k.id, oi, ov, "previous value of a refused pair");
                    }
                }
                if strat == Strat::Replace {
                    if err != Some((k.inst, v)) {
                        self.bad(&["C08", "C06"], format!("replace with a refused pair returned {err:?}, expected Err of the pair {v:?}"));
                    }
                } else {
                    if !ok {
                        self.bad(home2, format!("insertion of a refused pair returned an error {err:?}"));
                    }
                    self.expect_evict(&mut it, k.id, k.inst, v, "refused pair");
                }
                self.rest(&mut it, "after a refused pair", true);
                return;
            }
        }
        if strat == Strat::Replace && !self.m.contains_key(&k.id) {
            if err != Some((k.inst, v)) {
                self.bad(&["C08"], format!("replace of an absent key returned {err:?}, expected Err of the pair"));
            }
            self.rest(&mut it, "replace of an absent key", true);
            return;
        }
        if !ok {
            self.bad(home2, format!("pair {k:?} {v:?} within the limit was rejected: {err:?}"));
            if strat == Strat::Replace {
                self.bad(&["C08", "C06"], "replace of a present key rejected".into());
            }
            return;
        }
        if let Some((oi, ov)) = self.m.insert(k.id, (k.inst, v)) {
            self.expect_evict(&mut it, k.id, oi, ov, "replaced value");
        }
        let fresh = self.seen.insert(k.id) && self.hash_mode == 0 && strat == Strat::Insert;
        self.replay(&mut it, shared);
        if fresh && !self.m.contains_key(&k.id) {
            self.bad(&["C06"], format!("new pair {k:?} {v:?} within the limit is not resident after its insertion"));
        }
    }
    fn expect_evict<'a>(&mut self, it: &mut std::iter::Peekable<std::slice::Iter<'a, Ev>>, k: u16, inst: u32, v: Img, what: &str) {
        match it.peek() {
            Some(Ev::Evict { k: ek, v: ev, .. }) if ek.id == k && ek.inst == inst && ev.img() == v => {
                it.next();
            }
            x => {
                let m = format!("{what} (key {k}/{inst}, {v:?}) was not handed to on_evict; next event {x:?}");
                self.bad(&["C05"], m);
            }
        }
    }
    fn rest<'a>(&mut self, it: &mut std::iter::Peekable<std::slice::Iter<'a, Ev>>, what: &str, _strict: bool) {
        for e in it {
            if !matches!(e, Ev::End(_)) {
                let m = format!("unexpected event {what}: {e:?}");
                self.bad(&["C05", "C13"], m);
            }
        }
    }
    fn replay<'a>(&mut self, it: &mut std::iter::Peekable<std::slice::Iter<'a, Ev>>, _shared: bool) {
        let mut pend: Option<u16> = None;
        for e in it {
            match e {
                Ev::Before { k, inst, old, new, .. } => {
                    if pend.is_some() {
                        self.bad(&["C13", "C05"], format!("before_evict of {k} while the eviction of {pend:?} is not finished"));
                    }
                    match self.m.get(k) {
                        Some((i, v)) if i == inst && v == old => {}
                        x => {
                            let m = format!("before_evict for key {k}/{inst} {old:?}, but the cache held {x:?}");
                            self.bad(&["C05", "C13"], m)
                        }
                    }
                    if old.pin {
                        self.bad(&["C04"], format!("eviction of pinned pair {k} {old:?}"));
                    }
                    if old.w == 0 {
                        self.bad(&["C04"], format!("eviction of zero-weight pair {k} {old:?}"));
                    }
                    if self.m.contains_key(k) {
                        self.m.insert(*k, (*inst, *new));
                    }
                    pend = if new.w == 0 { None } else { Some(*k) };
                }
                Ev::Evict { k, v, .. } => {
                    let img = v.img();
                    if pend != Some(k.id) {
                        self.bad(&["C13"], format!("on_evict of {k:?} {img:?} without before_evict right before it"));
                        if img.pin || img.w == 0 {
                            self.bad(&["C04"], format!("eviction of pinned or zero-weight pair {k:?} {img:?}"));
                        }
                    }
                    pend = None;
                    match self.m.get(&k.id) {
                        Some((i, mv)) if *i == k.inst && *mv == img => {
                            self.m.remove(&k.id);
                        }
                        x => {
                            let m = format!("on_evict handed out {k:?} {img:?}, but the cache held {x:?}");
                            self.bad(&["C05"], m)
                        }
                    }
                }
                _ => {}
            }
        }
        if let Some(k) = pend {
            self.bad(&["C05", "C13"], format!("before_evict of {k} left weight but no on_evict followed"));
            self.m.remove(&k);
        }
    }
}
