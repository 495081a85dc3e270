@@module linked_slab
@@file linked_slab.rs
@@text
use vstd::prelude::*;
use crate::prelude::*;
broadcast use group_token;
@@item Entry
@@item LinkedSlab
@derive CloneAssumed
@@text
// ---- ring theory over a successor map ----
pub open spec fn is_ring(nx: IMap<Token, Token>, s: Seq<Token>) -> bool {
    &&& s.len() > 0
    &&& s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> nx.dom().contains(#[trigger] s[i])
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> (#[trigger] nx[s[i]]) == s[i + 1]
    &&& nx[s[s.len() - 1]] == s[0]
}
pub open spec fn ring_at(nx: IMap<Token, Token>, t: Token, s: Seq<Token>) -> bool {
    is_ring(nx, s) && s[0] == t
}
pub open spec fn ring(nx: IMap<Token, Token>, t: Token) -> Seq<Token> {
    choose|s: Seq<Token>| ring_at(nx, t, s)
}
pub open spec fn rotate(s: Seq<Token>, k: int) -> Seq<Token> { s.skip(k) + s.take(k) }

pub proof fn lemma_rotate(nx: IMap<Token, Token>, s: Seq<Token>, k: int)
    requires is_ring(nx, s), 0 <= k < s.len()
    ensures ring_at(nx, s[k], rotate(s, k)), forall|x: Token| rotate(s, k).contains(x) <==> s.contains(x)
{
    let r = rotate(s, k);
    assert(r.len() == s.len());
    assert forall|x: Token| r.contains(x) <==> s.contains(x) by {
        if s.contains(x) { let i = s.index_of(x); if i >= k { assert(r[i - k] == x); } else { assert(r[s.len() - k + i] == x); } }
    }
    assert forall|i: int| 0 <= i < r.len() - 1 implies (#[trigger] nx[r[i]]) == r[i + 1] by {
        if i < s.len() - k - 1 { assert(r[i] == s[i + k]); assert(r[i+1] == s[i + k + 1]); }
        else if i == s.len() - k - 1 { assert(r[i] == s[s.len() - 1]); assert(r[i+1] == s[0]); }
        else { assert(r[i] == s[i - (s.len() - k)]); assert(r[i+1] == s[i - (s.len() - k) + 1]); }
    }
    if k > 0 { assert(r[r.len()-1] == s[k-1]); } else { assert(r =~= s); }
}
pub proof fn lemma_ring_unique(nx: IMap<Token, Token>, s: Seq<Token>, r: Seq<Token>)
    requires is_ring(nx, s), is_ring(nx, r), s[0] == r[0]
    ensures s == r
{
    lemma_prefix(nx, s, r, if s.len() < r.len() { s.len() as int - 1 } else { r.len() as int - 1 });
    if s.len() < r.len() { assert(r[s.len() as int] == nx[r[s.len() - 1]]); assert(r[s.len() as int] == r[0]); assert(false); }
    if s.len() > r.len() { assert(s[r.len() as int] == nx[s[r.len() - 1]]); assert(s[r.len() as int] == s[0]); assert(false); }
    assert(s =~= r);
}
proof fn lemma_prefix(nx: IMap<Token, Token>, s: Seq<Token>, r: Seq<Token>, n: int)
    requires is_ring(nx, s), is_ring(nx, r), s[0] == r[0], 0 <= n < s.len(), n < r.len()
    ensures forall|i: int| 0 <= i <= n ==> s[i] == r[i]
    decreases n
{
    if n > 0 { lemma_prefix(nx, s, r, n - 1); assert(s[n] == nx[s[n-1]]); assert(r[n] == nx[r[n-1]]); }
}
// every element reached
pub open spec fn rings_ok(nx: IMap<Token, Token>) -> bool {
    forall|t: Token| nx.dom().contains(t) ==> ring_at(nx, t, #[trigger] ring(nx, t))
}
pub proof fn lemma_ring_is(nx: IMap<Token, Token>, t: Token, s: Seq<Token>)
    requires ring_at(nx, t, s)
    ensures ring(nx, t) == s, ring_at(nx, t, ring(nx, t))
{ lemma_ring_unique(nx, s, ring(nx, t)); }

// members of one ring see the same ring, rotated
pub proof fn lemma_ring_member(nx: IMap<Token, Token>, t: Token, k: int)
    requires ring_at(nx, t, ring(nx, t)), 0 <= k < ring(nx, t).len()
    ensures ring(nx, ring(nx, t)[k]) == rotate(ring(nx, t), k),
       forall|x: Token| ring(nx, ring(nx, t)[k]).contains(x) <==> ring(nx, t).contains(x)
{ lemma_rotate(nx, ring(nx, t), k); lemma_ring_is(nx, ring(nx,t)[k], rotate(ring(nx, t), k)); }
pub broadcast proof fn lemma_ring_sym(nx: IMap<Token, Token>, t: Token, z: Token)
    requires rings_ok(nx), nx.dom().contains(t), #[trigger] ring(nx, t).contains(z)
    ensures nx.dom().contains(z), forall|x: Token| #[trigger] ring(nx, z).contains(x) <==> ring(nx, t).contains(x)
{ let k = ring(nx, t).index_of(z); lemma_ring_member(nx, t, k); }

// splice idx in front of head
pub proof fn lemma_splice(nx: IMap<Token, Token>, ny: IMap<Token, Token>, h: Token, idx: Token)
    requires rings_ok(nx), nx.dom().contains(h), nx.dom().contains(idx), nx[idx] == idx, h != idx,
      ny == nx.insert(ring(nx, h).last(), idx).insert(idx, h)
    ensures rings_ok(ny), ring(ny, h) == ring(nx, h).push(idx),
      forall|z: Token| nx.dom().contains(z) && !ring(nx, h).contains(z) && z != idx ==> #[trigger] ring(ny, z) == ring(nx, z),
{
    let s = ring(nx, h);
    assert(ring_at(nx, idx, seq![idx]));
    lemma_ring_is(nx, idx, seq![idx]);
    if s.contains(idx) { let k = s.index_of(idx); lemma_ring_member(nx, h, k); assert(seq![idx].contains(h)); assert(false); }
    let r = s.push(idx);
    assert(is_ring(ny, r)) by {
        assert forall|i: int| 0 <= i < r.len() - 1 implies (#[trigger] ny[r[i]]) == r[i + 1] by {
            if i < s.len() - 1 { assert(r[i] == s[i]); assert(s[i] != s.last()); }
        }
    }
    assert forall|t: Token| ny.dom().contains(t) implies ring_at(ny, t, #[trigger] ring(ny, t)) && (!s.contains(t) && t != idx ==> ring(ny, t) == ring(nx, t)) by {
        if s.contains(t) || t == idx {
            assert(r.contains(t)) by { if t == idx { assert(r.last() == idx); } else { assert(r[s.index_of(t)] == t); } }
            lemma_rotate(ny, r, r.index_of(t)); lemma_ring_is(ny, t, rotate(r, r.index_of(t)));
        } else {
            let q = ring(nx, t);
            assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != idx && q[i] != s.last() by {
                lemma_ring_member(nx, t, i);
                if q[i] == idx { assert(q.contains(t)); assert(seq![idx].contains(t)); }
                if q[i] == s.last() { lemma_ring_member(nx, h, s.len() - 1); assert(q.contains(t)); assert(ring(nx, q[i]).contains(t)); assert(s.contains(t)); }
            }
            assert(ring_at(ny, t, q));
            lemma_ring_is(ny, t, q);
        }
    }
    assert(ring_at(ny, h, r)); lemma_ring_is(ny, h, r);
}
// unsplice idx out of its ring (ring of size >= 2)
pub proof fn lemma_unsplice(nx: IMap<Token, Token>, ny: IMap<Token, Token>, idx: Token)
    requires rings_ok(nx), nx.dom().contains(idx), nx[idx] != idx,
      ny == nx.insert(ring(nx, idx).last(), nx[idx]).insert(idx, idx)
    ensures rings_ok(ny), ring(ny, nx[idx]) == ring(nx, idx).skip(1), ring(ny, idx) == seq![idx],
      ring(nx, idx).len() > 1,
      forall|z: Token| nx.dom().contains(z) && !ring(nx, idx).contains(z) ==> #[trigger] ring(ny, z) == ring(nx, z),
{
    let s = ring(nx, idx);
    assert(s.len() > 1);
    let r = s.skip(1);
    assert(is_ring(ny, r)) by {
        assert forall|i: int| 0 <= i < r.len() implies ny.dom().contains(#[trigger] r[i]) by { assert(r[i] == s[i+1]); }
        assert forall|i: int| 0 <= i < r.len() - 1 implies (#[trigger] ny[r[i]]) == r[i + 1] by {
            assert(r[i] == s[i+1]); assert(s[i+1] != s.last()); assert(r[i + 1] == s[i + 2]);
        }
    }
    assert(ring_at(ny, idx, seq![idx])); lemma_ring_is(ny, idx, seq![idx]);
    assert forall|t: Token| ny.dom().contains(t) implies ring_at(ny, t, #[trigger] ring(ny, t)) && (!s.contains(t) ==> ring(ny, t) == ring(nx, t)) by {
        if t == idx {}
        else if s.contains(t) {
            assert(r[s.index_of(t) - 1] == t);
            lemma_rotate(ny, r, r.index_of(t)); lemma_ring_is(ny, t, rotate(r, r.index_of(t)));
        } else {
            let q = ring(nx, t);
            assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != idx && q[i] != s.last() by {
                lemma_ring_member(nx, t, i);
                if q[i] == idx { assert(q.contains(t)); }
                if q[i] == s.last() { lemma_ring_member(nx, idx, s.len() - 1); assert(q.contains(t)); assert(ring(nx, q[i]).contains(t)); assert(s.contains(t)); }
            }
            assert(ring_at(ny, t, q));
            lemma_ring_is(ny, t, q);
        }
    }
    assert(ring_at(ny, nx[idx], r)); lemma_ring_is(ny, nx[idx], r);
}

// a new singleton ring
pub proof fn lemma_add_singleton(nx: IMap<Token, Token>, ny: IMap<Token, Token>, idx: Token)
    requires rings_ok(nx), !nx.dom().contains(idx), ny =~= nx.insert(idx, idx),
    ensures rings_ok(ny), ring(ny, idx) == seq![idx],
      forall|z: Token| #[trigger] nx.dom().contains(z) ==> ring(ny, z) == ring(nx, z),
{
    assert(ring_at(ny, idx, seq![idx])); lemma_ring_is(ny, idx, seq![idx]);
    assert forall|t: Token| nx.dom().contains(t) implies ring_at(ny, t, ring(nx, t)) && #[trigger] ring(ny, t) == ring(nx, t) by {
        let q = ring(nx, t);
        assert(ring_at(nx, t, q));
        assert(ring_at(ny, t, q));
        lemma_ring_is(ny, t, q);
    }
    assert forall|t: Token| ny.dom().contains(t) implies ring_at(ny, t, #[trigger] ring(ny, t)) by {
        if t != idx { assert(ring(ny, t) == ring(nx, t)); }
    }
}

// ------------------------------------------------------------------ abstract view of the slab
// nx/pv: successor and predecessor of every stored item; fr: free slots and their free-list successor.
#[verifier::opaque]
pub open spec fn links_ok(nx: IMap<Token, Token>, pv: IMap<Token, Token>) -> bool {
    &&& rings_ok(nx)
    &&& pv.dom() =~= nx.dom()
    &&& forall|t: Token| #[trigger] nx.dom().contains(t) ==> pv[nx[t]] == t
}
pub open spec fn free_chain(fr: IMap<Token, Token>, nf: Token, slots: int, fs: Seq<Token>) -> bool {
    let end = tok(slots + 1);
    &&& fs.no_duplicates()
    &&& nf == (if fs.len() > 0 { fs[0] } else { end })
    &&& forall|i: int| 0 <= i < fs.len() ==> fr.dom().contains(#[trigger] fs[i])
    &&& forall|i: int| 0 <= i < fs.len() ==> #[trigger] fr[fs[i]] == (if i + 1 < fs.len() { fs[i + 1] } else { end })
    &&& forall|t: Token| #[trigger] fr.dom().contains(t) ==> fs.contains(t)
}
#[verifier::opaque]
pub open spec fn free_ok(fr: IMap<Token, Token>, nf: Token, slots: int) -> bool {
    &&& 0 <= slots < u32::MAX
    &&& forall|t: Token| #[trigger] fr.dom().contains(t) ==> 1 <= t@ <= slots
    &&& exists|fs: Seq<Token>| free_chain(fr, nf, slots, fs)
}
#[verifier::opaque]
pub open spec fn same_ring(nx: IMap<Token, Token>, t: Token, z: Token) -> bool { nx.dom().contains(t) && ring(nx, t).contains(z) }
impl<T> LinkedSlab<T> {
    pub open spec fn slots(self) -> int { self.entries@.len() as int }
    pub open spec fn slot(self, t: Token) -> Entry<T> { self.entries@[t@ - 1] }
    pub open spec fn has(self, t: Token) -> bool { 1 <= t@ <= self.slots() && self.slot(t).item is Some }
    pub open spec fn items(self) -> IMap<Token, T> { IMap::new(|t: Token| self.has(t), |t: Token| self.slot(t).item->0) }
    pub open spec fn nx(self) -> IMap<Token, Token> { IMap::new(|t: Token| self.has(t), |t: Token| self.slot(t).next) }
    pub open spec fn pv(self) -> IMap<Token, Token> { IMap::new(|t: Token| self.has(t), |t: Token| self.slot(t).prev) }
    pub open spec fn fr(self) -> IMap<Token, Token> { IMap::new(|t: Token| 1 <= t@ <= self.slots() && self.slot(t).item is None, |t: Token| self.slot(t).next) }
    pub open spec fn ring(self, t: Token) -> Seq<Token> { ring(self.nx(), t) }
    /// t and z are in the same circular list
    #[verifier::inline]
    pub open spec fn same(self, t: Token, z: Token) -> bool { same_ring(self.nx(), t, z) }
    pub open spec fn wf(self) -> bool {
        &&& links_ok(self.nx(), self.pv())
        &&& free_ok(self.fr(), self.next_free, self.slots())
    }
    /// one more item can be stored without exceeding the documented u32::MAX - 1 limit
    pub open spec fn room(self) -> bool { self.next_free@ < u32::MAX }
}
/// What the linked structure says about one item.
pub proof fn lemma_neighbours(nx: IMap<Token, Token>, pv: IMap<Token, Token>, idx: Token)
    requires links_ok(nx, pv), nx.dom().contains(idx),
    ensures nx.dom().contains(nx[idx]), nx.dom().contains(pv[idx]), nx[pv[idx]] == idx, pv[nx[idx]] == idx,
        pv[idx] == ring(nx, idx).last(), ring(nx, idx).len() >= 1, ring(nx, idx)[0] == idx,
        nx[idx] == idx <==> pv[idx] == idx,
        nx[idx] == idx <==> ring(nx, idx).len() == 1,
        ring(nx, idx).len() > 1 ==> nx[idx] == ring(nx, idx)[1],
        ring(nx, idx).contains(idx), ring(nx, idx).len() > 1 ==> ring(nx, idx)[1] != idx,
        pv.dom() == nx.dom(),
{
    reveal(links_ok);
    let s = ring(nx, idx);
    assert(ring_at(nx, idx, s));
    assert(nx.dom().contains(s.last()));
    assert(nx[s[0]] == if s.len() > 1 { s[1] } else { s[0] });
}
proof fn lemma_pv_of(nx: IMap<Token, Token>, pv: IMap<Token, Token>, t: Token, u: Token)
    requires links_ok(nx, pv), nx.dom().contains(t), nx.dom().contains(u), nx[t] == nx[u]
    ensures t == u
{ reveal(links_ok); }
pub proof fn lemma_link_maps(nx: IMap<Token, Token>, pv: IMap<Token, Token>, ny: IMap<Token, Token>, qv: IMap<Token, Token>, h: Token, idx: Token)
    requires links_ok(nx, pv), nx.dom().contains(h), nx.dom().contains(idx), nx[idx] == idx, h != idx,
        ny =~= nx.insert(pv[h], idx).insert(idx, h), qv =~= pv.insert(h, idx).insert(idx, pv[h]),
    ensures links_ok(ny, qv), ring(ny, h) == ring(nx, h).push(idx),
        forall|t: Token, z: Token| #[trigger] same_ring(ny, t, z) <==> (if same_ring(nx, h, t) || t == idx { same_ring(nx, h, z) || z == idx } else { same_ring(nx, t, z) }),
{
    lemma_same(nx, h); lemma_same(nx, idx);
    lemma_neighbours(nx, pv, h); lemma_neighbours(nx, pv, idx);
    reveal(links_ok);
    lemma_splice(nx, ny, h, idx);
    assert forall|t: Token| #[trigger] ny.dom().contains(t) implies qv[ny[t]] == t by {
        if t != idx && t != pv[h] { lemma_neighbours(nx, pv, t); if nx[t] == h { lemma_pv_of(nx, pv, t, pv[h]); } if nx[t] == idx { lemma_pv_of(nx, pv, t, idx); } }
    }
    let s = ring(nx, h); let r = ring(ny, h);
    assert forall|z: Token| r.contains(z) <==> s.contains(z) || z == idx by {
        if s.contains(z) { assert(r[s.index_of(z)] == z); }
        assert(r[s.len() as int] == idx);
    }
    assert forall|t: Token, z: Token| #[trigger] same_ring(ny, t, z) <==> (if same_ring(nx, h, t) || t == idx { same_ring(nx, h, z) || z == idx } else { same_ring(nx, t, z) }) by {
        reveal(same_ring);
        if ny.dom().contains(t) {
            if same_ring(nx, h, t) || t == idx { lemma_ring_sym(ny, h, t); }
            else { assert(ring(ny, t) == ring(nx, t)); }
        } else { if same_ring(nx, h, t) { lemma_ring_sym(nx, h, t); } }
    }
}
pub proof fn lemma_unlink_maps(nx: IMap<Token, Token>, pv: IMap<Token, Token>, ny: IMap<Token, Token>, qv: IMap<Token, Token>, idx: Token)
    requires links_ok(nx, pv), nx.dom().contains(idx), nx[idx] != idx,
        ny =~= nx.insert(pv[idx], nx[idx]).insert(idx, idx), qv =~= pv.insert(nx[idx], pv[idx]).insert(idx, idx),
    ensures links_ok(ny, qv), ring(ny, nx[idx]) == ring(nx, idx).skip(1), ring(ny, idx) == seq![idx], ring(nx, idx).len() > 1,
        forall|t: Token, z: Token| #[trigger] same_ring(ny, t, z) <==> (if t == idx { z == idx } else { same_ring(nx, t, z) && z != idx }),
{
    lemma_neighbours(nx, pv, idx);
    reveal(links_ok);
    lemma_unsplice(nx, ny, idx);
    let s = ring(nx, idx); let r = ring(ny, nx[idx]);
    assert forall|z: Token| r.contains(z) <==> s.contains(z) && z != idx by {
        if s.contains(z) && z != idx { assert(r[s.index_of(z) - 1] == z); }
        if r.contains(z) { assert(s[r.index_of(z) + 1] == z); }
    }
    assert forall|t: Token, z: Token| #[trigger] same_ring(ny, t, z) <==> (if t == idx { z == idx } else { same_ring(nx, t, z) && z != idx }) by {
        reveal(same_ring);
        if t == idx { assert(seq![idx][0] == idx); }
        else if nx.dom().contains(t) {
            if s.contains(t) { lemma_ring_sym(nx, idx, t); lemma_ring_sym(ny, nx[idx], t); }
            else { if ring(nx, t).contains(idx) { lemma_ring_sym(nx, t, idx); assert(ring(nx, t)[0] == t); assert(ring(nx, t).contains(t)); assert(false); } assert(ring(ny, t) == ring(nx, t)); }
        }
    }
    assert forall|t: Token| #[trigger] ny.dom().contains(t) implies qv[ny[t]] == t by {
        lemma_neighbours(nx, pv, t);
        if t != idx && t != pv[idx] { if nx[t] == idx { lemma_pv_of(nx, pv, t, pv[idx]); } if nx[t] == nx[idx] { lemma_pv_of(nx, pv, t, idx); } }
    }
}
pub proof fn lemma_add_maps(nx: IMap<Token, Token>, pv: IMap<Token, Token>, ny: IMap<Token, Token>, qv: IMap<Token, Token>, idx: Token)
    requires links_ok(nx, pv), !nx.dom().contains(idx), ny =~= nx.insert(idx, idx), qv =~= pv.insert(idx, idx),
    ensures links_ok(ny, qv), ring(ny, idx) == seq![idx],
        forall|t: Token, z: Token| #[trigger] same_ring(ny, t, z) <==> same_ring(nx, t, z) || (t == idx && z == idx),
{
    reveal(links_ok);
    lemma_add_singleton(nx, ny, idx);
    assert forall|t: Token, z: Token| #[trigger] same_ring(ny, t, z) <==> same_ring(nx, t, z) || (t == idx && z == idx) by {
        reveal(same_ring);
        if t == idx { assert(seq![idx][0] == idx); }
        else if nx.dom().contains(t) { assert(ring(ny, t) == ring(nx, t)); }
    }
    assert forall|t: Token| #[trigger] ny.dom().contains(t) implies qv[ny[t]] == t by {
        if t != idx { lemma_neighbours(nx, pv, t); }
    }
}
pub proof fn lemma_del_maps(nx: IMap<Token, Token>, pv: IMap<Token, Token>, ny: IMap<Token, Token>, qv: IMap<Token, Token>, idx: Token)
    requires links_ok(nx, pv), nx.dom().contains(idx), nx[idx] == idx, ny =~= nx.remove(idx), qv =~= pv.remove(idx),
    ensures links_ok(ny, qv),
        forall|t: Token, z: Token| #[trigger] same_ring(ny, t, z) <==> same_ring(nx, t, z) && t != idx && z != idx,
        forall|z: Token| #[trigger] nx.dom().contains(z) && z != idx ==> ring(ny, z) == ring(nx, z),
{
    lemma_neighbours(nx, pv, idx);
    reveal(links_ok);
    assert forall|t: Token| nx.dom().contains(t) && t != idx implies ring_at(ny, t, ring(nx, t)) && #[trigger] ring(ny, t) == ring(nx, t) by {
        let q = ring(nx, t);
        assert(ring_at(nx, t, q));
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != idx by {
            if q[i] == idx { lemma_ring_member(nx, t, i); assert(q.contains(t)); assert(ring(nx, idx).contains(t)); }
        }
        assert(ring_at(ny, t, q));
        lemma_ring_is(ny, t, q);
    }
    reveal(links_ok);
    assert forall|t: Token| ny.dom().contains(t) implies ring_at(ny, t, #[trigger] ring(ny, t)) by { assert(ring(ny, t) == ring(nx, t)); }
    assert forall|t: Token| #[trigger] ny.dom().contains(t) implies qv[ny[t]] == t by {
        lemma_neighbours(nx, pv, t); if nx[t] == idx { lemma_pv_of(nx, pv, t, idx); }
    }
    assert forall|t: Token, z: Token| #[trigger] same_ring(ny, t, z) <==> same_ring(nx, t, z) && t != idx && z != idx by {
        reveal(same_ring);
        if nx.dom().contains(t) && t != idx {
            assert(ring(ny, t) == ring(nx, t));
            if ring(nx, t).contains(idx) { lemma_ring_sym(nx, t, idx); assert(ring(nx, t)[0] == t); assert(ring(nx, t).contains(t)); lemma_ring_is(nx, idx, seq![idx]); assert(false); }
        }
    }
}
pub proof fn lemma_same(nx: IMap<Token, Token>, t: Token)
    ensures forall|z: Token| #[trigger] same_ring(nx, t, z) <==> nx.dom().contains(t) && ring(nx, t).contains(z)
{ reveal(same_ring); }

// ---- positions in a list, seen from its head
#[verifier::opaque]
pub open spec fn place(nx: IMap<Token, Token>, h: Token, t: Token) -> int { ring(nx, h).index_of(t) }
#[verifier::opaque]
pub open spec fn size(nx: IMap<Token, Token>, h: Token) -> int { ring(nx, h).len() as int }
pub broadcast proof fn lemma_place_next(nx: IMap<Token, Token>, pv: IMap<Token, Token>, h: Token, t: Token)
    requires links_ok(nx, pv), same_ring(nx, h, t)
    ensures #![trigger links_ok(nx, pv), place(nx, h, t), nx[t]]
        0 <= place(nx, h, t) < size(nx, h), same_ring(nx, h, nx[t]), nx.dom().contains(nx[t]),
        place(nx, h, h) == 0,
        nx[t] == h <==> place(nx, h, t) + 1 == size(nx, h),
        nx[t] != h ==> place(nx, h, nx[t]) == place(nx, h, t) + 1,
{
    reveal(links_ok); reveal(same_ring); reveal(place); reveal(size);
    let s = ring(nx, h);
    assert(ring_at(nx, h, s));
    let i = s.index_of(t);
    assert(s.contains(s[0]));
    assert(s.index_of(h) == 0);
    if i + 1 < s.len() { assert(nx[s[i]] == s[i + 1]); assert(s.contains(s[i + 1])); assert(s.index_of(s[i + 1]) == i + 1); }
}
pub broadcast proof fn lemma_place_inj(nx: IMap<Token, Token>, pv: IMap<Token, Token>, h: Token, t: Token, z: Token)
    requires links_ok(nx, pv), same_ring(nx, h, t), same_ring(nx, h, z)
    ensures #![trigger links_ok(nx, pv), place(nx, h, t), place(nx, h, z)]
        place(nx, h, t) == place(nx, h, z) ==> t == z, 0 <= place(nx, h, t) < size(nx, h),
{ reveal(same_ring); reveal(place); reveal(size); }
pub broadcast proof fn lemma_place_head(nx: IMap<Token, Token>, pv: IMap<Token, Token>, h: Token)
    requires links_ok(nx, pv), nx.dom().contains(h)
    ensures #![trigger links_ok(nx, pv), place(nx, h, h)] place(nx, h, h) == 0, same_ring(nx, h, h), size(nx, h) > 0
{ reveal(links_ok); reveal(same_ring); reveal(place); reveal(size); let s = ring(nx, h); assert(ring_at(nx, h, s)); assert(s.contains(s[0])); }
proof fn lemma_seq_bound(s: Seq<Token>, n: int)
    requires s.no_duplicates(), 0 <= n, forall|i: int| 0 <= i < s.len() ==> 1 <= (#[trigger] s[i])@ <= n
    ensures s.len() <= n
    decreases n
{
    if n == 0 { if s.len() > 0 { assert(s[0]@ <= 0); } }
    else if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == n {
        let k = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == n;
        let r = s.remove(k);
        assert(forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == if i < k { s[i] } else { s[i + 1] });
        assert forall|i: int| 0 <= i < r.len() implies 1 <= (#[trigger] r[i])@ <= n - 1 by { let j = if i < k { i } else { i + 1 }; assert(s[j] != s[k]); assert(s[j]@ <= n); }
        assert(r.no_duplicates());
        lemma_seq_bound(r, n - 1);
    } else { assert forall|i: int| 0 <= i < s.len() implies 1 <= (#[trigger] s[i])@ <= n - 1 by {} lemma_seq_bound(s, n - 1); }
}
pub broadcast proof fn lemma_size_bound<T>(s: LinkedSlab<T>, h: Token)
    requires s.wf()
    ensures s.items().dom().contains(h) ==> #[trigger] size(s.nx(), h) <= u32::MAX
{
    if s.items().dom().contains(h) {
        reveal(size); reveal(links_ok);
        lemma_free_facts(s.fr(), s.next_free, s.slots());
        let r = ring(s.nx(), h);
        assert(ring_at(s.nx(), h, r));
        assert forall|i: int| 0 <= i < r.len() implies 1 <= (#[trigger] r[i])@ <= s.slots() by { assert(s.nx().dom().contains(r[i])); }
        lemma_seq_bound(r, s.slots());
    }
}
pub broadcast group group_slab { lemma_place_next, lemma_place_inj, lemma_place_head, lemma_size_bound }

pub proof fn lemma_free_facts(fr: IMap<Token, Token>, nf: Token, slots: int)
    requires free_ok(fr, nf, slots)
    ensures 0 <= slots < u32::MAX, 1 <= nf@ <= slots + 1, nf@ <= slots <==> fr.dom().contains(nf),
        nf@ > slots ==> nf == tok(slots + 1) && fr =~= IMap::<Token, Token>::empty(),
{
    reveal(free_ok);
    let fs = choose|fs: Seq<Token>| free_chain(fr, nf, slots, fs);
    if fs.len() > 0 { assert(fr.dom().contains(fs[0])); }
}
pub proof fn lemma_free_pop(fr: IMap<Token, Token>, nf: Token, slots: int)
    requires free_ok(fr, nf, slots), nf@ <= slots
    ensures free_ok(fr.remove(nf), fr[nf], slots)
{
    reveal(free_ok);
    let fs = choose|fs: Seq<Token>| free_chain(fr, nf, slots, fs);
    assert(fs.len() > 0);
    let gs = fs.skip(1);
    assert forall|t: Token| fr.remove(nf).dom().contains(t) implies #[trigger] gs.contains(t) by { let i = fs.index_of(t); assert(gs[i - 1] == t); }
    assert(forall|i: int| 0 <= i < gs.len() ==> gs[i] == fs[i + 1] && gs[i] != nf);
    let f2 = fr.remove(nf);
    assert(fr[fs[0]] == fr[nf]);
    assert forall|i: int| 0 <= i < gs.len() implies #[trigger] f2[gs[i]] == (if i + 1 < gs.len() { gs[i + 1] } else { tok(slots + 1) }) by { assert(gs[i] == fs[i + 1]); assert(fr[fs[i + 1]] == f2[gs[i]]); }
    assert(free_chain(f2, fr[nf], slots, gs));
}
pub proof fn lemma_free_grow(fr: IMap<Token, Token>, nf: Token, slots: int)
    requires free_ok(fr, nf, slots), nf@ > slots, slots + 1 < u32::MAX
    ensures free_ok(fr, tok(slots + 2), slots + 1)
{
    lemma_free_facts(fr, nf, slots);
    reveal(free_ok);
    assert(free_chain(fr, tok(slots + 2), slots + 1, Seq::empty()));
}
pub proof fn lemma_free_push(fr: IMap<Token, Token>, nf: Token, slots: int, idx: Token)
    requires free_ok(fr, nf, slots), 1 <= idx@ <= slots, !fr.dom().contains(idx)
    ensures free_ok(fr.insert(idx, nf), idx, slots)
{
    reveal(free_ok);
    let fs = choose|fs: Seq<Token>| free_chain(fr, nf, slots, fs);
    let gs = seq![idx] + fs;
    let f2 = fr.insert(idx, nf);
    assert(forall|i: int| 0 < i < gs.len() ==> gs[i] == fs[i - 1] && gs[i] != idx);
    assert forall|t: Token| f2.dom().contains(t) implies #[trigger] gs.contains(t) by {
        if t == idx { assert(gs[0] == t); } else { let i = fs.index_of(t); assert(gs[i + 1] == t); }
    }
    assert forall|i: int| 0 <= i < gs.len() implies #[trigger] f2[gs[i]] == (if i + 1 < gs.len() { gs[i + 1] } else { tok(slots + 1) }) by { if i > 0 { assert(gs[i] == fs[i - 1]); assert(fr[fs[i - 1]] == f2[gs[i]]); } }
    assert(free_chain(f2, idx, slots, gs));
}
/// an item that is its own successor is alone
pub proof fn lemma_alone(nx: IMap<Token, Token>, pv: IMap<Token, Token>, idx: Token)
    requires links_ok(nx, pv), nx.dom().contains(idx), nx[idx] == idx
    ensures forall|t: Token, z: Token| #[trigger] same_ring(nx, t, z) <==> (if t == idx { z == idx } else { same_ring(nx, t, z) && z != idx })
{
    lemma_neighbours(nx, pv, idx);
    reveal(links_ok);
    lemma_ring_is(nx, idx, seq![idx]);
    assert forall|t: Token, z: Token| #[trigger] same_ring(nx, t, z) <==> (if t == idx { z == idx } else { same_ring(nx, t, z) && z != idx }) by {
        reveal(same_ring);
        if t == idx { assert(seq![idx][0] == idx); }
        else if same_ring(nx, t, idx) { lemma_ring_sym(nx, t, idx); assert(ring(nx, t)[0] == t); assert(ring(nx, t).contains(t)); }
    }
}
pub proof fn lemma_empty_slab<T>(s: LinkedSlab<T>)
    requires s.slots() == 0, s.next_free@ == 1
    ensures s.wf(), forall|t: Token, z: Token| !#[trigger] s.same(t, z)
{
    reveal(links_ok); reveal(free_ok); reveal(same_ring);
    assert(free_chain(s.fr(), s.next_free, 0, Seq::empty()));
}
@@fn LinkedSlab::with_capacity
@ret r
@ensures
    r.wf(), // [C07] slab well-formed
    r.items() =~= IMap::<Token, T>::empty(), // [C01] new slab is empty
    r.room(),
    r.slots() == 0,
    forall|t: Token, z: Token| !#[trigger] r.same(t, z),
@exit
    lemma_empty_slab(__ret);
@@fn LinkedSlab::insert
@ret r
@requires
    old(self).wf(),
    old(self).room(),
@ensures
    final(self).wf(), // [C07] slab well-formed
    r == old(self).next_free,
    !old(self).items().dom().contains(r), // [C01] a fresh token is handed out
    final(self).items() =~= old(self).items().insert(r, item), // [C01] only the new slot changes
    final(self).nx().dom() =~= old(self).nx().dom().insert(r),
    final(self).ring(r) == seq![r], // [C07] the new item is a list of its own
    forall|t: Token, z: Token| #[trigger] final(self).same(t, z) <==> old(self).same(t, z) || (t == r && z == r), // [C07] other lists unchanged
    final(self).slots() == (if r@ <= old(self).slots() { old(self).slots() } else { old(self).slots() + 1 }), // [C10] free slots are reused before the slab grows
@entry
    proof { lemma_free_facts(self.fr(), self.next_free, self.slots()); }
@exit
    let nf = old(self).next_free;
    lemma_add_maps(old(self).nx(), old(self).pv(), self.nx(), self.pv(), nf);
    if nf@ <= old(self).slots() {
        lemma_free_pop(old(self).fr(), nf, old(self).slots());
        assert(self.fr() =~= old(self).fr().remove(nf));
    } else {
        lemma_free_grow(old(self).fr(), nf, old(self).slots());
        assert(self.fr() =~= old(self).fr());
    }
@@fn LinkedSlab::get
@ret r
@ensures
    match r { Some((v, n)) => self.items().dom().contains(index) && *v == self.items()[index] && n == self.nx()[index], None => !self.items().dom().contains(index) }, // [C01] lookup of a token
@@fn LinkedSlab::get_mut
@ret r
@ensures
    match r { Some((v, n)) => old(self).items().dom().contains(index) && *v == old(self).items()[index] && n == old(self).nx()[index]
            && final(self).items() =~= old(self).items().insert(index, *final(v)),
        None => !old(self).items().dom().contains(index) && final(self).items() =~= old(self).items() }, // [C01] lookup of a token
    final(self).nx() =~= old(self).nx(),
    final(self).pv() =~= old(self).pv(),
    final(self).fr() =~= old(self).fr(),
    final(self).next_free == old(self).next_free,
    final(self).slots() == old(self).slots(),
@@fn LinkedSlab::get_unchecked
@ret r
@requires
    self.items().dom().contains(index),
@ensures
    *r.0 == self.items()[index], // [C01]
    r.1 == self.nx()[index],
@@fn LinkedSlab::get_mut_unchecked
@ret r
@requires
    old(self).items().dom().contains(index),
@ensures
    *r.0 == old(self).items()[index], // [C01]
    r.1 == old(self).nx()[index],
    final(self).items() =~= old(self).items().insert(index, *final(r.0)),
    final(self).nx() =~= old(self).nx(),
    final(self).pv() =~= old(self).pv(),
    final(self).fr() =~= old(self).fr(),
    final(self).next_free == old(self).next_free,
    final(self).slots() == old(self).slots(),
@@fn LinkedSlab::link
@ret r
@requires
    old(self).wf(),
    old(self).items().dom().contains(idx),
    forall|z: Token| #[trigger] old(self).same(idx, z) ==> z == idx, // [C07] only an item in no list is linked
    target_head is Some ==> old(self).items().dom().contains(target_head->0) && target_head->0 != idx, // [C07] the list linked into exists
@ensures
    final(self).wf(), // [C07] slab well-formed
    final(self).items() =~= old(self).items(), // [C01] items unchanged
    final(self).nx().dom() =~= old(self).nx().dom(),
    final(self).slots() == old(self).slots(),
    final(self).next_free == old(self).next_free,
    target_head is None ==> r == idx && final(self).nx() =~= old(self).nx(), // [C07] stays a list of its own
    target_head is Some ==> r == target_head->0 && final(self).ring(r) == old(self).ring(r).push(idx), // [C07] appended at the end of the list
    forall|t: Token, z: Token| #[trigger] final(self).same(t, z) <==> (if target_head is Some && (old(self).same(target_head->0, t) || t == idx) { old(self).same(target_head->0, z) || z == idx } else { old(self).same(t, z) }), // [C07] other lists unchanged
@entry
    proof {
        lemma_neighbours(self.nx(), self.pv(), idx);
        lemma_same(self.nx(), idx);
        if self.nx()[idx] != idx { assert(self.ring(idx).contains(self.ring(idx)[1])); assert(self.same(idx, self.nx()[idx])); }
        if target_head is Some { lemma_neighbours(self.nx(), self.pv(), target_head->0); lemma_neighbours(self.nx(), self.pv(), self.pv()[target_head->0]); }
    }
@exit
    assert(self.fr() =~= old(self).fr());
    if target_head is Some { lemma_link_maps(old(self).nx(), old(self).pv(), self.nx(), self.pv(), target_head->0, idx); }
    else { assert(self.nx() =~= old(self).nx()); assert(self.pv() =~= old(self).pv()); }
@@fn LinkedSlab::unlink
@ret r
@requires
    old(self).wf(),
    old(self).items().dom().contains(idx),
@ensures
    final(self).wf(), // [C07] slab well-formed
    final(self).items() =~= old(self).items(), // [C01] items unchanged
    final(self).nx().dom() =~= old(self).nx().dom(),
    final(self).slots() == old(self).slots(),
    final(self).next_free == old(self).next_free,
    r is None <==> old(self).ring(idx).len() == 1, // [C07] None only when the list is left empty
    r is None ==> final(self).nx() =~= old(self).nx(),
    r is Some ==> r->0 == old(self).ring(idx)[1] && final(self).ring(r->0) == old(self).ring(idx).skip(1), // [C07] the rest of the list is kept in order
    final(self).ring(idx) == seq![idx], // [C07] unlinked item is a list of its own
    r is None ==> forall|z: Token| #[trigger] old(self).same(idx, z) ==> z == idx, // [C07] None only when the list is left empty
    r is None ==> forall|z: Token| #[trigger] old(self).same(z, idx) ==> z == idx, // [C07] None only when the list is left empty
    r is Some ==> old(self).same(idx, r->0) && r->0 != idx,
    forall|t: Token, z: Token| #[trigger] final(self).same(t, z) <==> (if t == idx { z == idx } else { old(self).same(t, z) && z != idx }), // [C07] other lists unchanged
@entry
    proof {
        lemma_neighbours(self.nx(), self.pv(), idx);
        lemma_neighbours(self.nx(), self.pv(), self.nx()[idx]);
        lemma_neighbours(self.nx(), self.pv(), self.pv()[idx]);
    }
@exit
    assert(self.fr() =~= old(self).fr());
    lemma_same(old(self).nx(), idx);
    if old(self).nx()[idx] != idx { lemma_unlink_maps(old(self).nx(), old(self).pv(), self.nx(), self.pv(), idx); }
    else { lemma_alone(old(self).nx(), old(self).pv(), idx); assert(self.nx() =~= old(self).nx()); assert(self.pv() =~= old(self).pv()); lemma_ring_is(self.nx(), idx, seq![idx]); }
@@fn LinkedSlab::remove
@ret r
@requires
    old(self).wf(),
    old(self).items().dom().contains(idx),
@ensures
    final(self).wf(), // [C07] slab well-formed
    match r { Some((v, n)) => v == old(self).items()[idx]
        && (n is None <==> old(self).ring(idx).len() == 1)
        && (n is Some ==> n->0 == old(self).ring(idx)[1] && final(self).ring(n->0) == old(self).ring(idx).skip(1)),
        None => false }, // [C01] the item stored under the token is returned
    final(self).items() =~= old(self).items().remove(idx), // [C01] only that item goes
    final(self).nx().dom() =~= old(self).nx().dom().remove(idx),
    match r { Some((_, Some(n))) => old(self).same(idx, n) && n != idx, Some((_, None)) => (forall|z: Token| #[trigger] old(self).same(idx, z) ==> z == idx) && (forall|z: Token| #[trigger] old(self).same(z, idx) ==> z == idx), None => false }, // [C07] the rest of the list is kept
    forall|t: Token, z: Token| #[trigger] final(self).same(t, z) <==> old(self).same(t, z) && t != idx && z != idx, // [C07] other lists unchanged
    final(self).slots() == old(self).slots(),
    final(self).next_free == idx, // [C10] the slot is available again
    final(self).room(),
@after unlink
    let ghost mid = *self;
    proof { lemma_neighbours(self.nx(), self.pv(), idx); lemma_neighbours(old(self).nx(), old(self).pv(), idx); }
@exit
    assert(mid.nx().dom().contains(old(self).nx()[idx]));
    lemma_del_maps(mid.nx(), mid.pv(), self.nx(), self.pv(), idx);
    lemma_free_facts(mid.fr(), mid.next_free, mid.slots());
    lemma_free_push(mid.fr(), mid.next_free, mid.slots(), idx);
    assert(self.fr() =~= mid.fr().insert(idx, mid.next_free));
@@fn LinkedSlab::next_free
@ret r
@ensures
    r == self.next_free,
@@text
// ------------------------------------------------------------------ enumeration of the stored items
pub open spec fn live_toks<T>(e: Seq<Entry<T>>, n: int) -> Seq<Token>
    decreases n
{
    if n <= 0 { Seq::empty() } else if e[n - 1].item is Some { live_toks(e, n - 1).push(tok(n)) } else { live_toks(e, n - 1) }
}
pub proof fn lemma_live_toks<T>(s: LinkedSlab<T>, n: int)
    requires 0 <= n <= s.slots(), s.slots() < u32::MAX
    ensures live_toks(s.entries@, n).no_duplicates(),
        forall|t: Token| #[trigger] live_toks(s.entries@, n).contains(t) <==> s.has(t) && t@ <= n,
        forall|i: int| 0 <= i < live_toks(s.entries@, n).len() ==> s.has(#[trigger] live_toks(s.entries@, n)[i]) && live_toks(s.entries@, n)[i]@ <= n,
    decreases n
{
    if n > 0 {
        lemma_live_toks(s, n - 1);
        let p = live_toks(s.entries@, n - 1);
        let q = live_toks(s.entries@, n);
        assert forall|t: Token| #[trigger] q.contains(t) <==> s.has(t) && t@ <= n by {
            if s.has(t) && t@ <= n {
                if t@ == n { assert(q[q.len() - 1] == t); } else { assert(p.contains(t)); assert(q[p.index_of(t)] == t); }
            }
            if q.contains(t) && !p.contains(t) { assert(t == tok(n)); }
            if p.contains(t) { assert(s.has(t) && t@ <= n - 1); }
        }
        assert forall|i: int| 0 <= i < q.len() implies s.has(#[trigger] q[i]) && q[i]@ <= n by { assert(q.contains(q[i])); }
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by {
            if i < p.len() { assert(p[i] == q[i]); assert(p.contains(p[i])); } if j < p.len() { assert(p[j] == q[j]); assert(p.contains(p[j])); }
        }
    }
}
impl<T> LinkedSlab<T> {
    /// tokens of all stored items, each exactly once
    pub open spec fn toks(self) -> Seq<Token> { live_toks(self.entries@, self.slots()) }
}
@@fn LinkedSlab::drain
@ret r
@requires
    old(self).wf(),
@ensures
    final(self).wf(), // [C07] slab well-formed
    final(self).items() =~= IMap::<Token, T>::empty(), // [C09] nothing is left
    final(self).slots() == 0, // [C09] all slots are released
    final(self).room(),
    forall|t: Token, z: Token| !#[trigger] final(self).same(t, z),
    r@ =~= old(self).toks().map_values(|t: Token| old(self).items()[t]), // [C09] every stored item is yielded exactly once
    old(self).toks().no_duplicates(),
    forall|t: Token| #[trigger] old(self).toks().contains(t) <==> old(self).items().dom().contains(t), // [C09] every stored item is yielded exactly once
@entry
    proof { lemma_free_facts(self.fr(), self.next_free, self.slots()); lemma_live_toks(*self, self.slots()); }
@loop 0 invariant
    $it.seq() == old(self).entries@,
    old(self).slots() < u32::MAX,
    $acc@ =~= live_toks(old(self).entries@, $it.pos()).map_values(|t: Token| old(self).items()[t]),
@exit
    lemma_empty_slab(*self);
@@fn LinkedSlab::iter
@ret r
@requires
    self.wf(),
@ensures
    r@.len() == self.toks().len(), // [C09] every stored item is yielded exactly once
    forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.items()[self.toks()[i]], // [C09] every stored item is yielded exactly once
    self.toks().no_duplicates(),
    forall|t: Token| #[trigger] self.toks().contains(t) <==> self.items().dom().contains(t), // [C09] every stored item is yielded exactly once
@entry
    proof { lemma_free_facts(self.fr(), self.next_free, self.slots()); lemma_live_toks(*self, self.slots()); }
@loop 0 invariant
    $acc@.len() == live_toks(self.entries@, $it.pos()).len(),
    forall|i: int| 0 <= i < $acc@.len() ==> *(#[trigger] $acc@[i]) == self.items()[live_toks(self.entries@, $it.pos())[i]],
@@text
impl<T> IterRefs<T> for LinkedSlab<T> {
    open spec fn iterable(&self) -> bool { self.wf() }
    open spec fn refs(&self) -> Seq<T> { self.toks().map_values(|t: Token| self.items()[t]) }
    fn iter_refs<'a>(&'a self) -> (r: SeqIter<&'a T>) { SeqSource::seq_iter(self.iter()) }
}
pub proof fn lemma_toks<T>(s: LinkedSlab<T>)
    requires s.wf()
    ensures s.toks().no_duplicates(), forall|t: Token| #[trigger] s.toks().contains(t) <==> s.items().dom().contains(t)
{ lemma_free_facts(s.fr(), s.next_free, s.slots()); lemma_live_toks(s, s.slots()); }
