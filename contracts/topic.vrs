// ---- C13, C14: the topic tree ----
//@item broker Subscriber
//@item broker TopicNode
//@item broker TopicTree
//@consts broker
impl Clone for Subscriber {
//@fn broker Clone for Subscriber::clone
    ensures r == *self
//@end
}
impl Default for TopicNode {
    open spec fn dflt(r: Self) -> bool { r.children@ == Map::<Seq<u8>, u32>::empty() && r.subscribers@.len() == 0 && r.wildcard_subscribers@.len() == 0 }
//@fn broker Default for TopicNode::default | as=vx_default
//@end
}
impl VxVec<Subscriber> for Vec<Subscriber> {
    fn vx_extend_cloned(&mut self, o: &Vec<Subscriber>)
        ensures final(self)@ == old(self)@ + o@
    {
        let mut i: usize = 0;
        while i < o.len()
            invariant i <= o@.len(), self@ == old(self)@ + o@.take(i as int)
            decreases o@.len() - i
        {
            self.push(o[i].clone());
            i += 1;
            proof { assert(o@.take(i as int) =~= o@.take(i - 1).push(o@[i - 1])); }
        }
        proof { assert(o@.take(i as int) =~= o@); }
    }
}

// the rules of MQTT 5.0, 4.7: written without reference to the tree
pub open spec fn plus() -> Seq<u8> { seq![43u8] }
pub open spec fn hash() -> Seq<u8> { seq![35u8] }
pub open spec fn slash() -> u8 { 47 }
/// one filter level against one topic level
pub open spec fn level(f: Seq<u8>, t: Seq<u8>) -> bool { f == plus() || f == t }
pub open spec fn levels(f: Segs, t: Segs, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] level(f[i], t[i]) }
pub open spec fn matches_levels(f: Segs, t: Segs) -> bool {
    ||| f.len() == t.len() && levels(f, t, f.len() as int)
    ||| f.len() >= 1 && f.last() == hash() && f.len() - 1 <= t.len() && levels(f, t, f.len() - 1)
}
/// C13: filter f matches topic t
pub open spec fn matches_topic(f: Segs, t: Segs) -> bool {
    &&& matches_levels(f, t)
    &&& (t[0].len() > 0 && t[0][0] == 36u8 ==> f[0] != plus() && f[0] != hash())
}
/// a topic name has no level that is a wildcard
pub open spec fn topic_name(t: Segs) -> bool { t.len() >= 1 && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]) != plus() && t[i] != hash() }

// the tree
impl TopicTree {
    pub open spec fn n(&self) -> int { self.nodes@.len() as int }
    pub open spec fn child(&self, n: int, s: Seq<u8>) -> Option<int> {
        let m = self.nodes@[n].children@;
        if m.dom().contains(s) { Some(m[s] as int) } else { None }
    }
    pub open spec fn walk(&self, f: Segs) -> Option<int>
        decreases f.len()
    {
        if f.len() == 0 { Some(0int) } else {
            match self.walk(f.drop_last()) { None => None, Some(n) => self.child(n, f.last()) }
        }
    }
    pub open spec fn subs(&self, n: int) -> Seq<Subscriber> { self.nodes@[n].subscribers@ }
    pub open spec fn wild(&self, n: int) -> Seq<Subscriber> { self.nodes@[n].wildcard_subscribers@ }
    /// the subscriptions held for one filter
    pub open spec fn list_of(&self, f: Segs) -> Seq<Subscriber> {
        match self.walk(f) {
            None => Seq::empty(),
            Some(n) => if f.len() > 0 && f.last() == hash() { self.wild(n) } else { self.subs(n) },
        }
    }
    /// the abstract state: client s.session_id holds filter f with the QoS and option in s
    pub open spec fn has(&self, f: Segs, s: Subscriber) -> bool { self.list_of(f).contains(s) }
    pub open spec fn held(&self, f: Segs, id: Seq<u8>) -> bool { exists|s: Subscriber| #[trigger] self.has(f, s) && s.session_id@ == id }
    pub open spec fn under_hash(&self, n: int) -> bool { exists|p: int| 0 <= p < self.n() && #[trigger] self.child(p, hash()) == Some(n) }
    pub open spec fn shape(&self) -> bool {
        &&& 1 <= self.n() <= u32::MAX
        &&& forall|n: int, s: Seq<u8>| 0 <= n < self.n() && (#[trigger] self.child(n, s)) is Some ==> n < self.child(n, s)->0 < self.n()
        &&& forall|n: int, s: Seq<u8>, m: int, u: Seq<u8>| 0 <= n < self.n() && 0 <= m < self.n() && (#[trigger] self.child(n, s)) is Some
                && (#[trigger] self.child(m, u)) == self.child(n, s) ==> n == m && s == u
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.shape()
        &&& forall|n: int| 0 <= n < self.n() ==> uniq(#[trigger] self.subs(n))
        &&& forall|n: int| 0 <= n < self.n() ==> uniq(#[trigger] self.wild(n))
        &&& forall|n: int| 0 <= n < self.n() && (#[trigger] self.wild(n)).len() > 0 ==> self.under_hash(n)
    }
}
pub open spec fn uniq(l: Seq<Subscriber>) -> bool {
    forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && (#[trigger] l[i]).session_id@ == (#[trigger] l[j]).session_id@ ==> i == j
}

pub proof fn walk_range(t: &TopicTree, f: Segs)
    requires t.shape()
    ensures t.walk(f) is Some ==> 0 <= t.walk(f)->0 < t.n() && (f.len() > 0 ==> t.walk(f)->0 > 0)
    decreases f.len()
{
    if f.len() > 0 { walk_range(t, f.drop_last()); }
}
pub proof fn walk_inj(t: &TopicTree, f: Segs, g: Segs)
    requires t.shape(), t.walk(f) is Some, t.walk(f) == t.walk(g)
    ensures f == g
    decreases f.len()
{
    walk_range(t, f); walk_range(t, g);
    if f.len() == 0 { assert(g.len() == 0); assert(f =~= g); }
    else {
        assert(g.len() > 0);
        walk_range(t, f.drop_last()); walk_range(t, g.drop_last());
        let n = t.walk(f.drop_last())->0; let m = t.walk(g.drop_last())->0;
        assert(t.child(n, f.last()) == t.child(m, g.last()));
        walk_inj(t, f.drop_last(), g.drop_last());
        assert(f =~= f.drop_last().push(f.last()));
        assert(g =~= g.drop_last().push(g.last()));
    }
}
pub proof fn walk_none(t: &TopicTree, f: Segs, k: int)
    requires 0 <= k <= f.len(), 
    ensures t.walk(f.take(k)) is None ==> t.walk(f) is None
    decreases f.len()
{
    if k == f.len() { assert(f.take(k) =~= f); }
    else { assert(f.drop_last().take(k) =~= f.take(k)); walk_none(t, f.drop_last(), k); }
}
/// t1 is t0 with one new empty node under (cur, s)
pub open spec fn grown(t0: &TopicTree, t1: &TopicTree, cur: int, s: Seq<u8>) -> bool {
    &&& 0 <= cur < t0.n() && t0.child(cur, s) is None
    &&& t1.n() == t0.n() + 1
    &&& forall|n: int, u: Seq<u8>| 0 <= n < t1.n() ==> #[trigger] t1.child(n, u) == (if n == cur && u == s { Some(t0.n()) } else if n == t0.n() { None } else { t0.child(n, u) })
    &&& forall|n: int| 0 <= n < t0.n() ==> #[trigger] t1.subs(n) == t0.subs(n)
    &&& forall|n: int| 0 <= n < t0.n() ==> #[trigger] t1.wild(n) == t0.wild(n)
    &&& t1.subs(t0.n()).len() == 0 && t1.wild(t0.n()).len() == 0
}
pub proof fn grown_walk(t0: &TopicTree, t1: &TopicTree, cur: int, s: Seq<u8>, f: Segs)
    requires t0.shape(), grown(t0, t1, cur, s)
    ensures
        t0.walk(f) is Some ==> t1.walk(f) == t0.walk(f),
        t0.walk(f) is None ==> t1.walk(f) is None || t1.walk(f) == Some(t0.n()),
    decreases f.len()
{
    if f.len() > 0 { grown_walk(t0, t1, cur, s, f.drop_last()); walk_range(t0, f.drop_last()); }
}
pub proof fn grown_keeps(t0: &TopicTree, t1: &TopicTree, cur: int, s: Seq<u8>)
    requires t0.wf(), grown(t0, t1, cur, s), t1.n() <= u32::MAX
    ensures t1.wf(), forall|f: Segs| #[trigger] t1.list_of(f) == t0.list_of(f)
{
    assert forall|f: Segs| #[trigger] t1.list_of(f) == t0.list_of(f) by { grown_walk(t0, t1, cur, s, f); walk_range(t0, f); assert(t1.list_of(f) =~= t0.list_of(f)); }
    assert forall|n: int| 0 <= n < t1.n() && (#[trigger] t1.wild(n)).len() > 0 implies t1.under_hash(n) by {
        assert(n < t0.n());
        assert(t0.wild(n).len() > 0);
        let p = choose|p: int| 0 <= p < t0.n() && #[trigger] t0.child(p, hash()) == Some(n);
        assert(t1.child(p, hash()) == Some(n));
    }
    assert forall|n: int| 0 <= n < t1.n() implies uniq(#[trigger] t1.subs(n)) by { if n < t0.n() { assert(uniq(t0.subs(n))); } }
    assert forall|n: int| 0 <= n < t1.n() implies uniq(#[trigger] t1.wild(n)) by { if n < t0.n() { assert(uniq(t0.wild(n))); } }
}
/// t1 is t0 with another list l for the filter that leads to node m
pub open spec fn relisted(t0: &TopicTree, t1: &TopicTree, m: int, w: bool, l: Seq<Subscriber>) -> bool {
    &&& t1.n() == t0.n() && 0 <= m < t0.n()
    &&& forall|n: int| 0 <= n < t0.n() ==> (#[trigger] t1.nodes@[n]).children@ == t0.nodes@[n].children@
    &&& forall|n: int| 0 <= n < t0.n() ==> #[trigger] t1.subs(n) == (if n == m && !w { l } else { t0.subs(n) })
    &&& forall|n: int| 0 <= n < t0.n() ==> #[trigger] t1.wild(n) == (if n == m && w { l } else { t0.wild(n) })
}
pub proof fn same_walk(t0: &TopicTree, t1: &TopicTree, f: Segs)
    requires t0.shape(), t1.n() == t0.n(), forall|n: int| 0 <= n < t0.n() ==> (#[trigger] t1.nodes@[n]).children@ == t0.nodes@[n].children@
    ensures t1.walk(f) == t0.walk(f)
    decreases f.len()
{
    if f.len() > 0 { same_walk(t0, t1, f.drop_last()); walk_range(t0, f.drop_last()); }
}
pub proof fn same_shape(t0: &TopicTree, t1: &TopicTree)
    requires t0.shape(), t1.n() == t0.n(), forall|n: int| 0 <= n < t0.n() ==> (#[trigger] t1.nodes@[n]).children@ == t0.nodes@[n].children@
    ensures t1.shape(), forall|n: int, s: Seq<u8>| 0 <= n < t0.n() ==> #[trigger] t1.child(n, s) == t0.child(n, s)
{
    assert forall|n: int, s: Seq<u8>| 0 <= n < t0.n() implies #[trigger] t1.child(n, s) == t0.child(n, s) by { assert(t1.nodes@[n].children@ == t0.nodes@[n].children@); }
}
pub proof fn relisted_keeps(t0: &TopicTree, t1: &TopicTree, m: int, path: Segs, l: Seq<Subscriber>)
    requires t0.wf(), path.len() > 0, t0.walk(path) == Some(m), relisted(t0, t1, m, path.last() == hash(), l), uniq(l)
    ensures t1.wf(), forall|f: Segs| #[trigger] t1.list_of(f) == (if f == path { l } else { t0.list_of(f) })
{
    same_shape(t0, t1);
    assert forall|f: Segs| #[trigger] t1.list_of(f) == (if f == path { l } else { t0.list_of(f) }) by {
        same_walk(t0, t1, f); walk_range(t0, f);
        if t0.walk(f) == Some(m) { walk_inj(t0, f, path); }
    }
    assert forall|n: int| 0 <= n < t1.n() && (#[trigger] t1.wild(n)).len() > 0 implies t1.under_hash(n) by {
        if n == m && path.last() == hash() {
            walk_range(t0, path.drop_last());
            let p = t0.walk(path.drop_last())->0;
            assert(t0.child(p, hash()) == Some(n));
            assert(t1.child(p, hash()) == Some(n));
        } else {
            let p = choose|p: int| 0 <= p < t0.n() && #[trigger] t0.child(p, hash()) == Some(n);
            assert(t0.wild(n).len() > 0);
            assert(t1.child(p, hash()) == Some(n));
        }
    }
    assert forall|n: int| 0 <= n < t1.n() implies uniq(#[trigger] t1.subs(n)) by { assert(uniq(t0.subs(n))); }
    assert forall|n: int| 0 <= n < t1.n() implies uniq(#[trigger] t1.wild(n)) by { assert(uniq(t0.wild(n))); }
}
pub proof fn put_has(l0: Seq<Subscriber>, l1: Seq<Subscriber>, k: int, s1: Subscriber)
    requires uniq(l0), 0 <= k <= l0.len(), l1 == (if k < l0.len() { l0.update(k, s1) } else { l0.push(s1) }),
        k < l0.len() ==> l0[k].session_id@ == s1.session_id@,
        k == l0.len() ==> forall|j: int| 0 <= j < k ==> (#[trigger] l0[j]).session_id@ != s1.session_id@,
    ensures uniq(l1), forall|s: Subscriber| #[trigger] l1.contains(s) <==> (if s.session_id@ == s1.session_id@ { s == s1 } else { l0.contains(s) })
{
    assert forall|s: Subscriber| #[trigger] l1.contains(s) <==> (if s.session_id@ == s1.session_id@ { s == s1 } else { l0.contains(s) }) by {
        assert(l1[k] == s1);
        if l1.contains(s) { let j = choose|j: int| 0 <= j < l1.len() && l1[j] == s; if j != k { assert(l0[j] == s); assert(l0.contains(s)); } }
        if s.session_id@ != s1.session_id@ && l0.contains(s) { let j = choose|j: int| 0 <= j < l0.len() && l0[j] == s; assert(j != k); assert(l1[j] == s); }
    }
}
/// l is l0 with the entries of id removed from the part below k
pub open spec fn kept(l0: Seq<Subscriber>, l: Seq<Subscriber>, k: int, id: Seq<u8>) -> bool {
    &&& 0 <= k <= l.len() <= l0.len()
    &&& uniq(l0) && uniq(l)
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] l[i]).session_id@ != id
    &&& forall|s: Subscriber| #[trigger] l.contains(s) ==> l0.contains(s)
    &&& forall|s: Subscriber| s.session_id@ != id && l0.contains(s) ==> #[trigger] l.contains(s)
    &&& (l.len() < l0.len() ==> exists|i: int| 0 <= i < l0.len() && (#[trigger] l0[i]).session_id@ == id)
    &&& (l.len() == l0.len() ==> l == l0)
}
pub proof fn keep_step(l0: Seq<Subscriber>, l: Seq<Subscriber>, k: int, id: Seq<u8>)
    requires kept(l0, l, k, id), k < l.len()
    ensures l[k].session_id@ != id ==> kept(l0, l, k + 1, id), l[k].session_id@ == id ==> kept(l0, l.remove(k), k, id)
{
    if l[k].session_id@ == id {
        let r = l.remove(k);
        assert forall|s: Subscriber| #[trigger] r.contains(s) implies l0.contains(s) by {
            let j = choose|j: int| 0 <= j < r.len() && r[j] == s;
            assert(l[if j < k { j } else { j + 1 }] == s);
            assert(l.contains(s));
        }
        assert forall|s: Subscriber| s.session_id@ != id && l0.contains(s) implies #[trigger] r.contains(s) by {
            assert(l.contains(s));
            let j = choose|j: int| 0 <= j < l.len() && l[j] == s;
            assert(r[if j < k { j } else { j - 1 }] == s);
        }
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && (#[trigger] r[i]).session_id@ == (#[trigger] r[j]).session_id@ implies i == j by {
            let a = if i < k { i } else { i + 1 }; let b = if j < k { j } else { j + 1 };
            assert(l[a].session_id@ == l[b].session_id@);
        }
        assert(l0.contains(l[k])) by { assert(l.contains(l[k])); }
        let i = choose|i: int| 0 <= i < l0.len() && l0[i] == l[k];
        assert(l0[i].session_id@ == id);
    }
}
pub proof fn kept_has(l0: Seq<Subscriber>, l: Seq<Subscriber>, id: Seq<u8>)
    requires kept(l0, l, l.len() as int, id)
    ensures forall|s: Subscriber| #[trigger] l.contains(s) <==> l0.contains(s) && s.session_id@ != id
{
    assert forall|s: Subscriber| #[trigger] l.contains(s) <==> l0.contains(s) && s.session_id@ != id by {
        if l.contains(s) { let j = choose|j: int| 0 <= j < l.len() && l[j] == s; assert(l[j].session_id@ != id); }
    }
}
/// node m of t1 holds what it holds in t0, less the subscriptions of `id`
pub open spec fn node_cleared(t0: &TopicTree, t1: &TopicTree, m: int, k: int, id: Seq<u8>) -> bool {
    &&& t1.nodes@[m].children@ == t0.nodes@[m].children@
    &&& if m < k {
        kept(t0.subs(m), t1.subs(m), t1.subs(m).len() as int, id) && kept(t0.wild(m), t1.wild(m), t1.wild(m).len() as int, id)
    } else { t1.subs(m) == t0.subs(m) && t1.wild(m) == t0.wild(m) }
}
pub open spec fn cleared(t0: &TopicTree, t1: &TopicTree, k: int, id: Seq<u8>) -> bool {
    &&& t1.n() == t0.n()
    &&& forall|m: int| 0 <= m < t0.n() ==> #[trigger] node_cleared(t0, t1, m, k, id)
}
pub proof fn cleared_has(t0: &TopicTree, t1: &TopicTree, id: Seq<u8>)
    requires t0.wf(), cleared(t0, t1, t0.n(), id)
    ensures t1.wf(), forall|f: Segs, s: Subscriber| #[trigger] t1.has(f, s) <==> t0.has(f, s) && s.session_id@ != id
{
    assert forall|m: int| 0 <= m < t0.n() implies (#[trigger] t1.nodes@[m]).children@ == t0.nodes@[m].children@ by { assert(node_cleared(t0, t1, m, t0.n(), id)); }
    same_shape(t0, t1);
    assert forall|n: int| 0 <= n < t1.n() implies uniq(#[trigger] t1.subs(n)) by { assert(node_cleared(t0, t1, n, t0.n(), id)); }
    assert forall|n: int| 0 <= n < t1.n() implies uniq(#[trigger] t1.wild(n)) by { assert(node_cleared(t0, t1, n, t0.n(), id)); }
    assert forall|n: int| 0 <= n < t1.n() && (#[trigger] t1.wild(n)).len() > 0 implies t1.under_hash(n) by {
        assert(node_cleared(t0, t1, n, t0.n(), id));
        assert(t0.wild(n).len() > 0);
        let p = choose|p: int| 0 <= p < t0.n() && #[trigger] t0.child(p, hash()) == Some(n);
        assert(t1.child(p, hash()) == Some(n));
    }
    assert forall|f: Segs, s: Subscriber| #[trigger] t1.has(f, s) <==> t0.has(f, s) && s.session_id@ != id by {
        same_walk(t0, t1, f); walk_range(t0, f);
        if t0.walk(f) is Some {
            let n = t0.walk(f)->0;
            assert(node_cleared(t0, t1, n, t0.n(), id));
            kept_has(t0.subs(n), t1.subs(n), id);
            kept_has(t0.wild(n), t1.wild(n), id);
        }
    }
}
// ---- matching ----
pub broadcast proof fn ms_add(a: Seq<Subscriber>, b: Seq<Subscriber>)
    ensures #[trigger] (a + b).to_multiset() == a.to_multiset().add(b.to_multiset())
{ vstd::seq_lib::lemma_multiset_commutative(a, b); }
pub proof fn ms_empty() ensures Seq::<Subscriber>::empty().to_multiset() == vstd::multiset::Multiset::<Subscriber>::empty()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(Seq::<Subscriber>::empty().to_multiset() =~= vstd::multiset::Multiset::<Subscriber>::empty());
}
pub proof fn split_head(s: Seq<u8>, c: u8)
    ensures split_at(s, c).len() >= 1, split_at(s, c).len() == 1 ==> split_at(s, c)[0] == s, c != 36u8 ==> ((s.len() > 0 && s[0] == 36u8) <==> (split_at(s, c)[0].len() > 0 && split_at(s, c)[0][0] == 36u8))
    decreases s.len()
{
    if s.len() > 0 {
        split_head(s.drop_last(), c);
        if s.len() == 1 { assert(s.drop_last() =~= Seq::<u8>::empty()); }
        assert(s =~= s.drop_last().push(s.last()));
        if split_at(s, c).len() == 1 { assert(split_at(s, c)[0] =~= s); }
    } else { assert(s =~= Seq::<u8>::empty()); }
}
pub proof fn not_hash(t: &TopicTree, n: int, s: Seq<u8>)
    requires t.shape(), 0 <= n < t.n(), s != hash(), t.child(n, s) is Some
    ensures !t.under_hash(t.child(n, s)->0)
{ }
pub proof fn root_not_hash(t: &TopicTree) requires t.shape() ensures !t.under_hash(0) { }
/// what a walk that has followed the first d levels of topic to node n finds, as a multiset: the order does not matter
pub open spec fn found(t: &TopicTree, n: int, tp: Segs, d: int) -> vstd::multiset::Multiset<Subscriber>
    decreases tp.len() - d
{
    let below = match t.child(n, hash()) { Some(c) => t.wild(c).to_multiset(), None => vstd::multiset::Multiset::empty() };
    if d >= tp.len() { below.add(t.subs(n).to_multiset()) }
    else {
        let exact = match t.child(n, tp[d]) { Some(c) => found(t, c, tp, d + 1), None => vstd::multiset::Multiset::empty() };
        let any = match t.child(n, plus()) { Some(c) => found(t, c, tp, d + 1), None => vstd::multiset::Multiset::empty() };
        below.add(exact).add(any)
    }
}
pub ghost struct Hit { pub f: Segs, pub s: Subscriber }
/// h lists, once each, the subscriptions of the filters in q
pub open spec fn hits(t: &TopicTree, q: spec_fn(Segs) -> bool, h: Seq<Hit>) -> bool {
    &&& forall|i: int| 0 <= i < h.len() ==> q((#[trigger] h[i]).f) && t.has(h[i].f, h[i].s)
    &&& forall|i: int, j: int| 0 <= i < h.len() && 0 <= j < h.len() && (#[trigger] h[i]).f == (#[trigger] h[j]).f && h[i].s.session_id@ == h[j].s.session_id@ ==> i == j
    &&& forall|f: Segs, s: Subscriber| q(f) && #[trigger] t.has(f, s) ==> exists|i: int| 0 <= i < h.len() && #[trigger] h[i] == (Hit { f, s })
}
pub open spec fn of_hits(h: Seq<Hit>) -> Seq<Subscriber> { Seq::new(h.len(), |i: int| h[i].s) }
/// C13
pub open spec fn exactly_matching(t: &TopicTree, tp: Segs, r: Seq<Subscriber>) -> bool {
    exists|h: Seq<Hit>| #[trigger] hits(t, q_topic(tp), h) && of_hits(h).to_multiset() == r.to_multiset()
}
pub open spec fn under(p: Segs, f: Segs) -> bool { f.len() >= p.len() && f.take(p.len() as int) == p }
pub open spec fn q_at(p: Segs, tp: Segs) -> spec_fn(Segs) -> bool { |f: Segs| under(p, f) && matches_levels(f, tp) }

pub open spec fn q_topic(tp: Segs) -> spec_fn(Segs) -> bool { |f: Segs| matches_topic(f, tp) }
pub open spec fn q_one(f: Segs) -> spec_fn(Segs) -> bool { |g: Segs| g == f }
pub open spec fn q_or(a: spec_fn(Segs) -> bool, b: spec_fn(Segs) -> bool) -> spec_fn(Segs) -> bool { |g: Segs| a(g) || b(g) }
pub proof fn hits_eq(t: &TopicTree, q1: spec_fn(Segs) -> bool, q: spec_fn(Segs) -> bool, h: Seq<Hit>)
    requires hits(t, q1, h), forall|f: Segs| #[trigger] q(f) <==> q1(f)
    ensures hits(t, q, h)
{
    assert forall|i: int| 0 <= i < h.len() implies q((#[trigger] h[i]).f) && t.has(h[i].f, h[i].s) by { assert(q1(h[i].f)); }
}
/// two disjoint families of filters
pub proof fn hits_join(t: &TopicTree, q1: spec_fn(Segs) -> bool, h1: Seq<Hit>, q2: spec_fn(Segs) -> bool, h2: Seq<Hit>, q: spec_fn(Segs) -> bool)
    requires hits(t, q1, h1), hits(t, q2, h2),
        forall|f: Segs| #[trigger] q(f) <==> q1(f) || q2(f), forall|f: Segs| #[trigger] q1(f) ==> !q2(f),
    ensures hits(t, q, h1 + h2), of_hits(h1 + h2).to_multiset() == of_hits(h1).to_multiset().add(of_hits(h2).to_multiset())
{
    broadcast use ms_add;
    let h = h1 + h2;
    assert(of_hits(h) =~= of_hits(h1) + of_hits(h2));
    assert forall|f: Segs, s: Subscriber| q(f) && #[trigger] t.has(f, s) implies exists|i: int| 0 <= i < h.len() && #[trigger] h[i] == (Hit { f, s }) by {
        if q1(f) { let i = choose|i: int| 0 <= i < h1.len() && #[trigger] h1[i] == (Hit { f, s }); assert(h[i] == (Hit { f, s })); }
        else { let i = choose|i: int| 0 <= i < h2.len() && #[trigger] h2[i] == (Hit { f, s }); assert(h[h1.len() + i] == (Hit { f, s })); }
    }
    assert forall|i: int| 0 <= i < h.len() implies q((#[trigger] h[i]).f) && t.has(h[i].f, h[i].s) by {
        if i < h1.len() { assert(h[i] == h1[i]); } else { assert(h[i] == h2[i - h1.len()]); }
    }
    assert forall|i: int, j: int| 0 <= i < h.len() && 0 <= j < h.len() && (#[trigger] h[i]).f == (#[trigger] h[j]).f && h[i].s.session_id@ == h[j].s.session_id@ implies i == j by {
        if i < h1.len() { assert(q1(h1[i].f)); assert(h[i] == h1[i]); } else { assert(h[i] == h2[i - h1.len()]); }
        if j < h1.len() { assert(q1(h1[j].f)); assert(h[j] == h1[j]); } else { assert(h[j] == h2[j - h1.len()]); }
    }
}
/// the subscriptions of one filter
pub proof fn hits_one(t: &TopicTree, f: Segs) -> (h: Seq<Hit>)
    requires t.wf()
    ensures hits(t, q_one(f), h), of_hits(h) == t.list_of(f)
{
    let l = t.list_of(f);
    let h = Seq::new(l.len(), |i: int| Hit { f, s: l[i] });
    assert(of_hits(h) =~= l);
    walk_range(t, f);
    if t.walk(f) is Some { assert(uniq(t.subs(t.walk(f)->0)) && uniq(t.wild(t.walk(f)->0))); }
    assert(uniq(l));
    assert forall|i: int, j: int| 0 <= i < h.len() && 0 <= j < h.len() && (#[trigger] h[i]).f == (#[trigger] h[j]).f && h[i].s.session_id@ == h[j].s.session_id@ implies i == j by {
        assert(l[i].session_id@ == l[j].session_id@);
    }
    assert forall|g: Segs, s: Subscriber| g == f && #[trigger] t.has(g, s) implies exists|i: int| 0 <= i < h.len() && #[trigger] h[i] == (Hit { f: g, s }) by {
        let i = choose|i: int| 0 <= i < l.len() && l[i] == s; assert(h[i] == (Hit { f, s }));
    }
    assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).f == f && t.has(h[i].f, h[i].s) by { assert(l.contains(l[i])); }
    h
}
/// a family in which no filter has subscriptions
pub proof fn hits_none(t: &TopicTree, q: spec_fn(Segs) -> bool)
    requires forall|f: Segs| #[trigger] q(f) ==> t.list_of(f).len() == 0
    ensures hits(t, q, Seq::empty()), of_hits(Seq::empty()).to_multiset() == vstd::multiset::Multiset::<Subscriber>::empty()
{
    assert(of_hits(Seq::empty()) =~= Seq::<Subscriber>::empty());
    ms_empty();
}
/// an absent branch holds nothing
pub proof fn branch_none(t: &TopicTree, p: Segs, tp: Segs)
    requires t.walk(p) is None
    ensures hits(t, q_at(p, tp), Seq::empty()), of_hits(Seq::empty()).to_multiset() == vstd::multiset::Multiset::<Subscriber>::empty()
{
    assert forall|f: Segs| #[trigger] q_at(p, tp)(f) implies t.list_of(f).len() == 0 by { walk_none(t, f, p.len() as int); }
    hits_none(t, q_at(p, tp));
}
pub proof fn step_walk(t: &TopicTree, p: Segs, s: Seq<u8>)
    ensures t.walk(p.push(s)) == (match t.walk(p) { None => None, Some(n) => t.child(n, s) })
{ assert(p.push(s).drop_last() =~= p); }
/// how a filter below p continues
pub proof fn continues(p: Segs, tp: Segs, f: Segs)
    requires topic_name(tp), p.len() <= tp.len(), levels(p, tp, p.len() as int), forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) != hash()
    ensures
        p.len() == tp.len() ==> (q_at(p, tp)(f) <==> f == p || f == p.push(hash())),
        p.len() < tp.len() ==> (q_at(p, tp)(f) <==> f == p.push(hash()) || q_at(p.push(plus()), tp)(f) || q_at(p.push(tp[p.len() as int]), tp)(f)),
        p.len() < tp.len() ==> !(q_at(p.push(plus()), tp)(f) && q_at(p.push(tp[p.len() as int]), tp)(f)),
        p.len() < tp.len() ==> !q_at(p.push(plus()), tp)(p.push(hash())) && !q_at(p.push(tp[p.len() as int]), tp)(p.push(hash())),
{
    let d = p.len() as int;
    assert(plus()[0] == 43 && hash()[0] == 35);
    let ph = p.push(hash());
    assert(ph.take(d) =~= p);
    assert(p.take(d) =~= p);
    assert forall|i: int| 0 <= i < d implies #[trigger] level(ph[i], tp[i]) by { assert(level(p[i], tp[i])); }
    if d < tp.len() { assert(p.push(plus()).take(d) =~= p); assert(ph.take(d + 1)[d] == hash()); assert(p.push(plus())[d] == plus()); assert(p.push(tp[d])[d] == tp[d]); }
    if under(p, f) {
        assert forall|i: int| 0 <= i < d implies f[i] == p[i] by { assert(f.take(d)[i] == f[i]); }
        if matches_levels(f, tp) {
            if f.len() == d { assert(f =~= p); if d < tp.len() { assert(f.last() == p[d - 1]); } }
            else if f.len() == d + 1 && f.last() == hash() { assert(f =~= ph); }
            else {
                if d == tp.len() { if f.last() == hash() { assert(f.len() - 1 <= tp.len()); } assert(false); }
                assert(level(f[d], tp[d]));
                assert(f.take(d + 1) =~= p.push(f[d]));
            }
        }
        if d == tp.len() && f == p { if d > 0 { assert(f.last() == p[d - 1]); } }
    }
    if d < tp.len() {
        if under(p.push(plus()), f) { assert(f.take(d + 1).take(d) =~= f.take(d)); assert(f.take(d + 1)[d] == f[d]); }
        if under(p.push(tp[d]), f) { assert(f.take(d + 1).take(d) =~= f.take(d)); assert(f.take(d + 1)[d] == f[d]); assert(p.push(tp[d]).take(d) =~= p); }
    }
}
pub proof fn found_hits(t: &TopicTree, p: Segs, tp: Segs) -> (h: Seq<Hit>)
    requires t.wf(), topic_name(tp), p.len() <= tp.len(), levels(p, tp, p.len() as int), forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) != hash(), t.walk(p) is Some
    ensures hits(t, q_at(p, tp), h), of_hits(h).to_multiset() == found(t, t.walk(p)->0, tp, p.len() as int)
    decreases tp.len() - p.len()
{
    let n = t.walk(p)->0; let d = p.len() as int; let ph = p.push(hash());
    walk_range(t, p);
    let h0 = hits_one(t, ph);
    step_walk(t, p, hash());
    ms_empty();
    assert(t.list_of(ph).to_multiset() == (match t.child(n, hash()) { Some(c) => t.wild(c).to_multiset(), None => vstd::multiset::Multiset::empty() }));
    if d == tp.len() {
        let h1 = hits_one(t, p);
        if d > 0 { assert(p.last() == p[d - 1]); }
        assert forall|f: Segs| #[trigger] q_at(p, tp)(f) <==> q_one(ph)(f) || q_one(p)(f) by { continues(p, tp, f); }
        hits_join(t, q_one(ph), h0, q_one(p), h1, q_at(p, tp));
        h0 + h1
    } else {
        let pe = p.push(tp[d]); let pp = p.push(plus());
        step_walk(t, p, tp[d]); step_walk(t, p, plus());
        assert forall|i: int| 0 <= i < d + 1 implies #[trigger] level(pe[i], tp[i]) by { if i < d { assert(level(p[i], tp[i])); } }
        assert forall|i: int| 0 <= i < d + 1 implies #[trigger] level(pp[i], tp[i]) by { if i < d { assert(level(p[i], tp[i])); } }
        assert(plus()[0] == 43 && hash()[0] == 35);
        assert forall|i: int| 0 <= i < pp.len() implies (#[trigger] pp[i]) != hash() by { if i < d { assert(pp[i] == p[i]); } }
        assert forall|i: int| 0 <= i < pe.len() implies (#[trigger] pe[i]) != hash() by { if i < d { assert(pe[i] == p[i]); } }
        let he = if t.walk(pe) is Some { found_hits(t, pe, tp) } else { branch_none(t, pe, tp); Seq::empty() };
        let hp = if t.walk(pp) is Some { found_hits(t, pp, tp) } else { branch_none(t, pp, tp); Seq::empty() };
        let q1 = q_or(q_one(ph), q_at(pe, tp));
        assert forall|f: Segs| #[trigger] q_one(ph)(f) implies !q_at(pe, tp)(f) by { continues(p, tp, f); }
        hits_join(t, q_one(ph), h0, q_at(pe, tp), he, q1);
        assert forall|f: Segs| #[trigger] q1(f) implies !q_at(pp, tp)(f) by { continues(p, tp, f); }
        assert forall|f: Segs| #[trigger] q_at(p, tp)(f) <==> q1(f) || q_at(pp, tp)(f) by { continues(p, tp, f); }
        hits_join(t, q1, h0 + he, q_at(pp, tp), hp, q_at(p, tp));
        h0 + he + hp
    }
}
/// C13, for any list with the multiset that the walk finds
pub proof fn all_found(t: &TopicTree, tp: Segs)
    requires t.wf(), topic_name(tp)
    ensures
        !(tp[0].len() > 0 && tp[0][0] == 36u8) ==> forall|r: Seq<Subscriber>| r.to_multiset() == found(t, 0, tp, 0) ==> #[trigger] exactly_matching(t, tp, r),
        tp[0].len() > 0 && tp[0][0] == 36u8 ==> forall|r: Seq<Subscriber>| r.to_multiset() == (match t.child(0, tp[0]) { Some(c) => found(t, c, tp, 1), None => vstd::multiset::Multiset::empty() }) ==> #[trigger] exactly_matching(t, tp, r),
{
    assert(plus()[0] == 43 && hash()[0] == 35);
    if !(tp[0].len() > 0 && tp[0][0] == 36u8) {
        let p = Seq::<Seq<u8>>::empty();
        let h = found_hits(t, p, tp);
        assert forall|f: Segs| #[trigger] q_topic(tp)(f) <==> q_at(p, tp)(f) by { assert(f.take(0) =~= p); }
        hits_eq(t, q_at(p, tp), q_topic(tp), h);
    } else {
        let p = seq![tp[0]];
        assert(p =~= Seq::<Seq<u8>>::empty().push(tp[0]));
        step_walk(t, Seq::empty(), tp[0]);
        assert(level(p[0], tp[0]));
        let h = if t.walk(p) is Some { found_hits(t, p, tp) } else { branch_none(t, p, tp); Seq::empty() };
        assert forall|f: Segs| #[trigger] q_topic(tp)(f) <==> q_at(p, tp)(f) by {
            if matches_levels(f, tp) && f.len() > 0 {
                if f.len() == 1 && f.last() == hash() { assert(f[0] == hash()); if under(p, f) { assert(f.take(1)[0] == f[0]); } }
                else { assert(level(f[0], tp[0])); if f[0] == tp[0] { assert(f.take(1) =~= p); } if under(p, f) { assert(f.take(1)[0] == f[0]); } }
            }
        }
        hits_eq(t, q_at(p, tp), q_topic(tp), h);
    }
}
/// the node that holds the subscriptions of a filter, and their list
pub open spec fn at(t: &TopicTree, m: int, w: bool) -> Seq<Subscriber> { if w { t.wild(m) } else { t.subs(m) } }

impl TopicTree {
//@fn broker TopicTree::new
    ensures r.wf(), forall|f: Segs, s: Subscriber| !#[trigger] r.has(f, s)
//@tail
    proof {
        assert forall|f: Segs, s: Subscriber| !#[trigger] vx_ret.has(f, s) by { walk_range(&vx_ret, f); }
    }
//@end
//@fn broker TopicTree::ensure_path
    requires old(self).wf(), old(self).n() + segments@.len() <= u32::MAX
    ensures final(self).wf(), final(self).walk(texts(segments@)) == Some(r as int), r < final(self).n(),
        final(self).n() <= old(self).n() + segments@.len(),
        forall|f: Segs| #[trigger] final(self).list_of(f) == old(self).list_of(f)
//@start
    let ghost g = texts(segments@);
    proof { assert(g.take(0) =~= Seq::<Seq<u8>>::empty()); }
//@loop 0
    invariant
        vx_it1@.len() == segments@.len(), forall|i: int| 0 <= i < segments@.len() ==> #[trigger] vx_it1@[i] == &segments@[i],
        g == texts(segments@), vx_i2 <= segments@.len(), self.wf(), self.n() <= old(self).n() + vx_i2, old(self).n() + segments@.len() <= u32::MAX,
        self.walk(g.take(vx_i2 as int)) == Some(current as int), current < self.n(),
        forall|f: Segs| #[trigger] self.list_of(f) == old(self).list_of(f)
    decreases segments@.len() - vx_i2
//@top 0
    let ghost t0 = *self; let ghost c0 = current;
    proof { let k = g.take(vx_i2 as int + 1); assert(k.drop_last() =~= g.take(vx_i2 as int)); assert(k.last() == g[vx_i2 as int]); }
//@bot 0
    proof {
        walk_range(&t0, g.take(vx_i2 as int - 1));
        if t0.child(c0 as int, g[vx_i2 - 1]) is None {
            assert(grown(&t0, self, c0 as int, g[vx_i2 - 1]));
            grown_keeps(&t0, self, c0 as int, g[vx_i2 - 1]);
            grown_walk(&t0, self, c0 as int, g[vx_i2 - 1], g.take(vx_i2 as int - 1));
        }
        walk_range(self, g.take(vx_i2 as int));
    }
//@tail
    proof { assert(g.take(segments@.len() as int) =~= g); }
//@end
//@fn broker TopicTree::find_path
    requires self.wf()
    ensures self.walk(texts(segments@)) == (match r { Some(n) => Some(n as int), None => None::<int> }), r matches Some(n) ==> n < self.n()
//@start
    let ghost g = texts(segments@);
    proof { assert(g.take(0) =~= Seq::<Seq<u8>>::empty()); }
//@loop 0
    invariant
        vx_it1@.len() == segments@.len(), forall|i: int| 0 <= i < segments@.len() ==> #[trigger] vx_it1@[i] == &segments@[i],
        g == texts(segments@), vx_i2 <= segments@.len(), self.wf(),
        self.walk(g.take(vx_i2 as int)) == Some(current as int), current < self.n(),
    decreases segments@.len() - vx_i2
//@top 0
    proof { let k = g.take(vx_i2 as int + 1); assert(k.drop_last() =~= g.take(vx_i2 as int)); assert(k.last() == g[vx_i2 as int]); walk_none(self, g, vx_i2 as int + 1); }
//@bot 0
    proof { walk_range(self, g.take(vx_i2 as int)); }
//@tail
    proof { assert(g.take(segments@.len() as int) =~= g); }
//@end
//@fn broker TopicTree::subscribe | texteq
    requires old(self).wf(), old(self).n() + split_at(filter@, slash()).len() <= u32::MAX
    ensures final(self).wf(), final(self).n() <= old(self).n() + split_at(filter@, slash()).len(),
        forall|f: Segs, s: Subscriber| #[trigger] final(self).has(f, s) <==> (if f == split_at(filter@, slash()) && s.session_id@ == session_id@ {
            s.qos == qos && s.no_local == no_local && s.session_id == *session_id
        } else { old(self).has(f, s) })
//@start
    let ghost path = split_at(filter@, slash());
    let ghost mut kk = 0int;
    proof { split_nonempty(filter@, slash()); assert(hash() =~= [35u8]@); }
//@before 0
    let ghost l0 = list@;
//@after 0
    proof { kk = vx_k1 as int; }
//@loop 0
    invariant vx_k1 <= list@.len(), list@ == l0, forall|j: int| 0 <= j < vx_k1 ==> (#[trigger] list@[j]).session_id@ != session_id@,
        vx_found ==> vx_k1 < list@.len() && list@[vx_k1 as int].session_id@ == session_id@
    decreases list@.len() - vx_k1 + (if vx_found { 0int } else { 1int })
//@aftercall ensure_path
    let ghost t1 = *self;
//@tail
    proof {
        let w = path.last() == hash();
        let m = node_idx as int;
        let l0 = at(&t1, m, w);
        let l1 = at(self, m, w);
        assert(texts(segments@).last() == segments@.last()@);
        assert(relisted(&t1, self, m, w, l1));
        assert(uniq(t1.subs(m)) && uniq(t1.wild(m)));
        let s1 = l1[kk];
        assert(l1 =~= (if kk < l0.len() { l0.update(kk, s1) } else { l0.push(s1) }));
        put_has(l0, l1, kk, s1);
        relisted_keeps(&t1, self, m, path, l1);
        assert forall|f: Segs, s: Subscriber| #[trigger] self.has(f, s) <==> (if f == path && s.session_id@ == session_id@ {
            s.qos == qos && s.no_local == no_local && s.session_id == *session_id
        } else { old(self).has(f, s) }) by {
            assert(self.list_of(f) == (if f == path { l1 } else { t1.list_of(f) }));
            assert(t1.list_of(f) == old(self).list_of(f));
        }
    }
//@end
//@fn broker TopicTree::unsubscribe | texteq
    requires old(self).wf()
    ensures final(self).wf(), r == old(self).held(split_at(filter@, slash()), session_id@),
        forall|f: Segs, s: Subscriber| #[trigger] final(self).has(f, s) <==> old(self).has(f, s) && !(f == split_at(filter@, slash()) && s.session_id@ == session_id@)
//@start
    let ghost path = split_at(filter@, slash());
    proof { split_nonempty(filter@, slash()); assert(hash() =~= [35u8]@); }
//@before 0
    let ghost l0 = list@;
    proof { assert(uniq(old(self).subs(node_idx as int)) && uniq(old(self).wild(node_idx as int))); assert(uniq(l0)); }
//@loop 0
    invariant vx_k1 <= list@.len() <= l0.len(), kept(l0, list@, vx_k1 as int, session_id@)
    decreases list@.len() - vx_k1
//@top 0
    let ghost l1 = list@; let ghost k0 = vx_k1;
//@bot 0
    proof { keep_step(l0, l1, k0 as int, session_id@); }
//@tail
    proof {
        let w = path.last() == hash();
        let m = node_idx as int;
        let l0 = at(old(self), m, w);
        let l1 = at(self, m, w);
        assert(texts(segments@).last() == segments@.last()@);
        assert(relisted(old(self), self, m, w, l1));
        relisted_keeps(old(self), self, m, path, l1);
        kept_has(l0, l1, session_id@);
        assert(old(self).list_of(path) == l0);
        assert(self.list_of(path) == l1);
        if l1.len() < l0.len() {
            let i = choose|i: int| 0 <= i < l0.len() && (#[trigger] l0[i]).session_id@ == session_id@;
            assert(old(self).has(path, l0[i]));
        }
        if old(self).held(path, session_id@) {
            let s = choose|s: Subscriber| #[trigger] old(self).has(path, s) && s.session_id@ == session_id@;
            assert(l0.contains(s));
            assert(!l1.contains(s));
        }
        assert forall|f: Segs, s: Subscriber| #[trigger] self.has(f, s) <==> old(self).has(f, s) && !(f == path && s.session_id@ == session_id@) by {
            assert(self.list_of(f) == (if f == path { l1 } else { old(self).list_of(f) }));
        }
    }
//@end
//@fn broker TopicTree::unsubscribe_all | texteq
    requires old(self).wf()
    ensures final(self).wf(),
        forall|f: Segs, s: Subscriber| #[trigger] final(self).has(f, s) <==> old(self).has(f, s) && s.session_id@ != session_id@
//@start
    let ghost id = session_id@;
//@loop 0
    invariant vx_k1 <= self.n(), old(self).wf(), id == session_id@, cleared(old(self), self, vx_k1 as int, id)
    decreases self.n() - vx_k1
//@top 0
    let ghost t0 = *self; let ghost n = vx_k1 as int;
    let ghost s0 = t0.subs(n); let ghost w0 = t0.wild(n);
    proof { assert(node_cleared(old(self), self, n, n, id)); assert(uniq(old(self).subs(n)) && uniq(old(self).wild(n))); }
//@over 1
node.subscribers
//@over 2
node.wildcard_subscribers
//@loop 1
    invariant kept(s0, node.subscribers@, vx_k2 as int, id), node.wildcard_subscribers@ == w0, node.children@ == t0.nodes@[n].children@, id == session_id@
    decreases node.subscribers@.len() - vx_k2
//@top 1
    let ghost l1 = node.subscribers@; let ghost k0 = vx_k2;
//@bot 1
    proof { keep_step(s0, l1, k0 as int, id); }
//@loop 2
    invariant kept(w0, node.wildcard_subscribers@, vx_k3 as int, id), kept(s0, node.subscribers@, node.subscribers@.len() as int, id), node.children@ == t0.nodes@[n].children@, id == session_id@
    decreases node.wildcard_subscribers@.len() - vx_k3
//@top 2
    let ghost l1 = node.wildcard_subscribers@; let ghost k0 = vx_k3;
//@bot 2
    proof { keep_step(w0, l1, k0 as int, id); }
//@bot 0
    proof {
        assert forall|m: int| 0 <= m < self.n() implies #[trigger] node_cleared(old(self), self, m, n + 1, id) by {
            assert(node_cleared(old(self), &t0, m, n, id));
            if m != n { assert(self.nodes@[m] == t0.nodes@[m]); }
        }
    }
//@tail
    proof { cleared_has(old(self), self, id); }
//@end
//@fn broker TopicTree::collect_matches
    requires self.wf(), node_idx < self.n(), depth <= segments@.len(), topic_name(texts(segments@)), !self.under_hash(node_idx as int)
    ensures final(results)@.to_multiset() =~= old(results)@.to_multiset().add(found(self, node_idx as int, texts(segments@), depth as int))
    decreases segments@.len() - depth
//@start
    broadcast use ms_add;
    proof {
        assert(hash() =~= [35u8]@); assert(plus() =~= [43u8]@);
        assert(self.wild(node_idx as int).len() == 0);
        assert(self.wild(node_idx as int) =~= Seq::<Subscriber>::empty());
        assert forall|s: Seq<u8>| s != hash() && (#[trigger] self.child(node_idx as int, s)) is Some implies !self.under_hash(self.child(node_idx as int, s)->0) by { not_hash(self, node_idx as int, s); }
        let n = node_idx as int;
        assert(self.child(n, hash()) is Some ==> n < self.child(n, hash())->0 < self.n());
        assert(self.child(n, plus()) is Some ==> n < self.child(n, plus())->0 < self.n());
        if depth < segments@.len() { let s = texts(segments@)[depth as int]; assert(self.child(n, s) is Some ==> n < self.child(n, s)->0 < self.n()); }
        if depth < segments@.len() { let x = texts(segments@)[depth as int]; assert(x != hash() && x != plus()); }
    }
//@end
//@fn broker TopicTree::matching_subscribers
    requires self.wf(), topic_name(split_at(topic@, slash()))
    ensures exactly_matching(self, split_at(topic@, slash()), r@)
//@start
    let ghost tp = split_at(topic@, slash());
    broadcast use ms_add;
    proof {
        split_nonempty(topic@, slash()); split_head(topic@, slash());
        assert(tp[0] != hash());
        if self.child(0, tp[0]) is Some { not_hash(self, 0, tp[0]); }
        root_not_hash(self); ms_empty();
        assert(self.child(0, tp[0]) is Some ==> 0 < self.child(0, tp[0])->0 < self.n());
        assert forall|m: vstd::multiset::Multiset<Subscriber>| #[trigger] Seq::<Subscriber>::empty().to_multiset().add(m) == m by { assert(Seq::<Subscriber>::empty().to_multiset().add(m) =~= m); }
        all_found(self, tp);
    }
//@end
}
