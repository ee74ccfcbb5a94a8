@include vp.rs
@include vp_text.rs
@include demangle.rs
@include vp_std.rs
@include graph.rs
@include frozen.rs
@include petgraph.rs
@include ir_ord.rs

@module ir ir/ir.rs
@derives Id Clone,Copy,Debug,PartialEq,Eq,PartialOrd,Ord,Hash
@pre
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use vstd::std_specs::btree::*;
use vstd::laws_cmp::*;
use vstd::laws_eq::*;
use crate::vp::*;
use crate::graph::*;
use crate::vp_text::*;

broadcast use {vstd::std_specs::btree::group_btree_axioms, crate::ir_ord::lemma_id_key, crate::vp::group_vp, crate::vp_text::group_num};

pub use crate::ir_ord::*;
pub open spec fn root_id() -> Id { Id(0xffff_ffff, 0xffff_ffff) }

pub type Im = Map<Id, Item>;
pub type Em = Map<Id, Vec<Id>>;
pub open spec fn at(m: Em, k: Id) -> Seq<Id> { if m.contains_key(k) { m[k]@ } else { Seq::empty() } }
pub open spec fn adj(m: Em) -> spec_fn(Id) -> Seq<Id> { |k: Id| at(m, k) }
/// strictly increasing by identifier: in identifier order and free of duplicates
pub open spec fn sorted(s: Seq<Id>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> idlt(s[i], s[j]) }

/// Sum of the sizes of the items in `s`.
pub open spec fn ssum(m: Im, s: Set<Id>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { let x = s.choose(); m[x].size as nat + ssum(m, s.remove(x)) }
}
pub proof fn lemma_ssum_remove(m: Im, s: Set<Id>, x: Id)
    requires s.contains(x)
    ensures ssum(m, s) == m[x].size + ssum(m, s.remove(x))
    decreases s.len()
{
    broadcast use vstd::set::group_set_lemmas;
    let y = s.choose();
    assert(s.len() != 0);
    if y != x {
        lemma_ssum_remove(m, s.remove(y), x);
        lemma_ssum_remove(m, s.remove(x), y);
        assert(s.remove(y).remove(x) =~= s.remove(x).remove(y));
    }
}
pub proof fn lemma_ssum_insert(m: Im, s: Set<Id>, x: Id)
    requires !s.contains(x)
    ensures ssum(m, s.insert(x)) == m[x].size + ssum(m, s)
{
    lemma_ssum_remove(m, s.insert(x), x);
    assert(s.insert(x).remove(x) =~= s);
}
pub proof fn lemma_ssum_ext(m: Im, n: Im, s: Set<Id>)
    requires forall|x: Id| #[trigger] s.contains(x) ==> m[x].size == n[x].size
    ensures ssum(m, s) == ssum(n, s)
    decreases s.len()
{
    broadcast use vstd::set::group_set_lemmas;
    if s.len() != 0 { let x = s.choose(); assert(s.contains(x)); lemma_ssum_ext(m, n, s.remove(x)); }
}
pub proof fn lemma_ssum_union(m: Im, s: Set<Id>, t: Set<Id>)
    requires forall|x: Id| !(#[trigger] s.contains(x) && t.contains(x))
    ensures ssum(m, s.union(t)) == ssum(m, s) + ssum(m, t)
    decreases t.len()
{
    broadcast use vstd::set::group_set_lemmas;
    if t.len() == 0 { assert(s.union(t) =~= s); }
    else {
        let x = t.choose();
        assert(t.contains(x));
        lemma_ssum_union(m, s, t.remove(x));
        assert(!s.union(t.remove(x)).contains(x));
        lemma_ssum_insert(m, s.union(t.remove(x)), x);
        assert(s.union(t.remove(x)).insert(x) =~= s.union(t));
        lemma_ssum_remove(m, t, x);
    }
}
pub proof fn lemma_ssum_subset(m: Im, s: Set<Id>, t: Set<Id>)
    requires s.subset_of(t)
    ensures ssum(m, s) <= ssum(m, t)
{
    broadcast use vstd::set::group_set_lemmas;
    let d = t.difference(s);
    lemma_ssum_union(m, s, d);
    assert(s.union(d) =~= t);
}

/// The nodes that `n` dominates, and `n` itself: what becomes unreachable if `n` is removed.
pub open spec fn dset(im: Im, em: Em, r: Id, n: Id) -> Set<Id> { im.dom().filter(|m: Id| m == n || dom(adj(em), r, n, m)) }
pub open spec fn rsize(im: Im, em: Em, r: Id, n: Id) -> nat { ssum(im, dset(im, em, r, n)) }
pub proof fn lemma_dset(im: Im, em: Em, r: Id, n: Id)
    ensures forall|m: Id| #[trigger] dset(im, em, r, n).contains(m) <==> im.contains_key(m) && (m == n || dom(adj(em), r, n, m))
{ broadcast use vstd::set::group_set_lemmas; }

/// `p` is the exact inverse of `e`.
pub open spec fn inverse_of(e: Em, p: Em) -> bool {
    &&& forall|b: Id| sorted(#[trigger] at(p, b))
    &&& forall|a: Id, b: Id| #![trigger at(e, a), at(p, b)] at(p, b).contains(a) <==> at(e, a).contains(b)
}
/// `t` is the dominator tree of the part of `e` reachable from `r`.
pub open spec fn tree_of(im: Im, e: Em, r: Id, t: Em) -> bool {
    &&& forall|d: Id| sorted(#[trigger] at(t, d))
    &&& forall|d: Id, n: Id| #[trigger] at(t, d).contains(n) <==> im.contains_key(n) && idom(adj(e), r, d, n)
    &&& forall|n: Id| #[trigger] im.contains_key(n) && n != r && reach(adj(e), r, n) ==> exists|d: Id| idom(adj(e), r, d, n)
    &&& forall|d: Id| #[trigger] t.contains_key(d) ==> t[d]@.len() > 0
}
pub open spec fn idoms_of(im: Im, e: Em, r: Id, t: Map<Id, Id>) -> bool {
    &&& forall|n: Id| #[trigger] t.contains_key(n) <==> im.contains_key(n) && n != r && reach(adj(e), r, n)
    &&& forall|n: Id| #[trigger] t.contains_key(n) ==> idom(adj(e), r, t[n], n)
}
pub open spec fn retained_of(im: Im, e: Em, r: Id, t: Map<Id, u32>) -> bool {
    &&& forall|n: Id| #[trigger] t.contains_key(n) <==> im.contains_key(n)
    &&& forall|n: Id| #[trigger] t.contains_key(n) ==> t[n] == rsize(im, e, r, n)
}

pub open spec fn closed(im: Im, em: Em, r: Id) -> bool { im.contains_key(r) && forall|a: Id, b: Id| #[trigger] at(em, a).contains(b) ==> im.contains_key(b) }
pub proof fn lemma_reach_in(im: Im, em: Em, r: Id, n: Id)
    requires closed(im, em, r), reach(adj(em), r, n)
    ensures im.contains_key(n)
{
    let p = choose|p: Seq<Id>| path_ft(adj(em), r, n, p);
    if p.len() > 1 { let i = p.len() - 2; assert(p[i + 1] == n); assert(edge(adj(em), p[i], p[i + 1])); assert(at(em, p[i]).contains(n)); }
}
pub open spec fn doms(im: Im, em: Em, r: Id, m: Id) -> Set<Id> { im.dom().filter(|x: Id| dom(adj(em), r, x, m)) }
/// Everything `n` strictly dominates is dominated by one of the nodes `n` immediately dominates.
pub proof fn lemma_child_exists(im: Im, em: Em, r: Id, t: Em, n: Id, m: Id) -> (c: Id)
    requires closed(im, em, r), tree_of(im, em, r, t), sdom(adj(em), r, n, m)
    ensures at(t, n).contains(c), dom(adj(em), r, c, m)
    decreases doms(im, em, r, m).len()
{
    broadcast use vstd::set::group_set_lemmas;
    let g = adj(em);
    lemma_dom_reach(g, r, n, m);
    lemma_reach_in(im, em, r, m);
    if m == r { lemma_dom_refl(g, r, n); lemma_dom_antisym(g, r, n, r); }
    assert(im.contains_key(m) && m != r && reach(g, r, m));
    let i = choose|i: Id| idom(g, r, i, m);
    assert(sdom(g, r, n, m));
    lemma_dom_refl(g, r, m);
    if i == n { assert(at(t, i).contains(m)); m } else {
        assert(dom(g, r, n, i));
        lemma_dom_reach(g, r, i, m);
        lemma_reach_in(im, em, r, i);
        let a = doms(im, em, r, i); let b = doms(im, em, r, m);
        assert(a.subset_of(b)) by { assert forall|x: Id| a.contains(x) implies b.contains(x) by { lemma_dom_trans(g, r, x, i, m); } }
        assert(b.contains(m));
        assert(!a.contains(m)) by { if dom(g, r, m, i) { lemma_dom_antisym(g, r, m, i); } }
        assert(a.subset_of(b.remove(m)));
        vstd::set_lib::lemma_len_subset(a, b.remove(m));
        let c = lemma_child_exists(im, em, r, t, n, i);
        lemma_dom_trans(g, r, c, i, m);
        c
    }
}
/// What the first `k` of the nodes `cs` dominate.
pub open spec fn covered(im: Im, em: Em, r: Id, cs: Seq<Id>, k: int) -> Set<Id> {
    im.dom().filter(|m: Id| exists|j: int| 0 <= j < k && dom(adj(em), r, #[trigger] cs[j], m))
}
pub proof fn lemma_cover_step(im: Im, em: Em, r: Id, t: Em, n: Id, k: int)
    requires closed(im, em, r), tree_of(im, em, r, t), 0 <= k < at(t, n).len()
    ensures
        ssum(im, covered(im, em, r, at(t, n), k + 1)) == ssum(im, covered(im, em, r, at(t, n), k)) + rsize(im, em, r, at(t, n)[k]),
        dset(im, em, r, at(t, n)[k]).subset_of(dset(im, em, r, n)), !dset(im, em, r, at(t, n)[k]).contains(n),
        dset(im, em, r, at(t, n)[k]).len() < dset(im, em, r, n).len(),
        covered(im, em, r, at(t, n), k + 1).subset_of(im.dom().remove(n)), im.contains_key(n),
        im.contains_key(at(t, n)[k])
{
    broadcast use vstd::set::group_set_lemmas;
    let g = adj(em); let cs = at(t, n); let c = cs[k];
    assert(cs.contains(c));
    assert(idom(g, r, n, c));
    assert(sdom(g, r, n, c));
    lemma_dom_reach(g, r, n, c);
    lemma_reach_in(im, em, r, n);
    lemma_dom_refl(g, r, c);
    let a = covered(im, em, r, cs, k); let b = dset(im, em, r, c);
    assert forall|m: Id| b.contains(m) implies dom(g, r, c, m) && dom(g, r, n, m) && m != n by {
        assert(m == c || dom(g, r, c, m));
        lemma_dom_trans(g, r, n, c, m);
        if m == n { lemma_dom_antisym(g, r, c, n); }
    }
    assert forall|m: Id| !(a.contains(m) && b.contains(m)) by {
        if a.contains(m) && b.contains(m) {
            let j = choose|j: int| 0 <= j < k && dom(g, r, #[trigger] cs[j], m);
            assert(cs.contains(cs[j]));
            lemma_children_disjoint(g, r, n, cs[j], c, m);
            assert(idlt(cs[j], cs[k]));
        }
    }
    let u = covered(im, em, r, cs, k + 1);
    assert(u =~= a.union(b)) by {
        assert forall|m: Id| u.contains(m) implies a.union(b).contains(m) by {
            let j = choose|j: int| 0 <= j < k + 1 && dom(g, r, #[trigger] cs[j], m);
            if j < k { assert(a.contains(m)); } else { assert(b.contains(m)); }
        }
        assert forall|m: Id| a.union(b).contains(m) implies u.contains(m) by {
            if a.contains(m) { let j = choose|j: int| 0 <= j < k && dom(g, r, #[trigger] cs[j], m); assert(0 <= j < k + 1 && dom(g, r, cs[j], m)); }
            else { assert(dom(g, r, cs[k], m)); }
        }
    }
    lemma_ssum_union(im, a, b);
    let d = dset(im, em, r, n);
    assert(d.contains(n));
    assert(b.subset_of(d.remove(n)));
    vstd::set_lib::lemma_len_subset(b, d.remove(n));
    assert forall|m: Id| u.contains(m) implies m != n by {
        let j = choose|j: int| 0 <= j < k + 1 && dom(g, r, #[trigger] cs[j], m);
        assert(cs.contains(cs[j]));
        assert(idom(g, r, n, cs[j])); assert(sdom(g, r, n, cs[j]));
        if m == n { lemma_dom_antisym(g, r, cs[j], n); }
    }
}
pub proof fn lemma_cover_all(im: Im, em: Em, r: Id, t: Em, n: Id)
    requires closed(im, em, r), tree_of(im, em, r, t), im.contains_key(n)
    ensures rsize(im, em, r, n) == im[n].size + ssum(im, covered(im, em, r, at(t, n), at(t, n).len() as int))
{
    broadcast use vstd::set::group_set_lemmas;
    let g = adj(em); let cs = at(t, n);
    let u = covered(im, em, r, cs, cs.len() as int); let d = dset(im, em, r, n);
    assert forall|m: Id| u.contains(m) implies d.contains(m) && m != n by {
        let j = choose|j: int| 0 <= j < cs.len() && dom(g, r, #[trigger] cs[j], m);
        assert(cs.contains(cs[j]));
        assert(idom(g, r, n, cs[j])); assert(sdom(g, r, n, cs[j]));
        lemma_dom_trans(g, r, n, cs[j], m);
        if m == n { lemma_dom_antisym(g, r, cs[j], n); }
    }
    assert forall|m: Id| d.contains(m) && m != n implies u.contains(m) by {
        assert(sdom(g, r, n, m));
        let c = lemma_child_exists(im, em, r, t, n, m);
        let j = choose|j: int| 0 <= j < cs.len() && cs[j] == c;
        assert(dom(g, r, cs[j], m));
    }
    assert(d.contains(n));
    assert(d =~= u.insert(n));
    lemma_ssum_insert(im, u, n);
}
/// The retained size is the own size plus the retained sizes of the items immediately dominated.
pub open spec fn rsum(im: Im, em: Em, r: Id, cs: Seq<Id>, k: int) -> nat decreases k {
    if k <= 0 { 0 } else { rsum(im, em, r, cs, k - 1) + rsize(im, em, r, cs[k - 1]) }
}
pub proof fn theorem_retained_is_own_plus_children(im: Im, em: Em, r: Id, t: Em, n: Id)
    requires closed(im, em, r), tree_of(im, em, r, t), im.contains_key(n)
    ensures rsize(im, em, r, n) == im[n].size + rsum(im, em, r, at(t, n), at(t, n).len() as int)
{
    lemma_rsum(im, em, r, t, n, at(t, n).len() as int);
    lemma_cover_all(im, em, r, t, n);
}
proof fn lemma_rsum(im: Im, em: Em, r: Id, t: Em, n: Id, k: int)
    requires closed(im, em, r), tree_of(im, em, r, t), 0 <= k <= at(t, n).len()
    ensures ssum(im, covered(im, em, r, at(t, n), k)) == rsum(im, em, r, at(t, n), k)
    decreases k
{
    broadcast use vstd::set::group_set_lemmas;
    if k > 0 { lemma_rsum(im, em, r, t, n, k - 1); lemma_cover_step(im, em, r, t, n, k - 1); }
    else { assert(covered(im, em, r, at(t, n), 0) =~= Set::empty()); }
}
/// The meta root retains all reachable bytes; an unreachable item retains just itself.
pub proof fn theorem_root_retains_reachable(im: Im, em: Em, r: Id)
    requires closed(im, em, r)
    ensures dset(im, em, r, r) =~= im.dom().filter(|m: Id| reach(adj(em), r, m))
{
    broadcast use vstd::set::group_set_lemmas;
    assert forall|m: Id| reach(adj(em), r, m) implies dom(adj(em), r, r, m) by { lemma_dom_refl(adj(em), r, m); }
    lemma_reach_root(adj(em), r);
}
pub proof fn theorem_unreachable_retains_itself(im: Im, em: Em, r: Id, n: Id)
    requires im.contains_key(n), !reach(adj(em), r, n)
    ensures rsize(im, em, r, n) == im[n].size
{
    broadcast use vstd::set::group_set_lemmas;
    assert forall|m: Id| dom(adj(em), r, n, m) implies false by { lemma_dom_reach(adj(em), r, n, m); }
    assert(dset(im, em, r, n) =~= Set::empty().insert(n));
    lemma_ssum_insert(im, Set::empty(), n);
}
/// Some of the retained sizes.
pub open spec fn partial_retained(im: Im, e: Em, r: Id, t: Map<Id, u32>) -> bool {
    forall|n: Id| #[trigger] t.contains_key(n) ==> im.contains_key(n) && t[n] == rsize(im, e, r, n)
}

impl Items {
    pub open spec fn im(self) -> Im { self.items.t@ }
    pub open spec fn em(self) -> Em { self.edges.t@ }
    /// The item graph is well formed, and every computed analysis is the one its name says.
    pub open spec fn graph_wf(self) -> bool {
        &&& self.meta_root == root_id()
        &&& self.im().contains_key(root_id()) && self.im()[root_id()].size == 0
        &&& forall|k: Id| #[trigger] self.im().contains_key(k) ==> self.im()[k].id == k
        &&& forall|k: Id| #[trigger] self.em().contains_key(k) ==> self.im().contains_key(k)
        &&& forall|k: Id| sorted(#[trigger] at(self.em(), k))
        &&& forall|a: Id, b: Id| #[trigger] at(self.em(), a).contains(b) ==> self.im().contains_key(b) && b != root_id()
        &&& ssum(self.im(), self.im().dom()) <= u32::MAX
    }
    pub open spec fn wf(self) -> bool {
        &&& self.graph_wf()
        &&& self.predecessors matches Some(p) ==> inverse_of(self.em(), p@)
        &&& self.dominator_tree matches Some(t) ==> tree_of(self.im(), self.em(), root_id(), t@)
        &&& self.immediate_dominators matches Some(t) ==> idoms_of(self.im(), self.em(), root_id(), t@)
        &&& self.retained_sizes matches Some(t) ==> retained_of(self.im(), self.em(), root_id(), t@) && self.dominator_tree is Some
    }
    /// Nothing about the graph itself differs.
    pub open spec fn same_graph(self, o: Items) -> bool {
        self.items == o.items && self.edges == o.edges && self.roots == o.roots && self.meta_root == o.meta_root && self.size == o.size
    }
    /// All items in identifier order, the meta root (the largest identifier) last.
    pub open spec fn item_seq(self) -> Seq<Item> { btree_pairs(self.im()).map_values(|p: (Id, Item)| p.1) }
}
impl<'a> vstd::std_specs::iter::IteratorSpecImpl for Iter<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.inner) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<&'a Item> { IteratorSpec::remaining(&self.inner).map_values(|p: (&'a Id, &'a Item)| p.1) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.inner) }
    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.inner) }
    open spec fn peek(&self, i: int) -> Option<&'a Item> { match IteratorSpec::peek(&self.inner, i) { Some(p) => Some(p.1), None => None } }
}
impl<'a> VpIt for Iter<'a> {
    type Out = VpIter<&'a Item>;
    #[verifier::prophetic]
    open spec fn vp_post(&self, o: VpIter<&'a Item>) -> bool { o@ == self.remaining() }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<&'a Item> { unimplemented!() }
}
impl<'a> vstd::std_specs::iter::IteratorSpecImpl for Neighbors<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.inner) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Id> { IteratorSpec::remaining(&self.inner).map_values(|p: &'a Id| *p) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.inner) }
    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.inner) }
    open spec fn peek(&self, i: int) -> Option<Id> { match IteratorSpec::peek(&self.inner, i) { Some(p) => Some(*p), None => None } }
}
impl<'a> VpIt for Neighbors<'a> {
    type Out = VpIter<Id>;
    #[verifier::prophetic]
    open spec fn vp_post(&self, o: VpIter<Id>) -> bool { o@ == self.remaining() }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<Id> { unimplemented!() }
}
impl<'a> vstd::std_specs::iter::IteratorSpecImpl for Predecessors<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.inner) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Id> { IteratorSpec::remaining(&self.inner).map_values(|p: &'a Id| *p) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.inner) }
    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.inner) }
    open spec fn peek(&self, i: int) -> Option<Id> { match IteratorSpec::peek(&self.inner, i) { Some(p) => Some(*p), None => None } }
}
impl<'a> VpIt for Predecessors<'a> {
    type Out = VpIter<Id>;
    #[verifier::prophetic]
    open spec fn vp_post(&self, o: VpIter<Id>) -> bool { o@ == self.remaining() }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<Id> { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<Code> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(c: Code) -> ItemKind { ItemKind::Code(c) } }
impl vstd::std_specs::convert::FromSpecImpl<Data> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(c: Data) -> ItemKind { ItemKind::Data(c) } }
impl vstd::std_specs::convert::FromSpecImpl<DebugInfo> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(c: DebugInfo) -> ItemKind { ItemKind::Debug(c) } }
impl vstd::std_specs::convert::FromSpecImpl<Misc> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(c: Misc) -> ItemKind { ItemKind::Misc(c) } }
impl vstd::std_specs::core::IndexSpecImpl<Id> for Items {
    open spec fn index_req(&self, id: &Id) -> bool { self.im().contains_key(*id) }
}

impl ItemsBuilder {
    pub open spec fn wf(self) -> bool {
        &&& self.parsed@ == self.items@.dom()
        &&& !self.items@.contains_key(root_id())
        &&& forall|k: Id| #[trigger] self.items@.contains_key(k) ==> self.items@[k].id == k
        &&& self.roots@.subset_of(self.items@.dom())
        &&& forall|a: Id| #[trigger] self.edges@.contains_key(a) ==> self.items@.contains_key(a)
        &&& forall|a: Id, b: Id| #[trigger] self.has_edge(a, b) ==> self.items@.contains_key(b)
        &&& ssum(self.items@, self.items@.dom()) == self.size_added
        &&& forall|k: u64| #[trigger] self.data@.contains_key(k) ==> k + self.data@[k].1 < u32::MAX && self.items@.contains_key(self.data@[k].0)
    }
    pub open spec fn has_edge(self, a: Id, b: Id) -> bool { self.edges@.contains_key(a) && self.edges@[a]@.contains(b) }
}/// The set stored for `k`, empty when there is none.
pub open spec fn sat(m: Map<Id, BTreeSet<Id>>, k: Id) -> Set<Id> { if m.contains_key(k) { m[k]@ } else { Set::empty() } }
pub open spec fn mapped_sets(m: Map<Id, BTreeSet<Id>>, v: Em) -> bool {
    &&& forall|k: Id| #[trigger] v.contains_key(k) <==> m.contains_key(k)
    &&& forall|k: Id| #[trigger] v.contains_key(k) ==> v[k]@ == btree_elems(m[k]@)
}
pub proof fn lemma_mapped(m: Map<Id, BTreeSet<Id>>, v: Em)
    requires mapped_sets(m, v)
    ensures forall|k: Id| sorted(#[trigger] at(v, k)), forall|k: Id, x: Id| #![trigger at(v, k).contains(x)] #![trigger sat(m, k).contains(x)] at(v, k).contains(x) <==> sat(m, k).contains(x)
{
    assert forall|k: Id| sorted(#[trigger] at(v, k)) by { if v.contains_key(k) { lemma_increasing_ids(btree_elems(m[k]@)); } }
    assert forall|k: Id, x: Id| #![trigger at(v, k).contains(x)] at(v, k).contains(x) <==> sat(m, k).contains(x) by { if v.contains_key(k) { assert(set_seq(m[k]@, btree_elems(m[k]@))); } }
}
pub open spec fn from_pairs(ps: Seq<(Id, Vec<Id>)>, n: int, a: Id, b: Id) -> bool { exists|j: int| 0 <= j < n && (#[trigger] ps[j]).0 == a && ps[j].1@.contains(b) }
pub proof fn lemma_from_pairs_step(ps: Seq<(Id, Vec<Id>)>, n: int)
    requires 0 <= n < ps.len()
    ensures forall|a: Id, b: Id| #[trigger] from_pairs(ps, n + 1, a, b) <==> from_pairs(ps, n, a, b) || (a == ps[n].0 && ps[n].1@.contains(b))
{ }
pub proof fn lemma_from_pairs_all(em: Em)
    ensures forall|a: Id, b: Id| #![trigger at(em, a), at(em, b)] #![trigger from_pairs(btree_pairs(em), btree_pairs(em).len() as int, a, b)] from_pairs(btree_pairs(em), btree_pairs(em).len() as int, a, b) <==> at(em, a).contains(b)
{ assert(map_seq(em, btree_pairs(em))); }
pub proof fn lemma_item_seq(items: Items)
    requires items.graph_wf()
    ensures
        forall|j: int| 0 <= j < items.item_seq().len() ==> items.im().contains_key(#[trigger] items.item_seq()[j].id) && items.im()[items.item_seq()[j].id] == items.item_seq()[j],
        forall|n: Id| #[trigger] items.im().contains_key(n) ==> exists|j: int| 0 <= j < items.item_seq().len() && (#[trigger] items.item_seq()[j]).id == n,
        forall|i: int, j: int| #![trigger items.item_seq()[i], items.item_seq()[j]] 0 <= i < j < items.item_seq().len() ==> idlt(items.item_seq()[i].id, items.item_seq()[j].id),
        items.item_seq().len() == items.im().dom().len(),
{
    let ps = btree_pairs(items.im());
    assert(map_seq(items.im(), ps)); assert(increasing(keys_of(ps)));
    let s = items.item_seq();
    assert forall|j: int| 0 <= j < s.len() implies items.im().contains_key(#[trigger] s[j].id) && items.im()[s[j].id] == s[j] && s[j].id == ps[j].0 by { assert(ps[j].1 == s[j]); assert(items.im().contains_key(ps[j].0)); }
    assert forall|n: Id| #[trigger] items.im().contains_key(n) implies exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).id == n by { let j = choose|j: int| 0 <= j < ps.len() && #[trigger] ps[j].0 == n; assert(s[j].id == n); }
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies idlt(s[i].id, s[j].id) by { assert(keys_of(ps)[i] == s[i].id); assert(keys_of(ps)[j] == s[j].id); lemma_increasing_ids(keys_of(ps)); }
}
pub proof fn lemma_root_no_idom(em: Em, r: Id)
    ensures forall|d: Id| !idom(adj(em), r, d, r)
{
    assert forall|d: Id| !idom(adj(em), r, d, r) by {
        if idom(adj(em), r, d, r) { assert(sdom(adj(em), r, d, r)); lemma_dom_reach(adj(em), r, d, r); lemma_dom_refl(adj(em), r, d); lemma_dom_antisym(adj(em), r, d, r); }
    }
}
/// The facts the code of `extract_generic_function` uses about the text.
pub proof fn lemma_generic(t: &str)
    ensures ({ let s = t@; let h = last_at(s, "::h"@); let c = last_at(s, "::"@); &&& h >= 0 ==> c >= h
        &&& h <= s.len() && c <= s.len()
        &&& forall|x: char| #![trigger first_char(s, x)] first_char(s, x) < s.len() && (first_char(s, x) >= 0 ==> s[first_char(s, x)] == x)
        &&& forall|x: char| #![trigger last_char(s, x)] last_char(s, x) < s.len() && (last_char(s, x) >= 0 ==> s[last_char(s, x)] == x)
        &&& h >= 0 ==> boff(s, h) <= boff(s, c) && (boff(s, h) == boff(s, c) <==> h == c)
        &&& forall|x: char| #![trigger find_seq(indexed_chars(s), at_char(x))] (match find_seq(indexed_chars(s), at_char(x)) { None => first_char(s, x) < 0, Some(p) => first_char(s, x) >= 0 && p.0 == boff(s, first_char(s, x)) })
        &&& forall|x: char| #![trigger find_seq(indexed_chars(s).reverse(), at_char(x))] (match find_seq(indexed_chars(s).reverse(), at_char(x)) { None => last_char(s, x) < 0, Some(p) => last_char(s, x) >= 0 && p.0 == boff(s, last_char(s, x)) })
        &&& forall|i: int, j: int| #![trigger boff(s, i), boff(s, j)] 0 <= i < s.len() && 0 <= j < s.len() ==> (boff(s, i) < boff(s, j) <==> i < j) && (boff(s, i) == boff(s, j) <==> i == j)
        &&& boff(s, 0) == 0
    })
{
    let s = t@; let h = last_at(s, "::h"@); let c = last_at(s, "::"@);
    lemma_last_below(s, "::h"@, s.len() as int); lemma_last_below(s, "::"@, s.len() as int);
    reveal_strlit("::h"); reveal_strlit("::");
    assert forall|x: char| #![trigger first_char(s, x)] first_char(s, x) < s.len() && (first_char(s, x) >= 0 ==> s[first_char(s, x)] == x) by { lemma_first_char(s, x); }
    assert forall|x: char| #![trigger last_char(s, x)] last_char(s, x) < s.len() && (last_char(s, x) >= 0 ==> s[last_char(s, x)] == x) by { lemma_last_char(s, x); }
    if h >= 0 {
        assert(s.subrange(h, h + 3) == "::h"@);
        assert(s.subrange(h, h + 2) =~= "::"@) by {
            assert(s[h] == s.subrange(h, h + 3)[0]); assert(s[h + 1] == s.subrange(h, h + 3)[1]);
        }
        assert(occurs_at(s, "::"@, h));
    }
    lemma_indexed_chars(t);
    let ic = indexed_chars(s); let rc = ic.reverse();
    assert forall|i: int, j: int| #![trigger boff(s, i), boff(s, j)] 0 <= i < s.len() && 0 <= j < s.len() implies (boff(s, i) < boff(s, j) <==> i < j) && (boff(s, i) == boff(s, j) <==> i == j) by { lemma_boff_le(s, i, j); }
    assert(s.take(0) =~= Seq::empty());
    assert(boff(s, 0) == 0);
    assert forall|x: char| #![trigger find_seq(indexed_chars(s), at_char(x))] (match find_seq(ic, at_char(x)) { None => first_char(s, x) < 0, Some(p) => first_char(s, x) >= 0 && p.0 == boff(s, first_char(s, x)) }) by {
        let q = at_char(x);
        lemma_find_first(ic, q); lemma_first_char(s, x);
        match find_seq(ic, q) {
            None => { if first_char(s, x) >= 0 { assert(q(ic[first_char(s, x)])); } }
            Some(p) => {
                let i = choose|i: int| #![trigger ic[i]] 0 <= i < ic.len() && ic[i] == p && q(p) && forall|j: int| 0 <= j < i ==> !q(#[trigger] ic[j]);
                assert(s[i] == x);
                if first_char(s, x) < i { assert(q(ic[first_char(s, x)])); }
            }
        }
    }
    assert forall|x: char| #![trigger find_seq(indexed_chars(s).reverse(), at_char(x))] (match find_seq(rc, at_char(x)) { None => last_char(s, x) < 0, Some(p) => last_char(s, x) >= 0 && p.0 == boff(s, last_char(s, x)) }) by {
        let q = at_char(x);
        lemma_find_first(rc, q); lemma_last_char(s, x);
        let n = s.len() as int; let l = last_char(s, x);
        match find_seq(rc, q) {
            None => { if l >= 0 { assert(rc[n - 1 - l] == ic[l]); assert(q(rc[n - 1 - l])); } }
            Some(p) => {
                let i = choose|i: int| #![trigger rc[i]] 0 <= i < rc.len() && rc[i] == p && q(p) && forall|j: int| 0 <= j < i ==> !q(#[trigger] rc[j]);
                assert(rc[i] == ic[n - 1 - i]); assert(s[n - 1 - i] == x);
                if l > n - 1 - i { assert(rc[n - 1 - l] == ic[l]); assert(q(rc[n - 1 - l])); }
            }
        }
    }
}
pub open spec fn at_char(x: char) -> spec_fn((usize, char)) -> bool { |p: (usize, char)| p.1 == x }
pub proof fn lemma_data_at(m: Map<u64, (Id, u64)>, a: u64)
    ensures ({ let s = btree_pairs(m).filter(|p: (u64, (Id, u64))| (a..).vp_in(p.0)); s.len() > 0 ==> s[0].0 >= a && m.contains_key(s[0].0) && m[s[0].0] == s[0].1 })
{
    let q = |p: (u64, (Id, u64))| (a..).vp_in(p.0);
    let ps = btree_pairs(m);
    lemma_filter(ps, q);
    assert(map_seq(m, ps));
    let s = ps.filter(q);
    if s.len() > 0 { assert(ps.contains(s[0])); }
}
/// The segment a lookup finds: the first one that starts at the address or later, if it reaches past the address.
/// (That is less than P24 asks for; see known-findings.txt.)
pub open spec fn data_at(m: Map<u64, (Id, u64)>, a: u64) -> Option<Id> {
    let s = btree_pairs(m).filter(|p: (u64, (Id, u64))| (a..).vp_in(p.0));
    if s.len() > 0 && a < s[0].0 + s[0].1.1 { Some(s[0].1.0) } else { None }
}
/// The text of an optional string.
pub open spec fn otext(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// What a symbol is shown as.
pub open spec fn demangled_text(s: Seq<char>) -> Option<Seq<char>> {
    match crate::rustc_demangle::rust_demangled(s) {
        Some(d) => Some(d),
        None => if !occurs_at(s, "_Z"@, 0) && !occurs_at(s, "__Z"@, 0) && !occurs_at(s, "_GLOBAL_"@, 0) { Some(s) } else { crate::cpp_demangle::cpp_demangled(s) },
    }
}
pub open spec fn or_text(o: Option<Seq<char>>, d: Seq<char>) -> Seq<char> { match o { Some(x) => x, None => d } }
/// The generic a function name is an instance of.
pub open spec fn generic_of(s: Seq<char>) -> Option<Seq<char>> {
    let h = last_at(s, "::h"@);
    if h >= 0 && h == last_at(s, "::"@) { Some(s.take(h)) }
    else {
        let o = first_char(s, '<'); let c = last_char(s, '>');
        if 0 < o < c { Some(s.take(o)) } else { None }
    }
}
impl Code {
    pub open spec fn shown(self, raw: Seq<char>) -> Seq<char> { or_text(otext(self.demangled), raw) }
    /// What `Code::new` makes of a name.
    pub open spec fn of_name(self, name: Seq<char>) -> bool {
        &&& otext(self.demangled) == demangled_text(name)
        &&& otext(self.monomorphization_of) == generic_of(or_text(demangled_text(name), name))
    }
}
impl Item {
    /// The name an item is shown under.
    pub open spec fn shown(self) -> Seq<char> { match self.kind { ItemKind::Code(c) => c.shown(self.name@), _ => self.name@ } }
    pub open spec fn generic(self) -> Option<Seq<char>> { match self.kind { ItemKind::Code(c) => otext(c.monomorphization_of), _ => None } }
}
impl Items {
    /// The first item shown under the name, by identifier.
    pub open spec fn by_name(self, n: Seq<char>) -> Option<Item> { find_seq(self.item_seq(), |i: Item| i.shown() == n) }
}
pub proof fn lemma_find_step<T>(s: Seq<T>, q: spec_fn(T) -> bool, k: int)
    requires 0 <= k < s.len(), forall|j: int| 0 <= j < k ==> !q(#[trigger] s[j])
    ensures q(s[k]) ==> find_seq(s, q) == Some(s[k])
    decreases k
{
    if k > 0 {
        let t = s.drop_first();
        assert(!q(s[0]));
        assert forall|j: int| 0 <= j < k - 1 implies !q(#[trigger] t[j]) by { assert(t[j] == s[j + 1]); }
        lemma_find_step(t, q, k - 1);
    }
}
pub proof fn lemma_find_none<T>(s: Seq<T>, q: spec_fn(T) -> bool)
    requires forall|j: int| 0 <= j < s.len() ==> !q(#[trigger] s[j])
    ensures find_seq(s, q) is None
{ lemma_find_first(s, q); }
@drop `impl PartialOrd for Item`
@drop `impl Ord for Item`

@fn ItemsBuilder::new ret=r
    ensures r.wf(), r.size == size, r.items@ == Map::<Id, Item>::empty(), r.roots@ == Set::<Id>::empty(), r.edges@ == Map::<Id, BTreeSet<Id>>::empty(), r.data@ == Map::<u64, (Id, u64)>::empty(), r.size_added == 0
@fn ItemsBuilder::add_item ret=r
    requires old(self).wf(), item.id != root_id(), !old(self).items@.contains_key(item.id), old(self).size_added + item.size <= u32::MAX
    ensures final(self).wf(), r == item.id, final(self).items@ == old(self).items@.insert(item.id, item),
        final(self).edges == old(self).edges, final(self).roots == old(self).roots, final(self).data == old(self).data, final(self).size == old(self).size,
        final(self).size_added == old(self).size_added + item.size
@exit ItemsBuilder::add_item
    proof {
        lemma_ssum_ext(self.items@, old(self).items@, old(self).items@.dom());
        lemma_ssum_insert(self.items@, old(self).items@.dom(), item.id);
        assert(self.items@.dom() =~= old(self).items@.dom().insert(item.id));
        assert(forall|a: Id, b: Id| #[trigger] self.has_edge(a, b) ==> old(self).has_edge(a, b));
    }


@fn ItemsBuilder::add_root ret=r
    requires old(self).wf(), item.id != root_id(), !old(self).items@.contains_key(item.id), old(self).size_added + item.size <= u32::MAX
    ensures final(self).wf(), r == item.id, final(self).items@ == old(self).items@.insert(item.id, item),
        final(self).edges == old(self).edges, final(self).roots@ == old(self).roots@.insert(item.id), final(self).data == old(self).data, final(self).size == old(self).size,
        final(self).size_added == old(self).size_added + item.size
@exit ItemsBuilder::add_root
    proof { assert(forall|a: Id, b: Id| #[trigger] self.has_edge(a, b) ==> old(self).has_edge(a, b)); }
@fn ItemsBuilder::add_edge
    requires old(self).wf(), old(self).items@.contains_key(from), old(self).items@.contains_key(to)
    ensures final(self).wf(), final(self).items == old(self).items, final(self).roots == old(self).roots, final(self).data == old(self).data, final(self).size == old(self).size, final(self).size_added == old(self).size_added,
        forall|a: Id, b: Id| #[trigger] final(self).has_edge(a, b) <==> old(self).has_edge(a, b) || (a == from && b == to)
@fn ItemsBuilder::size_added ret=r
    ensures r == self.size_added
@fn ItemsBuilder::finish ret=r
    requires self.wf()
    ensures r.wf(), r.size == self.size, r.meta_root == root_id(), r.predecessors is None, r.dominator_tree is None, r.immediate_dominators is None, r.retained_sizes is None,
        forall|k: Id| #[trigger] r.im().contains_key(k) <==> self.items@.contains_key(k) || k == root_id(),
        forall|k: Id| #[trigger] self.items@.contains_key(k) ==> r.im()[k] == self.items@[k],
        r.im()[root_id()].size == 0, r.im()[root_id()].name@ == "<meta root>"@,
        forall|a: Id, b: Id| a != root_id() ==> (#[trigger] at(r.em(), a).contains(b) <==> self.has_edge(a, b)),
        forall|b: Id| #[trigger] at(r.em(), root_id()).contains(b) <==> self.roots@.contains(b),
        r.roots.t@ == self.roots@
@closure ItemsBuilder::finish 0
|(Id, BTreeSet<Id>)| -> (r: (Id, Vec<Id>))
    ensures r.0 == $0.0, r.1@ == btree_elems($0.1@)
@entry ItemsBuilder::finish
    let ghost em0 = self.edges@; let ghost im0 = self.items@;
@result ItemsBuilder::finish
    proof {
        assert(forall|k: Id| #[trigger] self_.edges@.contains_key(k) <==> em0.contains_key(k) || k == root_id());
        assert(forall|k: Id| k != root_id() && #[trigger] em0.contains_key(k) ==> self_.edges@[k] == em0[k]);
        assert(sat(self_.edges@, root_id()) == self.roots@);
        assert forall|a: Id, b: Id| a != root_id() implies (#[trigger] sat(self_.edges@, a).contains(b) <==> self.has_edge(a, b)) by { }
        lemma_mapped(self_.edges@, r.em());
        assert(r.im() =~= im0.insert(root_id(), r.im()[root_id()]));
        lemma_ssum_ext(r.im(), im0, im0.dom());
        lemma_ssum_insert(r.im(), im0.dom(), root_id());
        assert(r.im().dom() =~= im0.dom().insert(root_id()));
        assert(!em0.contains_key(root_id()));
        assert forall|a: Id, b: Id| a != root_id() implies (#[trigger] at(r.em(), a).contains(b) <==> self.has_edge(a, b)) by { }
    }

@fn `Index for Items::index` ret=r
    ensures *r == self.im()[id]

@fn Items::iter ret=r
    ensures r.remaining() == refs(self.item_seq()), r.obeys_prophetic_iter_laws(), r.will_return_none()
@fn Items::neighbors ret=r
    ensures r.remaining() =~= at(self.em(), id), r.obeys_prophetic_iter_laws(), r.will_return_none()
@fn Items::predecessors ret=r
    requires self.predecessors is Some
    ensures r.remaining() =~= at(self.predecessors->Some_0@, id), r.obeys_prophetic_iter_laws(), r.will_return_none()
@fn Items::size ret=r
    ensures r == self.size
@fn Items::meta_root ret=r
    ensures r == self.meta_root
@fn Items::compute_predecessors
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_graph(*old(self)), final(self).predecessors is Some,
        old(self).predecessors is Some ==> *final(self) == *old(self),
        final(self).dominator_tree == old(self).dominator_tree, final(self).immediate_dominators == old(self).immediate_dominators, final(self).retained_sizes == old(self).retained_sizes
@fn Items::compute_dominators
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_graph(*old(self)), final(self).immediate_dominators is Some,
        old(self).immediate_dominators is Some ==> *final(self) == *old(self),
        final(self).dominator_tree == old(self).dominator_tree, final(self).predecessors == old(self).predecessors, final(self).retained_sizes == old(self).retained_sizes
@fn Items::immediate_dominators ret=r
    requires self.immediate_dominators is Some
    ensures *r == self.immediate_dominators->Some_0
@fn Items::compute_dominator_tree
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_graph(*old(self)), final(self).dominator_tree is Some,
        old(self).dominator_tree is Some ==> *final(self) == *old(self),
        final(self).immediate_dominators == old(self).immediate_dominators, final(self).predecessors == old(self).predecessors, final(self).retained_sizes == old(self).retained_sizes
@fn Items::dominator_tree ret=r
    requires self.dominator_tree is Some
    ensures *r == self.dominator_tree->Some_0
@fn Items::compute_retained_sizes
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_graph(*old(self)), final(self).retained_sizes is Some,
        old(self).retained_sizes is Some ==> *final(self) == *old(self),
        final(self).immediate_dominators == old(self).immediate_dominators, final(self).predecessors == old(self).predecessors
@fn Items::retained_size ret=r
    requires self.wf(), self.retained_sizes is Some, self.im().contains_key(id)
    ensures r == rsize(self.im(), self.em(), root_id(), id)

@fn Id::section ret=r
    requires section < 0xffff_ffff
    ensures r.0 == section, r.1 == 0xffff_ffff, r != root_id()
@fn Id::entry ret=r
    requires section < 0xffff_ffff, index < 0xffff_ffff
    ensures r.0 == section, r.1 == index, r != root_id(), r.1 != 0xffff_ffff
@fn Id::root ret=r
    ensures r == root_id()
@fn Id::serializable ret=r
    ensures r == self.0 as u64 * 0x1_0000_0000 + self.1
@fn Item::new ret=r
    ensures r.id == id, r.size == size, call_ensures(<S as Into<String>>::into, (name,), r.name), call_ensures(<K as Into<ItemKind>>::into, (kind,), r.kind)
@fn Item::id ret=r
    ensures r == self.id
@fn Item::size ret=r
    ensures r == self.size
@fn Item::kind ret=r
    ensures *r == self.kind

@fn ItemKind::is_data ret=r
    ensures r == (*self is Data)
@fn Code::new ret=r
    ensures r.of_name(name@)
@closure Code::new 0
|&String| -> (r: &str)
    ensures r@ == $0@
@fn Code::demangled ret=r
    ensures match r { Some(s) => otext(self.demangled) == Some(s@), None => self.demangled is None }
@closure Code::demangled 0
|&String| -> (r: &str)
    ensures r@ == $0@
@fn Code::monomorphization_of ret=r
    ensures match r { Some(s) => otext(self.monomorphization_of) == Some(s@), None => self.monomorphization_of is None }
@closure Code::monomorphization_of 0
|&String| -> (r: &str)
    ensures r@ == $0@
@fn Code::demangle ret=r
    ensures otext(r) == demangled_text(s@)
@fn Code::extract_generic_function ret=r
    ensures otext(r) == generic_of(demangled@)
@closure Code::extract_generic_function 0
|&(usize, char)| -> (r: bool)
    ensures r == ($0.1 == '<')
@closure Code::extract_generic_function 1
|&(usize, char)| -> (r: bool)
    ensures r == ($0.1 == '>')
@entry Code::extract_generic_function
    proof { lemma_generic(demangled); }
    let ghost f1 = find_seq(indexed_chars(demangled@), at_char('<')); let ghost f2 = find_seq(indexed_chars(demangled@).reverse(), at_char('>'));
@fn Item::name ret=r
    ensures r@ == self.shown()
@fn Item::monomorphization_of ret=r
    ensures match r { Some(s) => self.generic() == Some(s@), None => self.generic() is None }
@fn Items::get_item_by_name ret=r
    ensures match r { Some(i) => self.by_name(name@) == Some(*i), None => self.by_name(name@) is None }
@loop Items::get_item_by_name 0 iter=it
    invariant
        it.seq() == refs(self.item_seq()),
        forall|j: int| 0 <= j < it.index() ==> (#[trigger] self.item_seq()[j]).shown() != name@,
@loopentry Items::get_item_by_name 0
    proof { let k = it.index() as int; assert(self.item_seq()[k] == *item); lemma_find_step(self.item_seq(), |i: Item| i.shown() == name@, k); }
@looppost Items::get_item_by_name 0
    proof { lemma_find_none(self.item_seq(), |i: Item| i.shown() == name@); }
@fn ItemsBuilder::get_data ret=r
    requires self.wf()
    ensures r == data_at(self.data@, offset), r matches Some(i) ==> self.items@.contains_key(i)
@closure ItemsBuilder::get_data 0
|(&u64, &(Id, u64))| -> (r: Option<Id>)
    requires $0.0 + $0.1.1 <= u64::MAX
    ensures r == (if offset < $0.0 + $0.1.1 { Some($0.1.0) } else { None })
@entry ItemsBuilder::get_data
    proof { lemma_data_at(self.data@, offset); }
@fn ItemsBuilder::link_data
    requires old(self).wf(), len <= u32::MAX, old(self).items@.contains_key(id)
    ensures final(self).wf(), final(self).items == old(self).items, final(self).edges == old(self).edges, final(self).roots == old(self).roots, final(self).size == old(self).size, final(self).size_added == old(self).size_added,
        final(self).data@ == (if 0 <= offset <= u32::MAX && offset + len < u32::MAX { old(self).data@.insert(offset as u64, (id, len as u64)) } else { old(self).data@ })
@closure Items::neighbors 0
|| -> (r: slice::Iter<Id>)
    ensures r.remaining().len() == 0, r.obeys_prophetic_iter_laws(), r.will_return_none()
@closure Items::neighbors 1
|&Vec<Id>| -> (r: slice::Iter<Id>)
    ensures r.remaining() == refs($0@), r.obeys_prophetic_iter_laws(), r.will_return_none()
@closure Items::predecessors 0
|| -> (r: slice::Iter<Id>)
    ensures r.remaining().len() == 0, r.obeys_prophetic_iter_laws(), r.will_return_none()
@closure Items::predecessors 1
|&Vec<Id>| -> (r: slice::Iter<Id>)
    ensures r.remaining() == refs($0@), r.obeys_prophetic_iter_laws(), r.will_return_none()
@closure Items::compute_predecessors 0
|(Id, BTreeSet<Id>)| -> (r: (Id, Vec<Id>))
    ensures r.0 == $0.0, r.1@ == btree_elems($0.1@)
@loop Items::compute_predecessors 0 iter=it
    invariant
        self.wf(), *self == *old(self),
        it.seq() == pair_refs(btree_pairs(self.em())),
        forall|a: Id, b: Id| #[trigger] sat(predecessors@, b).contains(a) <==> from_pairs(btree_pairs(self.em()), it.index() as int, a, b),
@loopentry Items::compute_predecessors 0
    let ghost ps = btree_pairs(self.em()); let ghost n0 = it.index() as int;
    assert(ps[n0].0 == *from && ps[n0].1 == *tos);
@loop Items::compute_predecessors 1 iter=it2
    invariant
        self.wf(), *self == *old(self), ps == btree_pairs(self.em()), 0 <= n0 < ps.len(), ps[n0].0 == *from, ps[n0].1 == *tos,
        it2.seq() == refs(tos@),
        forall|a: Id, b: Id| #[trigger] sat(predecessors@, b).contains(a) <==> from_pairs(ps, n0, a, b) || (a == *from && exists|k: int| 0 <= k < it2.index() && #[trigger] tos@[k] == b),
@loopentry Items::compute_predecessors 1
    let ghost p0 = predecessors@; let ghost k0 = it2.index() as int;
    assert(tos@[k0] == *to);
@loopexit Items::compute_predecessors 1
    proof {
        assert(predecessors@[*to]@ =~= sat(p0, *to).insert(*from));
        assert(forall|b: Id| b != *to ==> #[trigger] sat(predecessors@, b) == sat(p0, b));
        assert(sat(predecessors@, *to) == sat(p0, *to).insert(*from));
    }
@loopexit Items::compute_predecessors 0
    proof { lemma_from_pairs_step(ps, n0); }
@looppost Items::compute_predecessors 0
    let ghost pm = predecessors@;
@exit Items::compute_predecessors
    proof {
        lemma_mapped(pm, self.predecessors->Some_0@);
        lemma_from_pairs_all(self.em());
    }
@closure Items::compute_dominator_tree 0
|(Id, BTreeSet<Id>)| -> (r: (Id, Vec<Id>))
    ensures r.0 == $0.0, r.1@ == btree_elems($0.1@)
@loop Items::compute_dominator_tree 0 iter=it
    invariant
        self.wf(), *self == *old(self),
        it.seq() == refs(self.item_seq()),
        dominators.root() == root_id(), dominators.adj() == adj(self.em()),
        forall|d: Id, n: Id| #[trigger] sat(dominator_tree@, d).contains(n) ==> self.im().contains_key(n) && idom(adj(self.em()), root_id(), d, n),
        forall|d: Id| #[trigger] dominator_tree@.contains_key(d) ==> exists|n: Id| #[trigger] dominator_tree@[d]@.contains(n),
        forall|j: int, d: Id| 0 <= j < it.index() && idom(adj(self.em()), root_id(), d, (#[trigger] self.item_seq()[j]).id) ==> #[trigger] sat(dominator_tree@, d).contains(self.item_seq()[j].id),
        forall|j: int| 0 <= j < it.index() && (#[trigger] self.item_seq()[j]).id != root_id() && reach(adj(self.em()), root_id(), self.item_seq()[j].id) ==> exists|d: Id| idom(adj(self.em()), root_id(), d, self.item_seq()[j].id),
@loopentry Items::compute_dominator_tree 0
    proof {
        lemma_item_seq(*self); lemma_root_no_idom(self.em(), root_id()); let j = it.index() as int; assert(self.item_seq()[j] == *item);
        assert forall|d: Id, e: Id| idom(adj(self.em()), root_id(), d, item.id) && idom(adj(self.em()), root_id(), e, item.id) implies d == e by { lemma_idom_unique(adj(self.em()), root_id(), d, e, item.id); }
        assert forall|d: Id| idom(adj(self.em()), root_id(), d, item.id) implies reach(adj(self.em()), root_id(), item.id) by { assert(sdom(adj(self.em()), root_id(), d, item.id)); lemma_dom_reach(adj(self.em()), root_id(), d, item.id); }
    }
    let ghost p0 = dominator_tree@;
@loopexit Items::compute_dominator_tree 0
    proof {
        let j = it.index() as int;
        assert forall|d: Id| idom(adj(self.em()), root_id(), d, item.id) implies dominator_tree@.contains_key(d) && dominator_tree@[d]@ =~= sat(p0, d).insert(item.id) by { }
        assert forall|d: Id| !idom(adj(self.em()), root_id(), d, item.id) implies #[trigger] sat(dominator_tree@, d) == sat(p0, d) by { }
        assert forall|d: Id| #[trigger] dominator_tree@.contains_key(d) implies exists|n: Id| #[trigger] dominator_tree@[d]@.contains(n) by {
            if p0.contains_key(d) { let n = choose|n: Id| #[trigger] p0[d]@.contains(n); assert(sat(p0, d).contains(n)); assert(sat(dominator_tree@, d).contains(n)); } else { assert(dominator_tree@[d]@.contains(item.id)); }
        }
    }
@looppre Items::compute_dominator_tree 0
    proof { lemma_path_ext(dominators.adj(), adj(self.em())); }
@looppost Items::compute_dominator_tree 0
    let ghost pm = dominator_tree@;
@exit Items::compute_dominator_tree
    proof {
        lemma_item_seq(*self);
        let v = self.dominator_tree->Some_0@;
        lemma_mapped(pm, v);
        assert forall|d: Id| #[trigger] v.contains_key(d) implies v[d]@.len() > 0 by {
            if v[d]@.len() == 0 { assert(pm.contains_key(d)); let n = choose|n: Id| #[trigger] pm[d]@.contains(n); assert(sat(pm, d).contains(n)); assert(at(v, d).contains(n)); }
        }
    }
@exit Items::compute_retained_sizes
    proof { lemma_item_seq(*self); }
@exit ItemsBuilder::link_data
    proof {
        assert(forall|a: Id, b: Id| #[trigger] self.has_edge(a, b) <==> old(self).has_edge(a, b));
        assert forall|k: u64| #[trigger] self.data@.contains_key(k) implies k + self.data@[k].1 < u32::MAX && self.items@.contains_key(self.data@[k].0) by {
            if old(self).data@.contains_key(k) { }
        }
    }
@exit ItemsBuilder::add_edge
    proof { assert(forall|a: Id, b: Id| #[trigger] self.has_edge(a, b) <==> old(self).has_edge(a, b) || (a == from && b == to)); }
@exit Id::serializable
    proof {
        let a = self.0; let b = self.1;
        assert(((a as u64) << 32u64) | (b as u64) == (a as u64) * 0x1_0000_0000u64 + (b as u64)) by (bit_vector);
    }
@closure `Iterator for Iter::next` 0
|(&'a Id, &'a Item)| -> (r: &'a Item)
    ensures r == $0.1

@fn Items::compute_retained_sizes::recursive_retained_size ret=r
    requires items.graph_wf(), tree_of(items.im(), items.em(), root_id(), dominator_tree@),
        items.im().contains_key(item.id), items.im()[item.id] == *item,
        partial_retained(items.im(), items.em(), root_id(), old(retained_sizes)@)
    ensures r == rsize(items.im(), items.em(), root_id(), item.id),
        partial_retained(items.im(), items.em(), root_id(), final(retained_sizes)@),
        final(retained_sizes)@.contains_key(item.id),
        forall|k: Id| #[trigger] old(retained_sizes)@.contains_key(k) ==> final(retained_sizes)@.contains_key(k),
        forall|k: Id| #[trigger] final(retained_sizes)@.contains_key(k) ==> old(retained_sizes)@.contains_key(k) || dset(items.im(), items.em(), root_id(), item.id).contains(k)
    decreases dset(items.im(), items.em(), root_id(), item.id).len()
@entry Items::compute_retained_sizes::recursive_retained_size
    let ghost im = items.im(); let ghost em = items.em(); let ghost n = item.id;
    assert(closed(im, em, root_id()));
    proof {
        lemma_cover_all(im, em, root_id(), dominator_tree@, n);
        assert(covered(im, em, root_id(), at(dominator_tree@, n), 0) =~= Set::empty());
        lemma_dset(im, em, root_id(), n);
    }
@loop Items::compute_retained_sizes::recursive_retained_size 0 iter=it
    invariant
        items.graph_wf(), tree_of(items.im(), items.em(), root_id(), dominator_tree@), im == items.im(), em == items.em(), n == item.id,
        im.contains_key(n), im[n] == *item, closed(im, em, root_id()),
        it.seq() == refs(children@), children@ == at(dominator_tree@, n),
        partial_retained(im, em, root_id(), retained_sizes@),
        !retained_sizes@.contains_key(n),
        forall|k: Id| #[trigger] old(retained_sizes)@.contains_key(k) ==> retained_sizes@.contains_key(k),
        forall|k: Id| #[trigger] retained_sizes@.contains_key(k) ==> old(retained_sizes)@.contains_key(k) || dset(im, em, root_id(), n).contains(k),
        rsize == item.size + ssum(im, covered(im, em, root_id(), children@, it.index() as int)),
@loopentry Items::compute_retained_sizes::recursive_retained_size 0
    proof {
        let k = it.index() as int;
        lemma_cover_step(im, em, root_id(), dominator_tree@, n, k);
        lemma_dset(im, em, root_id(), children@[k]); lemma_dset(im, em, root_id(), n);
        let u = covered(im, em, root_id(), children@, k + 1);
        lemma_ssum_subset(im, u, im.dom().remove(n));
        lemma_ssum_remove(im, im.dom(), n);
    }
@exit Items::compute_retained_sizes::recursive_retained_size
    proof { }
@loop Items::compute_retained_sizes 0 iter=it
    invariant
        self.wf(), self.dominator_tree matches Some(t) && t@ == dominator_tree@, self.same_graph(*old(self)),
        self.immediate_dominators == old(self).immediate_dominators, self.predecessors == old(self).predecessors,
        it.seq() == refs(self.item_seq()),
        partial_retained(self.im(), self.em(), root_id(), retained_sizes@),
        forall|j: int| 0 <= j < it.index() ==> retained_sizes@.contains_key(#[trigger] self.item_seq()[j].id),
@loopentry Items::compute_retained_sizes 0
    proof { lemma_item_seq(*self); }
@loop Items::compute_dominators 0 iter=it
    invariant
        self.wf(), *self == *old(self),
        it.seq() == refs(self.item_seq()),
        dominators.root() == root_id(), dominators.adj() == adj(self.em()),
        forall|n: Id| #[trigger] immediate_dominators@.contains_key(n) ==> self.im().contains_key(n) && n != root_id() && reach(adj(self.em()), root_id(), n) && idom(adj(self.em()), root_id(), immediate_dominators@[n], n),
        forall|j: int| 0 <= j < it.index() ==> (immediate_dominators@.contains_key(#[trigger] self.item_seq()[j].id) <==> self.item_seq()[j].id != root_id() && reach(adj(self.em()), root_id(), self.item_seq()[j].id)),
@loopentry Items::compute_dominators 0
    proof { lemma_item_seq(*self); lemma_root_no_idom(self.em(), root_id()); let j = it.index() as int; assert(self.item_seq()[j] == *item); }
@looppre Items::compute_dominators 0
    proof { lemma_path_ext(dominators.adj(), adj(self.em())); }
@exit Items::compute_dominators
    proof { lemma_item_seq(*self); }

@module ir::graph_impl ir/graph_impl.rs
@pre
use vstd::prelude::*;
use crate::vp::*;
use crate::ir::*;
use crate::petgraph::visit::*;
use vstd::std_specs::iter::IteratorSpec;
broadcast use {vstd::std_specs::btree::group_btree_axioms, crate::ir_ord::lemma_id_key, vstd::std_specs::hash::group_hash_axioms};
impl<'a> GraphView for &'a Items {
    open spec fn vp_ok(self) -> bool { true }
    open spec fn vp_adj(self, n: Id) -> Seq<Id> { at(self.em(), n) }
}
impl NodeView for Items { open spec fn vp_nodes(&self) -> nat { self.im().dom().len() } }
impl MapView<Id> for HashSet<Id> { open spec fn vp_marked(&self, n: Id) -> bool { self@.contains(n) } }
impl<'a> NbView<Id> for Neighbors<'a> {
    #[verifier::prophetic]
    open spec fn vp_nb(&self) -> Seq<Id> { self.remaining() }
}
