## Dominators (P14).
@part an.spec
@use garbage.spec
@include vp_hash.rs
@include regex.rs
@module twiggy_analyze::analyses::dominators analyze/analyses/dominators/mod.rs
@opt box=crate::twiggy_traits::Emit
@pre
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use crate::vp::*;
use crate::vp_text::*;
use crate::vp_more::*;
use crate::report::*;
use crate::regex::{args, picked, rx_valid, rx_any};
use crate::csv::{csv_text, fcsv, entry, line, lemma_csv_push, VpRecord, VpCell};
use crate::twiggy_analyze::formats::json::{J, render, sep, quoted};
use crate::twiggy_analyze::formats::table::Align;
use crate::vp_std::io::{Sink, wrote};
use crate::twiggy_traits::Emit as VpEmit;
use crate::ir::{Id, Im, Em, rsize, root_id, dset, tree_of, at, adj, idlt};
use crate::graph::idom;
use crate::twiggy_analyze::analyses::garbage::lost;
broadcast use {crate::vp::group_vp, crate::vp_text::group_num, crate::vp_text::group_f64, crate::ir_ord::lemma_id_key, vstd::std_specs::btree::group_btree_axioms};
/// Larger retained size first, then by identifier.
pub open spec fn before(im: Im, em: Em) -> spec_fn(Id, Id) -> bool { |a: Id, b: Id| rsize(im, em, root_id(), a) > rsize(im, em, root_id(), b) || (rsize(im, em, root_id(), a) == rsize(im, em, root_id(), b) && idlt(a, b)) }
/// The items an item immediately dominates, in that order.
pub open spec fn is_kids(im: Im, em: Em, n: Id, s: Seq<Id>) -> bool {
    &&& forall|c: Id| #[trigger] s.contains(c) <==> im.contains_key(c) && idom(adj(em), root_id(), n, c)
    &&& pairwise(s, before(im, em))
}
pub open spec fn kids(im: Im, em: Em, n: Id) -> Seq<Id> { choose|s: Seq<Id>| is_kids(im, em, n, s) }
/// How many items an item dominates.
pub open spec fn under(im: Im, em: Em, n: Id) -> nat { dset(im, em, root_id(), n).len() }
/// The items of the dominator tree from `n` on, parents first, with their depths.
pub open spec fn walk(im: Im, em: Em, n: Id, d: int) -> Seq<(Id, int)>
    decreases under(im, em, n), 1int, 0int
{ seq![(n, d)] + walks(im, em, n, d, kids(im, em, n).len() as int) }
/// ... below the first `k` children.
pub open spec fn walks(im: Im, em: Em, n: Id, d: int, k: int) -> Seq<(Id, int)>
    decreases under(im, em, n), 0int, k
{
    if k <= 0 || k > kids(im, em, n).len() { Seq::empty() } else {
        let c = kids(im, em, n)[k - 1];
        walks(im, em, n, d, k - 1) + (if under(im, em, c) < under(im, em, n) { walk(im, em, c, d + 1) } else { Seq::empty() })
    }
}
pub open spec fn start_depth(n: Id) -> int { if n == root_id() { 0 } else { 1 } }
pub open spec fn walk_all(im: Im, em: Em, s: Seq<Id>, k: int) -> Seq<(Id, int)>
    decreases k
{ if k <= 0 || k > s.len() { Seq::empty() } else { walk_all(im, em, s, k - 1) + walk(im, em, s[k - 1], start_depth(s[k - 1])) } }
pub open spec fn shallow(max: int) -> spec_fn((Id, int)) -> bool { |x: (Id, int)| 0 < x.1 <= max }
pub open spec fn upto<T>(s: Seq<T>, k: int) -> Seq<T> { if k <= 0 { Seq::empty() } else if k < s.len() { s.take(k) } else { s } }
// ---- text
pub open spec fn indent(d: int) -> Seq<char> decreases d { if d <= 2 { Seq::empty() } else { indent(d - 1) + "    "@ } }
pub open spec fn label(d: int, name: Seq<char>) -> Seq<char> { if d == 1 { name } else { indent(d) + "  ⤷ "@ + name } }
pub open spec fn trow(im: Im, em: Em, total: int) -> spec_fn((Id, int)) -> Seq<Seq<char>> { |x: (Id, int)| seq![dec(rsize(im, em, root_id(), x.0)), pct(rsize(im, em, root_id(), x.0) as int, total), label(x.1, im[x.0].shown())] }
pub open spec fn head() -> Seq<(Align, Seq<char>)> { seq![(Align::Right, "Retained Bytes"@), (Align::Right, "Retained %"@), (Align::Left, "Dominator Tree"@)] }
// ---- JSON
pub open spec fn jfields(im: Im, em: Em, total: int, n: Id) -> Seq<(Seq<char>, J)> {
    let s = im[n].size as int; let r = rsize(im, em, root_id(), n) as int;
    seq![("name"@, J::Str(im[n].shown())), ("shallow_size"@, J::Int(s)), ("shallow_size_percent"@, J::Flt(percent(s, total))), ("retained_size"@, J::Int(r)), ("retained_size_percent"@, J::Flt(percent(r, total)))]
}
pub open spec fn jnode(im: Im, em: Em, total: int, n: Id) -> Seq<(Seq<char>, J)>
    decreases under(im, em, n), 1int, 0int
{
    let f = jfields(im, em, total, n);
    if kids(im, em, n).len() > 0 { f.push(("children"@, J::Arr(jkids(im, em, total, n, kids(im, em, n).len() as int)))) } else { f }
}
pub open spec fn jkids(im: Im, em: Em, total: int, n: Id, k: int) -> Seq<J>
    decreases under(im, em, n), 0int, k
{
    if k <= 0 || k > kids(im, em, n).len() { Seq::empty() } else {
        let c = kids(im, em, n)[k - 1];
        jkids(im, em, total, n, k - 1).push(J::Obj(if under(im, em, c) < under(im, em, n) { jnode(im, em, total, c) } else { Seq::empty() }))
    }
}
// ---- CSV
pub open spec fn idom_id(im: Im, em: Em, n: Id) -> Id { if exists|d: Id| idom(adj(em), root_id(), d, n) { choose|d: Id| idom(adj(em), root_id(), d, n) } else { n } }
pub open spec fn number(n: Id) -> nat { (n.0 as nat * 0x1_0000_0000 + n.1 as nat) as nat }
pub open spec fn crec(im: Im, em: Em, total: int) -> spec_fn((Id, int)) -> Rec { |x: (Id, int)| {
    let n = x.0; let s = im[n].size as int; let r = rsize(im, em, root_id(), n) as int;
    seq![("Id"@, dec(number(n))), ("Name"@, im[n].shown()), ("ShallowSize"@, dec(s as nat)), ("ShallowSizePercent"@, fcsv(percent(s, total))),
        ("RetainedSize"@, dec(r as nat)), ("RetainedSizePercent"@, fcsv(percent(r, total))), ("ImmediateDominator"@, dec(number(idom_id(im, em, n))))]
} }
impl DominatorTree {
    pub open spec fn ok(&self, items: ir::Items) -> bool {
        &&& items.wf() && items.retained_sizes is Some && items.immediate_dominators is Some
        &&& items.im().dom().len() <= i32::MAX
        &&& tree_of(items.im(), items.em(), root_id(), self.tree@)
        &&& forall|i: int| #![trigger self.items@[i]] 0 <= i < self.items@.len() ==> items.im().contains_key(self.items@[i])
    }
    pub open spec fn shown(&self, items: ir::Items) -> Seq<(Id, int)> { walk_all(items.im(), items.em(), self.items@, self.items@.len() as int) }
    pub open spec fn sum_name(&self) -> Seq<char> { "["@ + dec(self.unreachable_items_summary->Some_0.count as nat) + " Unreachable Items]"@ }
    // Text: the walk as far as the limits go, and what is unreachable.
    pub open spec fn rows(&self, items: ir::Items) -> Seq<Seq<Seq<char>>> {
        let r = upto(self.shown(items).filter(shallow(self.opts.shown().max_depth as int)), self.opts.shown().max_rows as int).map_values(trow(items.im(), items.em(), items.size as int));
        match self.unreachable_items_summary { Some(u) => r.push(seq![dec(u.size as nat), fp2(u.size_percent) + "%"@, self.sum_name()]), None => r }
    }
    // JSON: the whole tree from every item.
    pub open spec fn jitems(&self, items: ir::Items, k: int) -> Seq<J> { Seq::new(k as nat, |i: int| J::Obj(jnode(items.im(), items.em(), items.size as int, self.items@[i]))) }
    pub open spec fn jsum(&self) -> Seq<(Seq<char>, J)> { let u = self.unreachable_items_summary->Some_0; seq![("name"@, J::Str(self.sum_name())), ("retained_size"@, J::Int(u.size as int)), ("retained_size_percent"@, J::Flt(u.size_percent))] }
    pub open spec fn jdoc(&self, items: ir::Items) -> J {
        let m = seq![("items"@, J::Arr(self.jitems(items, self.items@.len() as int)))];
        J::Obj(if self.unreachable_items_summary is Some { m.push(("summary"@, J::Arr(seq![J::Obj(self.jsum())]))) } else { m })
    }
    // CSV: the whole walk.
    pub open spec fn crecs(&self, items: ir::Items) -> Seq<Rec> {
        let r = self.shown(items).map_values(crec(items.im(), items.em(), items.size as int));
        match self.unreachable_items_summary {
            Some(u) => r.push(seq![("Id"@, Seq::empty()), ("Name"@, self.sum_name()), ("ShallowSize"@, dec(u.size as nat)), ("ShallowSizePercent"@, fcsv(u.size_percent)),
                ("RetainedSize"@, dec(u.size as nat)), ("RetainedSizePercent"@, fcsv(u.size_percent)), ("ImmediateDominator"@, Seq::empty())]),
            None => r }
    }
    /// The report asked for.
    pub open spec fn reports(&self, items: ir::Items, o: opt::DominatorsView) -> bool {
        &&& self.opts.shown() == o
        &&& starts(items, o, self.items@)
        &&& summary(items, o, self.unreachable_items_summary)
    }
}
pub open spec fn found(r: Option<&ir::Item>, o: Option<ir::Item>) -> bool { match r { Some(i) => o == Some(*i), None => o is None } }
/// Where the walk starts.
pub open spec fn starts(items: ir::Items, o: opt::DominatorsView, s: Seq<Id>) -> bool {
    if o.items.len() == 0 { s == seq![root_id()] }
    else if o.using_regexps {
        &&& rx_valid(args(o.items))
        &&& forall|n: Id| #[trigger] s.contains(n) <==> items.im().contains_key(n) && rx_any(args(o.items), items.im()[n].shown())
        &&& pairwise(s, before(items.im(), items.em()))
    } else { s == named(items, args(o.items), o.items.len() as int) }
}
/// The first items carrying these names, in the order given.
pub open spec fn named(items: ir::Items, ps: Seq<Seq<char>>, k: int) -> Seq<Id> decreases k {
    if k <= 0 || k > ps.len() { Seq::empty() } else { match items.by_name(ps[k - 1]) { Some(x) => named(items, ps, k - 1).push(x.id), None => named(items, ps, k - 1) } }
}
pub open spec fn lost_ids(items: ir::Items) -> Set<Id> { items.im().dom().filter(|n: Id| lost(items)(&items.im()[n])) }
/// Without arguments, what cannot be reached from the roots is counted.
pub open spec fn summary(items: ir::Items, o: opt::DominatorsView, u: Option<UnreachableItemsSummary>) -> bool {
    let z = ir::ssum(items.im(), lost_ids(items));
    if o.items.len() == 0 && z > 0 { u matches Some(s) && s.count == lost_ids(items).len() && s.size == z && s.size_percent == percent(z as int, items.size as int) } else { u is None }
}
@pre
pub open spec fn by_ret(im: Im, em: Em) -> spec_fn(Id, Id) -> core::cmp::Ordering { |a: Id, b: Id| if rsize(im, em, root_id(), b) < rsize(im, em, root_id(), a) { core::cmp::Ordering::Less } else if rsize(im, em, root_id(), b) == rsize(im, em, root_id(), a) { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
pub proof fn lemma_by_ret(im: Im, em: Em)
    ensures preorder(by_ret(im, em))
{ }
pub proof fn lemma_sorted_before(im: Im, em: Em, s: Seq<Id>, r: Seq<Id>)
    requires ir::sorted(s), exists|p: Seq<int>| #[trigger] sorts(s, r, by_ret(im, em), p)
    ensures pairwise(r, before(im, em)), r.len() == s.len(), forall|x: Id| #[trigger] r.contains(x) <==> s.contains(x)
{
    let g = by_ret(im, em); let p = choose|p: Seq<int>| #[trigger] sorts(s, r, g, p); let lt = before(im, em);
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies lt(r[i], r[j]) by {
        assert(r[i] == s[p[i]] && r[j] == s[p[j]]); assert(!(g(r[i], r[j]) is Greater)); if g(r[i], r[j]) is Equal { assert(p[i] < p[j]); assert(idlt(s[p[i]], s[p[j]])); }
    }
    assert forall|x: Id| #[trigger] r.contains(x) <==> s.contains(x) by {
        if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(s[p[i]] == x); }
        if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == j; assert(r[i] == x); }
    }
}
pub proof fn lemma_kids_unique(im: Im, em: Em, n: Id, s: Seq<Id>)
    requires is_kids(im, em, n, s)
    ensures s == kids(im, em, n)
{
    let t = kids(im, em, n); assert(is_kids(im, em, n, t));
    assert forall|x: Id| #[trigger] s.contains(x) <==> t.contains(x) by { }
    lemma_unique_list(s, t, before(im, em));
}
pub proof fn lemma_kids(im: Im, em: Em, t: Em, n: Id, s: Seq<Id>)
    requires tree_of(im, em, root_id(), t), exists|p: Seq<int>| #[trigger] sorts(at(t, n), s, by_ret(im, em), p)
    ensures s == kids(im, em, n), is_kids(im, em, n, s), s.len() == at(t, n).len()
{
    assert(ir::sorted(at(t, n)));
    lemma_sorted_before(im, em, at(t, n), s);
    assert(is_kids(im, em, n, s));
    lemma_kids_unique(im, em, n, s);
}
pub proof fn lemma_no_kids(im: Im, em: Em, t: Em, n: Id)
    requires tree_of(im, em, root_id(), t), at(t, n).len() == 0
    ensures kids(im, em, n).len() == 0
{
    let s = Seq::<Id>::empty();
    assert forall|c: Id| #[trigger] s.contains(c) <==> im.contains_key(c) && idom(adj(em), root_id(), n, c) by { assert(!at(t, n).contains(c)); }
    assert(is_kids(im, em, n, s));
    lemma_kids_unique(im, em, n, s);
}
/// A child, in the tree below its parent.
pub proof fn lemma_kid(items: ir::Items, t: Em, n: Id, k: int)
    requires items.wf(), tree_of(items.im(), items.em(), root_id(), t), is_kids(items.im(), items.em(), n, kids(items.im(), items.em(), n)), 0 <= k < kids(items.im(), items.em(), n).len()
    ensures ({ let c = kids(items.im(), items.em(), n)[k]; items.im().contains_key(c) && c != root_id() && under(items.im(), items.em(), c) < under(items.im(), items.em(), n) && items.im().contains_key(n) })
{
    let im = items.im(); let em = items.em(); let c = kids(im, em, n)[k];
    assert(kids(im, em, n).contains(c)); assert(idom(adj(em), root_id(), n, c));
    assert(at(t, n).contains(c)); let j = choose|j: int| 0 <= j < at(t, n).len() && at(t, n)[j] == c;
    assert(ir::closed(im, em, root_id()));
    ir::lemma_cover_step(im, em, root_id(), t, n, j);
    ir::lemma_root_no_idom(em, root_id());
}
// ---- the walk, piece by piece
pub proof fn lemma_deep(im: Im, em: Em, n: Id, d: int)
    ensures forall|i: int| #![trigger walk(im, em, n, d)[i]] 0 <= i < walk(im, em, n, d).len() ==> walk(im, em, n, d)[i].1 >= d
    decreases under(im, em, n), 1int, 0int
{
    let k = kids(im, em, n).len() as int; let w = walks(im, em, n, d, k);
    lemma_deeps(im, em, n, d, k); assert(walk(im, em, n, d) == seq![(n, d)] + w);
    assert forall|i: int| #![trigger walk(im, em, n, d)[i]] 0 <= i < walk(im, em, n, d).len() implies walk(im, em, n, d)[i].1 >= d by { if i > 0 { assert(w[i - 1].1 >= d); } }
}
pub proof fn lemma_deeps(im: Im, em: Em, n: Id, d: int, k: int)
    ensures forall|i: int| #![trigger walks(im, em, n, d, k)[i]] 0 <= i < walks(im, em, n, d, k).len() ==> walks(im, em, n, d, k)[i].1 >= d
    decreases under(im, em, n), 0int, k
{
    if k <= 0 || k > kids(im, em, n).len() { } else {
        let c = kids(im, em, n)[k - 1];
        lemma_deeps(im, em, n, d, k - 1);
        let a = walks(im, em, n, d, k - 1); let b = if under(im, em, c) < under(im, em, n) { walk(im, em, c, d + 1) } else { Seq::empty() };
        if under(im, em, c) < under(im, em, n) { lemma_deep(im, em, c, d + 1); }
        assert(walks(im, em, n, d, k) == a + b);
        assert forall|i: int| #![trigger walks(im, em, n, d, k)[i]] 0 <= i < walks(im, em, n, d, k).len() implies walks(im, em, n, d, k)[i].1 >= d by { if i < a.len() { assert(a[i].1 >= d); } else { assert(b[i - a.len()].1 >= d + 1); } }
    }
}
pub proof fn lemma_too_deep(im: Im, em: Em, n: Id, d: int, max: int)
    requires d > max
    ensures walk(im, em, n, d).filter(shallow(max)) =~= Seq::empty()
{
    let w = walk(im, em, n, d); let f = w.filter(shallow(max));
    lemma_deep(im, em, n, d); lemma_filter(w, shallow(max));
    if f.len() > 0 { assert(w.contains(f[0])); let i = choose|i: int| 0 <= i < w.len() && w[i] == f[0]; assert(w[i].1 >= d); assert(shallow(max)(f[0])); }
}
/// Below the first `k` children, `n` included.
pub open spec fn upper(im: Im, em: Em, n: Id, d: int, k: int) -> Seq<(Id, int)> { seq![(n, d)] + walks(im, em, n, d, k) }
pub proof fn lemma_filter_add<T>(a: Seq<T>, b: Seq<T>, q: spec_fn(T) -> bool)
    ensures (a + b).filter(q) == a.filter(q) + b.filter(q)
    decreases b.len()
{
    reveal(Seq::filter);
    if b.len() == 0 { assert(a + b =~= a); assert(a.filter(q) + b.filter(q) =~= a.filter(q)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last()); lemma_filter_add(a, b.drop_last(), q);
        assert((a + b).last() == b.last());
        assert((a + b).filter(q) =~= a.filter(q) + b.filter(q));
    }
}
pub proof fn lemma_upto_add<T>(a: Seq<T>, b: Seq<T>, m: int)
    ensures upto(a + b, m) == upto(a, m) + upto(b, m - upto(a, m).len())
{ assert(upto(a + b, m) =~= upto(a, m) + upto(b, m - upto(a, m).len())); }
pub proof fn lemma_map_add<A, B>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> B)
    ensures (a + b).map_values(f) == a.map_values(f) + b.map_values(f)
{ assert((a + b).map_values(f) =~= a.map_values(f) + b.map_values(f)); }
/// The part of a walk a report shows.
pub open spec fn part(w: Seq<(Id, int)>, max: int, m: int) -> Seq<(Id, int)> { upto(w.filter(shallow(max)), m) }
pub proof fn lemma_part_add(a: Seq<(Id, int)>, b: Seq<(Id, int)>, max: int, m: int, f: spec_fn((Id, int)) -> Seq<Seq<char>>)
    ensures part(a + b, max, m) == part(a, max, m) + part(b, max, m - part(a, max, m).len()), part(a + b, max, m).map_values(f) == part(a, max, m).map_values(f) + part(b, max, m - part(a, max, m).len()).map_values(f)
{ lemma_filter_add(a, b, shallow(max)); lemma_upto_add(a.filter(shallow(max)), b.filter(shallow(max)), m); lemma_map_add(part(a, max, m), part(b, max, m - part(a, max, m).len()), f); }
pub proof fn lemma_part_one(n: Id, d: int, max: int, m: int)
    ensures part(seq![(n, d)], max, m) =~= (if 0 < d <= max && m > 0 { seq![(n, d)] } else { Seq::<(Id, int)>::empty() })
{
    reveal(Seq::filter); let s = seq![(n, d)];
    assert(s.drop_last() =~= Seq::empty()); assert(s.last() == (n, d)); assert(s.drop_last().filter(shallow(max)) =~= Seq::empty());
    assert(s.filter(shallow(max)) =~= if 0 < d <= max { seq![(n, d)] } else { Seq::<(Id, int)>::empty() });
}
pub proof fn lemma_part_none(w: Seq<(Id, int)>, max: int, m: int)
    requires m <= 0
    ensures part(w, max, m) =~= Seq::empty()
{ }
/// How deep it started does not matter to a record.
pub proof fn lemma_depth_free(im: Im, em: Em, total: int, n: Id, d: int, e: int)
    ensures walk(im, em, n, d).map_values(crec(im, em, total)) == walk(im, em, n, e).map_values(crec(im, em, total))
    decreases under(im, em, n), 1int, 0int
{
    let f = crec(im, em, total); let k = kids(im, em, n).len() as int;
    lemma_depth_frees(im, em, total, n, d, e, k);
    lemma_map_add(seq![(n, d)], walks(im, em, n, d, k), f); lemma_map_add(seq![(n, e)], walks(im, em, n, e, k), f);
    assert(seq![(n, d)].map_values(f) =~= seq![(n, e)].map_values(f));
}
pub proof fn lemma_depth_frees(im: Im, em: Em, total: int, n: Id, d: int, e: int, k: int)
    ensures walks(im, em, n, d, k).map_values(crec(im, em, total)) == walks(im, em, n, e, k).map_values(crec(im, em, total))
    decreases under(im, em, n), 0int, k
{
    let f = crec(im, em, total);
    if k <= 0 || k > kids(im, em, n).len() { } else {
        let c = kids(im, em, n)[k - 1];
        lemma_depth_frees(im, em, total, n, d, e, k - 1);
        if under(im, em, c) < under(im, em, n) { lemma_depth_free(im, em, total, c, d + 1, e + 1); }
        let x = if under(im, em, c) < under(im, em, n) { walk(im, em, c, d + 1) } else { Seq::empty() };
        let y = if under(im, em, c) < under(im, em, n) { walk(im, em, c, e + 1) } else { Seq::empty() };
        assert(x.map_values(f) =~= y.map_values(f));
        lemma_map_add(walks(im, em, n, d, k - 1), x, f); lemma_map_add(walks(im, em, n, e, k - 1), y, f);
    }
}
pub proof fn lemma_crec(im: Im, em: Em, total: int, n: Id, d: int)
    ensures crec(im, em, total)((n, d)) == crec(im, em, total)((n, 0))
{ }
pub proof fn lemma_children(items: ir::Items, t: Em, n: Id)
    requires items.wf(), tree_of(items.im(), items.em(), root_id(), t)
    ensures items.meta_root == root_id(), preorder(by_ret(items.im(), items.em())), at(t, n).len() == 0 ==> kids(items.im(), items.em(), n).len() == 0, t.contains_key(n) ==> t[n]@.len() > 0,
        forall|i: int| 0 <= i < at(t, n).len() ==> items.im().contains_key(#[trigger] at(t, n)[i])
{
    lemma_by_ret(items.im(), items.em());
    if at(t, n).len() == 0 { lemma_no_kids(items.im(), items.em(), t, n); }
    assert forall|i: int| 0 <= i < at(t, n).len() implies items.im().contains_key(#[trigger] at(t, n)[i]) by { assert(at(t, n).contains(at(t, n)[i])); }
}
pub proof fn lemma_rows(im: Im, em: Em, n: Id, d: int, max: int, m: int, f: spec_fn((Id, int)) -> Seq<Seq<char>>)
    ensures part(upper(im, em, n, d, 0), max, m) == (if 0 < d <= max && m > 0 { seq![(n, d)] } else { Seq::<(Id, int)>::empty() }),
        part(upper(im, em, n, d, 0), max, m).map_values(f) == (if 0 < d <= max && m > 0 { seq![f((n, d))] } else { Seq::<Seq<Seq<char>>>::empty() }),
        walk(im, em, n, d) == upper(im, em, n, d, kids(im, em, n).len() as int),
        m <= 0 || d > max ==> part(walk(im, em, n, d), max, m) == Seq::<(Id, int)>::empty() && part(walk(im, em, n, d), max, m).map_values(f) == Seq::<Seq<Seq<char>>>::empty()
{
    lemma_part_one(n, d, max, m); assert(upper(im, em, n, d, 0) =~= seq![(n, d)]);
    assert(part(upper(im, em, n, d, 0), max, m).map_values(f) =~= (if 0 < d <= max && m > 0 { seq![f((n, d))] } else { Seq::<Seq<Seq<char>>>::empty() }));
    if m <= 0 { lemma_part_none(walk(im, em, n, d), max, m); }
    if d > max { lemma_too_deep(im, em, n, d, max); }
    if m <= 0 || d > max { assert(part(walk(im, em, n, d), max, m).map_values(f) =~= Seq::<Seq<Seq<char>>>::empty()); }
}
pub proof fn lemma_row(items: ir::Items, t: Em, n: Id, k: int, d: int, max: int, m: int, f: spec_fn((Id, int)) -> Seq<Seq<char>>)
    requires items.wf(), tree_of(items.im(), items.em(), root_id(), t), is_kids(items.im(), items.em(), n, kids(items.im(), items.em(), n)), 0 <= k < kids(items.im(), items.em(), n).len()
    ensures ({ let im = items.im(); let em = items.em(); let c = kids(im, em, n)[k]; let a = part(upper(im, em, n, d, k), max, m);
        &&& im.contains_key(c) && c != root_id() && under(im, em, c) < under(im, em, n)
        &&& part(upper(im, em, n, d, k + 1), max, m).len() == a.len() + part(walk(im, em, c, d + 1), max, m - a.len()).len()
        &&& part(upper(im, em, n, d, k + 1), max, m).map_values(f) == a.map_values(f) + part(walk(im, em, c, d + 1), max, m - a.len()).map_values(f) })
{
    let im = items.im(); let em = items.em(); let c = kids(im, em, n)[k];
    lemma_kid(items, t, n, k);
    assert(upper(im, em, n, d, k + 1) =~= upper(im, em, n, d, k) + walk(im, em, c, d + 1));
    lemma_part_add(upper(im, em, n, d, k), walk(im, em, c, d + 1), max, m, f);
}
/// The immediate dominator a map gives.
pub proof fn lemma_idom_id(im: Im, em: Em, t: Map<Id, Id>, n: Id)
    requires ir::idoms_of(im, em, root_id(), t), im.contains_key(n)
    ensures idom_id(im, em, n) == (if t.contains_key(n) { t[n] } else { n })
{
    if t.contains_key(n) { let d = idom_id(im, em, n); assert(idom(adj(em), root_id(), t[n], n)); assert(idom(adj(em), root_id(), d, n)); crate::graph::lemma_idom_unique(adj(em), root_id(), t[n], d, n); }
    else if exists|d: Id| idom(adj(em), root_id(), d, n) {
        let d = choose|d: Id| idom(adj(em), root_id(), d, n);
        assert(crate::graph::sdom(adj(em), root_id(), d, n)); crate::graph::lemma_dom_reach(adj(em), root_id(), d, n);
        ir::lemma_root_no_idom(em, root_id());
    }
}
pub proof fn lemma_under(items: ir::Items, n: Id)
    requires items.graph_wf()
    ensures under(items.im(), items.em(), n) <= items.im().dom().len()
{
    broadcast use vstd::set::group_set_lemmas;
    ir::lemma_dset(items.im(), items.em(), root_id(), n);
    vstd::set_lib::lemma_len_subset(dset(items.im(), items.em(), root_id(), n), items.im().dom());
}
// ---- what is listed
pub open spec fn id_of<'a>() -> spec_fn(&'a ir::Item) -> Id { |x: &'a ir::Item| x.id }
pub open spec fn chosen<'a>(items: ir::Items, q: spec_fn(&'a ir::Item) -> bool) -> Seq<&'a ir::Item> { refs(items.item_seq()).filter(q) }
pub proof fn lemma_chosen<'a>(items: ir::Items, q: spec_fn(&'a ir::Item) -> bool)
    requires items.wf()
    ensures ({ let ls = chosen(items, q); let ids = ls.map_values(id_of());
        &&& ir::sorted(ids) && listed(items.im(), ids) && ls.len() <= items.im().dom().len()
        &&& forall|n: Id| #[trigger] ids.contains(n) <==> items.im().contains_key(n) && q(&items.im()[n])
        &&& ints(ls.map_values(size_of())) == sizes(items.im(), ids) })
{
    ir::lemma_item_seq(items);
    let all: Seq<&'a ir::Item> = refs(items.item_seq()); let ls = chosen(items, q); let ids = ls.map_values(id_of());
    let rel = |a: &'a ir::Item, b: &'a ir::Item| idlt(a.id, b.id);
    assert forall|i: int, j: int| #![trigger all[i], all[j]] 0 <= i < j < all.len() implies rel(all[i], all[j]) by { assert(*all[i] == items.item_seq()[i] && *all[j] == items.item_seq()[j]); }
    lemma_filter_pairwise(all, q, rel); lemma_filter(all, q);
    assert forall|i: int, j: int| #![trigger ids[i], ids[j]] 0 <= i < j < ids.len() implies idlt(ids[i], ids[j]) by { assert(rel(ls[i], ls[j])); }
    assert forall|i: int| #![trigger ids[i]] #![trigger ls[i]] 0 <= i < ids.len() implies items.im().contains_key(ids[i]) && *ls[i] == items.im()[ids[i]] && q(ls[i]) by {
        assert(ls.contains(ls[i])); assert(all.contains(ls[i])); let k = choose|k: int| 0 <= k < all.len() && all[k] == ls[i]; assert(items.item_seq()[k] == *ls[i]); assert(ids[i] == ls[i].id);
    }
    assert forall|n: Id| #[trigger] ids.contains(n) <==> items.im().contains_key(n) && q(&items.im()[n]) by {
        if ids.contains(n) { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == n; assert(*ls[i] == items.im()[ids[i]]); }
        if items.im().contains_key(n) && q(&items.im()[n]) {
            let j = choose|j: int| 0 <= j < items.item_seq().len() && (#[trigger] items.item_seq()[j]).id == n;
            assert(*all[j] == items.item_seq()[j]); assert(*all[j] == items.im()[n]); assert(all.contains(all[j])); assert(ls.contains(all[j]));
            let m = choose|m: int| 0 <= m < ls.len() && ls[m] == all[j]; assert(ids[m] == n);
        }
    }
    assert forall|i: int, j: int| 0 <= i < ids.len() && 0 <= j < ids.len() && i != j implies ids[i] != ids[j] by { if i < j { assert(idlt(ids[i], ids[j])); } else { assert(idlt(ids[j], ids[i])); } }
    assert(ints(ls.map_values(size_of())) =~= sizes(items.im(), ids)) by {
        assert forall|i: int| 0 <= i < ls.len() implies ints(ls.map_values(size_of()))[i] == sizes(items.im(), ids)[i] by { assert(*ls[i] == items.im()[ids[i]]); }
    }
}
pub proof fn lemma_lost(items: ir::Items)
    requires items.wf()
    ensures ({ let ls = chosen(items, lost(items)); let z = ints(ls.map_values(size_of()));
        &&& ls.len() == lost_ids(items).len() && z.len() == ls.len() && isum(z) == ir::ssum(items.im(), lost_ids(items))
        &&& forall|k: int| #![trigger psum(z, k)] 0 <= k < z.len() ==> 0 <= psum(z, k) && psum(z, k) + z[k] <= u32::MAX && z[k] == ls[k].size
        &&& psum(z, 0) == 0 && ls.len() <= items.im().dom().len() })
{
    broadcast use vstd::set::group_set_lemmas;
    let ls = chosen(items, lost(items)); let ids = ls.map_values(id_of()); let z = ints(ls.map_values(size_of()));
    lemma_chosen(items, lost(items));
    lemma_sizes(items.im(), ids);
    assert(ids.to_set() =~= lost_ids(items)) by { assert forall|n: Id| ids.to_set().contains(n) <==> lost_ids(items).contains(n) by { assert(ids.contains(n) <==> items.im().contains_key(n) && lost(items)(&items.im()[n])); } }
    ids.unique_seq_to_set();
    assert forall|k: int| #![trigger psum(z, k)] 0 <= k < z.len() implies 0 <= psum(z, k) && psum(z, k) + z[k] <= u32::MAX && z[k] == ls[k].size by { assert(psum(sizes(items.im(), ids), k) >= 0); assert(z[k] == ls[k].size); assert(items.im()[ids[k]].size == z[k]); }
}
pub open spec fn matching<'a>(ps: Seq<Seq<char>>) -> spec_fn(&'a ir::Item) -> bool { |x: &'a ir::Item| rx_any(ps, x.shown()) }
pub open spec fn first_named<'a>(items: ir::Items) -> spec_fn(&'a String) -> Option<&'a ir::Item> { |s: &'a String| match items.by_name(s@) { Some(i) => Some(&i), None => None } }
pub proof fn lemma_named<'a>(items: ir::Items, s: Seq<String>, k: int)
    requires 0 <= k <= s.len()
    ensures filter_map_seq(refs::<'a, String>(s).take(k), first_named(items)).map_values(id_of()) =~= named(items, args(s), k)
    decreases k
{
    if k > 0 {
        lemma_named(items, s, k - 1);
        let t = refs::<'a, String>(s).take(k); assert(t.drop_last() =~= refs::<'a, String>(s).take(k - 1)); assert(t.last()@ == args(s)[k - 1]);
    }
}
pub proof fn lemma_all_named<'a>(items: ir::Items, s: Seq<String>)
    requires items.wf()
    ensures filter_map_seq(refs::<'a, String>(s), first_named(items)).map_values(id_of()) == named(items, args(s), s.len() as int), forall|i: int| #![trigger named(items, args(s), s.len() as int)[i]] 0 <= i < named(items, args(s), s.len() as int).len() ==> items.im().contains_key(named(items, args(s), s.len() as int)[i])
{
    lemma_named(items, s, s.len() as int); assert(refs::<'a, String>(s).take(s.len() as int) =~= refs::<'a, String>(s));
    lemma_named_in(items, args(s), s.len() as int);
}
pub proof fn lemma_named_in(items: ir::Items, ps: Seq<Seq<char>>, k: int)
    requires items.wf()
    ensures forall|i: int| #![trigger named(items, ps, k)[i]] 0 <= i < named(items, ps, k).len() ==> items.im().contains_key(named(items, ps, k)[i])
    decreases k
{
    if k <= 0 || k > ps.len() { } else {
        lemma_named_in(items, ps, k - 1); ir::lemma_item_seq(items);
        assert forall|i: int| #![trigger named(items, ps, k)[i]] 0 <= i < named(items, ps, k - 1).len() implies items.im().contains_key(named(items, ps, k)[i]) by { assert(named(items, ps, k)[i] == named(items, ps, k - 1)[i]); }
        if items.by_name(ps[k - 1]) is Some { let x = items.by_name(ps[k - 1])->Some_0; lemma_find_in(items.item_seq(), |i: ir::Item| i.shown() == ps[k - 1]); let j = choose|j: int| 0 <= j < items.item_seq().len() && items.item_seq()[j] == x; assert(items.im().contains_key(items.item_seq()[j].id)); }
    }
}
pub proof fn lemma_find_in<T>(s: Seq<T>, q: spec_fn(T) -> bool)
    ensures find_seq(s, q) matches Some(x) ==> s.contains(x)
    decreases s.len()
{ if s.len() > 0 { if q(s[0]) { assert(s.contains(s[0])); } else { lemma_find_in(s.drop_first(), q); if let Some(x) = find_seq(s.drop_first(), q) { let j = choose|j: int| 0 <= j < s.drop_first().len() && s.drop_first()[j] == x; assert(s[j + 1] == x); } } } }
pub proof fn lemma_matched(items: ir::Items, ps: Seq<Seq<char>>, r: Seq<Id>)
    requires items.wf(), exists|p: Seq<int>| #[trigger] sorts(chosen(items, matching(ps)).map_values(id_of()), r, key_order(ret_key(items.im(), items.em())), p)
    ensures forall|n: Id| #[trigger] r.contains(n) <==> items.im().contains_key(n) && rx_any(ps, items.im()[n].shown()), pairwise(r, before(items.im(), items.em()))
{
    let im = items.im(); let em = items.em();
    lemma_chosen(items, matching(ps));
    let s = chosen(items, matching(ps)).map_values(id_of());
    let p = choose|p: Seq<int>| #[trigger] sorts(s, r, key_order(ret_key(im, em)), p);
    lemma_key_order(items);
    assert(sorts(s, r, key_order(ret_key(im, em)), p));
    lemma_sorts_same(s, r, key_order(ret_key(im, em)), by_ret(im, em), p);
    lemma_sorted_before(im, em, s, r);
}
pub proof fn lemma_key_order(items: ir::Items)
    requires items.graph_wf()
    ensures forall|a: Id, b: Id| #[trigger] key_order(ret_key(items.im(), items.em()))(a, b) == by_ret(items.im(), items.em())(a, b), preorder(key_order(ret_key(items.im(), items.em())))
{
    let im = items.im(); let em = items.em();
    assert forall|a: Id| #[trigger] rsize(im, em, root_id(), a) <= u32::MAX by { broadcast use vstd::set::group_set_lemmas; ir::lemma_ssum_subset(im, dset(im, em, root_id(), a), im.dom()); }
    assert forall|a: Id, b: Id| #[trigger] key_order(ret_key(im, em))(a, b) == by_ret(im, em)(a, b) by { assert(rsize(im, em, root_id(), a) <= u32::MAX && rsize(im, em, root_id(), b) <= u32::MAX); }
    lemma_by_ret(im, em);
    assert forall|a: Id, b: Id| #[trigger] key_order(ret_key(im, em))(a, b) is Less <==> key_order(ret_key(im, em))(b, a) is Greater by { }
}
@fn dominators ret=r
    requires old(items).wf(), old(items).im().dom().len() <= i32::MAX
    ensures final(items).wf(), final(items).same_graph(*old(items)),
        r is Err <==> opts.shown().items.len() > 0 && opts.shown().using_regexps && !rx_valid(args(opts.shown().items)),
        r matches Ok(b) ==> exists|t: DominatorTree| #[trigger] t.reports(*final(items), opts.shown()) && t.ok(*final(items))
            && b.vp_ok(*final(items)) && b.vp_text(*final(items)) == t.vp_text(*final(items)) && b.vp_json(*final(items)) == t.vp_json(*final(items)) && b.vp_csv(*final(items)) == t.vp_csv(*final(items))
@fn summarize_unreachable_items ret=r
    requires old(items).wf(), old(items).im().dom().len() <= i32::MAX
    ensures *final(items) == *old(items), summary(*old(items), opts.shown(), r)

@closure dominators 0
|&&ir::Item| -> (b: bool)
    ensures b == rx_any(args(opts.shown().items), $0.shown())
@closure dominators 1
|&ir::Item| -> (x: Id)
    ensures x == $0.id
@closure dominators 2
|&Id| -> (k: i64)
    requires items.im().contains_key(*$0)
    ensures k == ret_key(items.im(), items.em())(*$0)
@ghostarg dominators sort_by_key
Ghost(ret_key(im, em))
@closure dominators 3
|&String| -> (r: Option<_>)
    ensures found(r, byn($0@))
@closure dominators 4
|&ir::Item| -> (x: Id)
    ensures x == $0.id
@closure summarize_unreachable_items 0
|&ir::Item| -> (z: u32)
    ensures z == $0.size
@ghostarg summarize_unreachable_items fold
Ghost(|k: int, a: (u32, usize)| a.0 == psum(zs, k) && a.1 == k)
@closure summarize_unreachable_items 1
|(u32, usize), u32| -> (r: (u32, usize))
    requires $0.0 + $1 <= u32::MAX, $0.1 < usize::MAX
    ensures r.0 == $0.0 + $1, r.1 == $0.1 + 1
@pre
pub open spec fn ret_key(im: Im, em: Em) -> spec_fn(Id) -> i64 { |x: Id| (-(rsize(im, em, root_id(), x) as int)) as i64 }
@entry dominators
    let ghost o = opts.shown(); let ghost ps = args(o.items);
@before dominators is_empty#0
    let ghost im = items.im(); let ghost em = items.em(); let ghost byn = |s: Seq<char>| items.by_name(s);
@before dominators new
    let ghost us = chosen(*items, matching(ps)); let ghost ids0 = us.map_values(id_of());
    proof { lemma_chosen(*items, matching(ps)); lemma_key_order(*items); }
@before dominators sort_by_key
    proof { assert(sorted_items@ == ids0); assert forall|i: int| 0 <= i < ids0.len() implies im.contains_key(#[trigger] ids0[i]) by { assert(ids0.contains(ids0[i])); } }
@after dominators sort_by_key
    proof { lemma_matched(*items, ps, sorted_items@); assert forall|i: int| 0 <= i < sorted_items@.len() implies im.contains_key(#[trigger] sorted_items@[i]) by { assert(sorted_items@.contains(sorted_items@[i])); } }
@before dominators dominator_tree
    proof {
        lemma_all_named(*items, opts.items@);
        if o.items.len() == 0 { assert(dominator_items@ =~= seq![root_id()]); }
        assert(starts(*items, o, dominator_items@));
    }
@exit dominators
    proof { assert(tree.reports(*items, o)); assert(tree.ok(*items)); }
@entry summarize_unreachable_items
    let ghost ls = chosen(*items, lost(*items)); let ghost zs = ints(ls.map_values(size_of()));
    proof { lemma_lost(*items); }

@module twiggy_analyze::analyses::dominators::emit analyze/analyses/dominators/emit.rs
@opt close=array
@opt close=object
@opt close=from_writer
@pre
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::vp::*;
use crate::vp_text::*;
use crate::vp_more::*;
use crate::report::*;
use crate::csv::{csv_text, fcsv, entry, line, lemma_csv_push, VpRecord, VpCell};
use crate::twiggy_analyze::formats::json::{J, render, sep, quoted};
use crate::vp_std::io::{Sink, wrote};
use crate::ir::{Id, Im, Em, rsize, root_id, dset, tree_of, at, adj, idlt};
use crate::graph::idom;
use crate::twiggy_analyze::analyses::dominators::*;
broadcast use {crate::vp::group_vp, crate::vp_text::group_num, crate::vp_text::group_f64, crate::ir_ord::lemma_id_key, vstd::std_specs::btree::group_btree_axioms};
@inject `Emit for DominatorTree`
    open spec fn vp_ok(&self, items: ir::Items) -> bool { self.ok(items) }
    open spec fn vp_text(&self, items: ir::Items) -> Seq<char> { ttext(head(), self.rows(items)) }
    open spec fn vp_json(&self, items: ir::Items) -> Seq<char> { render(self.jdoc(items)) }
    open spec fn vp_csv(&self, items: ir::Items) -> Seq<char> { csv_text(self.crecs(items)) }
@fn add_text_item
    requires items.wf(), items.im().contains_key(id), items.retained_sizes is Some, old(table).wf(), old(table).cols() == 3, depth > 0
    ensures final(table).wf(), final(table).cols() == 3, final(table).hv() == old(table).hv(), final(table).rv() =~= old(table).rv().push(trow(items.im(), items.em(), items.size as int)((id, depth as int)))

@fn add_json_item ret=r
    requires items.wf(), items.im().contains_key(id), items.retained_sizes is Some, !old(obj).need_comma
    ensures r is Ok ==> final(obj).need_comma,
        wrote(old(obj).w.vp_sink(), final(obj).w.vp_sink(), jmembers(jfields(items.im(), items.em(), items.size as int, id)), r is Ok), final(final(obj).w).vp_sink() == final(old(obj).w).vp_sink()
@fn add_csv_item ret=r
    requires items.wf(), items.im().contains_key(id), items.retained_sizes is Some, items.immediate_dominators is Some, !old(wtr).st@.dirty
    ensures final(final(wtr).w).vp_sink() == final(old(wtr).w).vp_sink(),
        r is Ok ==> !final(wtr).st@.dirty && final(wtr).st@.n == old(wtr).st@.n + 1 && added(old(wtr).st@.sink, final(wtr).st@.sink, seq![crec(items.im(), items.em(), items.size as int)((id, 0))], old(wtr).st@.n == 0),
        r is Err ==> failed(old(wtr).st@.sink, final(wtr).st@.sink) && final(wtr).w.vp_sink() == final(wtr).st@.sink
@fn `Emit for DominatorTree::emit_text::recursive_add_rows`
    requires items.wf(), items.im().contains_key(id), items.retained_sizes is Some, tree_of(items.im(), items.em(), root_id(), dominator_tree@),
        old(table).wf(), old(table).cols() == 3, (id == root_id()) == (depth == 0), depth + under(items.im(), items.em(), id) <= u32::MAX
    ensures final(table).wf(), final(table).cols() == 3, final(table).hv() == old(table).hv(),
        ({ let v = part(walk(items.im(), items.em(), id, depth as int), opts.shown().max_depth as int, opts.shown().max_rows - *old(row));
            final(table).rv() =~= old(table).rv() + v.map_values(trow(items.im(), items.em(), items.size as int)) && *final(row) == *old(row) + v.len() })
    decreases under(items.im(), items.em(), id)
@fn `Emit for DominatorTree::emit_json::recursive_add_children` ret=r
    requires items.wf(), items.im().contains_key(id), items.retained_sizes is Some, tree_of(items.im(), items.em(), root_id(), dominator_tree@), !old(obj).need_comma
    ensures r is Ok ==> final(obj).need_comma,
        wrote(old(obj).w.vp_sink(), final(obj).w.vp_sink(), jmembers(jnode(items.im(), items.em(), items.size as int, id)), r is Ok), final(final(obj).w).vp_sink() == final(old(obj).w).vp_sink()
    decreases under(items.im(), items.em(), id)
@fn `Emit for DominatorTree::emit_csv::recursive_add_children` ret=r
    requires items.wf(), items.im().contains_key(id), items.retained_sizes is Some, items.immediate_dominators is Some, tree_of(items.im(), items.em(), root_id(), dominator_tree@), !old(wtr).st@.dirty, old(wtr).st@.n >= 0
    ensures final(final(wtr).w).vp_sink() == final(old(wtr).w).vp_sink(),
        r is Ok ==> !final(wtr).st@.dirty && ({ let v = walk(items.im(), items.em(), id, start_depth(id)).map_values(crec(items.im(), items.em(), items.size as int)); final(wtr).st@.n == old(wtr).st@.n + v.len() && added(old(wtr).st@.sink, final(wtr).st@.sink, v, old(wtr).st@.n == 0) }),
        r is Err ==> failed(old(wtr).st@.sink, final(wtr).st@.sink) && final(wtr).w.vp_sink() == final(wtr).st@.sink
    decreases under(items.im(), items.em(), id)
@closure `Emit for DominatorTree::emit_text::recursive_add_rows` 0
|&Id, &Id| -> (o: core::cmp::Ordering)
    requires items.im().contains_key(*$0), items.im().contains_key(*$1)
    ensures o == by_ret(items.im(), items.em())(*$0, *$1)
@before `Emit for DominatorTree::emit_text::recursive_add_rows` sort_by
    assert forall|i: int| 0 <= i < children@.len() implies im.contains_key(#[trigger] children@[i]) by { assert(children@[i] == at(dominator_tree@, id)[i]); }
@ghostarg `Emit for DominatorTree::emit_text::recursive_add_rows` sort_by
Ghost(by_ret(items.im(), items.em()))
@closure `Emit for DominatorTree::emit_json::recursive_add_children` 0
|&Id, &Id| -> (o: core::cmp::Ordering)
    requires items.im().contains_key(*$0), items.im().contains_key(*$1)
    ensures o == by_ret(items.im(), items.em())(*$0, *$1)
@before `Emit for DominatorTree::emit_json::recursive_add_children` sort_by
    assert forall|i: int| 0 <= i < children@.len() implies im.contains_key(#[trigger] children@[i]) by { assert(children@[i] == at(dominator_tree@, id)[i]); }
@ghostarg `Emit for DominatorTree::emit_json::recursive_add_children` sort_by
Ghost(by_ret(items.im(), items.em()))
@closure `Emit for DominatorTree::emit_csv::recursive_add_children` 0
|&Id, &Id| -> (o: core::cmp::Ordering)
    requires items.im().contains_key(*$0), items.im().contains_key(*$1)
    ensures o == by_ret(items.im(), items.em())(*$0, *$1)
@before `Emit for DominatorTree::emit_csv::recursive_add_children` sort_by
    assert forall|i: int| 0 <= i < children@.len() implies im.contains_key(#[trigger] children@[i]) by { assert(children@[i] == at(dominator_tree@, id)[i]); }
@ghostarg `Emit for DominatorTree::emit_csv::recursive_add_children` sort_by
Ghost(by_ret(items.im(), items.em()))
@attr add_text_item
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry add_text_item
    broadcast use crate::vp_text::axiom_str_len;
    proof { lemma_blen_max("⤷ "@); reveal_strlit("⤷ "); }
@looppre add_text_item 0
    let ghost nm = items.im()[id].shown(); let ghost sz = dec(rsize(items.im(), items.em(), root_id(), id));
@loop add_text_item 0 iter=it
    invariant label@ =~= indent(2 + it.index()), it.seq().len() == if depth >= 2 { depth - 2 } else { 0 }
@exit add_text_item
    assert(table.rv().last() =~= trow(items.im(), items.em(), items.size as int)((id, depth as int)));
@attr add_json_item
#[verifier::rlimit(60)]
@entry add_json_item
    hide(wrote);
    broadcast use crate::report::lemma_wrote;
    let ghost o0 = obj.w.vp_sink(); let ghost m = jfields(items.im(), items.em(), items.size as int, id); let ghost e = Seq::<(Seq<char>, J)>::empty();
    proof { lemma_no_members(o0); }
@after add_json_item field#0
    let ghost o1 = obj.w.vp_sink(); proof { lemma_membered(o0, o0, o1, e, m[0]); }
@after add_json_item field#1
    let ghost o2 = obj.w.vp_sink(); proof { lemma_membered(o0, o1, o2, e.push(m[0]), m[1]); }
@after add_json_item field#2
    let ghost o3 = obj.w.vp_sink(); proof { lemma_membered(o0, o2, o3, e.push(m[0]).push(m[1]), m[2]); }
@after add_json_item field#3
    let ghost o4 = obj.w.vp_sink(); proof { lemma_membered(o0, o3, o4, e.push(m[0]).push(m[1]).push(m[2]), m[3]); }
@after add_json_item field#4
    proof { lemma_membered(o0, o4, obj.w.vp_sink(), e.push(m[0]).push(m[1]).push(m[2]).push(m[3]), m[4]); assert(e.push(m[0]).push(m[1]).push(m[2]).push(m[3]).push(m[4]) =~= m); }
@entry add_csv_item
    hide(wrote);
    broadcast use crate::report::lemma_wrote;
    let ghost s0 = wtr.st@.sink; let ghost f = wtr.st@.n == 0;
    proof { lemma_idom_id(items.im(), items.em(), items.immediate_dominators->Some_0@, id); }
@after add_csv_item serialize
    let ghost s1 = wtr.st@.sink;
@after add_csv_item flush
    proof { lemma_added_one(s0, s1, wtr.st@.sink, crec(items.im(), items.em(), items.size as int)((id, 0)), f); }

@attr `Emit for DominatorTree::emit_text::recursive_add_rows`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for DominatorTree::emit_text::recursive_add_rows`
    hide(ir::Items::wf); hide(tree_of); hide(walk); hide(walks); hide(upper); hide(part); hide(under); hide(sorts); hide(rsize); hide(trow); hide(kids); hide(is_kids); hide(idom); hide(dset); hide(preorder);
    let ghost im = items.im(); let ghost em = items.em(); let ghost d = depth as int; let ghost max = opts.shown().max_depth as int; let ghost f = trow(im, em, items.size as int);
    let ghost rv0 = table.rv(); let ghost row0 = *row as int; let ghost m = opts.shown().max_rows - row0;
    proof { lemma_rows(im, em, id, d, max, m, f); lemma_children(*items, dominator_tree@, id); }
@looppre `Emit for DominatorTree::emit_text::recursive_add_rows` 0
    let ghost ks = children@;
    proof {
        lemma_kids(im, em, dominator_tree@, id, ks);
        assert(table.rv() =~= rv0 + part(upper(im, em, id, d, 0), max, m).map_values(f));
    }
@loop `Emit for DominatorTree::emit_text::recursive_add_rows` 0 iter=it
    invariant
        it.seq() == ks, table.wf(), table.cols() == 3, table.hv() == old(table).hv(),
        table.rv() =~= rv0 + part(upper(im, em, id, d, it.index() as int), max, m).map_values(f), *row == row0 + part(upper(im, em, id, d, it.index() as int), max, m).len(),
@loopentry `Emit for DominatorTree::emit_text::recursive_add_rows` 0
    proof { lemma_row(*items, dominator_tree@, id, it.index() as int, d, max, m, f); assert(child == kids(im, em, id)[it.index() as int]); }

@attr `Emit for DominatorTree::emit_text`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for DominatorTree::emit_text`
    let ghost im = items.im(); let ghost em = items.em(); let ghost max = self.opts.shown().max_depth as int; let ghost f = trow(im, em, items.size as int); let ghost m = self.opts.shown().max_rows as int;
@looppre `Emit for DominatorTree::emit_text` 0
    proof { assert(table.hv() =~= head()); lemma_filter(walk_all(im, em, self.items@, 0), shallow(max)); assert(table.rv() =~= part(walk_all(im, em, self.items@, 0), max, m).map_values(f)); }
@loop `Emit for DominatorTree::emit_text` 0 iter=it
    invariant
        it.seq() == refs(self.items@), table.wf(), table.cols() == 3, table.hv() == head(),
        table.rv() =~= part(walk_all(im, em, self.items@, it.index() as int), max, m).map_values(f), row == part(walk_all(im, em, self.items@, it.index() as int), max, m).len(),
@loopentry `Emit for DominatorTree::emit_text` 0
    proof {
        let k = it.index() as int; lemma_under(*items, *id); assert(*id == self.items@[k]);
        lemma_part_add(walk_all(im, em, self.items@, k), walk(im, em, *id, start_depth(*id)), max, m, f);
    }
@before `Emit for DominatorTree::emit_text` write!
    proof {
        let w = part(self.shown(*items), max, m).map_values(f);
        if self.unreachable_items_summary is Some { assert(table.rv().last() =~= self.rows(*items).last()); assert(table.rv() =~= self.rows(*items)); } else { assert(table.rv() =~= w); assert(w == self.rows(*items)); }
        lemma_table_text(table);
    }

@attr `Emit for DominatorTree::emit_json::recursive_add_children`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for DominatorTree::emit_json::recursive_add_children`
    hide(ir::Items::wf); hide(tree_of); hide(sorts); hide(rsize); hide(is_kids); hide(idom); hide(dset); hide(preorder); hide(wrote);
    broadcast use crate::report::lemma_wrote;
    let ghost im = items.im(); let ghost em = items.em(); let ghost total = items.size as int; let ghost o0 = obj.w.vp_sink(); let ghost jf = jfields(im, em, total, id); let ghost pre = sep(true) + quoted("children"@) + ":"@;
    proof {
        lemma_children(*items, dominator_tree@, id);
    }
@after `Emit for DominatorTree::emit_json::recursive_add_children` add_json_item
    let ghost o1 = obj.w.vp_sink();
@looppre `Emit for DominatorTree::emit_json::recursive_add_children` 0
    let ghost ks = children@; let ghost arr0 = arr;
    proof { lemma_kids(im, em, dominator_tree@, id, ks); lemma_begin_in(o1, arr.w.vp_sink(), pre); assert(jkids(im, em, total, id, 0) =~= Seq::empty()); }
@loop `Emit for DominatorTree::emit_json::recursive_add_children` 0 iter=it
    invariant
        it.seq() == ks, final(arr.w).vp_sink() == final(arr0.w).vp_sink(), arr.need_comma == (it.index() > 0),
        begun_in(o1, arr.w.vp_sink(), pre, jkids(im, em, total, id, it.index() as int)), jkids(im, em, total, id, it.index() as int).len() == it.index(),
@loopentry `Emit for DominatorTree::emit_json::recursive_add_children` 0
    let ghost k = it.index() as int; let ghost a0 = arr.w.vp_sink();
    proof { lemma_kid(*items, dominator_tree@, id, k); assert(child == kids(im, em, id)[k]); }
@after `Emit for DominatorTree::emit_json::recursive_add_children` object
    let ghost b0 = obj.w.vp_sink();
@after `Emit for DominatorTree::emit_json::recursive_add_children` recursive_add_children
    proof { lemma_object_in(o1, a0, b0, obj.w.vp_sink(), pre, jkids(im, em, total, id, k), jnode(im, em, total, child)); }
@looppost `Emit for DominatorTree::emit_json::recursive_add_children` 0
    proof { lemma_end_member(o0, o1, arr.w.vp_sink(), jf, "children"@, jkids(im, em, total, id, ks.len() as int)); }

@attr `Emit for DominatorTree::emit_csv::recursive_add_children`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for DominatorTree::emit_csv::recursive_add_children`
    hide(ir::Items::wf); hide(tree_of); hide(sorts); hide(rsize); hide(is_kids); hide(idom); hide(dset); hide(preorder); hide(wrote); hide(crec);
    broadcast use crate::report::lemma_wrote;
    let ghost im = items.im(); let ghost em = items.em(); let ghost total = items.size as int; let ghost f = crec(im, em, total); let ghost s0 = wtr.st@.sink; let ghost n0 = wtr.st@.n; let ghost d = start_depth(id);
    proof {
        lemma_children(*items, dominator_tree@, id);
        lemma_crec(im, em, total, id, d);
        assert(upper(im, em, id, d, 0).map_values(f) =~= seq![f((id, 0))]);
        assert(walk(im, em, id, d) == upper(im, em, id, d, kids(im, em, id).len() as int));
    }
@looppre `Emit for DominatorTree::emit_csv::recursive_add_children` 0
    let ghost ks = children@; let ghost wtr0 = *wtr;
    proof { lemma_kids(im, em, dominator_tree@, id, ks); }
@loop `Emit for DominatorTree::emit_csv::recursive_add_children` 0 iter=it
    invariant
        it.seq() == ks, final(wtr.w).vp_sink() == final(wtr0.w).vp_sink(), !wtr.st@.dirty,
        wtr.st@.n == n0 + upper(im, em, id, d, it.index() as int).map_values(f).len(), upper(im, em, id, d, it.index() as int).len() > 0,
        added(s0, wtr.st@.sink, upper(im, em, id, d, it.index() as int).map_values(f), n0 == 0),
@loopentry `Emit for DominatorTree::emit_csv::recursive_add_children` 0
    let ghost k = it.index() as int; let ghost s1 = wtr.st@.sink;
    proof {
        lemma_kid(*items, dominator_tree@, id, k); assert(child == kids(im, em, id)[k]);
        assert(upper(im, em, id, d, k + 1) =~= upper(im, em, id, d, k) + walk(im, em, child, d + 1));
        lemma_map_add(upper(im, em, id, d, k), walk(im, em, child, d + 1), f);
        lemma_depth_free(im, em, total, child, start_depth(child), d + 1);
    }
@after `Emit for DominatorTree::emit_csv::recursive_add_children` recursive_add_children
    proof { lemma_added(s0, s1, wtr.st@.sink, upper(im, em, id, d, k).map_values(f), walk(im, em, child, d + 1).map_values(f), n0 == 0); }

@attr `Emit for DominatorTree::emit_json`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for DominatorTree::emit_json`
    hide(wrote); hide(jnode);
    broadcast use crate::report::lemma_wrote;
    let ghost w0 = dest.vp_sink(); let ghost im = items.im(); let ghost em = items.em(); let ghost total = items.size as int; let ghost e = Seq::<(Seq<char>, J)>::empty(); let ghost pre = sep(false) + quoted("items"@) + ":"@;
    let ghost n = self.items@.len() as int;
@after `Emit for DominatorTree::emit_json` object#0
    let ghost o0 = obj.w.vp_sink(); proof { lemma_no_members(o0); }
@looppre `Emit for DominatorTree::emit_json` 0
    let ghost arr0 = arr;
    proof { lemma_begin_in(o0, arr.w.vp_sink(), pre); assert(self.jitems(*items, 0) =~= Seq::empty()); }
@loop `Emit for DominatorTree::emit_json` 0 iter=it
    invariant
        it.seq() == refs(self.items@), final(arr.w).vp_sink() == final(arr0.w).vp_sink(), arr.need_comma == (it.index() > 0),
        begun_in(o0, arr.w.vp_sink(), pre, self.jitems(*items, it.index() as int)),
@loopentry `Emit for DominatorTree::emit_json` 0
    let ghost k = it.index() as int; let ghost a0 = arr.w.vp_sink();
    proof { assert(*curr_id == self.items@[k]); }
@after `Emit for DominatorTree::emit_json` object#1
    let ghost b0 = item.w.vp_sink();
@after `Emit for DominatorTree::emit_json` recursive_add_children
    proof { lemma_object_in(o0, a0, b0, item.w.vp_sink(), pre, self.jitems(*items, k), jnode(im, em, total, *curr_id)); assert(self.jitems(*items, k).push(J::Obj(jnode(im, em, total, *curr_id))) =~= self.jitems(*items, k + 1)); }
@looppost `Emit for DominatorTree::emit_json` 0
    proof { lemma_end_member(o0, o0, arr.w.vp_sink(), e, "items"@, self.jitems(*items, n)); }
@before `Emit for DominatorTree::emit_json` array#1
    let ghost o1 = obj.w.vp_sink(); let ghost m1 = e.push(("items"@, J::Arr(self.jitems(*items, n)))); let ghost x = self.jsum();
@after `Emit for DominatorTree::emit_json` array#1
    let ghost a1 = summary_obj.w.vp_sink();
@after `Emit for DominatorTree::emit_json` object#2
    let ghost u0 = unreachable_items_obj.w.vp_sink(); proof { lemma_no_members(u0); }
@after `Emit for DominatorTree::emit_json` field#0
    let ghost u1 = unreachable_items_obj.w.vp_sink(); proof { lemma_membered(u0, u0, u1, e, x[0]); }
@after `Emit for DominatorTree::emit_json` field#1
    let ghost u2 = unreachable_items_obj.w.vp_sink(); proof { lemma_membered(u0, u1, u2, e.push(x[0]), x[1]); }
@after `Emit for DominatorTree::emit_json` field#2
    proof {
        lemma_membered(u0, u2, unreachable_items_obj.w.vp_sink(), e.push(x[0]).push(x[1]), x[2]); assert(e.push(x[0]).push(x[1]).push(x[2]) =~= x);
        lemma_only_member(o0, o1, a1, u0, unreachable_items_obj.w.vp_sink(), m1, "summary"@, x);
        assert(seq![("items"@, J::Arr(self.jitems(*items, n)))] =~= m1);
    }
@exit `Emit for DominatorTree::emit_json`
    proof { assert(seq![("items"@, J::Arr(self.jitems(*items, n)))] =~= e.push(("items"@, J::Arr(self.jitems(*items, n))))); lemma_document(w0, o0, obj.w.vp_sink(), self.jdoc(*items)->Obj_0); }

@attr `Emit for DominatorTree::emit_csv`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for DominatorTree::emit_csv`
    hide(wrote); hide(crec);
    broadcast use crate::report::lemma_wrote;
    let ghost w0 = dest.vp_sink(); let ghost im = items.im(); let ghost em = items.em(); let ghost f = crec(im, em, items.size as int);
@looppre `Emit for DominatorTree::emit_csv` 0
    let ghost wtr0 = wtr;
    proof { lemma_added_none(w0, true); assert(walk_all(im, em, self.items@, 0).map_values(f) =~= Seq::empty()); }
@loop `Emit for DominatorTree::emit_csv` 0 iter=it
    invariant
        it.seq() == refs(self.items@), final(wtr.w).vp_sink() == final(wtr0.w).vp_sink(), !wtr.st@.dirty,
        wtr.st@.n == walk_all(im, em, self.items@, it.index() as int).map_values(f).len(),
        added(w0, wtr.st@.sink, walk_all(im, em, self.items@, it.index() as int).map_values(f), true),
@loopentry `Emit for DominatorTree::emit_csv` 0
    let ghost k = it.index() as int; let ghost s1 = wtr.st@.sink; let ghost v = walk_all(im, em, self.items@, k).map_values(f);
    proof { assert(*id == self.items@[k]); lemma_map_add(walk_all(im, em, self.items@, k), walk(im, em, *id, start_depth(*id)), f); }
@after `Emit for DominatorTree::emit_csv` recursive_add_children
    proof { lemma_added(w0, s1, wtr.st@.sink, v, walk(im, em, *id, start_depth(*id)).map_values(f), true); }
@before `Emit for DominatorTree::emit_csv` serialize
    let ghost s2 = wtr.st@.sink; let ghost all = self.shown(*items).map_values(f); let ghost last = self.crecs(*items).last();
@after `Emit for DominatorTree::emit_csv` serialize
    let ghost s3 = wtr.st@.sink;
@after `Emit for DominatorTree::emit_csv` flush
    proof { lemma_added_one(s2, s3, wtr.st@.sink, last, all.len() == 0); lemma_added(w0, s2, wtr.st@.sink, all, seq![last], true); assert(all + seq![last] =~= self.crecs(*items)); }
@exit `Emit for DominatorTree::emit_csv`
    proof { lemma_more_csv(self.crecs(*items)); }
@pre
/// P21: the report is a function of the items and the options.
pub proof fn theorem_deterministic(a: DominatorTree, b: DominatorTree, items: ir::Items, o: opt::DominatorsView)
    requires a.reports(items, o), b.reports(items, o)
    ensures a.vp_text(items) == b.vp_text(items), a.vp_json(items) == b.vp_json(items), a.vp_csv(items) == b.vp_csv(items)
{
    let (im, em) = (items.im(), items.em());
    if o.items.len() > 0 && o.using_regexps {
        assert forall|x: Id| #[trigger] a.items@.contains(x) <==> b.items@.contains(x) by { }
        assert forall|x: Id, y: Id| #![trigger before(im, em)(x, y)] before(im, em)(x, y) implies !before(im, em)(y, x) by { }
        lemma_unique_list(a.items@, b.items@, before(im, em));
    }
    assert(a.items@ == b.items@);
    assert(a.unreachable_items_summary == b.unreachable_items_summary);
    assert(a.jitems(items, a.items@.len() as int) =~= b.jitems(items, b.items@.len() as int));
}
/// P23: what stands beside a size is its share of the file.
pub proof fn theorem_percent(im: Im, em: Em, total: int, n: Id, d: int)
    ensures ({ let s = im[n].size as int; let r = rsize(im, em, root_id(), n) as int; let f = jfields(im, em, total, n); let c = crec(im, em, total)((n, d)); let t = trow(im, em, total)((n, d));
        &&& f[1] == ("shallow_size"@, J::Int(s)) && f[2] == ("shallow_size_percent"@, J::Flt(percent(s, total))) && f[3] == ("retained_size"@, J::Int(r)) && f[4] == ("retained_size_percent"@, J::Flt(percent(r, total)))
        &&& c[2] == ("ShallowSize"@, dec(s as nat)) && c[3] == ("ShallowSizePercent"@, fcsv(percent(s, total))) && c[4] == ("RetainedSize"@, dec(r as nat)) && c[5] == ("RetainedSizePercent"@, fcsv(percent(r, total)))
        &&& t[0] == dec(r as nat) && t[1] == pct(r, total) })
{ }
/// ... and so for what cannot be reached.
pub proof fn theorem_percent_unreachable(t: DominatorTree, items: ir::Items, o: opt::DominatorsView)
    requires t.reports(items, o), t.unreachable_items_summary is Some
    ensures ({ let u = t.unreachable_items_summary->Some_0; u.size_percent == percent(u.size as int, items.size as int) })
{ }
