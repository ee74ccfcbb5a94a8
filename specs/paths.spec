## Paths (P09).
@part an.spec
@use dominators.spec
@module twiggy_analyze::analyses::paths analyze/analyses/paths/mod.rs
@opt box=crate::twiggy_traits::Emit
@pre
use vstd::prelude::*;
pub type Res<T> = core::result::Result<T, crate::anyhow::Error>;
use vstd::std_specs::iter::IteratorSpec;
use crate::vp::*;
use crate::vp_text::*;
use crate::vp_more::*;
use crate::report::*;
use crate::regex::{args, picked, rx_valid, rx_any};
use crate::csv::{csv_text, fcsv, entry, line, lemma_csv_push, VpRecord, VpCell};
use crate::twiggy_analyze::formats::json::{J, render, sep, quoted};
use crate::twiggy_analyze::formats::table::Align;
use crate::vp_std::io::{Sink, wrote};
use crate::twiggy_traits::Emit as VpEmit;
use crate::ir::{Id, Im, Em, root_id, at, adj, idlt, sorted};
use crate::twiggy_analyze::analyses::dominators::{chosen, id_of, matching, named, first_named, found, upto, lemma_chosen, lemma_all_named};
broadcast use {crate::vp::group_vp, crate::vp_text::group_num, crate::vp_text::group_f64, crate::ir_ord::lemma_id_key, vstd::std_specs::btree::group_btree_axioms};
/// The edges followed: callers when ascending, callees when descending.
pub open spec fn edges(items: ir::Items, desc: bool) -> Em { if desc { items.em() } else { items.predecessors->Some_0@ } }
/// The next steps from `n`: no item again, and not the meta root.
pub open spec fn next(g: Em, n: Id, seen: Set<Id>) -> Seq<Id> { at(g, n).filter(|k: Id| !seen.contains(k)).filter(|k: Id| k != root_id()) }
pub open spec fn left(im: Im, seen: Set<Id>) -> nat { im.dom().difference(seen).len() }
/// `e` is the tree of all simple paths from `n` that avoid `seen`.
pub open spec fn is_entry(e: PathsEntry, im: Im, g: Em, n: Id, seen: Set<Id>) -> bool
    decreases left(im, seen.insert(n)), 1int, 0int
{
    let s = seen.insert(n); let ks = next(g, n, s);
    &&& im.contains_key(n) && e.name@ == im[n].shown() && e.size == im[n].size
    &&& e.children@.len() == ks.len() && are_entries(e.children@, im, g, ks, s, ks.len() as int)
}
pub open spec fn are_entries(es: Seq<PathsEntry>, im: Im, g: Em, ks: Seq<Id>, s: Set<Id>, k: int) -> bool
    decreases left(im, s), 0int, k
{
    k <= 0 || (k <= ks.len() && k <= es.len() && are_entries(es, im, g, ks, s, k - 1)
        && left(im, s.insert(ks[k - 1])) < left(im, s) && is_entry(es[k - 1], im, g, ks[k - 1], s))
}
pub proof fn lemma_left(im: Im, s: Set<Id>, n: Id)
    requires im.contains_key(n), !s.contains(n)
    ensures left(im, s.insert(n)) < left(im, s)
{
    broadcast use vstd::set::group_set_lemmas;
    assert(im.dom().difference(s.insert(n)) =~= im.dom().difference(s).remove(n));
}
pub proof fn lemma_next(g: Em, n: Id, s: Set<Id>, im: Im)
    requires forall|x: Id| #[trigger] at(g, n).contains(x) ==> im.contains_key(x)
    ensures forall|i: int| #![trigger next(g, n, s)[i]] 0 <= i < next(g, n, s).len() ==> im.contains_key(next(g, n, s)[i]) && !s.contains(next(g, n, s)[i]) && next(g, n, s)[i] != root_id() && at(g, n).contains(next(g, n, s)[i])
{
    let q = |k: Id| !s.contains(k); let q2 = |k: Id| k != root_id(); let a = at(g, n).filter(q);
    lemma_filter(at(g, n), q); lemma_filter(a, q2);
    assert forall|i: int| #![trigger next(g, n, s)[i]] 0 <= i < next(g, n, s).len() implies im.contains_key(next(g, n, s)[i]) && !s.contains(next(g, n, s)[i]) && next(g, n, s)[i] != root_id() && at(g, n).contains(next(g, n, s)[i]) by {
        let x = next(g, n, s)[i]; assert(next(g, n, s).contains(x)); assert(a.contains(x)); assert(at(g, n).contains(x));
    }
}
pub proof fn lemma_entries_push(es: Seq<PathsEntry>, e: PathsEntry, im: Im, g: Em, ks: Seq<Id>, s: Set<Id>, k: int)
    requires 0 <= k < ks.len(), es.len() == k, are_entries(es, im, g, ks, s, k), is_entry(e, im, g, ks[k], s), left(im, s.insert(ks[k])) < left(im, s)
    ensures are_entries(es.push(e), im, g, ks, s, k + 1)
{
    lemma_entries_same(es, es.push(e), im, g, ks, s, k);
    assert(es.push(e)[k] == e);
}
pub proof fn lemma_entries_same(a: Seq<PathsEntry>, b: Seq<PathsEntry>, im: Im, g: Em, ks: Seq<Id>, s: Set<Id>, k: int)
    requires 0 <= k <= a.len() <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i], are_entries(a, im, g, ks, s, k)
    ensures are_entries(b, im, g, ks, s, k)
    decreases k
{ if k > 0 { lemma_entries_same(a, b, im, g, ks, s, k - 1); assert(a[k - 1] == b[k - 1]); } }
/// Larger items first, then by identifier.
pub open spec fn bigger(im: Im) -> spec_fn(Id, Id) -> bool { |a: Id, b: Id| im[a].size > im[b].size || (im[a].size == im[b].size && idlt(a, b)) }
/// Where the paths start.
pub open spec fn starts(items: ir::Items, o: opt::PathsView, s: Seq<Id>) -> bool {
    if o.functions.len() > 0 && o.using_regexps { rx_valid(args(o.functions)) && s == chosen(items, matching(args(o.functions))).map_values(id_of()) }
    else if o.functions.len() > 0 { s == named(items, args(o.functions), o.functions.len() as int) }
    else {
        if o.descending { roots_of(items, s) } else { everything(items, s) }
    }
}
/// All items but the meta root, largest first.
pub open spec fn everything(items: ir::Items, s: Seq<Id>) -> bool { pairwise(s, bigger(items.im())) && forall|n: Id| #[trigger] s.contains(n) <==> items.im().contains_key(n) && n != root_id() }
/// The roots, largest first.
pub open spec fn roots_of(items: ir::Items, s: Seq<Id>) -> bool { pairwise(s, bigger(items.im())) && forall|n: Id| #[trigger] s.contains(n) <==> at(items.em(), root_id()).contains(n) }
pub open spec fn is_start(e: PathsEntry, im: Im, g: Em, n: Id) -> bool { is_entry(e, im, g, n, Set::empty()) }
// ---- what is shown
/// The entries shown, with their depths: down to the depth limit, and at most so many below each.
pub open spec fn lines(e: PathsEntry, d: int, o: opt::PathsView) -> Seq<(PathsEntry, int)>
    decreases o.max_depth - d, 1int, 0int
{ if d > o.max_depth { Seq::empty() } else { seq![(e, d)] + below(e.children@, d, o, upto(e.children@, o.max_paths as int).len() as int) } }
pub open spec fn below(cs: Seq<PathsEntry>, d: int, o: opt::PathsView, k: int) -> Seq<(PathsEntry, int)>
    decreases o.max_depth - d, 0int, k
{ if k <= 0 || k > cs.len() || d >= o.max_depth { Seq::empty() } else { below(cs, d, o, k - 1) + lines(cs[k - 1], d + 1, o) } }
pub open spec fn all_lines(es: Seq<PathsEntry>, o: opt::PathsView, k: int) -> Seq<(PathsEntry, int)>
    decreases k
{ if k <= 0 || k > es.len() { Seq::empty() } else { all_lines(es, o, k - 1) + lines(es[k - 1], 0, o) } }
// ---- text
pub open spec fn indent(d: int) -> Seq<char> decreases d { if d <= 1 { Seq::empty() } else { indent(d - 1) + "    "@ } }
pub open spec fn arrow(d: int, desc: bool) -> Seq<char> { if d > 0 && desc { "  ↳ "@ } else if d > 0 { "  ⬑ "@ } else { ""@ } }
pub open spec fn label(d: int, desc: bool, name: Seq<char>) -> Seq<char> { indent(d) + arrow(d, desc) + name }
pub open spec fn trow(total: int, desc: bool) -> spec_fn((PathsEntry, int)) -> Seq<Seq<char>> { |x: (PathsEntry, int)| seq![if x.1 == 0 { dec(x.0.size as nat) } else { ""@ }, if x.1 == 0 { pct(x.0.size as int, total) } else { ""@ }, label(x.1, desc, x.0.name@)] }
pub open spec fn head() -> Seq<(Align, Seq<char>)> { seq![(Align::Right, "Shallow Bytes"@), (Align::Right, "Shallow %"@), (Align::Left, "Retaining Paths"@)] }
// ---- JSON
pub open spec fn jfields(e: PathsEntry, total: int) -> Seq<(Seq<char>, J)> {
    seq![("name"@, J::Str(e.name@)), ("shallow_size"@, J::Int(e.size as int)), ("shallow_size_percent"@, J::Flt(percent(e.size as int, total)))]
}
pub open spec fn jnode(e: PathsEntry, d: int, o: opt::PathsView, total: int) -> Seq<(Seq<char>, J)>
    decreases o.max_depth - d, 1int, 0int
{ jfields(e, total).push(("callers"@, J::Arr(if d < o.max_depth { jkids(e.children@, d, o, total, upto(e.children@, o.max_paths as int).len() as int) } else { Seq::empty() }))) }
pub open spec fn jkids(cs: Seq<PathsEntry>, d: int, o: opt::PathsView, total: int, k: int) -> Seq<J>
    decreases o.max_depth - d, 0int, k
{ if k <= 0 || k > cs.len() || d >= o.max_depth { Seq::empty() } else { jkids(cs, d, o, total, k - 1).push(J::Obj(jnode(cs[k - 1], d + 1, o, total))) } }
// ---- CSV
pub open spec fn names(cs: Seq<PathsEntry>) -> Seq<Seq<char>> { cs.map_values(|e: PathsEntry| e.name@) }
pub open spec fn route(e: PathsEntry) -> Seq<char> { if e.children@.len() == 0 { Seq::empty() } else { joined(names(e.children@).push(e.name@), " -> "@) } }
pub open spec fn crec(total: int) -> spec_fn((PathsEntry, int)) -> Rec { |x: (PathsEntry, int)| seq![("Name"@, x.0.name@), ("ShallowSize"@, dec(x.0.size as nat)), ("ShallowSizePercent"@, fcsv(percent(x.0.size as int, total))), ("Path"@, route(x.0))] }
impl Paths {
    pub open spec fn ok(&self, items: ir::Items) -> bool { true }
    pub open spec fn shown(&self) -> Seq<(PathsEntry, int)> { all_lines(self.entries@, self.opts.shown(), self.entries@.len() as int) }
    pub open spec fn rows(&self, items: ir::Items) -> Seq<Seq<Seq<char>>> { self.shown().map_values(trow(items.size as int, self.opts.shown().descending)) }
    pub open spec fn jrows(&self, items: ir::Items, k: int) -> Seq<J> { Seq::new(k as nat, |i: int| J::Obj(jnode(self.entries@[i], 0, self.opts.shown(), items.size as int))) }
    pub open spec fn crecs(&self, items: ir::Items) -> Seq<Rec> { self.shown().map_values(crec(items.size as int)) }
    /// The report asked for.
    pub open spec fn reports(&self, items: ir::Items, o: opt::PathsView) -> bool {
        &&& self.opts.shown() == o
        &&& exists|s: Seq<Id>| #[trigger] starts(items, o, s) && s.len() == self.entries@.len()
            && forall|i: int| #![trigger self.entries@[i]] 0 <= i < s.len() ==> is_start(self.entries@[i], items.im(), edges(items, o.descending), s[i])
    }
}
@fn paths ret=r
    requires old(items).wf()
    ensures final(items).wf(), final(items).same_graph(*old(items)),
        r is Err <==> opts.shown().functions.len() > 0 && opts.shown().using_regexps && !rx_valid(args(opts.shown().functions)),
        r matches Ok(b) ==> exists|t: Paths| #[trigger] t.reports(*final(items), opts.shown()) && t.ok(*final(items))
            && b.vp_ok(*final(items)) && b.vp_text(*final(items)) == t.vp_text(*final(items)) && b.vp_json(*final(items)) == t.vp_json(*final(items)) && b.vp_csv(*final(items)) == t.vp_csv(*final(items))
@fn get_starting_positions ret=r
    requires items.wf()
    ensures r is Err <==> opts.shown().functions.len() > 0 && opts.shown().using_regexps && !rx_valid(args(opts.shown().functions)),
        r matches Ok(s) ==> starts(*items, opts.shown(), s@) && forall|i: int| 0 <= i < s@.len() ==> items.im().contains_key(#[trigger] s@[i])
@fn create_entry ret=r
    requires items.wf(), items.im().contains_key(id), !opts.shown().descending ==> items.predecessors is Some, !old(seen)@.contains(id)
    ensures final(seen)@ == old(seen)@, is_entry(r, items.im(), edges(*items, opts.shown().descending), id, old(seen)@)
    decreases left(items.im(), old(seen)@)
@inline create_entry 6
@entry create_entry
    let ghost im = items.im(); let ghost g = edges(*items, opts.shown().descending); let ghost s0 = seen@; let ghost s1 = seen@.insert(id); let ghost ks = next(g, id, s1);
    proof { lemma_left(im, s0, id); lemma_edges(*items, opts.shown().descending, id); lemma_next(g, id, s1, im);
        assert forall|s: Seq<Id>| #![trigger s.len()] s.len() == at(g, id).len() && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] == at(g, id)[i]) implies s == at(g, id) by { assert(s =~= at(g, id)); } }
    let ghost q1 = |k: Id| !s1.contains(k); let ghost q2 = |k: Id| k != root_id();
@loop create_entry 0 iter=it
    invariant
        it.seq() == ks, seen@ == s1, left(im, s1) < left(im, s0), im == items.im(), g == edges(*items, opts.shown().descending), items.wf(), !opts.shown().descending ==> items.predecessors is Some,
        forall|i: int| #![trigger ks[i]] 0 <= i < ks.len() ==> im.contains_key(ks[i]) && !s1.contains(ks[i]),
        vp_out@.len() == it.index(), are_entries(vp_out@, im, g, ks, s1, it.index() as int),
@loopentry create_entry 0
    let ghost k = it.index() as int; let ghost es0 = vp_out@;
    proof { lemma_left(im, s1, ks[k]); }
@loopexit create_entry 0
    proof { lemma_entries_push(es0, vp_e, im, g, ks, s1, k); }
@pre
pub proof fn lemma_edges(items: ir::Items, desc: bool, n: Id)
    requires items.wf(), !desc ==> items.predecessors is Some
    ensures forall|x: Id| #[trigger] at(edges(items, desc), n).contains(x) ==> items.im().contains_key(x)
{
    assert forall|x: Id| #[trigger] at(edges(items, desc), n).contains(x) implies items.im().contains_key(x) by {
        if !desc { let p = items.predecessors->Some_0@; assert(at(p, n).contains(x)); let _ = at(items.em(), x); assert(at(items.em(), x).contains(n)); assert(items.em().contains_key(x)); }
    }
}
pub open spec fn not_root<'a>() -> spec_fn(&'a ir::Item) -> bool { |x: &'a ir::Item| x.id != root_id() }
pub open spec fn by_size<'a>() -> spec_fn(&'a ir::Item, &'a ir::Item) -> core::cmp::Ordering { crate::twiggy_analyze::analyses::garbage::by_size() }
pub proof fn lemma_by_size<'a>()
    ensures preorder(by_size::<'a>())
{ }
/// Everything but the meta root, largest first.
pub proof fn lemma_everything<'a>(items: ir::Items, us0: Seq<&'a ir::Item>, us: Seq<&'a ir::Item>, ids: Seq<Id>)
    requires items.wf(), us0 == refs(items.item_seq()).filter(not_root()), exists|p: Seq<int>| #[trigger] sorts(us0, us, by_size(), p), ids == us.map_values(id_of())
    ensures pairwise(ids, bigger(items.im())), forall|x: Id| #[trigger] ids.contains(x) <==> items.im().contains_key(x) && x != root_id()
{
    let im = items.im();
    lemma_sorted_items(items, not_root(), by_size::<'a>(), us0, us);
    assert forall|i: int, j: int| #![trigger ids[i], ids[j]] 0 <= i < j < ids.len() implies bigger(im)(ids[i], ids[j]) by {
        assert(ids[i] == us[i].id && ids[j] == us[j].id); assert(!(by_size::<'a>()(us[i], us[j]) is Greater));
    }
    assert forall|x: Id| #[trigger] ids.contains(x) <==> im.contains_key(x) && x != root_id() by {
        if im.contains_key(x) && x != root_id() { assert(not_root()(&im[x])); let i = choose|i: int| 0 <= i < us.len() && (#[trigger] us[i]).id == x; assert(ids[i] == x); }
        if ids.contains(x) { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == x; assert(ids[i] == us[i].id); assert(not_root()(us[i])); }
    }
}
/// The roots, largest first.
pub proof fn lemma_roots<'a>(items: ir::Items, us0: Seq<&'a ir::Item>, us: Seq<&'a ir::Item>, ids: Seq<Id>)
    requires
        items.wf(), us0.len() == at(items.em(), root_id()).len(), exists|p: Seq<int>| #[trigger] sorts(us0, us, by_size(), p), ids == us.map_values(id_of()),
        forall|i: int| #![trigger us0[i]] 0 <= i < us0.len() ==> *us0[i] == items.im()[at(items.em(), root_id())[i]],
    ensures pairwise(ids, bigger(items.im())), forall|x: Id| #[trigger] ids.contains(x) <==> at(items.em(), root_id()).contains(x)
{
    let ks = at(items.em(), root_id());
    assert(sorted(ks));
    assert forall|i: int| #![trigger us0[i]] 0 <= i < us0.len() implies us0[i].id == ks[i] && items.im()[ks[i]] == *us0[i] by { assert(ks.contains(ks[i])); assert(items.im().contains_key(ks[i])); }
    lemma_roots_of(items.im(), ks, us0, us, ids);
}
pub proof fn lemma_roots_of<'a>(im: Im, ks: Seq<Id>, us0: Seq<&'a ir::Item>, us: Seq<&'a ir::Item>, ids: Seq<Id>)
    requires
        us0.len() == ks.len(), sorted(ks), exists|p: Seq<int>| #[trigger] sorts(us0, us, by_size(), p), ids == us.map_values(id_of()),
        forall|i: int| #![trigger us0[i]] 0 <= i < us0.len() ==> us0[i].id == ks[i] && im[ks[i]] == *us0[i],
    ensures pairwise(ids, bigger(im)), forall|x: Id| #[trigger] ids.contains(x) <==> ks.contains(x)
{
    let g = by_size::<'a>();
    let p = choose|p: Seq<int>| #[trigger] sorts(us0, us, g, p);
    assert(sorts(us0, us, g, p));
    assert forall|i: int, j: int| #![trigger ids[i], ids[j]] 0 <= i < j < ids.len() implies bigger(im)(ids[i], ids[j]) by {
        assert(ids[i] == us[i].id && ids[j] == us[j].id); assert(us[i] == us0[p[i]] && us[j] == us0[p[j]]); assert(!(g(us[i], us[j]) is Greater));
        if us[i].size == us[j].size { assert(g(us[i], us[j]) is Equal); assert(p[i] < p[j]); assert(idlt(ks[p[i]], ks[p[j]])); }
    }
    assert forall|x: Id| #[trigger] ids.contains(x) <==> ks.contains(x) by {
        if ids.contains(x) { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == x; assert(us[i] == us0[p[i]]); assert(ks[p[i]] == x); }
        if ks.contains(x) { let j = choose|j: int| 0 <= j < ks.len() && ks[j] == x; let _ = us0[j]; assert(placed(p, j)); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == j; assert(us[i] == us0[j]); assert(ids[i] == x); }
    }
}
@pre
pub open spec fn unref<'a>() -> spec_fn(&'a Id) -> Id { |x: &'a Id| *x }
@inline paths 0
@entry paths
    let ghost o = opts.shown();
@looppre paths 0
    let ghost im = items.im(); let ghost g = edges(*items, o.descending); let ghost mut ss = Seq::<Id>::empty(); let ghost ids = vp_r@.map_values(unref());
    proof { assert forall|s: Seq<Id>| #![trigger starts(*items, o, s)] refs::<Id>(s) == vp_r@ implies ids == s by { assert(ids =~= s); }
        if ids.len() == 0 { assert(ids =~= ss); } assert(ss =~= ids.take(0)); }
@loop paths 0 iter=it
    invariant
        items.wf(), im == items.im(), g == edges(*items, o.descending), opts.shown() == o, !o.descending ==> items.predecessors is Some,
        starts(*items, o, ids), forall|i: int| 0 <= i < ids.len() ==> im.contains_key(#[trigger] ids[i]), ids == it.seq().map_values(unref()),
        ss =~= ids.take(it.index() as int), it.index() == it.seq().len() ==> ss =~= ids,
        vp_out@.len() == it.index(), forall|i: int| #![trigger vp_out@[i]] 0 <= i < vp_out@.len() ==> is_start(vp_out@[i], im, g, ss[i]),
@loopentry paths 0
    proof { assert(ids[it.index() as int] == *id); }
@loopexit paths 0
    proof { ss = ss.push(*id); assert(ss =~= ids.take(it.index() + 1)); }
@exit paths
    proof { assert(paths.reports(*items, o)); }
@closure get_starting_positions 0
|| -> (r: Vec<Id>)
    ensures everything(*items, r@)
@closure get_starting_positions 1
|&&ir::Item| -> (b: bool)
    ensures b == not_root()(*$0)
@closure get_starting_positions 2
|&&ir::Item, &&ir::Item| -> (o: core::cmp::Ordering)
    ensures o == by_size()(*$0, *$1)
@closure get_starting_positions 3
|&&ir::Item| -> (x: Id)
    ensures x == $0.id
@ghostarg get_starting_positions sort_by#0
Ghost(by_size())
@ghostarg get_starting_positions sort_by#1
Ghost(by_size())
@before get_starting_positions sort_by#0
    let ghost us0 = sorted_items@; proof { lemma_by_size(); }
@after get_starting_positions sort_by#0
    let ghost us = sorted_items@; proof { lemma_everything(*items, us0, us, us.map_values(id_of()));
        assert forall|v: Seq<Id>| #![trigger everything(*items, v)] v.len() == us.len() && (forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i] == us[i].id) implies v == us.map_values(id_of()) by { assert(v =~= us.map_values(id_of())); } }
@closure get_starting_positions 4
|| -> (r: Vec<Id>)
    ensures roots_of(*items, r@)
@closure get_starting_positions 5
|Id| -> (r: &ir::Item)
    requires items.im().contains_key($0)
    ensures *r == items.im()[$0]
@closure get_starting_positions 6
|&&ir::Item, &&ir::Item| -> (o: core::cmp::Ordering)
    ensures o == by_size()(*$0, *$1)
@closure get_starting_positions 7
|&ir::Item| -> (x: Id)
    ensures x == $0.id
@before get_starting_positions sort_by#1
    let ghost us0 = roots@; proof { lemma_by_size(); }
@after get_starting_positions sort_by#1
    let ghost us = roots@; proof { lemma_roots(*items, us0, us, us.map_values(id_of()));
        assert forall|v: Seq<Id>| #![trigger roots_of(*items, v)] v.len() == us.len() && (forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i] == us[i].id) implies v == us.map_values(id_of()) by { assert(v =~= us.map_values(id_of())); } }
@closure get_starting_positions 8
|| -> (r: Res<Vec<Id>>)
    ensures r is Err <==> !rx_valid(args(opts.shown().functions)), r matches Ok(v) ==> v@ == chosen(*items, matching(args(opts.shown().functions))).map_values(id_of())
@closure get_starting_positions 9
|&&ir::Item| -> (b: bool)
    ensures b == matching(args(opts.shown().functions))(*$0)
@closure get_starting_positions 10
|&ir::Item| -> (x: Id)
    ensures x == $0.id
@closure get_starting_positions 11
|| -> (r: Vec<Id>)
    ensures r@ == named(*items, args(opts.shown().functions), opts.shown().functions.len() as int)
@closure get_starting_positions 12
|&String| -> (r: Option<_>)
    ensures found(r, byn($0@))
@closure get_starting_positions 13
|&ir::Item| -> (x: Id)
    ensures x == $0.id
@entry get_starting_positions
    let ghost byn = |s: Seq<char>| items.by_name(s); let ghost ps = args(opts.shown().functions);
    proof { lemma_chosen(*items, matching(ps)); lemma_all_named(*items, opts.functions@); let ks = at(items.em(), root_id());
        assert forall|i: int| #![trigger ks[i]] 0 <= i < ks.len() implies items.im().contains_key(ks[i]) by { assert(ks.contains(ks[i])); } }
@exit get_starting_positions
    proof { assert forall|i: int| 0 <= i < res@.len() implies items.im().contains_key(#[trigger] res@[i]) by { assert(res@.contains(res@[i])); } }
@closure create_entry 0
|Id| -> (x: Id)
    ensures x == $0
@closure create_entry 1
|&Id| -> (b: bool)
    ensures b == q1(*$0)
@closure create_entry 2
|&Id| -> (b: bool)
    ensures b == q2(*$0)
@closure create_entry 3
|Id| -> (x: Id)
    ensures x == $0
@closure create_entry 4
|&Id| -> (b: bool)
    ensures b == q1(*$0)
@closure create_entry 5
|&Id| -> (b: bool)
    ensures b == q2(*$0)
@attr create_entry
#[verifier::loop_isolation(false)]
@pre
pub proof fn lemma_map_add<A, B>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> B)
    ensures (a + b).map_values(f) == a.map_values(f) + b.map_values(f)
{ assert((a + b).map_values(f) =~= a.map_values(f) + b.map_values(f)); }
/// What is shown of an entry depends on what it is an entry of only.
pub open spec fn same_lines(x: Seq<(PathsEntry, int)>, y: Seq<(PathsEntry, int)>, total: int, desc: bool) -> bool { x.map_values(trow(total, desc)) == y.map_values(trow(total, desc)) && x.map_values(crec(total)) == y.map_values(crec(total)) }
pub proof fn lemma_same_add(x: Seq<(PathsEntry, int)>, y: Seq<(PathsEntry, int)>, u: Seq<(PathsEntry, int)>, v: Seq<(PathsEntry, int)>, total: int, desc: bool)
    requires same_lines(x, y, total, desc), same_lines(u, v, total, desc)
    ensures same_lines(x + u, y + v, total, desc)
{ lemma_map_add(x, u, trow(total, desc)); lemma_map_add(y, v, trow(total, desc)); lemma_map_add(x, u, crec(total)); lemma_map_add(y, v, crec(total)); }
pub proof fn lemma_same(a: PathsEntry, b: PathsEntry, im: Im, g: Em, n: Id, seen: Set<Id>, d: int, o: opt::PathsView, total: int)
    requires is_entry(a, im, g, n, seen), is_entry(b, im, g, n, seen)
    ensures a.name@ == b.name@, same_lines(lines(a, d, o), lines(b, d, o), total, o.descending), jnode(a, d, o, total) == jnode(b, d, o, total)
    decreases left(im, seen.insert(n)), 1int, 0int
{
    let s = seen.insert(n); let ks = next(g, n, s); let k = upto(a.children@, o.max_paths as int).len() as int;
    lemma_same_kids(a.children@, b.children@, im, g, ks, s, ks.len() as int, ks.len() as int, d, o, total);
    if k < ks.len() { lemma_entries_less(a.children@, im, g, ks, s, k, ks.len() as int); lemma_entries_less(b.children@, im, g, ks, s, k, ks.len() as int); }
    lemma_same_kids(a.children@, b.children@, im, g, ks, s, k, k, d, o, total);
    assert(names(a.children@) =~= names(b.children@));
    assert(route(a) == route(b));
    assert(trow(total, o.descending)((a, d)) =~= trow(total, o.descending)((b, d))); assert(crec(total)((a, d)) =~= crec(total)((b, d)));
    assert(seq![(a, d)].map_values(trow(total, o.descending)) =~= seq![(b, d)].map_values(trow(total, o.descending))); assert(seq![(a, d)].map_values(crec(total)) =~= seq![(b, d)].map_values(crec(total)));
    lemma_same_add(seq![(a, d)], seq![(b, d)], below(a.children@, d, o, k), below(b.children@, d, o, k), total, o.descending);
    assert(jfields(a, total) =~= jfields(b, total));
}
pub proof fn lemma_entries_less(es: Seq<PathsEntry>, im: Im, g: Em, ks: Seq<Id>, s: Set<Id>, j: int, k: int)
    requires are_entries(es, im, g, ks, s, k), j <= k
    ensures are_entries(es, im, g, ks, s, j)
    decreases k - j
{ if j < k && k > 0 { lemma_entries_less(es, im, g, ks, s, j, k - 1); } }
pub proof fn lemma_same_kids(a: Seq<PathsEntry>, b: Seq<PathsEntry>, im: Im, g: Em, ks: Seq<Id>, s: Set<Id>, k: int, n: int, d: int, o: opt::PathsView, total: int)
    requires a.len() == ks.len(), b.len() == ks.len(), 0 <= k <= ks.len(), n == k, are_entries(a, im, g, ks, s, k), are_entries(b, im, g, ks, s, k)
    ensures same_lines(below(a, d, o, k), below(b, d, o, k), total, o.descending), jkids(a, d, o, total, k) == jkids(b, d, o, total, k), forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < k ==> a[i].name@ == b[i].name@
    decreases left(im, s), 0int, k
{
    if k > 0 {
        lemma_same_kids(a, b, im, g, ks, s, k - 1, n - 1, d, o, total);
        lemma_same(a[k - 1], b[k - 1], im, g, ks[k - 1], s, d + 1, o, total);
        lemma_same_add(below(a, d, o, k - 1), below(b, d, o, k - 1), lines(a[k - 1], d + 1, o), lines(b[k - 1], d + 1, o), total, o.descending);
    }
}
pub proof fn lemma_same_all(a: Seq<PathsEntry>, b: Seq<PathsEntry>, im: Im, g: Em, s: Seq<Id>, k: int, o: opt::PathsView, total: int)
    requires a.len() == s.len(), b.len() == s.len(), 0 <= k <= s.len(), forall|i: int| #![trigger a[i]] 0 <= i < s.len() ==> is_start(a[i], im, g, s[i]), forall|i: int| #![trigger b[i]] 0 <= i < s.len() ==> is_start(b[i], im, g, s[i])
    ensures same_lines(all_lines(a, o, k), all_lines(b, o, k), total, o.descending), forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < k ==> jnode(a[i], 0, o, total) == jnode(b[i], 0, o, total)
    decreases k
{
    if k > 0 {
        lemma_same_all(a, b, im, g, s, k - 1, o, total);
        assert(is_start(a[k - 1], im, g, s[k - 1])); assert(is_start(b[k - 1], im, g, s[k - 1]));
        lemma_same(a[k - 1], b[k - 1], im, g, s[k - 1], Set::empty(), 0, o, total);
        lemma_same_add(all_lines(a, o, k - 1), all_lines(b, o, k - 1), lines(a[k - 1], 0, o), lines(b[k - 1], 0, o), total, o.descending);
    }
}
pub proof fn lemma_one_start(items: ir::Items, o: opt::PathsView, s: Seq<Id>, t: Seq<Id>)
    requires starts(items, o, s), starts(items, o, t)
    ensures s == t
{
    if o.functions.len() == 0 {
        assert forall|x: Id| #[trigger] s.contains(x) <==> t.contains(x) by { }
        assert forall|x: Id, y: Id| #![trigger bigger(items.im())(x, y)] bigger(items.im())(x, y) implies !bigger(items.im())(y, x) by { }
        lemma_unique_list(s, t, bigger(items.im()));
    }
}
/// P21: the report is a function of the items and the options.
pub proof fn theorem_deterministic(a: Paths, b: Paths, items: ir::Items, o: opt::PathsView)
    requires a.reports(items, o), b.reports(items, o)
    ensures a.vp_text(items) == b.vp_text(items), a.vp_json(items) == b.vp_json(items), a.vp_csv(items) == b.vp_csv(items)
{
    let (im, g, total) = (items.im(), edges(items, o.descending), items.size as int);
    let s = choose|s: Seq<Id>| #[trigger] starts(items, o, s) && s.len() == a.entries@.len() && forall|i: int| #![trigger a.entries@[i]] 0 <= i < s.len() ==> is_start(a.entries@[i], im, g, s[i]);
    let t = choose|t: Seq<Id>| #[trigger] starts(items, o, t) && t.len() == b.entries@.len() && forall|i: int| #![trigger b.entries@[i]] 0 <= i < t.len() ==> is_start(b.entries@[i], im, g, t[i]);
    lemma_one_start(items, o, s, t);
    lemma_same_all(a.entries@, b.entries@, im, g, s, s.len() as int, o, total);
    assert(a.jrows(items, a.entries@.len() as int) =~= b.jrows(items, b.entries@.len() as int)) by { assert forall|i: int| 0 <= i < s.len() implies #[trigger] a.jrows(items, s.len() as int)[i] == b.jrows(items, s.len() as int)[i] by { let _ = a.entries@[i]; } }
}
/// P23: what stands beside a size is its share of the file.
pub proof fn theorem_percent(e: PathsEntry, total: int, d: int, desc: bool)
    ensures ({ let s = e.size as int; let f = jfields(e, total); let c = crec(total)((e, d)); let t = trow(total, desc)((e, 0int));
        &&& f[1] == ("shallow_size"@, J::Int(s)) && f[2] == ("shallow_size_percent"@, J::Flt(percent(s, total)))
        &&& c[1] == ("ShallowSize"@, dec(s as nat)) && c[2] == ("ShallowSizePercent"@, fcsv(percent(s, total)))
        &&& t[0] == dec(s as nat) && t[1] == pct(s, total) })
{ }
/// P09: whoever is listed below an item calls it (or is called by it, descending), is not the meta root, and is on the path only once; and nobody who qualifies is left out.
pub open spec fn on_path(im: Im, g: Em, n: Id, s: Set<Id>, c: Id) -> bool { at(g, n).contains(c) && !s.contains(c) && c != root_id() }
pub proof fn theorem_steps(g: Em, n: Id, s: Set<Id>, im: Im)
    ensures forall|c: Id| #[trigger] next(g, n, s).contains(c) <==> on_path(im, g, n, s, c)
{
    let q = |k: Id| !s.contains(k); let q2 = |k: Id| k != root_id(); let a = at(g, n).filter(q);
    lemma_filter_pairwise(at(g, n), q, |x: Id, y: Id| true); lemma_filter_pairwise(a, q2, |x: Id, y: Id| true);
    assert forall|c: Id| #[trigger] next(g, n, s).contains(c) <==> on_path(im, g, n, s, c) by { assert(a.filter(q2).contains(c) <==> a.contains(c) && q2(c)); assert(a.contains(c) <==> at(g, n).contains(c) && q(c)); }
}
@module twiggy_analyze::analyses::paths::paths_entry analyze/analyses/paths/paths_entry.rs
@only `struct PathsEntry`
@module twiggy_analyze::analyses::paths::paths_emit analyze/analyses/paths/paths_emit.rs
@opt close=array
@opt close=object
@opt close=from_writer
@pre
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::vp::*;
use crate::vp_text::*;
use crate::vp_more::*;
use crate::report::*;
use crate::csv::{csv_text, fcsv, entry, line, lemma_csv_push, VpRecord, VpCell};
use crate::twiggy_analyze::formats::json::{J, render, sep, quoted};
use crate::vp_std::io::{Sink, wrote};
use crate::twiggy_analyze::analyses::dominators::upto;
use crate::twiggy_analyze::analyses::paths::paths_entry::PathsEntry;
use crate::twiggy_opt as opt; use crate::twiggy_analyze::formats::table::texts;
use crate::twiggy_analyze::analyses::paths::{lines, below, all_lines, trow, crec, jnode, jkids, jfields, head, label, indent, arrow, names, route};
broadcast use {crate::vp::group_vp, crate::vp_text::group_num, crate::vp_text::group_f64};
// ---- text
/// The row says what it is to say of the entry.
pub open spec fn is_trow(r: emit_text_helpers::TableRow, x: (PathsEntry, int), total: int, desc: bool) -> bool {
    &&& r.name@ == label(x.1, desc, x.0.name@)
    &&& r.size == if x.1 == 0 { Some(x.0.size) } else { None }
    &&& r.size_percent == if x.1 == 0 { Some(percent(x.0.size as int, total)) } else { None }
}
pub open spec fn are_trows(rs: Seq<emit_text_helpers::TableRow>, xs: Seq<(PathsEntry, int)>, total: int, desc: bool) -> bool {
    rs.len() == xs.len() && forall|i: int| #![trigger rs[i]] 0 <= i < rs.len() ==> is_trow(rs[i], xs[i], total, desc)
}
pub proof fn lemma_below_trows(bs: Seq<VpIter<emit_text_helpers::TableRow>>, cs: Seq<PathsEntry>, d: int, o: opt::PathsView, k: int, total: int)
    requires 0 <= k <= cs.len(), bs.len() == k, d < o.max_depth, forall|i: int| #![trigger bs[i]] 0 <= i < k ==> are_trows(bs[i]@, lines(cs[i], d + 1, o), total, o.descending)
    ensures are_trows(concat(bs), below(cs, d, o, k), total, o.descending)
    decreases k
{
    if k > 0 {
        assert forall|i: int| #![trigger bs.drop_last()[i]] 0 <= i < k - 1 implies are_trows(bs.drop_last()[i]@, lines(cs[i], d + 1, o), total, o.descending) by { assert(bs.drop_last()[i] == bs[i]); }
        lemma_below_trows(bs.drop_last(), cs, d, o, k - 1, total); assert(bs.last() == bs[k - 1]);
    }
}
pub proof fn lemma_all_trows(bs: Seq<VpIter<emit_text_helpers::TableRow>>, es: Seq<PathsEntry>, o: opt::PathsView, k: int, total: int)
    requires 0 <= k <= es.len(), bs.len() == k, forall|i: int| #![trigger bs[i]] 0 <= i < k ==> are_trows(bs[i]@, lines(es[i], 0, o), total, o.descending)
    ensures are_trows(concat(bs), all_lines(es, o, k), total, o.descending)
    decreases k
{
    if k > 0 {
        assert forall|i: int| #![trigger bs.drop_last()[i]] 0 <= i < k - 1 implies are_trows(bs.drop_last()[i]@, lines(es[i], 0, o), total, o.descending) by { assert(bs.drop_last()[i] == bs[i]); }
        lemma_all_trows(bs.drop_last(), es, o, k - 1, total); assert(bs.last() == bs[k - 1]);
    }
}
// ---- CSV
pub open spec fn are_recs(rs: Seq<emit_csv_helpers::CsvRecord>, xs: Seq<(PathsEntry, int)>, total: int) -> bool {
    rs.len() == xs.len() && forall|i: int| #![trigger rs[i]] 0 <= i < rs.len() ==> rs[i].vp_rec() =~= crec(total)(xs[i])
}
pub proof fn lemma_below_recs(bs: Seq<VpIter<emit_csv_helpers::CsvRecord>>, cs: Seq<PathsEntry>, d: int, o: opt::PathsView, k: int, total: int)
    requires 0 <= k <= cs.len(), bs.len() == k, d < o.max_depth, forall|i: int| #![trigger bs[i]] 0 <= i < k ==> are_recs(bs[i]@, lines(cs[i], d + 1, o), total)
    ensures are_recs(concat(bs), below(cs, d, o, k), total)
    decreases k
{
    if k > 0 {
        assert forall|i: int| #![trigger bs.drop_last()[i]] 0 <= i < k - 1 implies are_recs(bs.drop_last()[i]@, lines(cs[i], d + 1, o), total) by { assert(bs.drop_last()[i] == bs[i]); }
        lemma_below_recs(bs.drop_last(), cs, d, o, k - 1, total); assert(bs.last() == bs[k - 1]);
    }
}
pub proof fn lemma_whole_object(w0: Sink, a0: Sink, b: Sink, o: Sink, js: Seq<J>, m: Seq<(Seq<char>, J)>)
    requires begun(w0, a0, js), wrote(a0, b, sep(js.len() > 0) + "{"@, true), wrote(b, o, jmembers(m), true)
    ensures forall|c: Sink| #[trigger] wrote(o, c, "}"@, true) ==> begun(w0, c, js.push(J::Obj(m)))
{ assert(wrote(a0, o, sep(js.len() > 0) + "{"@ + jmembers(m), true)) by { if !o.bad { assert(o.out =~= a0.out + (sep(js.len() > 0) + "{"@ + jmembers(m))); } } lemma_object(w0, a0, o, js, m); }
/// The cells of a row.
pub open spec fn cells(r: emit_text_helpers::TableRow) -> Seq<Seq<char>> { seq![match r.size { Some(x) => dec(x as nat), None => Seq::empty() }, match r.size_percent { Some(p) => fp2(p) + "%"@, None => Seq::empty() }, r.name@] }
pub proof fn lemma_cells(r: emit_text_helpers::TableRow, x: (PathsEntry, int), total: int, desc: bool)
    requires is_trow(r, x, total, desc)
    ensures cells(r) == trow(total, desc)(x)
{ reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(cells(r) =~= trow(total, desc)(x)); }
@inject `Emit for Paths`
    open spec fn vp_ok(&self, items: ir::Items) -> bool { self.ok(items) }
    open spec fn vp_text(&self, items: ir::Items) -> Seq<char> { ttext(head(), self.rows(items)) }
    open spec fn vp_json(&self, items: ir::Items) -> Seq<char> { render(J::Arr(self.jrows(items, self.entries@.len() as int))) }
    open spec fn vp_csv(&self, items: ir::Items) -> Seq<char> { csv_text(self.crecs(items)) }
@fn emit_text_helpers::process_entry ret=r
    requires paths == opts.shown().max_paths
    ensures are_trows(r@, lines(*entry, depth as int, opts.shown()), items.size as int, opts.shown().descending)
    decreases opts.shown().max_depth - depth + 1
@fn emit_text_helpers::get_indented_name ret=r
    ensures r@ == label(depth as int, descending, name@)
@fn emit_json_helpers::process_entry ret=r
    requires !old(obj).need_comma, paths == opts.shown().max_paths, depth <= opts.shown().max_depth
    ensures
        wrote(old(obj).w.vp_sink(), final(obj).w.vp_sink(), jmembers(jnode(*entry, depth as int, opts.shown(), items.size as int)), r is Ok), final(final(obj).w).vp_sink() == final(old(obj).w).vp_sink()
    decreases opts.shown().max_depth - depth
@fn emit_csv_helpers::process_entry ret=r
    requires paths == opts.shown().max_paths
    ensures are_recs(r@, lines(*entry, depth as int, opts.shown()), items.size as int)
    decreases opts.shown().max_depth - depth + 1
@fn emit_csv_helpers::get_path ret=r
    ensures entry.children@.len() == 0 <==> r is None, r matches Some(s) ==> s@ == route(*entry)
@attr `Emit for Paths::emit_text`
#[verifier::rlimit(60)]
@entry `Emit for Paths::emit_text`
    let ghost es = self.entries@; let ghost o = self.opts.shown(); let ghost total = items.size as int; let ghost xs = self.shown(); let ghost rows = self.rows(*items);
    proof {
        assert forall|bs: Seq<VpIter<emit_text_helpers::TableRow>>| #![trigger concat(bs)] bs.len() == es.len() && (forall|i: int| #![trigger bs[i]] 0 <= i < es.len() ==> are_trows(bs[i]@, lines(es[i], 0, o), total, o.descending)) implies are_trows(concat(bs), xs, total, o.descending) by { lemma_all_trows(bs, es, o, es.len() as int, total); }
        assert forall|rs: Seq<emit_text_helpers::TableRow>, i: int| #![trigger are_trows(rs, xs, total, o.descending), rs[i]] are_trows(rs, xs, total, o.descending) && 0 <= i < rs.len() implies cells(rs[i]) == rows[i] by { lemma_cells(rs[i], xs[i], total, o.descending); assert(rows[i] == trow(total, o.descending)(xs[i])); }
    }
@closure `Emit for Paths::emit_text` 0
|&PathsEntry| -> (r: VpIter<emit_text_helpers::TableRow>)
    ensures are_trows(r@, lines(*$0, 0, o), total, o.descending)
@closure `Emit for Paths::emit_text` 1
|emit_text_helpers::TableRow| -> (r: Vec<String>)
    ensures r@.len() == 3, texts(r@) =~= cells($0)
@closure `Emit for Paths::emit_text` 2
|u32| -> (r: String)
    ensures r@ == dec($0 as nat)
@closure `Emit for Paths::emit_text` 3
|f64| -> (r: String)
    ensures r@ == fp2($0) + "%"@
@closure `Emit for Paths::emit_text` 4
|Table, Vec<String>| -> (r: Table)
    requires $0.wf(), $0.cols() == 3, $1@.len() == 3
    ensures r.wf(), r.cols() == 3, r.hv() == $0.hv(), r.rv() =~= $0.rv().push(texts($1@))
@ghostarg `Emit for Paths::emit_text` fold
Ghost(|k: int, t: Table| t.wf() && t.cols() == 3 && t.hv() =~= head() && t.rv() =~= rows.take(k))
@before `Emit for Paths::emit_text` write!
    proof { assert(rows.take(rows.len() as int) =~= rows); lemma_table_text(table); }
@attr emit_json_helpers::process_entry
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry emit_json_helpers::process_entry
    hide(wrote); hide(jnode); hide(jkids);
    broadcast use crate::report::lemma_wrote;
    let ghost o = opts.shown(); let ghost d = depth as int; let ghost total = items.size as int; let ghost o0 = obj.w.vp_sink(); let ghost m = jfields(*entry, total); let ghost e = Seq::<(Seq<char>, J)>::empty(); let ghost pre = sep(true) + quoted("callers"@) + ":"@;
    let ghost ks = upto(entry.children@, o.max_paths as int); let ghost cs = entry.children@;
    proof { lemma_no_members(o0); reveal_with_fuel(jnode, 1); reveal_with_fuel(jkids, 1); }
@after emit_json_helpers::process_entry field#0
    let ghost o1 = obj.w.vp_sink(); proof { lemma_membered(o0, o0, o1, e, m[0]); }
@after emit_json_helpers::process_entry field#1
    let ghost o2 = obj.w.vp_sink(); proof { lemma_membered(o0, o1, o2, e.push(m[0]), m[1]); }
@after emit_json_helpers::process_entry field#2
    let ghost o3 = obj.w.vp_sink(); proof { lemma_membered(o0, o2, o3, e.push(m[0]).push(m[1]), m[2]); assert(e.push(m[0]).push(m[1]).push(m[2]) =~= m); }
@after emit_json_helpers::process_entry array
    let ghost arr0 = callers; proof { lemma_begin_in(o3, callers.w.vp_sink(), pre); assert(jkids(cs, d, o, total, 0) =~= Seq::empty()); }
@loop emit_json_helpers::process_entry 0 iter=it
    invariant
        it.seq() == refs::<PathsEntry>(ks), final(callers.w).vp_sink() == final(arr0.w).vp_sink(), callers.need_comma == (it.index() > 0), depth < o.max_depth,
        begun_in(o3, callers.w.vp_sink(), pre, jkids(cs, d, o, total, it.index() as int)), jkids(cs, d, o, total, it.index() as int).len() == it.index(),
@loopentry emit_json_helpers::process_entry 0
    let ghost k = it.index() as int; let ghost a0 = callers.w.vp_sink();
    proof { assert(*child == cs[k]); }
@after emit_json_helpers::process_entry object
    let ghost b0 = obj.w.vp_sink();
@after emit_json_helpers::process_entry process_entry
    proof { lemma_object_in(o3, a0, b0, obj.w.vp_sink(), pre, jkids(cs, d, o, total, k), jnode(*child, d + 1, o, total)); }
@exit emit_json_helpers::process_entry
    proof { lemma_end_member(o0, o3, callers.w.vp_sink(), m, "callers"@, jkids(cs, d, o, total, if d < o.max_depth { ks.len() as int } else { 0 })); }
@attr `Emit for Paths::emit_json`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for Paths::emit_json`
    hide(wrote); hide(jnode);
    broadcast use crate::report::lemma_wrote;
    let ghost w0 = dest.vp_sink(); let ghost total = items.size as int; let ghost o = self.opts.shown();
@looppre `Emit for Paths::emit_json` 0
    let ghost arr0 = arr;
    proof { lemma_begin(w0, arr.w.vp_sink()); assert(self.jrows(*items, 0) =~= Seq::empty()); }
@loop `Emit for Paths::emit_json` 0 iter=it
    invariant
        it.seq() == refs(self.entries@), final(arr.w).vp_sink() == final(arr0.w).vp_sink(), arr.need_comma == (it.index() > 0),
        begun(w0, arr.w.vp_sink(), self.jrows(*items, it.index() as int)),
@loopentry `Emit for Paths::emit_json` 0
    let ghost k = it.index() as int; let ghost a0 = arr.w.vp_sink();
    proof { assert(*entry == self.entries@[k]); }
@after `Emit for Paths::emit_json` object
    let ghost b0 = obj.w.vp_sink();
@after `Emit for Paths::emit_json` process_entry
    proof { lemma_whole_object(w0, a0, b0, obj.w.vp_sink(), self.jrows(*items, k), jnode(*entry, 0, o, total)); assert(self.jrows(*items, k).push(J::Obj(jnode(*entry, 0, o, total))) =~= self.jrows(*items, k + 1)); }
@exit `Emit for Paths::emit_json`
    proof { lemma_end(w0, arr.w.vp_sink(), self.jrows(*items, self.entries@.len() as int)); }
@attr `Emit for Paths::emit_csv`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for Paths::emit_csv`
    hide(wrote); hide(crec);
    broadcast use crate::report::lemma_wrote;
    let ghost w0 = dest.vp_sink(); let ghost o = self.opts.shown(); let ghost es = self.entries@; let ghost total = items.size as int; let ghost f = crec(total);
@looppre `Emit for Paths::emit_csv` 0
    let ghost wtr0 = wtr;
    proof { lemma_added_none(w0, true); assert(all_lines(es, o, 0).map_values(f) =~= Seq::empty()); }
@loop `Emit for Paths::emit_csv` 0 iter=it
    invariant
        it.seq() == refs(self.entries@), final(wtr.w).vp_sink() == final(wtr0.w).vp_sink(), !wtr.st@.dirty,
        wtr.st@.n == all_lines(es, o, it.index() as int).map_values(f).len(),
        added(w0, wtr.st@.sink, all_lines(es, o, it.index() as int).map_values(f), true),
@loopentry `Emit for Paths::emit_csv` 0
    let ghost k = it.index() as int; let ghost v = all_lines(es, o, k).map_values(f); let ghost u = lines(es[k], 0, o).map_values(f); let ghost ls = lines(es[k], 0, o);
    proof { assert(*entry == es[k]); assert(v + u.take(0) =~= v); }
@loop `Emit for Paths::emit_csv` 1 iter=jt
    invariant
        are_recs(jt.seq(), ls, total), final(wtr.w).vp_sink() == final(wtr0.w).vp_sink(), !wtr.st@.dirty,
        wtr.st@.n == v.len() + jt.index(),
        added(w0, wtr.st@.sink, v + u.take(jt.index() as int), true),
@loopentry `Emit for Paths::emit_csv` 1
    let ghost j = jt.index() as int; let ghost s0 = wtr.st@.sink;
@after `Emit for Paths::emit_csv` serialize
    let ghost s1 = wtr.st@.sink;
@after `Emit for Paths::emit_csv` flush
    proof { lemma_added_one(s0, s1, wtr.st@.sink, u[j], (v + u.take(j)).len() == 0); lemma_added(w0, s0, wtr.st@.sink, v + u.take(j), seq![u[j]], true); assert(v + u.take(j) + seq![u[j]] =~= v + u.take(j + 1)); }
@looppost `Emit for Paths::emit_csv` 1
    proof { assert(u.take(u.len() as int) =~= u); assert(all_lines(es, o, k + 1).map_values(f) =~= v + u); }
@exit `Emit for Paths::emit_csv`
    proof { lemma_more_csv(self.crecs(*items)); }
@closure emit_text_helpers::process_entry 0
|&PathsEntry| -> (r: VpIter<TableRow>)
    requires d < o.max_depth
    ensures are_trows(r@, lines(*$0, d + 1, o), total, o.descending)
@entry emit_text_helpers::process_entry
    let ghost o = opts.shown(); let ghost d = depth as int; let ghost total = items.size as int; let ghost cs = entry.children@; let ghost n = upto(cs, o.max_paths as int).len() as int;
    proof {
        assert(n <= cs.len());
        assert forall|bs: Seq<VpIter<TableRow>>| #![trigger concat(bs)] d < o.max_depth && bs.len() == n && (forall|i: int| #![trigger bs[i]] 0 <= i < n ==> are_trows(bs[i]@, lines(cs[i], d + 1, o), total, o.descending)) implies are_trows(concat(bs), below(cs, d, o, n), total, o.descending) by { lemma_below_trows(bs, cs, d, o, n, total); }
    }
@closure emit_csv_helpers::process_entry 0
|&PathsEntry| -> (r: VpIter<CsvRecord>)
    requires d < o.max_depth
    ensures are_recs(r@, lines(*$0, d + 1, o), total)
@entry emit_csv_helpers::process_entry
    let ghost o = opts.shown(); let ghost d = depth as int; let ghost total = items.size as int; let ghost cs = entry.children@; let ghost n = upto(cs, o.max_paths as int).len() as int;
    proof {
        assert(n <= cs.len());
        assert forall|bs: Seq<VpIter<CsvRecord>>| #![trigger concat(bs)] d < o.max_depth && bs.len() == n && (forall|i: int| #![trigger bs[i]] 0 <= i < n ==> are_recs(bs[i]@, lines(cs[i], d + 1, o), total)) implies are_recs(concat(bs), below(cs, d, o, n), total) by { lemma_below_recs(bs, cs, d, o, n, total); }
    }
@closure emit_csv_helpers::get_path 0
|&PathsEntry| -> (r: &str)
    ensures r@ == $0.name@
@entry emit_csv_helpers::get_path
    let ghost want = names(entry.children@).push(entry.name@);
    proof { assert forall|v: Vec<&str>| #![trigger v.vp_texts()] v@.len() == want.len() && (forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> v@[i]@ == want[i]) implies v.vp_texts() == want by { assert(v.vp_texts() =~= want); } }
@closure emit_text_helpers::get_indented_name 0
|u32| -> (r: &'static str)
    ensures r@ == "    "@
@closure emit_text_helpers::get_indented_name 1
|String, &str| -> (r: String)
    ensures r@ == $0@ + $1@
@entry emit_text_helpers::get_indented_name
    broadcast use crate::vp_text::axiom_str_len;
    let ghost n = if depth >= 1 { depth - 1 } else { 0int };
@ghostarg emit_text_helpers::get_indented_name fold
Ghost(|k: int, s: String| s@ =~= if k <= n { indent(k + 1) } else if k == n + 1 { indent(n + 1) + arrow(depth as int, descending) } else { indent(n + 1) + arrow(depth as int, descending) + name@ })
