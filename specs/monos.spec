## Monomorphizations (P11).
@part an.spec
@include vp_hash.rs
@include vp_tree.rs
@include regex.rs
@module twiggy_analyze::analyses::monos::entry analyze/analyses/monos/entry.rs
@derives MonosEntry Debug,PartialEq,Eq
@pre
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::vp::*;
use crate::vp_text::*;
use crate::vp_more::*;
use crate::vp_hash::*;
use core::cmp::Ordering;
broadcast use {crate::vp_text::group_num, crate::vp_hash::group_strings};
pub open spec fn icmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
/// An instantiation: its name and its size.
pub type Inst = (Seq<char>, int);
pub open spec fn iv(v: Seq<(String, u32)>) -> Seq<Inst> { v.map_values(|x: (String, u32)| (x.0@, x.1 as int)) }
pub open spec fn sizes_of(v: Seq<Inst>) -> Seq<int> { v.map_values(|x: Inst| x.1) }
/// A generic function: name, instantiations, size, bloat.
pub struct Gen { pub name: Seq<char>, pub insts: Seq<Inst>, pub size: int, pub bloat: int }
impl MonosEntry { pub open spec fn v(&self) -> Gen { Gen { name: self.name@, insts: iv(self.insts@), size: self.size as int, bloat: self.bloat as int } } }
// ---- the order of lists of instantiations
pub open spec fn pcmp(a: Inst, b: Inst) -> Ordering { then(scmp(a.0, b.0), icmp(a.1, b.1)) }
pub open spec fn lcmp_from(a: Seq<Inst>, b: Seq<Inst>, i: int) -> Ordering
    decreases a.len() - i
{
    if i < 0 || (i >= a.len() && i >= b.len()) { Ordering::Equal }
    else if i >= a.len() { Ordering::Less } else if i >= b.len() { Ordering::Greater }
    else { then(pcmp(a[i], b[i]), lcmp_from(a, b, i + 1)) }
}
pub open spec fn lcmp(a: Seq<Inst>, b: Seq<Inst>) -> Ordering { lcmp_from(a, b, 0) }
/// Lists are ordered element by element, pairs component by component.
#[verifier::external_body]
pub broadcast proof fn axiom_insts_cmp(a: &Vec<(String, u32)>, b: &Vec<(String, u32)>) ensures #[trigger] <Vec<(String, u32)> as OrdSpec>::cmp_spec(a, b) == lcmp(iv(a@), iv(b@)) {}
#[verifier::external_body]
pub broadcast proof fn axiom_insts_obeys_cmp() ensures #[trigger] <Vec<(String, u32)> as OrdSpec>::obeys_cmp_spec() {}
/// Most bloat first, then the largest, then by instantiations, then by name.
pub open spec fn gcmp(a: Gen, b: Gen) -> Ordering { then(then(then(icmp(b.bloat, a.bloat), icmp(b.size, a.size)), lcmp(a.insts, b.insts)), scmp(a.name, b.name)) }
impl PartialEqSpecImpl for MonosEntry {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, o: &MonosEntry) -> bool { *self == *o }
}
impl PartialOrdSpecImpl for MonosEntry {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &MonosEntry) -> Option<Ordering> { Some(gcmp(self.v(), o.v())) }
}
impl OrdSpecImpl for MonosEntry {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &MonosEntry) -> Ordering { gcmp(self.v(), o.v()) }
}
impl PartialEq for MonosEntry { #[verifier::external_body] fn eq(&self, o: &MonosEntry) -> bool { unimplemented!() } }
impl Eq for MonosEntry {}
pub broadcast proof fn lemma_iv_push(v: Seq<(String, u32)>, x: (String, u32))
    ensures #[trigger] iv(v.push(x)) == iv(v).push((x.0@, x.1 as int))
{ assert(iv(v.push(x)) =~= iv(v).push((x.0@, x.1 as int))); }
pub broadcast proof fn lemma_iv_take(v: Seq<(String, u32)>, n: int)
    requires 0 <= n <= v.len()
    ensures #[trigger] iv(v.take(n)) == iv(v).take(n)
{ assert(iv(v.take(n)) =~= iv(v).take(n)); }
pub broadcast group group_iv { lemma_iv_push, lemma_iv_take }
pub proof fn lemma_lcmp_from(a: Seq<Inst>, b: Seq<Inst>, i: int)
    requires i >= 0
    ensures lcmp_from(a, b, i) is Less <==> lcmp_from(b, a, i) is Greater,
        lcmp_from(a, b, i) is Equal <==> lcmp_from(b, a, i) is Equal,
        (lcmp_from(a, b, i) is Equal && i <= a.len() && i <= b.len()) ==> a.skip(i) == b.skip(i),
        a == b ==> lcmp_from(a, b, i) is Equal,
    decreases a.len() - i
{
    lemma_scmp();
    if i < a.len() && i < b.len() {
        lemma_lcmp_from(a, b, i + 1);
        assert(scmp(a[i].0, b[i].0) is Equal <==> scmp(b[i].0, a[i].0) is Equal);
        assert(lcmp_from(a, b, i) is Equal ==> a.skip(i) =~= seq![a[i]] + a.skip(i + 1) && b.skip(i) =~= seq![b[i]] + b.skip(i + 1));
    } else if i >= a.len() && i >= b.len() { assert(i <= a.len() && i <= b.len() ==> a.skip(i) =~= b.skip(i)); }
}
pub proof fn lemma_lcmp_trans(a: Seq<Inst>, b: Seq<Inst>, c: Seq<Inst>, i: int)
    requires i >= 0
    ensures !(lcmp_from(a, b, i) is Greater) && !(lcmp_from(b, c, i) is Greater) ==> !(lcmp_from(a, c, i) is Greater),
    decreases a.len() - i
{
    lemma_scmp();
    if i < a.len() && i < b.len() && i < c.len() {
        lemma_lcmp_trans(a, b, c, i + 1);
        let (x, y, z) = (a[i].0, b[i].0, c[i].0);
        assert(scmp(x, y) is Equal <==> x == y); assert(scmp(y, z) is Equal <==> y == z); assert(scmp(x, z) is Equal <==> x == z);
        if !(lcmp_from(a, b, i) is Greater) && !(lcmp_from(b, c, i) is Greater) {
            assert(!(scmp(x, y) is Greater) && !(scmp(y, z) is Greater)); assert(!(scmp(x, z) is Greater));
            if x == z { assert(scmp(y, x) is Less <==> scmp(x, y) is Greater); assert(x == y); }
        }
    }
}
pub proof fn lemma_lcmp()
    ensures
        forall|a: Seq<Inst>, b: Seq<Inst>| #[trigger] lcmp(a, b) is Less <==> lcmp(b, a) is Greater,
        forall|a: Seq<Inst>, b: Seq<Inst>| #[trigger] lcmp(a, b) is Equal <==> a == b,
        forall|a: Seq<Inst>, b: Seq<Inst>, c: Seq<Inst>| #![trigger lcmp(a, b), lcmp(b, c)] !(lcmp(a, b) is Greater) && !(lcmp(b, c) is Greater) ==> !(lcmp(a, c) is Greater),
{
    assert forall|a: Seq<Inst>, b: Seq<Inst>| #[trigger] lcmp(a, b) is Less <==> lcmp(b, a) is Greater by { lemma_lcmp_from(a, b, 0); }
    assert forall|a: Seq<Inst>, b: Seq<Inst>| #[trigger] lcmp(a, b) is Equal <==> a == b by { lemma_lcmp_from(a, b, 0); assert(a.skip(0) =~= a && b.skip(0) =~= b); }
    assert forall|a: Seq<Inst>, b: Seq<Inst>, c: Seq<Inst>| #![trigger lcmp(a, b), lcmp(b, c)] !(lcmp(a, b) is Greater) && !(lcmp(b, c) is Greater) implies !(lcmp(a, c) is Greater) by { lemma_lcmp_trans(a, b, c, 0); }
}
/// The entries are totally ordered.
pub proof fn lemma_gcmp()
    ensures
        forall|a: Gen, b: Gen| #[trigger] gcmp(a, b) is Less <==> gcmp(b, a) is Greater,
        forall|a: Gen, b: Gen| #[trigger] gcmp(a, b) is Equal <==> a == b,
        forall|a: Gen, b: Gen, c: Gen| #![trigger gcmp(a, b), gcmp(b, c)] !(gcmp(a, b) is Greater) && !(gcmp(b, c) is Greater) ==> !(gcmp(a, c) is Greater),
{
    hide(gcmp);
    assert forall|a: Gen, b: Gen| #[trigger] gcmp(a, b) is Less <==> gcmp(b, a) is Greater by { lemma_gcmp_pair(a, b); }
    assert forall|a: Gen, b: Gen| #[trigger] gcmp(a, b) is Equal <==> a == b by { lemma_gcmp_pair(a, b); }
    assert forall|a: Gen, b: Gen, c: Gen| #![trigger gcmp(a, b), gcmp(b, c)] !(gcmp(a, b) is Greater) && !(gcmp(b, c) is Greater) implies !(gcmp(a, c) is Greater) by { lemma_gcmp_trans(a, b, c); }
}
pub proof fn lemma_gcmp_pair(a: Gen, b: Gen)
    ensures gcmp(a, b) is Less <==> gcmp(b, a) is Greater, gcmp(a, b) is Equal <==> a == b
{
    hide(scmp); hide(lcmp);
    lemma_lcmp(); lemma_scmp();
    assert(lcmp(a.insts, b.insts) is Equal <==> a.insts == b.insts); assert(lcmp(b.insts, a.insts) is Equal <==> a.insts == b.insts);
    assert(scmp(a.name, b.name) is Less <==> scmp(b.name, a.name) is Greater); assert(lcmp(a.insts, b.insts) is Less <==> lcmp(b.insts, a.insts) is Greater);
    assert(lcmp(b.insts, a.insts) is Less <==> lcmp(a.insts, b.insts) is Greater);
    assert(scmp(a.name, b.name) is Equal <==> a.name == b.name);
}
pub proof fn lemma_gcmp_trans(a: Gen, b: Gen, c: Gen)
    ensures !(gcmp(a, b) is Greater) && !(gcmp(b, c) is Greater) ==> !(gcmp(a, c) is Greater)
{
    hide(scmp); hide(lcmp);
    lemma_scmp(); lemma_lcmp();
    let (x, y, z) = (a.insts, b.insts, c.insts);
    assert(lcmp(x, y) is Equal <==> x == y); assert(lcmp(y, z) is Equal <==> y == z); assert(lcmp(x, z) is Equal <==> x == z);
    assert(!(lcmp(x, y) is Greater) && !(lcmp(y, z) is Greater) ==> !(lcmp(x, z) is Greater));
    assert(lcmp(x, y) is Less <==> lcmp(y, x) is Greater); assert(lcmp(y, z) is Less <==> lcmp(z, y) is Greater); assert(lcmp(x, z) is Less <==> lcmp(z, x) is Greater);
    assert(lcmp(z, x) is Less <==> lcmp(x, z) is Greater);
    assert(!(lcmp(z, x) is Greater) && !(lcmp(x, y) is Greater) ==> !(lcmp(z, y) is Greater));
    assert(!(lcmp(y, z) is Greater) && !(lcmp(z, x) is Greater) ==> !(lcmp(y, x) is Greater));
    let (p, q, r) = (a.name, b.name, c.name);
    assert(!(scmp(p, q) is Greater) && !(scmp(q, r) is Greater) ==> !(scmp(p, r) is Greater));
}
pub proof fn lemma_own_order()
    ensures preorder(own_order::<MonosEntry>()), <MonosEntry as OrdSpec>::obeys_cmp_spec()
{
    lemma_gcmp();
    let g = own_order::<MonosEntry>();
    assert forall|a: MonosEntry, b: MonosEntry, c: MonosEntry| #![trigger g(a, b), g(b, c)] !(g(a, b) is Greater) && !(g(b, c) is Greater) implies !(g(a, c) is Greater) by { assert(g(a, b) == gcmp(a.v(), b.v())); assert(g(b, c) == gcmp(b.v(), c.v())); }
    assert forall|a: MonosEntry, b: MonosEntry, c: MonosEntry| #![trigger g(a, b), g(b, c)] g(a, b) is Equal && g(b, c) is Equal implies g(a, c) is Equal by { assert(g(a, b) == gcmp(a.v(), b.v())); assert(g(b, c) == gcmp(b.v(), c.v())); assert(g(a, c) == gcmp(a.v(), c.v())); }
}
@fn `Ord for MonosEntry::cmp` ret=r
@entry `Ord for MonosEntry::cmp`
    broadcast use {axiom_insts_cmp, axiom_insts_obeys_cmp};
@fn `PartialOrd for MonosEntry::partial_cmp` ret=r
@module twiggy_analyze::analyses::monos analyze/analyses/monos/mod.rs
@opt tree
@opt box=crate::twiggy_traits::Emit
@pre
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use crate::vp::*;
use crate::vp_text::*;
use crate::vp_more::*;
use crate::vp_hash::*;
use crate::report::*;
use crate::regex::{args, picked, rx_valid, rx_any};
use crate::csv::{csv_text, fcsv, VpRecord, VpCell};
use crate::twiggy_analyze::formats::json::{J, render, sep, quoted};
use crate::twiggy_analyze::formats::table::Align;
use crate::vp_std::io::{Sink, wrote};
use crate::twiggy_traits::Emit as VpEmit;
use self::entry::{Gen, Inst, iv, sizes_of, icmp, gcmp, lemma_gcmp, lemma_own_order};
use core::cmp::Ordering;
broadcast use {crate::vp::group_vp, crate::vp_text::group_num, crate::vp_text::group_f64, crate::vp_hash::group_strings, crate::ir_ord::lemma_id_key, vstd::std_specs::btree::group_btree_axioms};
// ---- which instantiations there are
/// The instantiations of `g` among the first `k` items.
pub open spec fn group(s: Seq<ir::Item>, k: int, g: Seq<char>) -> Seq<Inst>
    decreases k
{
    if k <= 0 || k > s.len() { Seq::empty() } else {
        let r = group(s, k - 1, g);
        if s[k - 1].generic() == Some(g) { r.push((s[k - 1].shown(), s[k - 1].size as int)) } else { r }
    }
}
pub open spec fn raw(items: ir::Items, g: Seq<char>) -> Seq<Inst> { group(items.item_seq(), items.item_seq().len() as int, g) }
/// Largest first, then by name.
pub open spec fn iorder() -> spec_fn(Inst, Inst) -> Ordering { |a: Inst, b: Inst| then(icmp(b.1, a.1), scmp(a.0, b.0)) }
pub open spec fn ordered(s: Seq<Inst>, r: Seq<Inst>) -> bool { exists|p: Seq<int>| #[trigger] sorts(s, r, iorder(), p) }
pub open spec fn insts_of(items: ir::Items, g: Seq<char>) -> Seq<Inst> { choose|r: Seq<Inst>| ordered(raw(items, g), r) }
/// A generic function asked for.
pub open spec fn wanted(items: ir::Items, o: opt::MonosView, g: Seq<char>) -> bool { raw(items, g).len() > 0 && picked(args(o.functions), o.using_regexps, g) }
// ---- what is said about it
pub open spec fn biggest(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { let m = biggest(s.drop_last()); if m < s.last() { s.last() } else { m } } }
/// What fewer instantiations might save: all but one of average size, or all but the largest, whichever is less.
pub open spec fn bloat(s: Seq<int>) -> int {
    let a = (isum(s) / s.len() as int) * (s.len() - 1); let b = isum(s) - biggest(s);
    if a < b { a } else { b }
}
pub open spec fn more(n: int) -> Seq<char> { "... and "@ + dec(n as nat) + " more."@ }
/// The instantiations listed: as many as asked for, and the rest in one line.
pub open spec fn cut(s: Seq<Inst>, o: opt::MonosView) -> Seq<Inst> {
    if o.only_generics { Seq::empty() }
    else if s.len() > o.max_monos { s.take(o.max_monos as int).push((more(s.len() - o.max_monos), isum(sizes_of(s).skip(o.max_monos as int)))) }
    else { s }
}
pub open spec fn gen_of(g: Seq<char>, s: Seq<Inst>, o: opt::MonosView) -> Gen { Gen { name: g, insts: cut(s, o), size: isum(sizes_of(s)), bloat: bloat(sizes_of(s)) } }
pub open spec fn the_gen(items: ir::Items, o: opt::MonosView, g: Seq<char>) -> Gen { gen_of(g, insts_of(items, g), o) }
pub open spec fn gbefore() -> spec_fn(Gen, Gen) -> bool { |a: Gen, b: Gen| gcmp(a, b) is Less }
/// All the generic functions asked for, in order.
pub open spec fn all_gens(items: ir::Items, o: opt::MonosView, s: Seq<Gen>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> wanted(items, o, s[i].name) && s[i] == the_gen(items, o, s[i].name)
    &&& forall|g: Seq<char>| #[trigger] wanted(items, o, g) ==> s.contains(the_gen(items, o, g))
    &&& pairwise(s, gbefore())
}
pub open spec fn gsizes(s: Seq<Gen>) -> Seq<int> { s.map_values(|g: Gen| g.size) }
pub open spec fn gbloats(s: Seq<Gen>) -> Seq<int> { s.map_values(|g: Gen| g.bloat) }
pub open spec fn gcounts(s: Seq<Gen>) -> Seq<int> { s.map_values(|g: Gen| 1 + g.insts.len() as int) }
pub open spec fn summed(name: Seq<char>, s: Seq<Gen>) -> Gen { Gen { name, insts: Seq::empty(), size: isum(gsizes(s)), bloat: isum(gbloats(s)) } }
/// The entries listed: as many as asked for, the rest in one line, and the total.
pub open spec fn stats(s: Seq<Gen>, max: int) -> Seq<Gen> {
    (if s.len() > max { s.take(max).push(summed(more(isum(gcounts(s.skip(max)))), s.skip(max))) } else { s }).push(summed(totals(isum(gcounts(s)) as nat), s))
}
pub open spec fn gens(s: Seq<MonosEntry>) -> Seq<Gen> { s.map_values(|m: MonosEntry| m.v()) }
impl Monos {
    pub open spec fn ok(&self, items: ir::Items) -> bool { items.wf() }
    pub open spec fn v(&self) -> Seq<Gen> { gens(self.monos@) }
    /// The report asked for.
    pub open spec fn reports(&self, items: ir::Items, o: opt::MonosView) -> bool { exists|s: Seq<Gen>| #[trigger] all_gens(items, o, s) && self.v() == stats(s, o.max_generics as int) }
}
// ---- collecting
pub open spec fn str_of<'a>(s: Seq<char>) -> &'a str { choose|x: &'a str| x@ == s }
pub type Pair<'a> = (&'a str, &'a ir::Item);
pub open spec fn with_generic<'a>() -> spec_fn(&'a ir::Item) -> Option<Pair<'a>> { |x: &'a ir::Item| match x.generic() { Some(g) => Some((str_of::<'a>(g), x)), None => None } }
pub open spec fn is_picked<'a>(o: opt::MonosView) -> spec_fn(Pair<'a>) -> bool { |x: Pair<'a>| picked(args(o.functions), o.using_regexps, x.0@) }
pub open spec fn pgroup(s: Seq<Pair>, k: int, g: Seq<char>) -> Seq<Inst>
    decreases k
{
    if k <= 0 || k > s.len() { Seq::empty() } else {
        let r = pgroup(s, k - 1, g);
        if s[k - 1].0@ == g { r.push((s[k - 1].1.shown(), s[k - 1].1.size as int)) } else { r }
    }
}
pub open spec fn grouped(m: Map<Seq<char>, Vec<(String, u32)>>, s: Seq<Pair>, k: int) -> bool {
    &&& forall|g: Seq<char>| #[trigger] m.contains_key(g) <==> pgroup(s, k, g).len() > 0
    &&& forall|g: Seq<char>| #[trigger] m.contains_key(g) ==> iv(m[g]@) == pgroup(s, k, g)
    &&& m.dom().len() <= k
}
pub open spec fn added(a: Map<Seq<char>, Vec<(String, u32)>>, b: Map<Seq<char>, Vec<(String, u32)>>, g: Seq<char>, x: Inst) -> bool {
    &&& b.dom() == a.dom().insert(g)
    &&& forall|h: Seq<char>| h != g && #[trigger] a.contains_key(h) ==> b[h] == a[h]
    &&& iv(b[g]@) == (if a.contains_key(g) { iv(a[g]@) } else { Seq::empty() }).push(x)
}
pub open spec fn mapped(items: ir::Items, o: opt::MonosView, m: Map<Seq<char>, Vec<(String, u32)>>) -> bool {
    forall|g: Seq<char>| #![trigger m.contains_key(g)] #![trigger wanted(items, o, g)] (m.contains_key(g) <==> wanted(items, o, g)) && (m.contains_key(g) ==> ordered(raw(items, g), iv(m[g]@)))
}
pub open spec fn vorder() -> spec_fn((String, u32), (String, u32)) -> Ordering { |a: (String, u32), b: (String, u32)| then(icmp(b.1 as int, a.1 as int), scmp(a.0@, b.0@)) }
pub proof fn lemma_pgroup_ext(s: Seq<Pair>, t: Seq<Pair>, k: int, g: Seq<char>)
    requires 0 <= k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i]
    ensures pgroup(s, k, g) == pgroup(t, k, g)
    decreases k
{ if k > 0 { lemma_pgroup_ext(s, t, k - 1, g); } }
pub proof fn lemma_group_ext(s: Seq<ir::Item>, t: Seq<ir::Item>, k: int, g: Seq<char>)
    requires 0 <= k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i]
    ensures group(s, k, g) == group(t, k, g)
    decreases k
{ if k > 0 { lemma_group_ext(s, t, k - 1, g); } }
/// Of the items with a generic, those asked for, grouped.
pub proof fn lemma_pgroup<'a>(s: Seq<ir::Item>, o: opt::MonosView, g: Seq<char>)
    ensures ({ let f = filter_map_seq(refs::<'a, ir::Item>(s), with_generic()).filter(is_picked(o)); pgroup(f, f.len() as int, g) == (if picked(args(o.functions), o.using_regexps, g) { group(s, s.len() as int, g) } else { Seq::empty() }) })
    decreases s.len()
{
    reveal(Seq::filter); reveal_with_fuel(filter_map_seq, 2);
    let r = refs::<'a, ir::Item>(s); let q = with_generic::<'a>(); let h = is_picked::<'a>(o);
    let f0 = filter_map_seq(r, q); let f = f0.filter(h);
    if s.len() > 0 {
        let t = s.drop_last(); let x = s.last();
        lemma_pgroup(t, o, g);
        lemma_group_ext(s, t, t.len() as int, g);
        assert(r.drop_last() =~= refs::<'a, ir::Item>(t)); assert(*r.last() == x);
        let e0 = filter_map_seq(refs::<'a, ir::Item>(t), q); let e = e0.filter(h);
        match x.generic() {
            Some(n) => {
                match x.kind { ir::ItemKind::Code(c) => { match c.monomorphization_of { Some(z) => { axiom_str_of(&z); } None => {} } } _ => {} }
                let y = (str_of::<'a>(n), r.last());
                assert(f0 == e0.push(y)); assert(f0.drop_last() =~= e0); assert(f0.last() == y);
                if h(y) { assert(f =~= e.push(y)); lemma_pgroup_ext(f, e, e.len() as int, g); } else { assert(f == e); }
            }
            None => { assert(f0 == e0); }
        }
    } else { assert(f0.len() == 0); assert(f.len() == 0); }
}
/// A string's characters are those of some text.
#[verifier::external_body]
pub proof fn axiom_str_of(s: &String) ensures str_of(s@)@ == s@ {}
pub proof fn lemma_vorder()
    ensures preorder(vorder()), preorder(iorder())
{
    lemma_scmp();
    let g = vorder();
    assert forall|a: (String, u32), b: (String, u32), c: (String, u32)| #![trigger g(a, b), g(b, c)] !(g(a, b) is Greater) && !(g(b, c) is Greater) implies !(g(a, c) is Greater) by { assert(!(scmp(a.0@, b.0@) is Greater) && !(scmp(b.0@, c.0@) is Greater) ==> !(scmp(a.0@, c.0@) is Greater)); }
    assert forall|a: (String, u32), b: (String, u32), c: (String, u32)| #![trigger g(a, b), g(b, c)] g(a, b) is Equal && g(b, c) is Equal implies g(a, c) is Equal by { assert(scmp(a.0@, b.0@) is Equal <==> a.0@ == b.0@); assert(scmp(b.0@, c.0@) is Equal <==> b.0@ == c.0@); assert(scmp(a.0@, c.0@) is Equal <==> a.0@ == c.0@); }
    let g = iorder();
    assert forall|a: Inst, b: Inst, c: Inst| #![trigger g(a, b), g(b, c)] !(g(a, b) is Greater) && !(g(b, c) is Greater) implies !(g(a, c) is Greater) by { assert(!(scmp(a.0, b.0) is Greater) && !(scmp(b.0, c.0) is Greater) ==> !(scmp(a.0, c.0) is Greater)); }
    assert forall|a: Inst, b: Inst, c: Inst| #![trigger g(a, b), g(b, c)] g(a, b) is Equal && g(b, c) is Equal implies g(a, c) is Equal by { assert(scmp(a.0, b.0) is Equal <==> a.0 == b.0); assert(scmp(b.0, c.0) is Equal <==> b.0 == c.0); assert(scmp(a.0, c.0) is Equal <==> a.0 == c.0); }
}
/// Sorting the pairs sorts what they show.
pub proof fn lemma_orders(a: (String, u32), b: (String, u32))
    ensures vorder()(a, b) == iorder()((a.0@, a.1 as int), (b.0@, b.1 as int))
{ }
pub broadcast proof fn lemma_ordered(s: Seq<(String, u32)>, r: Seq<(String, u32)>, p: Seq<int>)
    requires #[trigger] sorts(s, r, vorder(), p)
    ensures ordered(iv(s), iv(r))
{
    hide(scmp);
    let (a, b) = (iv(s), iv(r)); let (g, h) = (vorder(), iorder());
    assert forall|x: (String, u32), y: (String, u32)| #[trigger] g(x, y) == h((x.0@, x.1 as int), (y.0@, y.1 as int)) by { lemma_orders(x, y); }
    assert forall|i: int| #![trigger b[i]] #![trigger p[i]] 0 <= i < p.len() implies 0 <= p[i] < a.len() && b[i] == a[p[i]] by { assert(r[i] == s[p[i]]); }
    assert forall|j: int| #![trigger a[j]] #![trigger placed(p, j)] 0 <= j < a.len() implies placed(p, j) by { let _ = s[j]; assert(placed(p, j)); }
    assert forall|i: int, j: int| #![trigger b[i], b[j]] #![trigger p[i], p[j]] 0 <= i < j < p.len() implies p[i] != p[j] && !(h(b[i], b[j]) is Greater) && (h(b[i], b[j]) is Equal ==> p[i] < p[j]) by { assert(g(r[i], r[j]) == h(b[i], b[j])); }
    assert(sorts(a, b, h, p));
}
/// Comparing a `String` with a `&str` compares their characters.
#[verifier::external_body]
pub broadcast proof fn axiom_string_eq_str(a: &String, b: &&str) ensures #[trigger] <String as PartialEqSpec<&str>>::eq_spec(a, b) == (a@ == b@) {}
#[verifier::external_body]
pub broadcast proof fn axiom_string_obeys_eq_str() ensures #[trigger] <String as PartialEqSpec<&str>>::obeys_eq_spec() {}
pub broadcast proof fn lemma_added(a: Map<Seq<char>, Vec<(String, u32)>>, b: Map<Seq<char>, Vec<(String, u32)>>, s: Seq<Pair>, k: int)
    requires #[trigger] grouped(a, s, k), 0 <= k < s.len(), #[trigger] added(a, b, s[k].0@, (s[k].1.shown(), s[k].1.size as int))
    ensures grouped(b, s, k + 1)
{
    let n = s[k].0@;
    assert forall|g: Seq<char>| #[trigger] b.contains_key(g) <==> pgroup(s, k + 1, g).len() > 0 by { assert(b.contains_key(g) <==> b.dom().contains(g)); assert(a.contains_key(g) <==> a.dom().contains(g)); let _ = pgroup(s, k, g); }
    assert forall|g: Seq<char>| #[trigger] b.contains_key(g) implies iv(b[g]@) == pgroup(s, k + 1, g) by { assert(b.dom().contains(g)); assert(a.contains_key(g) <==> a.dom().contains(g)); if g == n { if !a.contains_key(g) { assert(pgroup(s, k, g).len() == 0); assert(pgroup(s, k, g) =~= Seq::empty()); } } else { assert(a.contains_key(g)); } }
}
pub proof fn lemma_filter_map_len<T, B>(s: Seq<T>, q: spec_fn(T) -> Option<B>)
    ensures filter_map_seq(s, q).len() <= s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_filter_map_len(s.drop_last(), q); } }
pub proof fn lemma_mapped(items: ir::Items, o: opt::MonosView, um: Map<Seq<char>, Vec<(String, u32)>>, o1: Seq<(&str, Vec<(String, u32)>)>, o2: Seq<(&str, Vec<(String, u32)>)>, m: Map<Seq<char>, Vec<(String, u32)>>)
    requires
        forall|g: Seq<char>| #[trigger] um.contains_key(g) <==> wanted(items, o, g),
        forall|g: Seq<char>| #[trigger] um.contains_key(g) ==> iv(um[g]@) == raw(items, g),
        crate::vp_tree::is_pairs(um, o1), o1.len() == o2.len(), um.dom().len() <= items.im().dom().len(),
        forall|i: int| #![trigger o2[i]] 0 <= i < o2.len() ==> o2[i].0 == o1[i].0 && ordered(iv(o1[i].1@), iv(o2[i].1@)),
        forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> exists|i: int| 0 <= i < o2.len() && (#[trigger] o2[i]).0.vp_key() == k,
        forall|i: int| #![trigger o2[i]] 0 <= i < o2.len() && (forall|j: int| #![trigger o2[j]] i < j < o2.len() ==> o2[j].0.vp_key() != o2[i].0.vp_key()) ==> m[o2[i].0.vp_key()] == o2[i].1
    ensures mapped(items, o, m), m.dom().len() <= items.im().dom().len()
{
    lemma_scmp();
    assert forall|g: Seq<char>| #![trigger m.contains_key(g)] #![trigger wanted(items, o, g)] (m.contains_key(g) <==> wanted(items, o, g)) && (m.contains_key(g) ==> ordered(raw(items, g), iv(m[g]@))) by {
        if wanted(items, o, g) { assert(um.contains_key(g)); let i = choose|i: int| 0 <= i < o1.len() && (#[trigger] o1[i]).0.vp_key() == g; assert(o2[i].0.vp_key() == g); }
        if m.contains_key(g) {
            let i = choose|i: int| 0 <= i < o2.len() && (#[trigger] o2[i]).0.vp_key() == g; assert(o1[i].0.vp_key() == g);
            assert forall|j: int| #![trigger o2[j]] i < j < o2.len() implies o2[j].0.vp_key() != o2[i].0.vp_key() by { assert(scmp(o1[i].0.vp_key(), o1[j].0.vp_key()) is Less); assert(scmp(o1[i].0.vp_key(), o1[i].0.vp_key()) is Equal); assert(o2[j].0 == o1[j].0); }
            assert(m[g] == o2[i].1);
        }
    }
    assert(m.dom() =~= um.dom()) by { assert forall|g: Seq<char>| m.dom().contains(g) <==> um.dom().contains(g) by { assert(m.contains_key(g) <==> wanted(items, o, g)); assert(um.contains_key(g) <==> wanted(items, o, g)); } }
}
@fn collect_monomorphizations ret=r
    requires items.wf()
    ensures r is Err <==> opts.shown().using_regexps && !rx_valid(args(opts.shown().functions)),
        r matches Ok(m) ==> mapped(*items, opts.shown(), m@) && m@.dom().len() <= items.im().dom().len()
@entry collect_monomorphizations
    let ghost o = opts.shown(); let ghost fr = refs::<String>(o.functions); let ghost all: Seq<&'a ir::Item> = refs(items.item_seq());
    let ghost s1 = filter_map_seq(all, with_generic()); let ghost s2 = s1.filter(is_picked(o)); let ghost n2 = s2.len() as int;
    proof { crate::regex::axiom_no_patterns(); lemma_vorder(); assert(args(Seq::<String>::empty()) =~= Seq::empty()); assert(args(o.functions).len() == o.functions.len());
        assert forall|x: &'a str| #[trigger] str_of::<'a>(x@) == x by { axiom_str_ext(str_of::<'a>(x@), x); }
        assert forall|g: Seq<char>, i: int| #![trigger args(o.functions).contains(g), fr[i]] 0 <= i < o.functions.len() && fr[i]@ == g implies args(o.functions).contains(g) by { assert(args(o.functions)[i] == g); }
        assert forall|g: Seq<char>| #[trigger] args(o.functions).contains(g) implies exists|i: int| 0 <= i < o.functions.len() && (#[trigger] fr[i])@ == g by { let i = choose|i: int| 0 <= i < args(o.functions).len() && args(o.functions)[i] == g; assert(fr[i]@ == g); }
        assert forall|g: Seq<char>| #[trigger] pgroup(s2, n2, g) == (if picked(args(o.functions), o.using_regexps, g) { raw(*items, g) } else { Seq::empty() }) by { lemma_pgroup(items.item_seq(), o, g); }
    }
    proof { ir::lemma_item_seq(*items); lemma_filter_map_len(all, with_generic()); lemma_filter(s1, is_picked(o)); }
    broadcast use {lemma_ordered, lemma_added, axiom_string_eq_str, axiom_string_obeys_eq_str, self::entry::group_iv};
@before collect_monomorphizations new#0
    proof { assert(!using_regexps ==> args(patterns@) =~= Seq::empty()); }
@closure collect_monomorphizations 0
|&'a ir::Item| -> (r: Option<Pair<'a>>)
    ensures r == with_generic()($0)
@closure collect_monomorphizations 1
|&Pair<'a>| -> (b: bool)
    ensures b == is_picked(o)(*$0)
@closure collect_monomorphizations 2
|&String| -> (b: bool)
    ensures b == ($0@ == generic@)
@closure collect_monomorphizations 3
|BTreeMap<&'a str, Vec<(String, u32)>>, Pair<'a>| -> (r: BTreeMap<&'a str, Vec<(String, u32)>>)
    ensures added($0@, r@, $1.0@, ($1.1.shown(), $1.1.size as int))
@ghostarg collect_monomorphizations fold
Ghost(|k: int, a: BTreeMap<&'a str, Vec<(String, u32)>>| grouped(a@, s2, k))
@closure collect_monomorphizations 4
|(&'a str, Vec<(String, u32)>)| -> (r: (&'a str, Vec<(String, u32)>))
    ensures r.0 == $0.0, ordered(iv($0.1@), iv(r.1@))
@closure collect_monomorphizations 5
|&(String, u32), &(String, u32)| -> (o: Ordering)
    ensures o == vorder()(*$0, *$1)
@ghostarg collect_monomorphizations sort_by
Ghost(vorder())
@after collect_monomorphizations new#0
    proof { assert(using_regexps ==> regexps@ == args(o.functions)); assert(args_given == (args(o.functions).len() > 0)); assert(using_regexps == o.using_regexps); }
@before collect_monomorphizations push
    let ghost m0 = monos@;
@after collect_monomorphizations push
    proof { let g = generic@; assert(monos@.dom() =~= m0.dom().insert(g)); assert(iv(Seq::<(String, u32)>::empty()) =~= Seq::empty()); assert(added(m0, monos@, g, (inst.shown(), inst.size as int))); }
@before collect_monomorphizations into_iter
    let ghost um = unsorted_monos@;
    proof { assert forall|g: Seq<char>| #[trigger] um.contains_key(g) <==> wanted(*items, o, g) by { let _ = pgroup(s2, n2, g); };
        assert forall|o1: Seq<(&'a str, Vec<(String, u32)>)>, o2: Seq<(&'a str, Vec<(String, u32)>)>, m: MonosMap<'a>| #![trigger crate::vp_tree::is_pairs(um, o1), <MonosMap<'a> as VpFrom<(&'a str, Vec<(String, u32)>)>>::vp_from_post(o2, m)]
            crate::vp_tree::is_pairs(um, o1) && o1.len() == o2.len() && (forall|i: int| #![trigger o2[i]] 0 <= i < o2.len() ==> o2[i].0 == o1[i].0 && ordered(iv(o1[i].1@), iv(o2[i].1@))) && <MonosMap<'a> as VpFrom<(&'a str, Vec<(String, u32)>)>>::vp_from_post(o2, m)
            implies mapped(*items, o, m@) && m@.dom().len() <= items.im().dom().len() by { lemma_mapped(*items, o, um, o1, o2, m@); }
    }
@pre
// ---- summaries
pub open spec fn mrefs(s: Seq<&MonosEntry>) -> Seq<Gen> { s.map_values(|m: &MonosEntry| m.v()) }
pub open spec fn irefs(s: Seq<&(String, u32)>) -> Seq<int> { s.map_values(|x: &(String, u32)| x.1 as int) }
pub open spec fn nonneg(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] >= 0 }
/// What a list of entries adds up to fits.
pub open spec fn fits(s: Seq<Gen>) -> bool {
    &&& s.len() <= u32::MAX && isum(gsizes(s)) <= u32::MAX && isum(gbloats(s)) <= u32::MAX
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].size >= 0 && s[i].bloat >= 0 && s[i].insts.len() <= 0x1_0000_0000
}
pub proof fn lemma_fits(s: Seq<Gen>)
    requires fits(s)
    ensures
        gsizes(s).len() == s.len(), gbloats(s).len() == s.len(), gcounts(s).len() == s.len(),
        forall|k: int| #![trigger psum(gsizes(s), k)] 0 <= k < s.len() ==> 0 <= psum(gsizes(s), k) && psum(gsizes(s), k) + s[k].size <= u32::MAX,
        forall|k: int| #![trigger psum(gbloats(s), k)] 0 <= k < s.len() ==> 0 <= psum(gbloats(s), k) && psum(gbloats(s), k) + s[k].bloat <= u32::MAX,
        forall|k: int| #![trigger psum(gcounts(s), k)] 0 <= k <= s.len() ==> 0 <= psum(gcounts(s), k) <= k * 0x1_0000_0001,
{
    lemma_psums(gsizes(s)); lemma_psums(gbloats(s));
    assert forall|k: int| #![trigger psum(gsizes(s), k)] 0 <= k < s.len() implies 0 <= psum(gsizes(s), k) && psum(gsizes(s), k) + s[k].size <= u32::MAX by { assert(gsizes(s)[k] == s[k].size); }
    assert forall|k: int| #![trigger psum(gbloats(s), k)] 0 <= k < s.len() implies 0 <= psum(gbloats(s), k) && psum(gbloats(s), k) + s[k].bloat <= u32::MAX by { assert(gbloats(s)[k] == s[k].bloat); }
    assert forall|k: int| #![trigger psum(gcounts(s), k)] 0 <= k <= s.len() implies 0 <= psum(gcounts(s), k) <= k * 0x1_0000_0001 by { lemma_counts(s, k); }
}
pub proof fn lemma_counts(s: Seq<Gen>, k: int)
    requires fits(s), 0 <= k <= s.len()
    ensures 0 <= psum(gcounts(s), k) <= k * 0x1_0000_0001
    decreases k
{ if k > 0 { lemma_counts(s, k - 1); assert(s[k - 1].insts.len() <= 0x1_0000_0000); } }
pub proof fn lemma_fits_skip(s: Seq<Gen>, n: int)
    requires fits(s), 0 <= n <= s.len()
    ensures fits(s.skip(n))
{
    let (a, b) = (gsizes(s), gbloats(s));
    assert(gsizes(s.skip(n)) =~= a.skip(n)); assert(gbloats(s.skip(n)) =~= b.skip(n));
    lemma_psum_skip(a, n, s.len() - n); lemma_psum_skip(b, n, s.len() - n);
    lemma_psum_bound(a, n); lemma_psum_bound(b, n);
}
@fn summarize_entries ret=r
    requires fits(mrefs(entries@))
    ensures r.0 == isum(gcounts(mrefs(entries@))), r.1 == isum(gsizes(mrefs(entries@))), r.2 == isum(gbloats(mrefs(entries@)))
@entry summarize_entries
    let ghost es = mrefs(entries@); let ghost n = entries@.len(); proof { lemma_fits(es); }
@closure summarize_entries 0
|(usize, u32, u32), &MonosEntry| -> (r: (usize, u32, u32))
    requires $0.0 + 1 + $1.insts@.len() <= usize::MAX, $0.1 + $1.size <= u32::MAX, $0.2 + $1.bloat <= u32::MAX
    ensures r.0 == $0.0 + 1 + $1.insts@.len(), r.1 == $0.1 + $1.size, r.2 == $0.2 + $1.bloat
@ghostarg summarize_entries fold
Ghost(|k: int, a: (usize, u32, u32)| a.0 == psum(gcounts(es), k) && a.1 == psum(gsizes(es), k) && a.2 == psum(gbloats(es), k))
@fn summarize_insts ret=r
    requires entries@.len() <= u32::MAX, isum(irefs(entries@)) <= u32::MAX
    ensures r.0 == entries@.len(), r.1 == isum(irefs(entries@))
@entry summarize_insts
    let ghost zs = irefs(entries@); proof { lemma_psums(zs); }
@closure summarize_insts 0
|(u32, u32), &(String, u32)| -> (r: (u32, u32))
    requires $0.0 < u32::MAX, $0.1 + $1.1 <= u32::MAX
    ensures r.0 == $0.0 + 1, r.1 == $0.1 + $1.1
@ghostarg summarize_insts fold
Ghost(|k: int, a: (u32, u32)| a.0 == k && a.1 == psum(zs, k))
@pre
pub open spec fn size_ref<'a>() -> spec_fn(&'a (String, u32)) -> &'a u32 { |x: &'a (String, u32)| &x.1 }
pub open spec fn vals<'a>(s: Seq<&'a u32>) -> Seq<int> { s.map_values(|x: &'a u32| *x as int) }
pub proof fn lemma_biggest(s: Seq<int>, m: int)
    requires s.contains(m), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= m, nonneg(s)
    ensures biggest(s) == m
    decreases s.len()
{
    let t = s.drop_last();
    lemma_biggest_in(s);
    let i = choose|i: int| 0 <= i < s.len() && s[i] == m;
    assert(s[i] <= biggest(s));
}
pub proof fn lemma_biggest_in(s: Seq<int>)
    requires nonneg(s)
    ensures s.len() > 0 ==> s.contains(biggest(s)), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= biggest(s), biggest(s) >= 0
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); lemma_biggest_in(t);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] <= biggest(s) by { if i < t.len() { assert(t[i] == s[i]); } }
        if t.len() > 0 && biggest(s) == biggest(t) { let j = choose|j: int| 0 <= j < t.len() && t[j] == biggest(t); assert(s[j] == biggest(s)); } else if biggest(s) == s.last() { assert(s[s.len() - 1] == biggest(s)); }
        assert(s[s.len() - 1] >= 0);
    }
}
/// The total of some sizes is at least any of them, and at least what could be saved.
pub proof fn lemma_bloat(s: Seq<int>)
    requires nonneg(s), s.len() > 0
    ensures 0 <= bloat(s) <= isum(s), 0 <= biggest(s) <= isum(s), 0 <= (isum(s) / s.len() as int) * (s.len() - 1) <= isum(s)
{
    lemma_psums(s); lemma_biggest_in(s);
    let j = choose|j: int| 0 <= j < s.len() && s[j] == biggest(s);
    assert(psum(s, j) + s[j] <= isum(s));
    lemma_psum_bound(s, s.len() as int);
    let (t, n) = (isum(s), s.len() as int);
    assert(0 <= (t / n) * (n - 1) <= t) by(nonlinear_arith) requires t >= 0, n > 0;
}
@fn calculate_total_and_bloat ret=r
    requires insts@.len() <= u32::MAX, isum(sizes_of(iv(insts@))) <= u32::MAX
    ensures insts@.len() == 0 <==> r is None, r matches Some(x) ==> x.0 == isum(sizes_of(iv(insts@))) && x.1 == bloat(sizes_of(iv(insts@)))
@entry calculate_total_and_bloat
    let ghost zs = sizes_of(iv(insts@)); let ghost ms = refs::<(String, u32)>(insts@).map_values(size_ref());
    proof { assert(vals(ms) =~= zs); assert(forall|i: int| 0 <= i < zs.len() ==> vals(ms)[i] == *ms[i]); if zs.len() > 0 { lemma_bloat(zs); } }
@closure calculate_total_and_bloat 0
|&(String, u32)| -> (r: &u32)
    ensures *r == $0.1
@closure calculate_total_and_bloat 1
|&(String, u32)| -> (r: &u32)
    ensures *r == $0.1
@before calculate_total_and_bloat sum
    proof { assert(zs.contains(*max as int)) by { let j = choose|j: int| 0 <= j < ms.len() && ms[j] == max; assert(zs[j] == *ms[j]); } assert forall|i: int| 0 <= i < zs.len() implies #[trigger] zs[i] <= *max by { assert(zs[i] == *ms[i]); } lemma_biggest(zs, *max as int); }
@pre
// ---- processing
pub open spec fn sound_inst(s: Seq<Inst>) -> bool { 0 < s.len() <= u32::MAX && nonneg(sizes_of(s)) && isum(sizes_of(s)) <= u32::MAX }
pub type Work<'a> = (&'a str, Vec<(String, u32)>, u32, u32);
pub open spec fn summed_up<'a>() -> spec_fn((&'a str, Vec<(String, u32)>)) -> Option<Work<'a>> {
    |x: (&'a str, Vec<(String, u32)>)| if x.1@.len() == 0 { None } else { Some((x.0, x.1, isum(sizes_of(iv(x.1@))) as u32, bloat(sizes_of(iv(x.1@))) as u32)) }
}
pub open spec fn processed(m: Map<Seq<char>, Vec<(String, u32)>>, o: opt::MonosView, s: Seq<Gen>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(s[i].name) && s[i] == gen_of(s[i].name, iv(m[s[i].name]@), o)
    &&& forall|g: Seq<char>| #[trigger] m.contains_key(g) ==> s.contains(gen_of(g, iv(m[g]@), o))
    &&& pairwise(s, gbefore())
}
pub proof fn lemma_filter_map_some<T, B>(s: Seq<T>, q: spec_fn(T) -> Option<B>)
    requires forall|i: int| 0 <= i < s.len() ==> q(#[trigger] s[i]) is Some
    ensures filter_map_seq(s, q).len() == s.len(), forall|i: int| #![trigger s[i]] #![trigger filter_map_seq(s, q)[i]] 0 <= i < s.len() ==> Some(filter_map_seq(s, q)[i]) == q(s[i])
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies q(#[trigger] t[i]) is Some by { assert(t[i] == s[i]); }
        lemma_filter_map_some(t, q);
        assert(q(s[s.len() - 1]) is Some);
        assert forall|i: int| #![trigger s[i]] #![trigger filter_map_seq(s, q)[i]] 0 <= i < s.len() implies Some(filter_map_seq(s, q)[i]) == q(s[i]) by { if i < t.len() { assert(t[i] == s[i]); assert(filter_map_seq(t, q)[i] == filter_map_seq(s, q)[i]); } }
    }
}
/// Entries for the pairs of a map.
pub open spec fn listing(m: Map<Seq<char>, Vec<(String, u32)>>, o: opt::MonosView, o1: Seq<(&str, Vec<(String, u32)>)>, s: Seq<MonosEntry>) -> bool {
    &&& crate::vp_tree::is_pairs(m, o1) && s.len() == o1.len()
    &&& forall|i: int| #![trigger o1[i]] #![trigger s[i]] 0 <= i < s.len() ==> s[i].v() == gen_of(o1[i].0@, iv(o1[i].1@), o)
}
pub proof fn lemma_pairs(m: Map<Seq<char>, Vec<(String, u32)>>, o1: Seq<(&str, Vec<(String, u32)>)>)
    requires crate::vp_tree::is_pairs(m, o1), forall|g: Seq<char>| #[trigger] m.contains_key(g) ==> sound_inst(iv(m[g]@))
    ensures
        forall|i: int| #![trigger o1[i]] 0 <= i < o1.len() ==> sound_inst(iv(o1[i].1@)) && 0 <= isum(sizes_of(iv(o1[i].1@))) <= u32::MAX && 0 <= bloat(sizes_of(iv(o1[i].1@))) <= u32::MAX,
        filter_map_seq(o1, summed_up()).len() == o1.len(),
        forall|i: int| #![trigger o1[i]] #![trigger filter_map_seq(o1, summed_up())[i]] 0 <= i < o1.len() ==> Some(filter_map_seq(o1, summed_up())[i]) == summed_up()(o1[i]),
{
    assert forall|i: int| #![trigger o1[i]] 0 <= i < o1.len() implies sound_inst(iv(o1[i].1@)) && 0 <= isum(sizes_of(iv(o1[i].1@))) <= u32::MAX && 0 <= bloat(sizes_of(iv(o1[i].1@))) <= u32::MAX by { assert(m.contains_key(o1[i].0.vp_key())); lemma_bloat(sizes_of(iv(o1[i].1@))); }
    assert forall|i: int| 0 <= i < o1.len() implies summed_up()(#[trigger] o1[i]) is Some by { assert(iv(o1[i].1@).len() > 0); }
    lemma_filter_map_some(o1, summed_up());
}
pub proof fn lemma_processed(m: Map<Seq<char>, Vec<(String, u32)>>, o: opt::MonosView, o1: Seq<(&str, Vec<(String, u32)>)>, s: Seq<MonosEntry>, r: Seq<MonosEntry>)
    requires listing(m, o, o1, s), exists|p: Seq<int>| #[trigger] sorts(s, r, own_order::<MonosEntry>(), p)
    ensures processed(m, o, gens(r))
{
    lemma_scmp(); lemma_gcmp();
    let p = choose|p: Seq<int>| #[trigger] sorts(s, r, own_order::<MonosEntry>(), p);
    let t = gens(r);
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies m.contains_key(t[i].name) && t[i] == gen_of(t[i].name, iv(m[t[i].name]@), o) by { assert(r[i] == s[p[i]]); let k = p[i]; assert(s[k].v() == gen_of(o1[k].0@, iv(o1[k].1@), o)); assert(m.contains_key(o1[k].0.vp_key())); }
    assert forall|g: Seq<char>| #[trigger] m.contains_key(g) implies t.contains(gen_of(g, iv(m[g]@), o)) by {
        let k = choose|k: int| 0 <= k < o1.len() && (#[trigger] o1[k]).0.vp_key() == g; let _ = s[k]; assert(placed(p, k)); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == k; assert(r[i] == s[k]); assert(t[i] == gen_of(g, iv(m[g]@), o));
    }
    assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies gbefore()(t[i], t[j]) by {
        let (a, b) = (p[i], p[j]); assert(r[i] == s[a] && r[j] == s[b]); assert(!(own_order::<MonosEntry>()(r[i], r[j]) is Greater));
        assert(gcmp(t[i], t[j]) is Equal <==> t[i] == t[j]);
        assert(o1[a].0@ != o1[b].0@) by { assert(scmp(o1[a].0.vp_key(), o1[b].0.vp_key()) is Equal <==> o1[a].0@ == o1[b].0@); assert(scmp(o1[b].0.vp_key(), o1[a].0.vp_key()) is Equal <==> o1[a].0@ == o1[b].0@); }
        assert(t[i].name == o1[a].0@ && t[j].name == o1[b].0@);
    }
}
@fn process_monomorphizations ret=r
    requires forall|g: Seq<char>| #[trigger] monos_map@.contains_key(g) ==> sound_inst(iv(monos_map@[g]@))
    ensures processed(monos_map@, opts.shown(), gens(r@)), r@.len() == monos_map@.dom().len()
@entry process_monomorphizations
    broadcast use self::entry::group_iv;
    let ghost o = opts.shown(); let ghost mm = monos_map@;
    proof {
        assert forall|o1: Seq<(&str, Vec<(String, u32)>)>| #[trigger] crate::vp_tree::is_pairs(mm, o1) implies
            (forall|i: int| #![trigger o1[i]] 0 <= i < o1.len() ==> sound_inst(iv(o1[i].1@)) && 0 <= isum(sizes_of(iv(o1[i].1@))) <= u32::MAX && 0 <= bloat(sizes_of(iv(o1[i].1@))) <= u32::MAX)
            && filter_map_seq(o1, summed_up()).len() == o1.len()
            && (forall|i: int| #![trigger o1[i]] #![trigger filter_map_seq(o1, summed_up())[i]] 0 <= i < o1.len() ==> Some(filter_map_seq(o1, summed_up())[i]) == summed_up()(o1[i])) by { lemma_pairs(mm, o1); }
    }
@after process_monomorphizations truncate#0
    proof { assert(iv(insts@) =~= Seq::empty()); }
@before process_monomorphizations summarize_insts
    let ghost i0 = insts@;
    proof { let z = sizes_of(iv(insts@)); if max_monos <= insts@.len() { assert(irefs(refs::<(String, u32)>(insts@).skip(max_monos as int)) =~= z.skip(max_monos as int)); lemma_psum_skip(z, max_monos as int, insts@.len() - max_monos); lemma_psum_bound(z, max_monos as int); } }
@after process_monomorphizations truncate#1
    proof { assert(rem_cnt == 0 ==> iv(insts@) =~= cut(iv(i0), o)); assert(rem_cnt > 0 ==> iv(insts@) =~= iv(i0).take(max_monos as int)); }
@after process_monomorphizations push
    proof { assert(iv(insts@) =~= cut(iv(i0), o)); }
@before process_monomorphizations sort
    let ghost ms0 = monos@;
    proof { lemma_own_order(); assert(exists|o1: Seq<(&str, Vec<(String, u32)>)>| #[trigger] crate::vp_tree::is_pairs(mm, o1) && listing(mm, o, o1, ms0)); }
@after process_monomorphizations sort
    proof { let o1 = choose|o1: Seq<(&str, Vec<(String, u32)>)>| #[trigger] crate::vp_tree::is_pairs(mm, o1) && listing(mm, o, o1, ms0); lemma_processed(mm, o, o1, ms0, monos@); }
@closure process_monomorphizations 0
|(&str, Vec<(String, u32)>)| -> (r: Option<Work>)
    requires sound_inst(iv($0.1@))
    ensures r == summed_up()($0)
@closure process_monomorphizations 1
|(u32, u32)| -> (r: Work)
    ensures r == (g, insts, $0.0, $0.1)
@closure process_monomorphizations 2
|Work| -> (r: Work)
    requires sound_inst(iv($0.1@))
    ensures r.0 == $0.0, iv(r.1@) == cut(iv($0.1@), o), r.2 == $0.2, r.3 == $0.3
@closure process_monomorphizations 3
|Work| -> (r: MonosEntry)
    ensures r.v() == (Gen { name: $0.0@, insts: iv($0.1@), size: $0.2 as int, bloat: $0.3 as int })
@fn add_stats ret=r
    requires fits(gens(monos@))
    ensures gens(r@) == stats(gens(monos@), opts.shown().max_generics as int)
@entry add_stats
    let ghost s = gens(monos@); let ghost ms = monos@; let ghost mx = opts.shown().max_generics as int;
    proof { assert(mrefs(refs::<MonosEntry>(ms)) =~= s); if mx < s.len() { lemma_fits_skip(s, mx); assert(mrefs(refs::<MonosEntry>(ms).skip(mx)) =~= s.skip(mx)); } }
@after add_stats truncate
    proof { assert(gens(monos@) =~= (if mx < s.len() { s.take(mx) } else { s })); }
@before add_stats truncate
    proof {
        let t = totals(isum(gcounts(s)) as nat);
        assert(total.v() == summed(t, s)) by { assert(total.v().insts =~= Seq::empty()); assert(total.v().name =~= t); }
        assert((remaining is Some) == (mx < s.len()));
        if mx < s.len() { let r = s.skip(mx); assert(remaining->Some_0.v() == summed(more(isum(gcounts(r))), r)) by { assert(remaining->Some_0.v().insts =~= Seq::empty()); } }
    }
@after add_stats push#0
    proof { assert(gens(monos@) =~= s.take(mx).push(summed(more(isum(gcounts(s.skip(mx)))), s.skip(mx)))); }
@exit add_stats
    proof { assert(gens(monos@) =~= stats(s, mx)); }
@pre
// ---- the sizes of all the generic functions together
pub open spec fn gsize(s: Seq<ir::Item>, k: int, g: Seq<char>) -> int { isum(sizes_of(group(s, k, g))) }
pub open spec fn isizes(s: Seq<ir::Item>) -> Seq<int> { s.map_values(|i: ir::Item| i.size as int) }
pub proof fn lemma_isum_push(s: Seq<int>, x: int)
    ensures isum(s.push(x)) == isum(s) + x
{ lemma_psum_ext(s, s.push(x), s.len() as int); }
pub proof fn lemma_group_step(s: Seq<ir::Item>, k: int, g: Seq<char>)
    requires 0 < k <= s.len()
    ensures gsize(s, k, g) == gsize(s, k - 1, g) + (if s[k - 1].generic() == Some(g) { s[k - 1].size as int } else { 0 })
{
    let r = group(s, k - 1, g);
    if s[k - 1].generic() == Some(g) { let x = (s[k - 1].shown(), s[k - 1].size as int); assert(sizes_of(r.push(x)) =~= sizes_of(r).push(x.1)); lemma_isum_push(sizes_of(r), x.1); }
}
/// Sums that differ in one place only.
pub proof fn lemma_one_more(a: Seq<int>, b: Seq<int>, k: int, j: int, d: int)
    requires 0 <= k <= a.len(), a.len() == b.len(), d >= 0, forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < k ==> b[i] == a[i] + (if i == j { d } else { 0 })
    ensures psum(b, k) == psum(a, k) + (if 0 <= j < k { d } else { 0 })
    decreases k
{ if k > 0 { lemma_one_more(a, b, k - 1, j, d); } }
pub open spec fn gsums(s: Seq<ir::Item>, k: int, gs: Seq<Seq<char>>) -> Seq<int> { gs.map_values(|g: Seq<char>| gsize(s, k, g)) }
/// Different generics have different instantiations: together no larger than everything.
pub proof fn lemma_disjoint(s: Seq<ir::Item>, k: int, gs: Seq<Seq<char>>)
    requires 0 <= k <= s.len(), gs.no_duplicates()
    ensures isum(gsums(s, k, gs)) <= psum(isizes(s), k)
    decreases k
{
    let b = gsums(s, k, gs);
    if k > 0 {
        lemma_disjoint(s, k - 1, gs);
        let a = gsums(s, k - 1, gs); let d = s[k - 1].size as int;
        let j = match s[k - 1].generic() { Some(g) => if exists|i: int| 0 <= i < gs.len() && gs[i] == g { choose|i: int| 0 <= i < gs.len() && gs[i] == g } else { -1 }, None => -1 };
        assert forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < gs.len() implies b[i] == a[i] + (if i == j { d } else { 0 }) by { lemma_group_step(s, k, gs[i]); }
        lemma_one_more(a, b, gs.len() as int, j, d);
        assert(isizes(s)[k - 1] == d);
    } else {
        assert forall|i: int| 0 <= i < b.len() implies b[i] == 0 by { }
        lemma_zeros(b, b.len() as int);
    }
}
pub proof fn lemma_zeros(b: Seq<int>, k: int)
    requires 0 <= k <= b.len(), forall|i: int| 0 <= i < b.len() ==> b[i] == 0
    ensures psum(b, k) == 0
    decreases k
{ if k > 0 { lemma_zeros(b, k - 1); } }
/// A rearrangement has the same sum, length and largest.
pub proof fn lemma_perm_sum(s: Seq<int>, r: Seq<int>, p: Seq<int>)
    requires p.len() == s.len(), r.len() == s.len(), forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> 0 <= p[i] < s.len() && r[i] == s[p[i]], p.no_duplicates()
    ensures isum(r) == isum(s)
    decreases s.len()
{
    if s.len() > 0 {
        let n = s.len() - 1; let m = p[n];
        // take the last of r (s[m]) out of s
        let s2 = s.remove(m); let r2 = r.drop_last(); let p2 = Seq::new(n as nat, |i: int| if p[i] > m { p[i] - 1 } else { p[i] });
        assert forall|i: int| #![trigger p2[i]] 0 <= i < n implies 0 <= p2[i] < s2.len() && r2[i] == s2[p2[i]] by { assert(p[i] != p[n]); assert(r[i] == s[p[i]]); }
        assert(p2.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies p2[i] != p2[j] by { assert(p[i] != p[j] && p[i] != m && p[j] != m); } }
        lemma_perm_sum(s2, r2, p2);
        lemma_psum_ext(r, r2, n);
        lemma_remove(s, m, s.len() as int);
        assert(r[n] == s[m]);
    }
}
pub proof fn lemma_remove(s: Seq<int>, m: int, k: int)
    requires 0 <= m < k <= s.len()
    ensures psum(s, k) == psum(s.remove(m), k - 1) + s[m]
    decreases k
{
    let t = s.remove(m);
    if k == m + 1 { lemma_psum_ext(s, t, m); } else { lemma_remove(s, m, k - 1); assert(t[k - 2] == s[k - 1]); }
}
/// The instantiations in order: as many, as large.
pub proof fn lemma_ordered_sums(s: Seq<Inst>, r: Seq<Inst>)
    requires ordered(s, r)
    ensures r.len() == s.len(), isum(sizes_of(r)) == isum(sizes_of(s))
{
    let p = choose|p: Seq<int>| #[trigger] sorts(s, r, iorder(), p);
    assert(p.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { if i < j { let _ = (r[i], r[j]); } else { let _ = (r[j], r[i]); } } }
    assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies 0 <= p[i] < s.len() && sizes_of(r)[i] == sizes_of(s)[p[i]] by { assert(r[i] == s[p[i]]); }
    lemma_perm_sum(sizes_of(s), sizes_of(r), p);
}
/// One order only.
pub proof fn lemma_ordered_unique(s: Seq<Inst>, r: Seq<Inst>, t: Seq<Inst>)
    requires ordered(s, r), ordered(s, t)
    ensures r == t
{
    lemma_vorder();
    let g = iorder();
    let p = choose|p: Seq<int>| #[trigger] sorts(s, r, g, p); let q = choose|q: Seq<int>| #[trigger] sorts(s, t, g, q);
    let lt = |a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && !(g(s[a], s[b]) is Greater) && (g(s[a], s[b]) is Equal ==> a < b);
    assert(pairwise(p, lt)) by { assert forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() implies lt(p[i], p[j]) by { assert(r[i] == s[p[i]] && r[j] == s[p[j]]); } }
    assert(pairwise(q, lt)) by { assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() implies lt(q[i], q[j]) by { assert(t[i] == s[q[i]] && t[j] == s[q[j]]); } }
    assert forall|x: int| #[trigger] p.contains(x) <==> q.contains(x) by {
        if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; let _ = s[x]; assert(placed(q, x)); }
        if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; let _ = s[x]; assert(placed(p, x)); }
    }
    assert forall|x: int, y: int| #![trigger lt(x, y)] lt(x, y) implies !lt(y, x) by { assert(g(s[x], s[y]) is Less <==> g(s[y], s[x]) is Greater); assert(g(s[y], s[x]) is Less <==> g(s[x], s[y]) is Greater); }
    lemma_unique_list(p, q, lt);
    assert(r =~= t) by { assert forall|i: int| 0 <= i < r.len() implies r[i] == t[i] by { assert(r[i] == s[p[i]]); assert(t[i] == s[q[i]]); } }
}
pub proof fn lemma_group_len(s: Seq<ir::Item>, k: int, g: Seq<char>)
    requires 0 <= k <= s.len()
    ensures group(s, k, g).len() <= k, nonneg(sizes_of(group(s, k, g)))
    decreases k
{ if k > 0 { lemma_group_len(s, k - 1, g); let r = group(s, k - 1, g); if s[k - 1].generic() == Some(g) { let x = (s[k - 1].shown(), s[k - 1].size as int); assert(sizes_of(r.push(x)) =~= sizes_of(r).push(x.1)); } } }
/// The sizes of all items together.
pub proof fn lemma_total(items: ir::Items)
    requires items.wf()
    ensures isum(isizes(items.item_seq())) <= u32::MAX
{
    ir::lemma_item_seq(items);
    let s = items.item_seq(); let ids = s.map_values(|i: ir::Item| i.id);
    assert forall|i: int, j: int| 0 <= i < j < ids.len() implies ids[i] != ids[j] by { assert(crate::ir_ord::idlt(s[i].id, s[j].id)); }
    assert(listed(items.im(), ids)) by { assert(ids.no_duplicates()); assert forall|i: int| #![trigger ids[i]] 0 <= i < ids.len() implies items.im().contains_key(ids[i]) by { assert(items.im().contains_key(s[i].id)); } }
    lemma_sizes(items.im(), ids);
    assert(sizes(items.im(), ids) =~= isizes(s));
}
pub proof fn lemma_sound(items: ir::Items, o: opt::MonosView, m: Map<Seq<char>, Vec<(String, u32)>>)
    requires items.wf(), items.im().dom().len() <= i32::MAX, mapped(items, o, m)
    ensures forall|g: Seq<char>| #[trigger] m.contains_key(g) ==> sound_inst(iv(m[g]@)) && iv(m[g]@) == insts_of(items, g) && isum(sizes_of(iv(m[g]@))) == gsize(items.item_seq(), items.item_seq().len() as int, g)
{
    ir::lemma_item_seq(items); lemma_total(items);
    let s = items.item_seq(); let n = s.len() as int;
    assert forall|g: Seq<char>| #[trigger] m.contains_key(g) implies sound_inst(iv(m[g]@)) && iv(m[g]@) == insts_of(items, g) && isum(sizes_of(iv(m[g]@))) == gsize(s, n, g) by {
        let r = raw(items, g); let v = iv(m[g]@);
        assert(wanted(items, o, g)); lemma_ordered_sums(r, v); lemma_group_len(s, n, g);
        lemma_disjoint(s, n, seq![g]); assert(gsums(s, n, seq![g]) =~= seq![gsize(s, n, g)]); assert(isum(seq![gsize(s, n, g)]) == gsize(s, n, g)) by { reveal_with_fuel(psum, 2); }
        assert(ordered(r, insts_of(items, g))); lemma_ordered_unique(r, v, insts_of(items, g));
        assert forall|i: int| 0 <= i < sizes_of(v).len() implies #[trigger] sizes_of(v)[i] >= 0 by { assert(v[i].1 == m[g]@[i].1); }
    }
}
pub proof fn lemma_all_gens(items: ir::Items, o: opt::MonosView, m: Map<Seq<char>, Vec<(String, u32)>>, s: Seq<Gen>)
    requires items.wf(), items.im().dom().len() <= i32::MAX, mapped(items, o, m), processed(m, o, s), s.len() <= u32::MAX
    ensures all_gens(items, o, s), fits(s)
{
    lemma_sound(items, o, m); lemma_total(items); lemma_scmp(); lemma_gcmp(); ir::lemma_item_seq(items);
    let its = items.item_seq(); let n = its.len() as int;
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies wanted(items, o, s[i].name) && s[i] == the_gen(items, o, s[i].name) && s[i].size == gsize(its, n, s[i].name) && 0 <= s[i].bloat <= s[i].size && s[i].insts.len() <= 0x1_0000_0000 by {
        let g = s[i].name; assert(m.contains_key(g)); assert(wanted(items, o, g)); lemma_bloat(sizes_of(iv(m[g]@)));
    }
    assert forall|g: Seq<char>| #[trigger] wanted(items, o, g) implies s.contains(the_gen(items, o, g)) by { assert(m.contains_key(g)); }
    let gs = s.map_values(|x: Gen| x.name);
    assert(gs.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < j < gs.len() implies gs[i] != gs[j] by { assert(gbefore()(s[i], s[j])); assert(gcmp(s[i], s[j]) is Equal <==> s[i] == s[j]); if gs[i] == gs[j] { assert(s[i] == s[j]); } } }
    lemma_disjoint(its, n, gs);
    assert(gsums(its, n, gs) =~= gsizes(s));
    lemma_less(gbloats(s), gsizes(s), s.len() as int);
}
pub proof fn lemma_less(a: Seq<int>, b: Seq<int>, k: int)
    requires 0 <= k <= a.len(), a.len() == b.len(), forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i] <= b[i]
    ensures psum(a, k) <= psum(b, k)
    decreases k
{ if k > 0 { lemma_less(a, b, k - 1); } }
@fn monos ret=r
    requires old(items).wf(), old(items).im().dom().len() <= i32::MAX
    ensures *final(items) == *old(items),
        r is Err <==> opts.shown().using_regexps && !rx_valid(args(opts.shown().functions)),
        r matches Ok(b) ==> exists|t: Monos| #[trigger] t.reports(*final(items), opts.shown()) && t.ok(*final(items))
            && b.vp_ok(*final(items)) && b.vp_text(*final(items)) == t.vp_text(*final(items)) && b.vp_json(*final(items)) == t.vp_json(*final(items)) && b.vp_csv(*final(items)) == t.vp_csv(*final(items))
@after monos collect_monomorphizations
    let ghost o = opts.shown(); let ghost mm = monos_map@;
    proof { lemma_sound(*items, o, mm); }
@after monos process_monomorphizations
    let ghost full = gens(monos@);
    proof { lemma_all_gens(*items, o, mm, full); }
@after monos add_stats
    proof { let t = Monos { monos }; assert(t.v() == stats(full, o.max_generics as int)); assert(t.reports(*items, o)); assert(t.ok(*items)); }
@module twiggy_analyze::analyses::monos::emit analyze/analyses/monos/emit.rs
@opt close=array
@opt close=object
@opt close=from_writer
@pre
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::vp::*;
use crate::vp_text::*;
use crate::vp_more::*;
use crate::report::*;
use crate::csv::{csv_text, fcsv, entry, line, lemma_csv_push, VpRecord, VpCell};
use crate::twiggy_analyze::formats::json::{J, render, sep, quoted};
use crate::vp_std::io::{Sink, wrote};
use crate::twiggy_traits::Emit as VpEmit;
use super::entry::{Gen, Inst, iv, sizes_of};
use super::{gens};
broadcast use {crate::vp::group_vp, crate::vp_text::group_num, crate::vp_text::group_f64};
impl Monos {
    // Text: every entry, and below it its instantiations.
    pub open spec fn grow(g: Gen, total: int) -> Seq<Seq<char>> { seq![dec(g.bloat as nat), pct(g.bloat, total), dec(g.size as nat), pct(g.size, total), g.name] }
    pub open spec fn irow(x: Inst, total: int) -> Seq<Seq<char>> { seq![Seq::empty(), Seq::empty(), dec(x.1 as nat), pct(x.1, total), "    "@ + x.0] }
    pub open spec fn irows(g: Gen, total: int, k: int) -> Seq<Seq<Seq<char>>> { Seq::new(k as nat, |i: int| Self::irow(g.insts[i], total)) }
    pub open spec fn rows(s: Seq<Gen>, total: int, k: int) -> Seq<Seq<Seq<char>>> decreases k { if k <= 0 || k > s.len() { Seq::empty() } else { Self::rows(s, total, k - 1) + (seq![Self::grow(s[k - 1], total)] + Self::irows(s[k - 1], total, s[k - 1].insts.len() as int)) } }
    pub open spec fn head() -> Seq<(Align, Seq<char>)> { seq![(Align::Right, "Apprx. Bloat Bytes"@), (Align::Right, "Apprx. Bloat %"@), (Align::Right, "Bytes"@), (Align::Right, "%"@), (Align::Left, "Monomorphizations"@)] }
    // JSON
    pub open spec fn jinst(x: Inst, total: int) -> J { J::Obj(seq![("name"@, J::Str(x.0)), ("shallow_size"@, J::Int(x.1)), ("shallow_size_percent"@, J::Flt(percent(x.1, total)))]) }
    pub open spec fn jinsts(g: Gen, total: int, k: int) -> Seq<J> { Seq::new(k as nat, |i: int| Self::jinst(g.insts[i], total)) }
    pub open spec fn jhead(g: Gen, total: int) -> Seq<(Seq<char>, J)> {
        seq![("generic"@, J::Str(g.name)), ("approximate_monomorphization_bloat_bytes"@, J::Int(g.bloat)), ("approximate_monomorphization_bloat_percent"@, J::Flt(percent(g.bloat, total))),
            ("total_size"@, J::Int(g.size)), ("total_size_percent"@, J::Flt(percent(g.size, total)))]
    }
    pub open spec fn jfields(g: Gen, total: int) -> Seq<(Seq<char>, J)> { Self::jhead(g, total).push(("monomorphizations"@, J::Arr(Self::jinsts(g, total, g.insts.len() as int)))) }
    pub open spec fn jrows(s: Seq<Gen>, total: int, k: int) -> Seq<J> { Seq::new(k as nat, |i: int| J::Obj(Self::jfields(s[i], total))) }
    // CSV
    pub open spec fn joined(g: Gen) -> Seq<char> { joined(g.insts.map_values(|x: Inst| x.0), ", "@) }
    pub open spec fn crow(g: Gen, total: int) -> Rec {
        seq![("Generic"@, g.name), ("ApproximateMonomorphizationBloatBytes"@, dec(g.bloat as nat)), ("ApproximateMonomorphizationBloatPercent"@, fcsv(percent(g.bloat, total))),
            ("TotalSize"@, dec(g.size as nat)), ("TotalSizePercent"@, fcsv(percent(g.size, total))), ("Monomorphizations"@, Self::joined(g))]
    }
    pub open spec fn crows(s: Seq<Gen>, total: int, k: int) -> Seq<Rec> { Seq::new(k as nat, |i: int| Self::crow(s[i], total)) }
}
@inject `Emit for Monos`
    open spec fn vp_ok(&self, items: ir::Items) -> bool { self.ok(items) }
    open spec fn vp_text(&self, items: ir::Items) -> Seq<char> { ttext(Monos::head(), Monos::rows(self.v(), items.size as int, self.v().len() as int)) }
    open spec fn vp_json(&self, items: ir::Items) -> Seq<char> { render(J::Arr(Monos::jrows(self.v(), items.size as int, self.v().len() as int))) }
    open spec fn vp_csv(&self, items: ir::Items) -> Seq<char> { csv_text(Monos::crows(self.v(), items.size as int, self.v().len() as int)) }
@pre
pub open spec fn trow_ok(r: TableRow, g: Gen, total: int) -> bool { r.bloat is Some && r.bloat->Some_0 == g.bloat && r.bloat_percent == Some(percent(g.bloat, total)) && r.size == g.size && r.size_percent == percent(g.size, total) && r.name@ == g.name }
pub open spec fn tinst_ok(r: TableRow, x: Inst, total: int) -> bool { r.bloat is None && r.bloat_percent is None && r.size == x.1 && r.size_percent == percent(x.1, total) && r.name@ == "    "@ + x.0 }
pub open spec fn tentry_ok(s: Seq<TableRow>, g: Gen, total: int) -> bool {
    &&& s.len() == 1 + g.insts.len()
    &&& trow_ok(s[0], g, total)
    &&& forall|i: int| #![trigger s[i]] 1 <= i < s.len() ==> tinst_ok(s[i], g.insts[i - 1], total)
}
@fn `Emit for Monos::emit_text::process_entry` ret=r
    requires exists|t: u32| total_size == #[trigger] f64_of(t as int)
    ensures forall|t: u32| total_size == #[trigger] f64_of(t as int) ==> tentry_ok(r@, entry.v(), t as int)
@entry `Emit for Monos::emit_text::process_entry`
    let ghost t: u32 = choose|t: u32| total_size == #[trigger] f64_of(t as int);
    proof { reveal_strlit("    "); }
@closure `Emit for Monos::emit_text::process_entry` 0
|u32| -> (r: f64)
    ensures r == fmul(fdiv(f64_of($0 as int), total_size), 100.0f64)
@closure `Emit for Monos::emit_text::process_entry` 1
|&(String, u32)| -> (r: TableRow)
    ensures r.bloat is None, r.bloat_percent is None, r.size == $0.1, r.size_percent == fmul(fdiv(f64_of($0.1 as int), total_size), 100.0f64), r.name@ == "    "@ + $0.0@
@entry `Emit for Monos::emit_text`
    let ghost w0 = dest.vp_sink(); let ghost total = items.size as int; let ghost gs = self.v();
    let ghost mut rs: Seq<Seq<Seq<char>>> = Seq::empty();
@loop `Emit for Monos::emit_text` 0 iter=it
    invariant
        total == items.size, gs == self.v(), it.seq() == refs::<MonosEntry>(self.monos@), dest.vp_sink() == w0,
        table.wf(), table.hv() == Monos::head(), table.cols() == 5, table.rv() =~= rs, rs =~= Monos::rows(gs, total, it.index() as int),
@loop `Emit for Monos::emit_text` 1 iter=jt
    invariant
        total == items.size, gs == self.v(), dest.vp_sink() == w0,
        tentry_ok(jt.seq(), g, total),
        table.wf(), table.hv() == Monos::head(), table.cols() == 5, table.rv() =~= rs,
        rs =~= rs0 + (if jt.index() == 0 { Seq::empty() } else { seq![Monos::grow(g, total)] + Monos::irows(g, total, jt.index() - 1) }),
@loopentry `Emit for Monos::emit_text` 0
    let ghost rs0 = rs; let ghost g = gs[it.index() as int];
    proof { assert(mono.v() == g); }
@loopexit `Emit for Monos::emit_text` 0
    proof { assert(rs =~= Monos::rows(gs, total, it.index() + 1)); }
@loopexit `Emit for Monos::emit_text` 1
    proof {
        let k = jt.index() as int; let row = if k == 0 { Monos::grow(g, total) } else { Monos::irow(g.insts[k - 1], total) };
        let z = table.rv().last(); assert(z.len() == 5);
        assert(z[0] =~= row[0]);
       
        assert(z[1] =~= row[1]);
        assert(z[2] =~= row[2]); assert(z[3] =~= row[3]); assert(z[4] =~= row[4]);
        assert(table.rv().last() =~= row); rs = rs.push(row);
        assert(rs =~= rs0 + (seq![Monos::grow(g, total)] + Monos::irows(g, total, k)));
    }
@before `Emit for Monos::emit_text` write!
    proof { assert(rs =~= Monos::rows(gs, total, gs.len() as int)); lemma_table_text(table); }
@attr `Emit for Monos::emit_text`
#[verifier::rlimit(60)]
@closure `Emit for Monos::emit_text` 0
|u32| -> (r: String)
    ensures r@ == dec($0 as nat)
@closure `Emit for Monos::emit_text` 1
|f64| -> (r: String)
    ensures r@ == fp2($0) + "%"@
@fn `Emit for Monos::emit_json::process_entry` ret=r
    requires exists|t: u32| total_size == #[trigger] f64_of(t as int), !old(obj).need_comma
    ensures final(final(obj).w).vp_sink() == final(old(obj).w).vp_sink(),
        forall|t: u32| total_size == #[trigger] f64_of(t as int) ==> wrote(old(obj).w.vp_sink(), final(obj).w.vp_sink(), jmembers(Monos::jfields(entry.v(), t as int)), r is Ok)
@attr `Emit for Monos::emit_json::process_entry`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for Monos::emit_json::process_entry`
    hide(wrote);
    broadcast use crate::report::lemma_wrote;
    let ghost t: u32 = choose|t: u32| total_size == #[trigger] f64_of(t as int);
    let ghost total = t as int; let ghost g = entry.v(); let ghost o0 = obj.w.vp_sink(); let ghost mut o = o0; let ghost mut m: Seq<(Seq<char>, J)> = Seq::empty();
    let ghost pre = sep(true) + quoted("monomorphizations"@) + ":"@; let ghost h = Monos::jhead(g, total);
    proof { lemma_no_members(o0); lemma_same_total(g, total); }
@closure `Emit for Monos::emit_json::process_entry` 0
|u32| -> (r: f64)
    ensures r == fmul(fdiv(f64_of($0 as int), total_size), 100.0f64)
@after `Emit for Monos::emit_json::process_entry` field#0
    proof { lemma_membered(o0, o, obj.w.vp_sink(), m, h[0]); m = m.push(h[0]); o = obj.w.vp_sink(); }
@after `Emit for Monos::emit_json::process_entry` field#1
    proof { lemma_membered(o0, o, obj.w.vp_sink(), m, h[1]); m = m.push(h[1]); o = obj.w.vp_sink(); }
@after `Emit for Monos::emit_json::process_entry` field#2
    proof { lemma_membered(o0, o, obj.w.vp_sink(), m, h[2]); m = m.push(h[2]); o = obj.w.vp_sink(); }
@after `Emit for Monos::emit_json::process_entry` field#3
    proof { lemma_membered(o0, o, obj.w.vp_sink(), m, h[3]); m = m.push(h[3]); o = obj.w.vp_sink(); }
@after `Emit for Monos::emit_json::process_entry` field#4
    proof { lemma_membered(o0, o, obj.w.vp_sink(), m, h[4]); m = m.push(h[4]); o = obj.w.vp_sink(); assert(m =~= h); }
@closure `Emit for Monos::emit_json::process_entry` 1
|&(String, u32)| -> (r: (&String, &u32, f64))
    ensures *r.0 == $0.0, *r.1 == $0.1, r.2 == fmul(fdiv(f64_of($0.1 as int), total_size), 100.0f64)
@looppre `Emit for Monos::emit_json::process_entry` 0
    let ghost arr0 = monos;
    proof { lemma_begin_in(o, monos.w.vp_sink(), pre); assert(Monos::jinsts(g, total, 0) =~= Seq::empty()); }
@loop `Emit for Monos::emit_json::process_entry` 0 iter=it
    invariant
        it.seq().len() == g.insts.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> it.seq()[i].0@ == g.insts[i].0 && *it.seq()[i].1 == g.insts[i].1 && it.seq()[i].2 == percent(g.insts[i].1, total),
        final(monos.w).vp_sink() == final(arr0.w).vp_sink(), monos.need_comma == (it.index() > 0),
        begun_in(o, monos.w.vp_sink(), pre, Monos::jinsts(g, total, it.index() as int)),
@before `Emit for Monos::emit_json::process_entry` object#0
    let ghost k = it.index() as int; let ghost a0 = monos.w.vp_sink(); let ghost x = Monos::jinst(g.insts[k], total)->Obj_0; let ghost e = Seq::<(Seq<char>, J)>::empty();
@after `Emit for Monos::emit_json::process_entry` object#0
    let ghost b0 = obj.w.vp_sink(); proof { lemma_no_members(b0); }
@after `Emit for Monos::emit_json::process_entry` field#5
    let ghost b1 = obj.w.vp_sink(); proof { lemma_membered(b0, b0, b1, e, x[0]); }
@after `Emit for Monos::emit_json::process_entry` field#6
    let ghost b2 = obj.w.vp_sink(); proof { lemma_membered(b0, b1, b2, e.push(x[0]), x[1]); }
@after `Emit for Monos::emit_json::process_entry` field#7
    proof {
        lemma_membered(b0, b2, obj.w.vp_sink(), e.push(x[0]).push(x[1]), x[2]); assert(e.push(x[0]).push(x[1]).push(x[2]) =~= x);
        lemma_object_in(o, a0, b0, obj.w.vp_sink(), pre, Monos::jinsts(g, total, k), x); assert(Monos::jinsts(g, total, k).push(J::Obj(x)) =~= Monos::jinsts(g, total, k + 1));
    }
@looppost `Emit for Monos::emit_json::process_entry` 0
    proof { lemma_end_member(o0, o, monos.w.vp_sink(), h, "monomorphizations"@, Monos::jinsts(g, total, g.insts.len() as int)); }
@attr `Emit for Monos::emit_json`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for Monos::emit_json`
    hide(wrote);
    broadcast use crate::report::lemma_wrote;
    let ghost w0 = dest.vp_sink(); let ghost total = items.size as int; let ghost gs = self.v();
@looppre `Emit for Monos::emit_json` 0
    let ghost arr0 = arr;
    proof { lemma_begin(w0, arr.w.vp_sink()); assert(Monos::jrows(gs, total, 0) =~= Seq::empty()); }
@loop `Emit for Monos::emit_json` 0 iter=it
    invariant
        it.seq() == refs::<MonosEntry>(self.monos@),
        final(arr.w).vp_sink() == final(arr0.w).vp_sink(), arr.need_comma == (it.index() > 0),
        begun(w0, arr.w.vp_sink(), Monos::jrows(gs, total, it.index() as int)),
@before `Emit for Monos::emit_json` object
    let ghost a0 = arr.w.vp_sink(); let ghost k = it.index() as int; let ghost m = Monos::jfields(gs[k], total);
    proof { assert(entry.v() == gs[k]); }
@after `Emit for Monos::emit_json` object
    let ghost o = obj.w.vp_sink();
@after `Emit for Monos::emit_json` process_entry
    proof { lemma_obj_then(w0, a0, o, obj.w.vp_sink(), Monos::jrows(gs, total, k), m); assert(Monos::jrows(gs, total, k).push(J::Obj(m)) =~= Monos::jrows(gs, total, k + 1)); }
@exit `Emit for Monos::emit_json`
    proof { lemma_end(w0, arr.w.vp_sink(), Monos::jrows(gs, total, gs.len() as int)); }
@pre
pub proof fn lemma_obj_then(w0: Sink, a0: Sink, o: Sink, p: Sink, js: Seq<J>, m: Seq<(Seq<char>, J)>)
    requires begun(w0, a0, js), wrote(a0, o, sep(js.len() > 0) + "{"@, true), wrote(o, p, jmembers(m), true)
    ensures forall|c: Sink| #[trigger] wrote(p, c, "}"@, true) ==> begun(w0, c, js.push(J::Obj(m)))
{
    if !p.bad { assert(p.out =~= a0.out + (sep(js.len() > 0) + "{"@ + jmembers(m))); }
    lemma_object(w0, a0, p, js, m);
}
/// The report depends on the total size only as a float.
pub proof fn lemma_same_total(g: Gen, a: int)
    ensures forall|b: u32| #[trigger] f64_of(b as int) == f64_of(a) ==> Monos::jfields(g, b as int) == Monos::jfields(g, a)
{
    assert forall|b: u32| #[trigger] f64_of(b as int) == f64_of(a) implies Monos::jfields(g, b as int) == Monos::jfields(g, a) by {
        let n = g.insts.len() as int;
        assert(Monos::jinsts(g, b as int, n) =~= Monos::jinsts(g, a, n)) by { assert forall|i: int| 0 <= i < n implies Monos::jinsts(g, b as int, n)[i] == Monos::jinsts(g, a, n)[i] by { assert(Monos::jinst(g.insts[i], b as int)->Obj_0 =~= Monos::jinst(g.insts[i], a)->Obj_0); } }
        assert(Monos::jhead(g, b as int) =~= Monos::jhead(g, a));
    }
}
@closure `Emit for Monos::emit_csv` 0
|u32| -> (r: f64)
    ensures r == fmul(fdiv(f64_of($0 as int), items_size), 100.0f64)
@closure `Emit for Monos::emit_csv` 1
|&MonosEntry| -> (r: Record)
    ensures r.vp_rec() == Monos::crow($0.v(), total)
@closure `Emit for Monos::emit_csv` 2
|&(String, u32)| -> (r: &str)
    ensures r@ == $0.0@
@attr `Emit for Monos::emit_csv`
#[verifier::spinoff_prover] #[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for Monos::emit_csv`
    hide(wrote); hide(csv_text); hide(joined);
    broadcast use crate::report::lemma_wrote;
    let ghost w0 = dest.vp_sink(); let ghost total = items.size as int; let ghost gs = self.v();
@looppre `Emit for Monos::emit_csv` 0
    let ghost wtr0 = wtr;
    proof { lemma_no_records(w0); assert(Monos::crows(gs, total, 0) =~= Seq::empty()); }
@loop `Emit for Monos::emit_csv` 0 iter=it
    invariant
        it.seq() == refs::<MonosEntry>(self.monos@),
        final(wtr.w).vp_sink() == final(wtr0.w).vp_sink(), wtr.st@.n == it.index(),
        filed(w0, wtr.st@.sink, Monos::crows(gs, total, it.index() as int)), !wtr.st@.dirty
@before `Emit for Monos::emit_csv` serialize#0
    let ghost a0 = wtr.st@.sink; let ghost k = it.index() as int; let ghost cs = Monos::crows(gs, total, k); let ghost c = Monos::crow(gs[k], total);
@after `Emit for Monos::emit_csv` serialize#0
    let ghost a1 = wtr.st@.sink;
    proof { assert(entry.v() == gs[k]); lemma_record(w0, a0, a1, cs, c); }
@after `Emit for Monos::emit_csv` flush#0
    proof { lemma_flushed(w0, a1, wtr.st@.sink, cs.push(c)); assert(cs.push(c) =~= Monos::crows(gs, total, k + 1)); }
@before `Emit for Monos::emit_csv` join
    proof { reveal_strlit(", "); assert(monos@.map_values(|x: &str| x@) =~= entry.v().insts.map_values(|x: Inst| x.0)); }
@pre
/// P21: the report is a function of the items and the options.
pub proof fn theorem_deterministic(a: Monos, b: Monos, items: ir::Items, o: crate::twiggy_opt::MonosView)
    requires a.reports(items, o), b.reports(items, o)
    ensures a.vp_text(items) == b.vp_text(items), a.vp_json(items) == b.vp_json(items), a.vp_csv(items) == b.vp_csv(items)
{
    let s = choose|s: Seq<Gen>| #[trigger] super::all_gens(items, o, s) && a.v() == super::stats(s, o.max_generics as int);
    let t = choose|t: Seq<Gen>| #[trigger] super::all_gens(items, o, t) && b.v() == super::stats(t, o.max_generics as int);
    super::entry::lemma_gcmp();
    let lt = super::gbefore();
    assert forall|x: Gen| #[trigger] s.contains(x) <==> t.contains(x) by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(super::wanted(items, o, s[i].name)); assert(t.contains(super::the_gen(items, o, x.name))); }
        if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(super::wanted(items, o, t[i].name)); assert(s.contains(super::the_gen(items, o, x.name))); }
    }
    assert forall|p: Gen, q: Gen| #![trigger lt(p, q)] lt(p, q) implies !lt(q, p) by { assert(super::entry::gcmp(p, q) is Less <==> super::entry::gcmp(q, p) is Greater); }
    lemma_unique_list(s, t, lt);
}
/// P23: what stands beside a size is its share of the file.
pub proof fn theorem_percent(total: int, g: Gen, x: Inst)
    ensures
        Monos::grow(g, total)[0] == dec(g.bloat as nat), Monos::grow(g, total)[1] == pct(g.bloat, total), Monos::grow(g, total)[2] == dec(g.size as nat), Monos::grow(g, total)[3] == pct(g.size, total),
        Monos::irow(x, total)[2] == dec(x.1 as nat), Monos::irow(x, total)[3] == pct(x.1, total),
        Monos::jinst(x, total)->Obj_0[1] == ("shallow_size"@, J::Int(x.1)), Monos::jinst(x, total)->Obj_0[2] == ("shallow_size_percent"@, J::Flt(percent(x.1, total))),
        Monos::jhead(g, total)[1] == ("approximate_monomorphization_bloat_bytes"@, J::Int(g.bloat)), Monos::jhead(g, total)[2] == ("approximate_monomorphization_bloat_percent"@, J::Flt(percent(g.bloat, total))),
        Monos::jhead(g, total)[3] == ("total_size"@, J::Int(g.size)), Monos::jhead(g, total)[4] == ("total_size_percent"@, J::Flt(percent(g.size, total))),
        Monos::crow(g, total)[1] == ("ApproximateMonomorphizationBloatBytes"@, dec(g.bloat as nat)), Monos::crow(g, total)[2] == ("ApproximateMonomorphizationBloatPercent"@, fcsv(percent(g.bloat, total))),
        Monos::crow(g, total)[3] == ("TotalSize"@, dec(g.size as nat)), Monos::crow(g, total)[4] == ("TotalSizePercent"@, fcsv(percent(g.size, total)))
{ }
