## Diff (P10).
@part an.spec
@include vp_hash.rs
@include regex.rs
@include serde.rs
@module twiggy_analyze::analyses::diff analyze/analyses/diff.rs
@opt box=crate::twiggy_traits::Emit
@opt hash
@opt close=array
@opt close=object
@opt close=from_writer
@pre
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use crate::vp::*;
use crate::vp_text::*;
use crate::vp_more::*;
use crate::report::*;
use crate::vp_hash::*;
use crate::regex::{args, picked, rx_valid, rx_any};
use crate::csv::{csv_text, fcsv, entry, line, lemma_csv_push, VpRecord, VpCell};
use crate::twiggy_analyze::formats::json::{J, render, sep, quoted};
use crate::vp_std::io::{Sink, wrote};
use crate::twiggy_traits::Emit as VpEmit;
broadcast use {crate::vp::group_vp, crate::vp_text::group_num, crate::vp_text::group_refs, crate::vp_hash::group_strings, crate::ir_ord::lemma_id_key, vstd::std_specs::btree::group_btree_axioms};
pub open spec fn plus(n: int) -> Seq<char> { if n < 0 { sdec(n) } else { seq!['+'] + sdec(n) } }
/// A name and by how much its size changed.
pub ghost struct Ch { pub name: Seq<char>, pub delta: int }
impl DiffEntry { pub open spec fn shown(&self) -> Ch { Ch { name: self.name@, delta: self.delta as int } } }
impl Diff {
    pub open spec fn shown(&self) -> Seq<Ch> { self.deltas@.map_values(|e: DiffEntry| e.shown()) }
    pub open spec fn head(&self) -> Seq<(Align, Seq<char>)> { seq![(Align::Right, "Delta Bytes"@), (Align::Left, "Item"@)] }
    pub open spec fn trow(&self, i: int) -> Seq<Seq<char>> { seq![plus(self.shown()[i].delta), self.shown()[i].name] }
    pub open spec fn rows(&self, k: int) -> Seq<Seq<Seq<char>>> { Seq::new(k as nat, |i: int| self.trow(i)) }
    pub open spec fn jrow(&self, i: int) -> J { J::Obj(seq![("delta_bytes"@, J::Flt(f64_of(self.shown()[i].delta))), ("name"@, J::Str(self.shown()[i].name))]) }
    pub open spec fn jrows(&self, k: int) -> Seq<J> { Seq::new(k as nat, |i: int| self.jrow(i)) }
    pub open spec fn crow(&self, i: int) -> Rec { seq![("DeltaBytes"@, plus(self.shown()[i].delta)), ("Item"@, self.shown()[i].name)] }
    pub open spec fn crows(&self, k: int) -> Seq<Rec> { Seq::new(k as nat, |i: int| self.crow(i)) }
    pub open spec fn n(&self) -> int { self.deltas@.len() as int }
}
/// A number of bytes below 2^53 is shown in JSON as that number.
pub proof fn theorem_json_delta(n: int)
    ensures -0x20_0000_0000_0000 <= n <= 0x20_0000_0000_0000 ==> render(J::Flt(f64_of(n))) == sdec(n)
{ axiom_f64_shows_int(n); }
impl VpRecord for DiffEntry { open spec fn vp_rec(&self) -> Rec { seq![("DeltaBytes"@, plus(self.delta as int)), ("Item"@, self.name@)] } }
// derive(PartialEq, Eq) (TRUSTED)
impl PartialEq for DiffEntry { #[verifier::external_body] fn eq(&self, o: &DiffEntry) -> bool { unimplemented!() } }
impl Eq for DiffEntry {}
impl PartialEqSpecImpl for DiffEntry { open spec fn obeys_eq_spec() -> bool { false } open spec fn eq_spec(&self, o: &DiffEntry) -> bool { *self == *o } }
impl PartialOrdSpecImpl for DiffEntry { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &DiffEntry) -> Option<core::cmp::Ordering> { Some(dcmp(self.shown(), o.shown())) } }
impl OrdSpecImpl for DiffEntry { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &DiffEntry) -> core::cmp::Ordering { dcmp(self.shown(), o.shown()) } }
pub open spec fn icmp(a: int, b: int) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
pub open spec fn mag(n: int) -> int { if n == i64::MIN { n } else { iabs(n) } }
/// Largest change first, then by name.
pub open spec fn dcmp(a: Ch, b: Ch) -> core::cmp::Ordering { then(icmp(mag(b.delta), mag(a.delta)), scmp(a.name, b.name)) }
@inject `Emit for Diff`
    open spec fn vp_ok(&self, items: ir::Items) -> bool { true }
    open spec fn vp_text(&self, items: ir::Items) -> Seq<char> { ttext(self.head(), self.rows(self.n())) }
    open spec fn vp_json(&self, items: ir::Items) -> Seq<char> { render(J::Arr(self.jrows(self.n()))) }
    open spec fn vp_csv(&self, items: ir::Items) -> Seq<char> { csv_text(self.crows(self.n())) }
@entry `Emit for Diff::emit_text`
    let ghost w0 = dest.vp_sink(); let ghost mut rs: Seq<Seq<Seq<char>>> = Seq::empty();
@closure `Emit for Diff::emit_text` 0
|&DiffEntry| -> (r: Vec<String>)
    ensures r@.len() == 2, r@[0]@ == plus($0.delta as int), r@[1]@ == $0.name@
@loop `Emit for Diff::emit_text` 0 iter=it
    invariant
        dest.vp_sink() == w0,
        it.seq().len() == self.n(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < self.n() ==> it.seq()[i]@.len() == 2 && it.seq()[i]@[0]@ == self.trow(i)[0] && it.seq()[i]@[1]@ == self.trow(i)[1],
        table.wf(), table.hv() == self.head(), table.cols() == 2, table.rv() =~= rs, rs =~= self.rows(it.index() as int),
@loopexit `Emit for Diff::emit_text` 0
    proof { rs = rs.push(self.trow(it.index() as int)); assert(table.rv().last() =~= self.trow(it.index() as int)); }
@before `Emit for Diff::emit_text` write!
    proof { assert(rs =~= self.rows(self.n())); assert(table.rv() =~= rs); lemma_table_text(table); }
@attr `Emit for Diff::emit_json`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for Diff::emit_json`
    hide(wrote);
    broadcast use crate::report::lemma_wrote;
    let ghost w0 = dest.vp_sink();
    let ghost mut js: Seq<J> = Seq::empty();
@looppre `Emit for Diff::emit_json` 0
    let ghost arr0 = arr;
    proof { lemma_begin(w0, arr.w.vp_sink()); }
@loop `Emit for Diff::emit_json` 0 iter=it
    invariant
        it.seq() == refs::<DiffEntry>(self.deltas@),
        final(arr.w).vp_sink() == final(arr0.w).vp_sink(),
        js =~= self.jrows(it.index() as int), arr.need_comma == (js.len() > 0),
        begun(w0, arr.w.vp_sink(), js),
@before `Emit for Diff::emit_json` object#0
    let ghost a0 = arr.w.vp_sink(); let ghost mut m: Seq<(Seq<char>, J)> = Seq::empty();
@after `Emit for Diff::emit_json` object#0
    let ghost mut o = obj.w.vp_sink(); let ghost pre = sep(js.len() > 0) + "{"@; proof { assert(pre + jmembers(m) =~= pre); }
@after `Emit for Diff::emit_json` field#0
    proof { let x = ("delta_bytes"@, J::Flt(f64_of(entry.delta as int))); lemma_member(a0, o, obj.w.vp_sink(), pre, m, x); m = m.push(x); o = obj.w.vp_sink(); }
@after `Emit for Diff::emit_json` field#1
    proof { let x = ("name"@, J::Str(entry.name@)); lemma_member(a0, o, obj.w.vp_sink(), pre, m, x); m = m.push(x); o = obj.w.vp_sink();
        assert(m =~= self.jrow(it.index() as int)->Obj_0);
        lemma_object(w0, a0, o, js, m); }
@loopexit `Emit for Diff::emit_json` 0
    proof { js = js.push(self.jrow(it.index() as int)); }
@exit `Emit for Diff::emit_json`
    proof { lemma_end(w0, arr.w.vp_sink(), js); }
@attr `Emit for Diff::emit_csv`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for Diff::emit_csv`
    hide(wrote);
    broadcast use crate::report::lemma_wrote;
    let ghost w0 = dest.vp_sink();
    let ghost mut cs: Seq<Rec> = Seq::empty();
@looppre `Emit for Diff::emit_csv` 0
    let ghost wtr0 = wtr;
    proof { lemma_no_records(w0); }
@loop `Emit for Diff::emit_csv` 0 iter=it
    invariant
        it.seq() == refs::<DiffEntry>(self.deltas@),
        final(wtr.w).vp_sink() == final(wtr0.w).vp_sink(),
        cs =~= self.crows(it.index() as int), wtr.st@.n == cs.len(),
        filed(w0, wtr.st@.sink, cs), !wtr.st@.dirty
@before `Emit for Diff::emit_csv` serialize#0
    let ghost a0 = wtr.st@.sink;
@after `Emit for Diff::emit_csv` serialize#0
    let ghost a1 = wtr.st@.sink;
    proof { let c = self.crow(it.index() as int); lemma_record(w0, a0, a1, cs, c); cs = cs.push(c); }
@after `Emit for Diff::emit_csv` flush#0
    proof { lemma_flushed(w0, a1, wtr.st@.sink, cs); }
@fn `Serialize for DiffEntry::serialize` ret=r
@exit `Serialize for DiffEntry::serialize`
    proof { }
@fn `Ord for DiffEntry::cmp` ret=r
@fn `PartialOrd for DiffEntry::partial_cmp` ret=r
@derives DiffEntry Clone,Debug,PartialEq,Eq
@pre
// ---- what changed
/// The sizes of the first `k` items with this name.
pub open spec fn nsum(s: Seq<ir::Item>, name: Seq<char>, k: int) -> int decreases k { if k <= 0 || k > s.len() { 0 } else { nsum(s, name, k - 1) + (if s[k - 1].shown() == name { s[k - 1].size as int } else { 0 }) } }
pub open spec fn has_upto(s: Seq<ir::Item>, name: Seq<char>, k: int) -> bool { exists|i: int| 0 <= i < k && (#[trigger] s[i]).shown() == name }
pub open spec fn carries(items: ir::Items, name: Seq<char>) -> bool { has_upto(items.item_seq(), name, items.item_seq().len() as int) }
/// The size under this name.
pub open spec fn nsize(items: ir::Items, name: Seq<char>) -> int { nsum(items.item_seq(), name, items.item_seq().len() as int) }
pub open spec fn delta(a: ir::Items, b: ir::Items, name: Seq<char>) -> int { nsize(b, name) - nsize(a, name) }
pub open spec fn selected(a: ir::Items, b: ir::Items, o: opt::DiffView, name: Seq<char>) -> bool { (carries(a, name) || carries(b, name)) && picked(args(o.items), o.using_regexps, name) }
/// Every selected name whose size changed, once, largest change first.
pub open spec fn changes(a: ir::Items, b: ir::Items, o: opt::DiffView, l: Seq<Ch>) -> bool {
    &&& forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> selected(a, b, o, l[i].name) && l[i].delta == delta(a, b, l[i].name) && l[i].delta != 0
    &&& forall|n: Seq<char>| #[trigger] selected(a, b, o, n) && delta(a, b, n) != 0 ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).name == n
    &&& forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() ==> dcmp(l[i], l[j]) is Less
}
pub open spec fn chs(l: Seq<Ch>) -> Seq<int> { l.map_values(|c: Ch| c.delta) }
pub open spec fn cut(o: opt::DiffView, l: Seq<Ch>) -> int { if o.max_items < l.len() { o.max_items as int } else { l.len() as int } }
/// The report: the changes up to the limit, the others in one row, and all of them.
pub open spec fn report(a: ir::Items, b: ir::Items, o: opt::DiffView, l: Seq<Ch>) -> Seq<Ch> {
    let c = cut(o, l);
    let more = if c < l.len() { seq![Ch { name: "... and "@ + dec((l.len() - c) as nat) + " more."@, delta: isum(chs(l).skip(c)) }] } else { Seq::empty() };
    (l.take(c) + more).push(Ch { name: totals(l.len()), delta: if o.items.len() == 0 { b.size - a.size } else { isum(chs(l)) } })
}
impl Diff {
    pub open spec fn reports(&self, a: ir::Items, b: ir::Items, o: opt::DiffView) -> bool { exists|l: Seq<Ch>| #[trigger] changes(a, b, o, l) && self.shown() == report(a, b, o, l) }
}
/// Sizes by name, as the code has them.
pub open spec fn tallies(items: ir::Items, m: Map<Seq<char>, i64>) -> bool {
    &&& forall|n: Seq<char>| #[trigger] m.contains_key(n) <==> carries(items, n)
    &&& forall|n: Seq<char>| #[trigger] m.contains_key(n) ==> m[n] == nsize(items, n)
}
@fn `diff::get_names_and_sizes` ret=r
    requires items.wf()
    ensures tallies(*items, r@)
@entry `diff::get_names_and_sizes`
    let ghost s = items.item_seq();
    proof { lemma_small(*items); }
@loop `diff::get_names_and_sizes` 0 iter=it
    invariant
        items.wf(), s == items.item_seq(), it.seq() == refs(s),
        forall|n: Seq<char>, k: int| #![trigger nsum(s, n, k)] 0 <= k <= s.len() ==> 0 <= nsum(s, n, k) <= u32::MAX,
        forall|n: Seq<char>| #[trigger] sizes@.contains_key(n) <==> has_upto(s, n, it.index() as int),
        forall|n: Seq<char>| #[trigger] sizes@.contains_key(n) ==> sizes@[n] == nsum(s, n, it.index() as int),
@loopentry `diff::get_names_and_sizes` 0
    let ghost m0 = sizes@; let ghost k = it.index() as int; let ghost x = s[k].shown();
    proof { lemma_none(s, x, k); }
@loopexit `diff::get_names_and_sizes` 0
    proof {
        assert forall|n: Seq<char>| #[trigger] sizes@.contains_key(n) <==> has_upto(s, n, k + 1) by {
            if has_upto(s, n, k) { let i = choose|i: int| 0 <= i < k && (#[trigger] s[i]).shown() == n; assert(s[i].shown() == n); }
            if n == x { assert(s[k].shown() == n); }
        }
        assert forall|n: Seq<char>| #[trigger] sizes@.contains_key(n) implies sizes@[n] == nsum(s, n, k + 1) by { assert(nsum(s, n, k + 1) == nsum(s, n, k) + (if s[k].shown() == n { s[k].size as int } else { 0 })); assert(m0.contains_key(n) || n == x); }
    }
@pre
pub proof fn lemma_none(s: Seq<ir::Item>, n: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures !has_upto(s, n, k) ==> nsum(s, n, k) == 0
    decreases k
{ if k > 0 { lemma_none(s, n, k - 1); if s[k - 1].shown() == n { assert(has_upto(s, n, k)); } if has_upto(s, n, k - 1) { let i = choose|i: int| 0 <= i < k - 1 && (#[trigger] s[i]).shown() == n; assert(s[i].shown() == n); } } }
pub open spec fn ids_of(s: Seq<ir::Item>) -> Seq<ir::Id> { s.map_values(|x: ir::Item| x.id) }
pub proof fn lemma_nsum(im: ir::Im, s: Seq<ir::Item>, n: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> im[s[i].id] == s[i]
    ensures 0 <= nsum(s, n, k) <= psum(sizes(im, ids_of(s)), k)
    decreases k
{ if k > 0 { lemma_nsum(im, s, n, k - 1); assert(im[s[k - 1].id] == s[k - 1]); assert(sizes(im, ids_of(s))[k - 1] == s[k - 1].size); } }
pub proof fn lemma_small(items: ir::Items)
    requires items.wf()
    ensures forall|n: Seq<char>, k: int| #![trigger nsum(items.item_seq(), n, k)] 0 <= k <= items.item_seq().len() ==> 0 <= nsum(items.item_seq(), n, k) <= u32::MAX
{
    ir::lemma_item_seq(items); let s = items.item_seq(); let im = items.im(); let ids = ids_of(s);
    assert(listed(im, ids)) by {
        assert forall|i: int| #![trigger ids[i]] 0 <= i < ids.len() implies im.contains_key(ids[i]) by { assert(ids[i] == s[i].id); }
        assert forall|i: int, j: int| 0 <= i < ids.len() && 0 <= j < ids.len() && i != j implies ids[i] != ids[j] by { assert(ids[i] == s[i].id && ids[j] == s[j].id); if i < j { assert(crate::ir_ord::idlt(s[i].id, s[j].id)); } else { assert(crate::ir_ord::idlt(s[j].id, s[i].id)); } }
    }
    lemma_sizes(im, ids);
    assert forall|n: Seq<char>, k: int| #![trigger nsum(s, n, k)] 0 <= k <= s.len() implies 0 <= nsum(s, n, k) <= u32::MAX by { lemma_nsum(im, s, n, k); lemma_psum_bound(sizes(im, ids), k); }
}
@pre
pub type Res = core::result::Result<DiffEntry, crate::anyhow::Error>;
pub open spec fn val(m: Map<Seq<char>, i64>, n: Seq<char>) -> int { if m.contains_key(n) { m[n] as int } else { 0 } }
pub open spec fn entry_of(om: Map<Seq<char>, i64>, nm: Map<Seq<char>, i64>) -> spec_fn(String) -> Res { |n: String| Ok(DiffEntry { name: n, delta: (val(nm, n@) - val(om, n@)) as i64 }) }
pub open spec fn moved() -> spec_fn(Res) -> bool { |r: Res| !(r is Ok && r->Ok_0.delta == 0) }
pub open spec fn matched(ps: Seq<Seq<char>>) -> spec_fn(String) -> bool { |n: String| rx_any(ps, n@) }
pub open spec fn named(ps: Seq<Seq<char>>) -> spec_fn(String) -> bool { |n: String| ps.contains(n@) }
pub open spec fn small(m: Map<Seq<char>, i64>) -> bool { forall|n: Seq<char>| #[trigger] m.contains_key(n) ==> 0 <= m[n] <= u32::MAX }
pub proof fn lemma_own_order()
    ensures preorder(own_order::<DiffEntry>())
{
    lemma_scmp(); let g = own_order::<DiffEntry>();
    assert forall|a: DiffEntry, b: DiffEntry| #[trigger] g(a, b) is Less <==> g(b, a) is Greater by { assert(scmp(a.name@, b.name@) is Less <==> scmp(b.name@, a.name@) is Greater); assert(scmp(b.name@, a.name@) is Less <==> scmp(a.name@, b.name@) is Greater); }
    assert forall|a: DiffEntry, b: DiffEntry, c: DiffEntry| #![trigger g(a, b), g(b, c)] !(g(a, b) is Greater) && !(g(b, c) is Greater) implies !(g(a, c) is Greater) by { assert(!(scmp(a.name@, b.name@) is Greater) && !(scmp(b.name@, c.name@) is Greater) ==> !(scmp(a.name@, c.name@) is Greater)); }
    assert forall|a: DiffEntry, b: DiffEntry, c: DiffEntry| #![trigger g(a, b), g(b, c)] g(a, b) is Equal && g(b, c) is Equal implies g(a, c) is Equal by { assert(scmp(a.name@, b.name@) is Equal <==> a.name@ == b.name@); assert(scmp(b.name@, c.name@) is Equal <==> b.name@ == c.name@); assert(scmp(a.name@, c.name@) is Equal <==> a.name@ == c.name@); }
}
/// The names the code starts from are those of the items.
pub open spec fn either(a: ir::Items, b: ir::Items, n: Seq<char>) -> bool { carries(a, n) || carries(b, n) }
pub open spec fn covers(s: Seq<String>, a: ir::Items, b: ir::Items) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> carries(a, s[i]@) || carries(b, s[i]@)
    &&& forall|n: Seq<char>| #[trigger] either(a, b, n) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == n
}
pub proof fn lemma_covers(s: Seq<String>, a: ir::Items, b: ir::Items, ka: Seq<&str>, kb: Seq<&str>, om: Map<Seq<char>, i64>, nm: Map<Seq<char>, i64>)
    requires tallies(a, om), tallies(b, nm), enumerates(ka, om.dom()), enumerates(kb, nm.dom()), s.len() == ka.len() + kb.len(),
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i]@ == (if i < ka.len() { ka[i]@ } else { kb[i - ka.len()]@ }),
    ensures covers(s, a, b)
{
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies carries(a, s[i]@) || carries(b, s[i]@) by { if i < ka.len() { assert(om.dom().contains(ka[i].vp_key())); assert(om.contains_key(s[i]@)); } else { assert(nm.dom().contains(kb[i - ka.len()].vp_key())); assert(nm.contains_key(s[i]@)); } }
    assert forall|n: Seq<char>| #[trigger] either(a, b, n) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == n by {
        if carries(a, n) {
            assert(om.contains_key(n));
            assert(om.dom().contains(n));
            assert(keyed(ka, n));
            let i = choose|i: int| 0 <= i < ka.len() && (#[trigger] ka[i]).vp_key() == n;
            assert(0 <= i < ka.len());
            assert(ka[i].vp_key() == n);
            assert(ka[i]@ == n);
            assert(s[i]@ == n);
        } else {
            assert(nm.contains_key(n));
            assert(nm.dom().contains(n));
            assert(keyed(kb, n));
            let i = choose|i: int| 0 <= i < kb.len() && (#[trigger] kb[i]).vp_key() == n;
            assert(s[i + ka.len()]@ == n);
        }
    }
}
/// The set of names chosen.
pub proof fn lemma_names(s: Seq<String>, t: Seq<String>, q: spec_fn(String) -> bool, a: ir::Items, b: ir::Items, o: opt::DiffView, m: Set<Seq<char>>)
    requires covers(s, a, b), t == s.filter(q), forall|k: Seq<char>| #[trigger] m.contains(k) <==> exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).vp_key() == k,
        forall|n: String| #[trigger] q(n) <==> picked(args(o.items), o.using_regexps, n@)
    ensures forall|n: Seq<char>| #[trigger] m.contains(n) <==> selected(a, b, o, n)
{
    lemma_filter(s, q);
    assert forall|n: Seq<char>| #[trigger] m.contains(n) <==> selected(a, b, o, n) by {
        if m.contains(n) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).vp_key() == n; assert(q(t[i]) && s.contains(t[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == t[i]; assert(carries(a, s[j]@) || carries(b, s[j]@)); }
        if selected(a, b, o, n) { assert(either(a, b, n)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == n; assert(q(s[i])); assert(t.contains(s[i])); let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i]; assert(t[j].vp_key() == n); }
    }
}
pub proof fn lemma_few(a: ir::Items, b: ir::Items, o: opt::DiffView, l: Seq<Ch>)
    requires changes(a, b, o, l), a.wf(), b.wf()
    ensures l.len() <= a.im().dom().len() + b.im().dom().len()
{
    ir::lemma_item_seq(a); ir::lemma_item_seq(b); lemma_scmp();
    let t = l.map_values(|c: Ch| c.name);
    let u = a.item_seq().map_values(|x: ir::Item| x.shown()) + b.item_seq().map_values(|x: ir::Item| x.shown());
    assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if i < j { assert(dcmp(l[i], l[j]) is Less); } else { assert(dcmp(l[j], l[i]) is Less); } if t[i] == t[j] { assert(l[i].delta == l[j].delta); assert(scmp(l[i].name, l[j].name) is Equal); assert(scmp(l[j].name, l[i].name) is Equal); } } }
    t.unique_seq_to_set(); u.lemma_cardinality_of_set();
    assert(t.to_set().subset_of(u.to_set())) by {
        assert forall|n: Seq<char>| t.to_set().contains(n) implies u.to_set().contains(n) by {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == n; assert(selected(a, b, o, l[i].name));
            if carries(a, n) { let j = choose|j: int| 0 <= j < a.item_seq().len() && (#[trigger] a.item_seq()[j]).shown() == n; assert(u[j] == n); }
            else { let j = choose|j: int| 0 <= j < b.item_seq().len() && (#[trigger] b.item_seq()[j]).shown() == n; assert(u[j + a.item_seq().len()] == n); }
        }
    }
    vstd::set_lib::lemma_len_subset(t.to_set(), u.to_set());
}
/// What the code has before the entries are cut.
pub proof fn lemma_vals(a: ir::Items, b: ir::Items, om: Map<Seq<char>, i64>, nm: Map<Seq<char>, i64>)
    requires tallies(a, om), tallies(b, nm), small(om), small(nm)
    ensures forall|n: Seq<char>| #[trigger] either(a, b, n) ==> val(nm, n) - val(om, n) == delta(a, b, n) && -0xffff_ffff <= delta(a, b, n) <= 0xffff_ffff
{
    assert forall|n: Seq<char>| #[trigger] either(a, b, n) implies val(nm, n) - val(om, n) == delta(a, b, n) && -0xffff_ffff <= delta(a, b, n) <= 0xffff_ffff by {
        lemma_none(a.item_seq(), n, a.item_seq().len() as int); lemma_none(b.item_seq(), n, b.item_seq().len() as int);
        if om.contains_key(n) { assert(om[n] == nsize(a, n)); } else { assert(!carries(a, n)); }
        if nm.contains_key(n) { assert(nm[n] == nsize(b, n)); } else { assert(!carries(b, n)); }
    }
}
/// The entries made from the names, before they are sorted.
pub open spec fn made(a: ir::Items, b: ir::Items, o: opt::DiffView, ds: Seq<DiffEntry>) -> bool {
    &&& forall|i: int| #![trigger ds[i]] 0 <= i < ds.len() ==> selected(a, b, o, ds[i].name@) && ds[i].delta == delta(a, b, ds[i].name@) && ds[i].delta != 0 && -0xffff_ffff <= ds[i].delta <= 0xffff_ffff
    &&& forall|n: Seq<char>| #[trigger] selected(a, b, o, n) && delta(a, b, n) != 0 ==> exists|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).name@ == n
    &&& forall|i: int, j: int| #![trigger ds[i], ds[j]] 0 <= i < j < ds.len() ==> ds[i].name@ != ds[j].name@
}
pub proof fn lemma_made(a: ir::Items, b: ir::Items, o: opt::DiffView, om: Map<Seq<char>, i64>, nm: Map<Seq<char>, i64>, m: Set<Seq<char>>, ns: Seq<String>, ds0: Seq<DiffEntry>)
    requires
        tallies(a, om), tallies(b, nm), small(om), small(nm),
        forall|n: Seq<char>| #[trigger] m.contains(n) <==> selected(a, b, o, n), enumerates(ns, m),
        ds0.len() == ns.map_values(entry_of(om, nm)).filter(moved()).len(), forall|i: int| #![trigger ds0[i]] 0 <= i < ds0.len() ==> ds0[i] == ns.map_values(entry_of(om, nm)).filter(moved())[i]->Ok_0,
    ensures made(a, b, o, ds0)
{
    let e = entry_of(om, nm); let es = ns.map_values(e); let fs = es.filter(moved());
    lemma_vals(a, b, om, nm); lemma_filter(es, moved());
    let rel = |x: Res, y: Res| x is Ok && y is Ok && x->Ok_0.name@ != y->Ok_0.name@;
    assert(pairwise(es, rel)) by { assert forall|i: int, j: int| #![trigger es[i], es[j]] 0 <= i < j < es.len() implies rel(es[i], es[j]) by { assert(es[i] == e(ns[i]) && es[j] == e(ns[j])); assert(ns[i].vp_key() != ns[j].vp_key()); } }
    lemma_filter_pairwise(es, moved(), rel);
    assert forall|i: int| #![trigger ds0[i]] 0 <= i < ds0.len() implies selected(a, b, o, ds0[i].name@) && ds0[i].delta == delta(a, b, ds0[i].name@) && ds0[i].delta != 0 && -0xffff_ffff <= ds0[i].delta <= 0xffff_ffff by {
        let f = fs[i]; assert(fs.contains(f)); assert(es.contains(f) && moved()(f));
        let k = choose|k: int| 0 <= k < es.len() && es[k] == f; assert(es[k] == e(ns[k])); assert(m.contains(ns[k].vp_key())); assert(selected(a, b, o, ns[k]@)); assert(either(a, b, ns[k]@));
    }
    assert forall|n: Seq<char>| #[trigger] selected(a, b, o, n) && delta(a, b, n) != 0 implies exists|i: int| 0 <= i < ds0.len() && (#[trigger] ds0[i]).name@ == n by {
        assert(m.contains(n)); assert(keyed(ns, n)); let k = choose|k: int| 0 <= k < ns.len() && (#[trigger] ns[k]).vp_key() == n; assert(es[k] == e(ns[k]));
        assert(either(a, b, n)); assert(moved()(es[k])); assert(es.contains(es[k])); assert(fs.contains(es[k]));
        let j = choose|j: int| 0 <= j < fs.len() && fs[j] == es[k]; assert(ds0[j].name@ == n);
    }
    assert forall|i: int, j: int| #![trigger ds0[i], ds0[j]] 0 <= i < j < ds0.len() implies ds0[i].name@ != ds0[j].name@ by { assert(rel(fs[i], fs[j])); }
}
pub proof fn lemma_changes(a: ir::Items, b: ir::Items, o: opt::DiffView, ds0: Seq<DiffEntry>, ds: Seq<DiffEntry>)
    requires made(a, b, o, ds0), exists|p: Seq<int>| #[trigger] sorts(ds0, ds, own_order::<DiffEntry>(), p)
    ensures changes(a, b, o, ds.map_values(|e: DiffEntry| e.shown())), forall|i: int| #![trigger ds[i]] 0 <= i < ds.len() ==> -0xffff_ffff <= ds[i].delta <= 0xffff_ffff
{
    let l = ds.map_values(|e: DiffEntry| e.shown());
    let p = choose|p: Seq<int>| #[trigger] sorts(ds0, ds, own_order::<DiffEntry>(), p);
    assert forall|i: int| #![trigger ds[i]] 0 <= i < ds.len() implies ds[i] == ds0[p[i]] && 0 <= p[i] < ds0.len() by { }
    assert forall|n: Seq<char>| #[trigger] selected(a, b, o, n) && delta(a, b, n) != 0 implies exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).name == n by {
        let j = choose|j: int| 0 <= j < ds0.len() && (#[trigger] ds0[j]).name@ == n;
        let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == j; assert(ds[i] == ds0[j]); assert(l[i].name == n);
    }
    assert forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() implies dcmp(l[i], l[j]) is Less by {
        lemma_scmp();
        assert(ds[i] == ds0[p[i]] && ds[j] == ds0[p[j]]); assert(!(own_order::<DiffEntry>()(ds[i], ds[j]) is Greater));
        assert(p[i] != p[j]);
        assert(ds0[p[i]].name@ != ds0[p[j]].name@);
        assert(scmp(l[i].name, l[j].name) is Equal <==> l[i].name == l[j].name);
    }
    assert forall|i: int| #![trigger l[i]] 0 <= i < l.len() implies selected(a, b, o, l[i].name) && l[i].delta == delta(a, b, l[i].name) && l[i].delta != 0 by { assert(l[i] == ds[i].shown()); }
}
pub proof fn lemma_smalls(items: ir::Items, m: Map<Seq<char>, i64>)
    requires items.wf(), tallies(items, m)
    ensures small(m)
{
    lemma_small(items);
    assert forall|n: Seq<char>| #[trigger] m.contains_key(n) implies 0 <= m[n] <= u32::MAX by { assert(m[n] == nsum(items.item_seq(), n, items.item_seq().len() as int)); }
}
pub proof fn lemma_named(items: Seq<String>, m: Set<Seq<char>>)
    requires forall|k: Seq<char>| #[trigger] m.contains(k) <==> exists|i: int| 0 <= i < refs::<String>(items).len() && (#[trigger] refs::<String>(items)[i]).vp_key() == k
    ensures forall|n: Seq<char>| #[trigger] m.contains(n) <==> args(items).contains(n)
{
    let ps = args(items); let rf = refs::<String>(items);
    assert forall|n: Seq<char>| #[trigger] m.contains(n) <==> ps.contains(n) by {
        if m.contains(n) { let i = choose|i: int| 0 <= i < rf.len() && (#[trigger] rf[i]).vp_key() == n; assert(ps[i] == n); }
        if ps.contains(n) { let i = choose|i: int| 0 <= i < ps.len() && ps[i] == n; assert(rf[i].vp_key() == n); } }
}
pub proof fn lemma_present(a: ir::Items, b: ir::Items, o: opt::DiffView, om: Map<Seq<char>, i64>, nm: Map<Seq<char>, i64>, m: Set<Seq<char>>, ns: Seq<String>)
    requires tallies(a, om), tallies(b, nm), forall|n: Seq<char>| #[trigger] m.contains(n) <==> selected(a, b, o, n)
    ensures enumerates(ns, m) ==> forall|i: int| #![trigger ns[i]] 0 <= i < ns.len() ==> om.contains_key(ns[i]@) || nm.contains_key(ns[i]@)
{
    if enumerates(ns, m) { assert forall|i: int| #![trigger ns[i]] 0 <= i < ns.len() implies om.contains_key(ns[i]@) || nm.contains_key(ns[i]@) by { assert(m.contains(ns[i].vp_key())); assert(selected(a, b, o, ns[i]@)); if carries(a, ns[i]@) { assert(om.contains_key(ns[i]@)); } else { assert(nm.contains_key(ns[i]@)); } } }
}
pub open spec fn amounts(ds: Seq<&DiffEntry>) -> Seq<int> { ds.map_values(|e: &DiffEntry| e.delta as int) }
@fn diff ret=r
    requires old(old_items).wf(), old(new_items).wf(), old(old_items).im().dom().len() + old(new_items).im().dom().len() <= i32::MAX
    ensures *final(old_items) == *old(old_items), *final(new_items) == *old(new_items),
        r is Err <==> opts.shown().items.len() > 0 && opts.shown().using_regexps && !rx_valid(args(opts.shown().items)),
        r matches Ok(b) ==> exists|d: Diff| #[trigger] d.reports(*old(old_items), *old(new_items), opts.shown()) && forall|x: ir::Items|
            b.vp_ok(x) && #[trigger] b.vp_text(x) == d.vp_text(x) && b.vp_json(x) == d.vp_json(x) && b.vp_csv(x) == d.vp_csv(x)
@attr diff
#[verifier::rlimit(60)]
@entry diff
    hide(changes); hide(covers); hide(made); hide(selected); hide(sorts); hide(tallies); hide(enumerates);
    let ghost o = opts.shown(); let ghost ps = args(o.items);
@closure diff 0
|String| -> (r: Res)
    requires old_sizes@.contains_key($0@) || new_sizes@.contains_key($0@)
    ensures r == entry_of(old_sizes@, new_sizes@)($0)
@closure diff 1
|&Res| -> (b: bool)
    ensures b == moved()(*$0)
@closure diff 2
|&&str| -> (r: String)
    ensures r@ == (**$0)@
@closure diff 3
|&String| -> (b: bool)
    ensures b == matched(ps)(*$0)
@closure diff 4
|&String| -> (b: bool)
    ensures b == named(ps)(*$0)
@closure diff 5
|(u32, i64), &DiffEntry| -> (r: (u32, i64))
    requires $0.0 < u32::MAX, i64::MIN <= $0.1 + $1.delta <= i64::MAX
    ensures r.0 == $0.0 + 1, r.1 == $0.1 + $1.delta
@closure diff 6
|(usize, i64), &DiffEntry| -> (r: (usize, i64))
    requires $0.0 < usize::MAX, i64::MIN <= $0.1 + $1.delta <= i64::MAX
    ensures r.0 == $0.0 + 1, r.1 == $0.1 + $1.delta
@after diff get_names_and_sizes#1
    let ghost om = old_sizes@; let ghost nm = new_sizes@;
    proof { lemma_smalls(*old_items, om); lemma_smalls(*new_items, nm); }
@after diff map#0
    let ghost s0 = names@; let ghost all = |n: String| true;
    proof { lemma_covers(s0, *old_items, *new_items, map_order(old_sizes), map_order(new_sizes), om, nm);
        lemma_filter_all(s0, all);
        assert(s0.filter(matched(ps)) == s0.filter(matched(ps))); assert(s0.filter(named(ps)) == s0.filter(named(ps))); }
@before diff filter#1
    proof { lemma_named(o.items, item_names@); }
@before diff into_iter#0
    let ghost m = names@; let ghost ns = set_order(names);
    proof {
        let t = if ps.len() == 0 { s0 } else if o.using_regexps { s0.filter(matched(ps)) } else { s0.filter(named(ps)) };
        if ps.len() == 0 { lemma_names(s0, t, all, *old_items, *new_items, o, m); } else if o.using_regexps { lemma_names(s0, t, matched(ps), *old_items, *new_items, o, m); } else { lemma_names(s0, t, named(ps), *old_items, *new_items, o, m); }
        lemma_present(*old_items, *new_items, o, om, nm, m, ns);
        lemma_filter(ns.map_values(entry_of(om, nm)), moved());
    }
@before diff sort#0
    let ghost ds0 = deltas@;
    proof { lemma_own_order(); }
@after diff sort#0
    let ghost ds = deltas@; let ghost l = ds.map_values(|e: DiffEntry| e.shown()); let ghost c = cut(o, l);
    let ghost zr = chs(l).skip(c); let ghost za = chs(l);
    proof { lemma_made(*old_items, *new_items, o, om, nm, m, ns, ds0); lemma_changes(*old_items, *new_items, o, ds0, ds); lemma_few(*old_items, *new_items, o, l); }
@ghostarg diff fold
Ghost(|k: int, a: (u32, i64)| a.0 == k && a.1 == psum(zr, k) && -k * 0xffff_ffff <= a.1 <= k * 0xffff_ffff)
@ghostarg diff fold#1
Ghost(|k: int, a: (usize, i64)| a.0 == k && a.1 == psum(za, k) && -k * 0xffff_ffff <= a.1 <= k * 0xffff_ffff)
@exit diff
    proof {
        assert(diff.shown() =~= report(*old_items, *new_items, o, l));
        assert(diff.reports(*old_items, *new_items, o));
    }
@pre
/// P21: the report is a function of the two files and the options.
pub proof fn theorem_deterministic(x: Diff, y: Diff, a: ir::Items, b: ir::Items, o: opt::DiffView, items: ir::Items)
    requires x.reports(a, b, o), y.reports(a, b, o)
    ensures x.vp_text(items) == y.vp_text(items), x.vp_json(items) == y.vp_json(items), x.vp_csv(items) == y.vp_csv(items)
{
    let l = choose|l: Seq<Ch>| #[trigger] changes(a, b, o, l) && x.shown() == report(a, b, o, l);
    let m = choose|m: Seq<Ch>| #[trigger] changes(a, b, o, m) && y.shown() == report(a, b, o, m);
    let lt = |p: Ch, q: Ch| dcmp(p, q) is Less;
    lemma_scmp();
    assert(pairwise(l, lt)); assert(pairwise(m, lt));
    assert forall|c: Ch| #[trigger] l.contains(c) <==> m.contains(c) by {
        if l.contains(c) { let i = choose|i: int| 0 <= i < l.len() && l[i] == c; assert(selected(a, b, o, l[i].name)); let j = choose|j: int| 0 <= j < m.len() && (#[trigger] m[j]).name == c.name; assert(m[j] == c); }
        if m.contains(c) { let i = choose|i: int| 0 <= i < m.len() && m[i] == c; assert(selected(a, b, o, m[i].name)); let j = choose|j: int| 0 <= j < l.len() && (#[trigger] l[j]).name == c.name; assert(l[j] == c); }
    }
    assert forall|p: Ch, q: Ch| #![trigger lt(p, q)] lt(p, q) implies !lt(q, p) by { assert(scmp(p.name, q.name) is Less <==> scmp(q.name, p.name) is Greater); assert(scmp(p.name, q.name) is Equal <==> p.name == q.name); assert(scmp(q.name, p.name) is Less <==> scmp(p.name, q.name) is Greater); }
    lemma_unique_list(l, m, lt);
    assert(x.shown() == y.shown()); assert(x.shown().len() == x.n() && y.shown().len() == y.n());
    assert(x.rows(x.n()) =~= y.rows(y.n())); assert(x.jrows(x.n()) =~= y.jrows(y.n())); assert(x.crows(x.n()) =~= y.crows(y.n()));
}
