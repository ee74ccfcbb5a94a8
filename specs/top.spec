## Top (P08).
@part an.spec
@module twiggy_analyze::analyses::top analyze/analyses/top.rs
@opt box=crate::twiggy_traits::Emit
@opt close=array
@opt close=object
@opt close=from_writer
@pre
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::vp::*;
use crate::vp_text::*;
use crate::vp_more::*;
use crate::report::*;
use crate::csv::{csv_text, fcsv, entry, line, lemma_csv_push, VpRecord, VpCell};
use crate::twiggy_analyze::formats::json::{J, render, sep, quoted};
use crate::vp_std::io::{Sink, wrote};
use crate::twiggy_traits::Emit as VpEmit;
broadcast use {crate::vp::group_vp, crate::vp_text::group_num, crate::vp_text::group_f64, crate::ir_ord::lemma_id_key, vstd::std_specs::btree::group_btree_axioms};
/// The size an item is ranked by.
pub open spec fn weight(im: ir::Im, em: ir::Em, retained: bool, x: ir::Id) -> int { if retained { ir::rsize(im, em, ir::root_id(), x) as int } else { im[x].size as int } }
/// A list of sizes with their percentages, and the sum of the latter.
pub open spec fn fsum(s: Seq<f64>, k: int) -> f64 decreases k { if k <= 0 || k > s.len() { 0.0f64 } else { fadd(fsum(s, k - 1), s[k - 1]) } }
pub open spec fn ftotal(s: Seq<f64>) -> f64 { fsum(s, s.len() as int) }
pub open spec fn dots() -> Seq<char> { "..."@ }
impl Top {
    pub open spec fn ret(&self) -> bool { self.opts.shown().retained }
    pub open spec fn ok(&self, items: ir::Items) -> bool {
        &&& items.wf()
        &&& listed(items.im(), self.items@)
        &&& self.items@.len() <= u32::MAX
        &&& self.ret() ==> items.retained_sizes is Some
    }
    pub open spec fn cut(&self) -> int { if self.opts.shown().max_items < self.items@.len() { self.opts.shown().max_items as int } else { self.items@.len() as int } }
    pub open spec fn weights(&self, items: ir::Items) -> Seq<int> { Seq::new(self.items@.len(), |i: int| weight(items.im(), items.em(), self.ret(), self.items@[i])) }
    pub open spec fn shares(&self, items: ir::Items) -> Seq<f64> { Seq::new(self.items@.len(), |i: int| percent(self.weights(items)[i], items.size as int)) }
    // Text: the items up to the limit,
    pub open spec fn trow(&self, items: ir::Items, i: int) -> Seq<Seq<char>> { seq![dec(self.weights(items)[i] as nat), fp2(self.shares(items)[i]) + "%"@, items.im()[self.items@[i]].shown()] }
    pub open spec fn trows(&self, items: ir::Items, k: int) -> Seq<Seq<Seq<char>>> { Seq::new(k as nat, |i: int| self.trow(items, i)) }
    // ... what a list of sizes and shares adds up to (retained sizes overlap: their sums are not shown),
    pub open spec fn sums(&self, n: Seq<int>, f: Seq<f64>, name: Seq<char>) -> Seq<Seq<char>> { if self.ret() { seq![dots(), dots(), name] } else { seq![dec(isum(n) as nat), fp2(ftotal(f)) + "%"@, name] } }
    // ... the others,
    pub open spec fn more_rows(&self, items: ir::Items) -> Seq<Seq<Seq<char>>> {
        if self.cut() < self.items@.len() { seq![self.sums(self.weights(items).skip(self.cut()), self.shares(items).skip(self.cut()), "... and "@ + dec((self.items@.len() - self.cut()) as nat) + " more."@)] } else { Seq::empty() }
    }
    // ... and all of them.
    pub open spec fn total_row(&self, items: ir::Items) -> Seq<Seq<char>> { self.sums(self.weights(items), self.shares(items), totals(self.items@.len())) }
    pub open spec fn rows(&self, items: ir::Items) -> Seq<Seq<Seq<char>>> { (self.trows(items, self.cut()) + self.more_rows(items)).push(self.total_row(items)) }
    pub open spec fn head(&self) -> Seq<(Align, Seq<char>)> {
        let l = if self.ret() { "Retained"@ } else { "Shallow"@ };
        seq![(Align::Right, l + " Bytes"@), (Align::Right, l + " %"@), (Align::Left, "Item"@)]
    }
    // JSON and CSV: the items up to the limit.
    pub open spec fn jrow(&self, items: ir::Items, i: int) -> J {
        let x = self.items@[i]; let s = items.im()[x].size as int; let r = weight(items.im(), items.em(), true, x);
        let m = seq![("name"@, J::Str(items.im()[x].shown())), ("shallow_size"@, J::Int(s)), ("shallow_size_percent"@, J::Flt(percent(s, items.size as int)))];
        J::Obj(if self.ret() { m.push(("retained_size"@, J::Int(r))).push(("retained_size_percent"@, J::Flt(percent(r, items.size as int)))) } else { m })
    }
    pub open spec fn jrows(&self, items: ir::Items, k: int) -> Seq<J> { Seq::new(k as nat, |i: int| self.jrow(items, i)) }
    pub open spec fn crow(&self, items: ir::Items, i: int) -> Rec {
        let x = self.items@[i]; let s = items.im()[x].size as int; let r = weight(items.im(), items.em(), true, x);
        seq![("Name"@, items.im()[x].shown()), ("ShallowSize"@, dec(s as nat)), ("ShallowSizePercent"@, fcsv(percent(s, items.size as int))),
            ("RetainedSize"@, if self.ret() { dec(r as nat) } else { Seq::empty() }), ("RetainedSizePercent"@, if self.ret() { fcsv(percent(r, items.size as int)) } else { Seq::empty() })]
    }
    pub open spec fn crows(&self, items: ir::Items, k: int) -> Seq<Rec> { Seq::new(k as nat, |i: int| self.crow(items, i)) }
}
@inject `Emit for Top`
    open spec fn vp_ok(&self, items: ir::Items) -> bool { self.ok(items) }
    open spec fn vp_text(&self, items: ir::Items) -> Seq<char> { ttext(self.head(), self.rows(items)) }
    open spec fn vp_json(&self, items: ir::Items) -> Seq<char> { render(J::Arr(self.jrows(items, self.cut()))) }
    open spec fn vp_csv(&self, items: ir::Items) -> Seq<char> { csv_text(self.crows(items, self.cut())) }

@fn `Emit for Top::emit_text::process_item` ret=r
    requires items.wf(), items.im().contains_key(id), retained ==> items.retained_sizes is Some
    ensures r.size == weight(items.im(), items.em(), retained, id), r.size_percent == percent(r.size as int, items.size as int), r.name@ == items.im()[id].shown()
@pre
pub open spec fn row_sizes(s: Seq<TableRow>) -> Seq<int> { s.map_values(|r: TableRow| r.size as int) }
pub open spec fn row_shares(s: Seq<TableRow>) -> Seq<f64> { s.map_values(|r: TableRow| r.size_percent) }
@fn `Emit for Top::emit_text::summarize_rows` ret=r
    requires rows@.len() <= u32::MAX
    ensures r.0 == isum(row_sizes(rows@)), r.1 == ftotal(row_shares(rows@)), r.2 == rows@.len()
@closure `Emit for Top::emit_text::summarize_rows` 0
|(u64, f64, u32), TableRow| -> (r: (u64, f64, u32))
    requires $0.0 + $1.size <= u64::MAX, $0.2 < u32::MAX
    ensures r.0 == $0.0 + $1.size, r.1 == fadd($0.1, $1.size_percent), r.2 == $0.2 + 1
@entry `Emit for Top::emit_text::summarize_rows`
    let ghost zs = row_sizes(rows@); let ghost fs = row_shares(rows@); let ghost n = rows@.len();
@ghostarg `Emit for Top::emit_text::summarize_rows` fold
Ghost(|k: int, a: (u64, f64, u32)| a.0 == psum(zs, k) && a.0 <= k * 0xffff_ffff && a.1 == fsum(fs, k) && a.2 == k)

@entry `Emit for Top::emit_text`
    let ghost w0 = dest.vp_sink(); let ghost total = items.size as int; let ghost cut = self.cut();
    let ghost mut rs: Seq<Seq<Seq<char>>> = Seq::empty();
@closure `Emit for Top::emit_text` 0
|&ir::Id| -> (r: TableRow)
    requires items.im().contains_key(*$0)
    ensures r.size == weight(items.im(), items.em(), retained, *$0), r.size_percent == percent(r.size as int, items.size as int), r.name@ == items.im()[*$0].shown()
@closure `Emit for Top::emit_text` 1
|&ir::Id| -> (r: TableRow)
    requires items.im().contains_key(*$0)
    ensures r.size == weight(items.im(), items.em(), retained, *$0), r.size_percent == percent(r.size as int, items.size as int), r.name@ == items.im()[*$0].shown()
@closure `Emit for Top::emit_text` 2
|&ir::Id| -> (r: TableRow)
    requires items.im().contains_key(*$0)
    ensures r.size == weight(items.im(), items.em(), retained, *$0), r.size_percent == percent(r.size as int, items.size as int), r.name@ == items.im()[*$0].shown()
@loop `Emit for Top::emit_text` 0 iter=it
    invariant
        self.ok(*items), total == items.size, cut == self.cut(), dest.vp_sink() == w0, retained == self.ret(),
        it.seq().len() == cut, forall|i: int| #![trigger it.seq()[i]] 0 <= i < cut ==> it.seq()[i].size == self.weights(*items)[i] && it.seq()[i].size_percent == self.shares(*items)[i] && it.seq()[i].name@ == items.im()[self.items@[i]].shown(),
        table.wf(), table.hv() == self.head(), table.cols() == 3, table.rv() =~= rs, rs =~= self.trows(*items, it.index() as int),
@loopexit `Emit for Top::emit_text` 0
    proof { rs = rs.push(self.trow(*items, it.index() as int)); assert(table.rv().last() =~= self.trow(*items, it.index() as int)); }
@attr `Emit for Top::emit_text`
#[verifier::rlimit(60)]
@attr `Emit for Top::emit_json`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for Top::emit_json`
    hide(wrote);
    broadcast use crate::report::lemma_wrote;
    let ghost w0 = dest.vp_sink(); let ghost total = items.size as int; let ghost im = items.im();
    let ghost cut = self.cut(); let ghost em = items.em();
    let ghost mut js: Seq<J> = Seq::empty();
@looppre `Emit for Top::emit_json` 0
    let ghost arr0 = arr;
    proof { lemma_begin(w0, arr.w.vp_sink()); }
@loop `Emit for Top::emit_json` 0 iter=it
    invariant
        it.seq() == refs::<ir::Id>(self.items@).take(cut),
        final(arr.w).vp_sink() == final(arr0.w).vp_sink(),
        js =~= self.jrows(*items, it.index() as int), arr.need_comma == (js.len() > 0),
        begun(w0, arr.w.vp_sink(), js),
@before `Emit for Top::emit_json` object#0
    let ghost a0 = arr.w.vp_sink(); let ghost mut m: Seq<(Seq<char>, J)> = Seq::empty();
@after `Emit for Top::emit_json` object#0
    let ghost mut o = obj.w.vp_sink(); let ghost pre = sep(js.len() > 0) + "{"@; proof { assert(pre + jmembers(m) =~= pre); }
@after `Emit for Top::emit_json` field#0
    proof { let x = ("name"@, J::Str(item.shown())); lemma_member(a0, o, obj.w.vp_sink(), pre, m, x); m = m.push(x); o = obj.w.vp_sink(); }
@after `Emit for Top::emit_json` field#1
    proof { let x = ("shallow_size"@, J::Int(item.size as int)); lemma_member(a0, o, obj.w.vp_sink(), pre, m, x); m = m.push(x); o = obj.w.vp_sink(); }
@after `Emit for Top::emit_json` field#2
    proof { let x = ("shallow_size_percent"@, J::Flt(percent(item.size as int, total))); lemma_member(a0, o, obj.w.vp_sink(), pre, m, x); m = m.push(x); o = obj.w.vp_sink();
        assert(!self.ret() ==> m =~= self.jrow(*items, it.index() as int)->Obj_0);
        lemma_object(w0, a0, o, js, m); }
@after `Emit for Top::emit_json` field#3
    proof { let x = ("retained_size"@, J::Int(weight(im, em, true, self.items@[it.index() as int]))); lemma_member(a0, o, obj.w.vp_sink(), pre, m, x); m = m.push(x); o = obj.w.vp_sink(); }
@after `Emit for Top::emit_json` field#4
    proof { let x = ("retained_size_percent"@, J::Flt(percent(weight(im, em, true, self.items@[it.index() as int]), total))); lemma_member(a0, o, obj.w.vp_sink(), pre, m, x); m = m.push(x); o = obj.w.vp_sink();
        assert(self.ret() ==> m =~= self.jrow(*items, it.index() as int)->Obj_0);
        lemma_object(w0, a0, o, js, m); }
@loopexit `Emit for Top::emit_json` 0
    proof { js = js.push(self.jrow(*items, it.index() as int)); }
@exit `Emit for Top::emit_json`
    proof { lemma_end(w0, arr.w.vp_sink(), js); }
@attr `Emit for Top::emit_csv`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for Top::emit_csv`
    hide(wrote);
    broadcast use crate::report::lemma_wrote;
    let ghost w0 = dest.vp_sink(); let ghost total = items.size as int; let ghost im = items.im();
    let ghost cut = self.cut();
    let ghost mut cs: Seq<Rec> = Seq::empty();
@looppre `Emit for Top::emit_csv` 0
    let ghost wtr0 = wtr;
    proof { lemma_no_records(w0); }
@loop `Emit for Top::emit_csv` 0 iter=it
    invariant
        it.seq() == refs::<ir::Id>(self.items@).take(cut),
        final(wtr.w).vp_sink() == final(wtr0.w).vp_sink(),
        cs =~= self.crows(*items, it.index() as int), wtr.st@.n == cs.len(),
        filed(w0, wtr.st@.sink, cs), !wtr.st@.dirty
@before `Emit for Top::emit_csv` serialize#0
    let ghost a0 = wtr.st@.sink;
@after `Emit for Top::emit_csv` serialize#0
    let ghost a1 = wtr.st@.sink;
    proof { let c = self.crow(*items, it.index() as int); lemma_record(w0, a0, a1, cs, c); cs = cs.push(c); }
@after `Emit for Top::emit_csv` flush#0
    proof { lemma_flushed(w0, a1, wtr.st@.sink, cs); }
@pre
pub open spec fn icmp(a: int, b: int) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
/// Largest first.
pub open spec fn by_weight<'a>(im: ir::Im, em: ir::Em, retained: bool) -> spec_fn(&'a ir::Item, &'a ir::Item) -> core::cmp::Ordering { |a: &'a ir::Item, b: &'a ir::Item| icmp(weight(im, em, retained, b.id), weight(im, em, retained, a.id)) }
pub open spec fn ranked(im: ir::Im, em: ir::Em, retained: bool, s: Seq<ir::Id>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> weight(im, em, retained, s[i]) > weight(im, em, retained, s[j]) || (weight(im, em, retained, s[i]) == weight(im, em, retained, s[j]) && crate::ir_ord::idlt(s[i], s[j]))
}
pub open spec fn not_root<'a>() -> spec_fn(&'a ir::Item) -> bool { |x: &'a ir::Item| x.id != ir::root_id() }
pub open spec fn id_of<'a>() -> spec_fn(&'a ir::Item) -> ir::Id { |x: &'a ir::Item| x.id }
impl Top {
    /// The report asked for.
    pub open spec fn reports(&self, items: ir::Items, opts: opt::Top) -> bool {
        &&& self.opts.shown() == opts.shown()
        &&& ranked(items.im(), items.em(), opts.shown().retained, self.items@)
        &&& forall|x: ir::Id| #[trigger] self.items@.contains(x) <==> items.im().contains_key(x) && x != ir::root_id()
    }
}
@fn top ret=r
    requires old(items).wf(), old(items).im().dom().len() <= u32::MAX
    ensures final(items).wf(), final(items).same_graph(*old(items)),
        r is Err <==> opts.shown().retaining_paths,
        r matches Ok(b) ==> exists|t: Top| #[trigger] t.reports(*final(items), *opts) && t.ok(*final(items))
            && b.vp_ok(*final(items)) && b.vp_text(*final(items)) == t.vp_text(*final(items)) && b.vp_json(*final(items)) == t.vp_json(*final(items)) && b.vp_csv(*final(items)) == t.vp_csv(*final(items))
@closure top 0
|&&ir::Item| -> (b: bool)
    ensures b == not_root()(*$0)
@closure top 1
|&&ir::Item, &&ir::Item| -> (o: core::cmp::Ordering)
    requires im.contains_key($0.id), im.contains_key($1.id), im[$0.id] == **$0, im[$1.id] == **$1
    ensures o == by_weight(im, em, ret)(*$0, *$1)
@closure top 2
|&ir::Item| -> (x: ir::Id)
    ensures x == $0.id
@ghostarg top sort_by
Ghost(by_weight(im, em, ret))
@before `Emit for Top::emit_text` summarize_rows#0
    proof { assert(rs =~= self.trows(*items, cut)); assert(row_sizes(remaining_rows@) =~= self.weights(*items).skip(cut)); assert(row_shares(remaining_rows@) =~= self.shares(*items).skip(cut)); }
@after `Emit for Top::emit_text` add_row#1
    proof { let r = self.more_rows(*items)[0]; rs = rs.push(r); assert(table.rv().last() =~= r); }
@before `Emit for Top::emit_text` summarize_rows#1
    proof { assert(rs =~= self.trows(*items, cut) + self.more_rows(*items)); assert(row_sizes(all_rows@) =~= self.weights(*items)); assert(row_shares(all_rows@) =~= self.shares(*items)); }
@after `Emit for Top::emit_text` add_row#2
    proof { let r = self.total_row(*items); rs = rs.push(r); assert(table.rv().last() =~= r); }
@before `Emit for Top::emit_text` write!
    proof { assert(rs =~= self.rows(*items)); assert(table.rv() =~= rs); lemma_table_text(table); }
@pre
pub proof fn lemma_by_weight<'a>(im: ir::Im, em: ir::Em, ret: bool)
    ensures preorder(by_weight::<'a>(im, em, ret))
{ }
pub open spec fn chosen(items: ir::Items, us: Seq<&ir::Item>) -> bool { forall|i: int| #![trigger us[i]] 0 <= i < us.len() ==> items.im().contains_key(us[i].id) && *us[i] == items.im()[us[i].id] }
pub proof fn lemma_chosen<'a>(items: ir::Items, us0: Seq<&'a ir::Item>)
    requires items.wf(), us0 == refs(items.item_seq()).filter(not_root())
    ensures chosen(items, us0)
{
    ir::lemma_item_seq(items); let all: Seq<&'a ir::Item> = refs(items.item_seq()); lemma_filter(all, not_root());
    assert forall|i: int| #![trigger us0[i]] 0 <= i < us0.len() implies items.im().contains_key(us0[i].id) && *us0[i] == items.im()[us0[i].id] by { assert(all.contains(us0[i])); let k = choose|k: int| 0 <= k < all.len() && all[k] == us0[i]; assert(items.item_seq()[k] == *us0[i]); }
}
pub proof fn lemma_top<'a>(items: ir::Items, ret: bool, us0: Seq<&'a ir::Item>, us: Seq<&'a ir::Item>, ids: Seq<ir::Id>)
    requires items.wf(), us0 == refs(items.item_seq()).filter(not_root()), exists|p: Seq<int>| #[trigger] sorts(us0, us, by_weight(items.im(), items.em(), ret), p), ids == us.map_values(id_of())
    ensures ranked(items.im(), items.em(), ret, ids), listed(items.im(), ids), ids.len() <= items.im().dom().len(),
        forall|x: ir::Id| #[trigger] ids.contains(x) <==> items.im().contains_key(x) && x != ir::root_id()
{
    let w = by_weight::<'a>(items.im(), items.em(), ret);
    lemma_sorted_items(items, not_root(), w, us0, us);
    assert forall|i: int, j: int| #![trigger ids[i], ids[j]] 0 <= i < j < ids.len() implies ids[i] != ids[j] && (weight(items.im(), items.em(), ret, ids[i]) > weight(items.im(), items.em(), ret, ids[j]) || (weight(items.im(), items.em(), ret, ids[i]) == weight(items.im(), items.em(), ret, ids[j]) && crate::ir_ord::idlt(ids[i], ids[j]))) by {
        assert(ids[i] == us[i].id && ids[j] == us[j].id); assert(!(w(us[i], us[j]) is Greater));
    }
    assert forall|i: int| #![trigger ids[i]] 0 <= i < ids.len() implies items.im().contains_key(ids[i]) && ids[i] != ir::root_id() by { assert(ids[i] == us[i].id); assert(not_root()(us[i])); }
    assert forall|x: ir::Id| #[trigger] ids.contains(x) <==> items.im().contains_key(x) && x != ir::root_id() by {
        if items.im().contains_key(x) && x != ir::root_id() { assert(not_root()(&items.im()[x])); let i = choose|i: int| 0 <= i < us.len() && (#[trigger] us[i]).id == x; assert(ids[i] == x); }
        if ids.contains(x) { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == x; assert(items.im().contains_key(ids[i])); }
    }
}
@before top sort_by
    let ghost us0 = top_items@; let ghost im = items.im(); let ghost em = items.em(); let ghost ret = opts.shown().retained;
    proof { lemma_chosen(*items, us0); lemma_by_weight(im, em, ret); }
@after top sort_by
    let ghost us = top_items@;
@exit top
    proof {
        assert(top.items@ == us.map_values(id_of()));
        lemma_top(*items, ret, us0, us, top.items@);
        assert(top.reports(*items, *opts)); assert(top.ok(*items));
    }
@pre
/// P21: the report is a function of the items and the options.
pub proof fn theorem_deterministic(a: Top, b: Top, items: ir::Items, o: opt::Top)
    requires a.reports(items, o), b.reports(items, o)
    ensures a.items@ == b.items@, a.vp_text(items) == b.vp_text(items), a.vp_json(items) == b.vp_json(items), a.vp_csv(items) == b.vp_csv(items)
{
    let (im, em, ret) = (items.im(), items.em(), o.shown().retained);
    let lt = |x: ir::Id, y: ir::Id| weight(im, em, ret, x) > weight(im, em, ret, y) || (weight(im, em, ret, x) == weight(im, em, ret, y) && crate::ir_ord::idlt(x, y));
    assert(pairwise(a.items@, lt)); assert(pairwise(b.items@, lt));
    assert forall|x: ir::Id| #[trigger] a.items@.contains(x) <==> b.items@.contains(x) by { }
    assert forall|x: ir::Id, y: ir::Id| #![trigger lt(x, y)] lt(x, y) implies !lt(y, x) by { }
    lemma_unique_list(a.items@, b.items@, lt);
    assert(a.weights(items) =~= b.weights(items)); assert(a.shares(items) =~= b.shares(items));
    assert(a.trows(items, a.cut()) =~= b.trows(items, b.cut()));
    assert(a.jrows(items, a.cut()) =~= b.jrows(items, b.cut()));
    assert(a.crows(items, a.cut()) =~= b.crows(items, b.cut()));
}
/// P23: what stands beside a size is its share of the file.
pub proof fn theorem_percent(t: Top, items: ir::Items, i: int)
    requires t.ok(items), 0 <= i < t.cut()
    ensures
        t.rows(items)[i][0] == dec(t.weights(items)[i] as nat), t.rows(items)[i][1] == pct(t.weights(items)[i], items.size as int),
        ({ let m = t.jrow(items, i)->Obj_0; &&& m[1] == ("shallow_size"@, J::Int(items.im()[t.items@[i]].size as int)) &&& m[2] == ("shallow_size_percent"@, J::Flt(percent(items.im()[t.items@[i]].size as int, items.size as int)))
            &&& t.ret() ==> m[3] == ("retained_size"@, J::Int(t.weights(items)[i])) && m[4] == ("retained_size_percent"@, J::Flt(percent(t.weights(items)[i], items.size as int))) }),
        ({ let c = t.crow(items, i); &&& c[1] == ("ShallowSize"@, dec(items.im()[t.items@[i]].size as nat)) &&& c[2] == ("ShallowSizePercent"@, fcsv(percent(items.im()[t.items@[i]].size as int, items.size as int)))
            &&& t.ret() ==> c[3] == ("RetainedSize"@, dec(t.weights(items)[i] as nat)) && c[4] == ("RetainedSizePercent"@, fcsv(percent(t.weights(items)[i], items.size as int))) }),
{ assert(t.rows(items)[i] == t.trow(items, i)); }
