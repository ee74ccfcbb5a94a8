## Garbage (P07).
@part an.spec
@module twiggy_analyze::analyses::garbage analyze/analyses/garbage.rs
@opt box=crate::twiggy_traits::Emit
@opt close=array
@opt close=object
@opt close=from_writer
@pre
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::vp::*;
use crate::vp_text::*;
use crate::vp_more::*;
use crate::report::*;
use crate::csv::{csv_text, fcsv, entry, line, lemma_csv_push, VpRecord, VpCell};
use crate::twiggy_analyze::formats::json::{J, render, sep, quoted};
use crate::vp_std::io::{Sink, wrote};
use crate::twiggy_traits::Emit as VpEmit;
broadcast use {crate::vp::group_vp, crate::vp_text::group_num, crate::vp_text::group_f64, crate::ir_ord::lemma_id_key, vstd::std_specs::btree::group_btree_axioms};
/// What one row of the report says.
pub ghost struct Row { pub name: Seq<char>, pub size: int }
impl Garbage {
    pub open spec fn ok(&self, items: ir::Items) -> bool {
        &&& items.wf()
        &&& listed(items.im(), self.items@)
        &&& listed(items.im(), self.data_segments@)
        &&& self.items@.len() <= i32::MAX
    }
    pub open spec fn cut(&self) -> int { if self.limit < self.items@.len() { self.limit as int } else { self.items@.len() as int } }
    pub open spec fn item_row(&self, items: ir::Items, i: int) -> Row { Row { name: items.im()[self.items@[i]].shown(), size: items.im()[self.items@[i]].size as int } }
    /// The items listed one by one.
    pub open spec fn listed_rows(&self, items: ir::Items, k: int) -> Seq<Row> { Seq::new(k as nat, |i: int| self.item_row(items, i)) }
    /// ... those beyond the limit,
    pub open spec fn more_rows(&self, items: ir::Items) -> Seq<Row> {
        if self.cut() < self.items@.len() { seq![Row { name: rests((self.items@.len() - self.cut()) as nat), size: isum(sizes(items.im(), self.items@).skip(self.cut())) }] } else { Seq::empty() }
    }
    /// ... all of them,
    pub open spec fn total_row(&self, items: ir::Items) -> Row { Row { name: totals(self.items@.len()), size: isum(sizes(items.im(), self.items@)) } }
    /// ... and the data segments kept out of the list.
    pub open spec fn data_rows(&self, items: ir::Items) -> Seq<Row> {
        if self.data_segments@.len() > 0 { seq![Row { name: dec(self.data_segments@.len()) + " potential false-positive data segments"@, size: isum(sizes(items.im(), self.data_segments@)) }] } else { Seq::empty() }
    }
    pub open spec fn rows(&self, items: ir::Items) -> Seq<Row> {
        (self.listed_rows(items, self.cut()) + self.more_rows(items)).push(self.total_row(items)) + self.data_rows(items)
    }
}
pub open spec fn head() -> Seq<(Align, Seq<char>)> { seq![(Align::Right, "Bytes"@), (Align::Right, "Size %"@), (Align::Left, "Garbage Item"@)] }
pub open spec fn trow(total: int) -> spec_fn(Row) -> Seq<Seq<char>> { |r: Row| seq![dec(r.size as nat), pct(r.size, total), r.name] }
pub open spec fn jrow(total: int) -> spec_fn(Row) -> J { |r: Row| J::Obj(seq![("name"@, J::Str(r.name)), ("bytes"@, J::Int(r.size)), ("size_percent"@, J::Flt(percent(r.size, total)))]) }
pub open spec fn crow(total: int) -> spec_fn(Row) -> Rec { |r: Row| seq![("Name"@, r.name), ("Bytes"@, dec(r.size as nat)), ("SizePercent"@, fcsv(percent(r.size, total)))] }
@inject `Emit for Garbage`
    open spec fn vp_ok(&self, items: ir::Items) -> bool { self.ok(items) }
    open spec fn vp_text(&self, items: ir::Items) -> Seq<char> { ttext(head(), self.rows(items).map_values(trow(items.size as int))) }
    open spec fn vp_json(&self, items: ir::Items) -> Seq<char> { render(J::Arr(self.rows(items).map_values(jrow(items.size as int)))) }
    open spec fn vp_csv(&self, items: ir::Items) -> Seq<char> { csv_text(self.rows(items).map_values(crow(items.size as int))) }

@pre
pub proof fn lemma_garbage(g: Garbage, items: ir::Items)
    requires g.ok(items)
    ensures
        0 <= g.cut() <= g.items@.len(), isum(sizes(items.im(), g.items@)) <= u32::MAX, isum(sizes(items.im(), g.data_segments@)) <= u32::MAX,
{ lemma_listed(items.im(), g.items@, g.cut()); lemma_listed(items.im(), g.data_segments@, 0); }
@entry `Emit for Garbage::emit_text`
    let ghost w0 = dest.vp_sink(); let ghost total = items.size as int; let ghost im = items.im();
    let ghost cut = self.cut();
    proof { lemma_listed(im, self.items@, cut); lemma_listed(im, self.data_segments@, 0); }
    let ghost all = refs::<ir::Id>(self.items@).map_values(to_item(im));
    let ghost mut rs: Seq<Row> = Seq::empty();
@closure `Emit for Garbage::emit_text` 0
|&ir::Id| -> (r: &ir::Item)
    requires items.im().contains_key(*$0)
    ensures *r == items.im()[*$0]
@loop `Emit for Garbage::emit_text` 0 iter=it
    invariant
        self.ok(*items), im == items.im(), total == items.size, cut == self.cut(), dest.vp_sink() == w0,
        it.seq() == all.take(cut), all.len() == self.items@.len(), forall|i: int| #![trigger all[i]] 0 <= i < all.len() ==> *all[i] == im[self.items@[i]],
        table.wf(), table.hv() == head(), table.cols() == 3, table.rv() == rs.map_values(trow(total)), rs =~= self.listed_rows(*items, it.index() as int),
@closure `Emit for Garbage::emit_text` 1
|(u32, i32), &ir::Item| -> (r: (u32, i32))
    requires $0.0 + $1.size <= u32::MAX, $0.1 < i32::MAX,
    ensures r.0 == $0.0 + $1.size, r.1 == $0.1 + 1
@ghostarg `Emit for Garbage::emit_text` fold
Ghost(|k: int, a: (u32, i32)| a.0 == psum(sizes(im, self.items@).skip(cut), k) && a.1 == k)
@closure `Emit for Garbage::emit_text` 2
|&ir::Item| -> (r: u32)
    ensures r == $0.size
@closure `Emit for Garbage::emit_text` 3
|&ir::Id| -> (r: u32)
    requires items.im().contains_key(*$0)
    ensures r == items.im()[*$0].size

@after `Emit for Garbage::emit_text` add_row#0
    proof { let r = self.item_row(*items, it.index() as int); lemma_map_push(rs, trow(total), r); rs = rs.push(r); assert(table.rv().last() =~= trow(total)(r)); }
@before `Emit for Garbage::emit_text` fold
    assert(rs =~= self.listed_rows(*items, cut));
@after `Emit for Garbage::emit_text` add_row#1
    proof { let r = self.more_rows(*items)[0]; lemma_map_push(rs, trow(total), r); rs = rs.push(r); assert(table.rv().last() =~= trow(total)(r)); }
@before `Emit for Garbage::emit_text` sum#0
    assert(rs =~= self.listed_rows(*items, cut) + self.more_rows(*items));
@after `Emit for Garbage::emit_text` add_row#2
    proof { let r = self.total_row(*items); lemma_map_push(rs, trow(total), r); rs = rs.push(r); assert(table.rv().last() =~= trow(total)(r)); }
@after `Emit for Garbage::emit_text` add_row#3
    proof { let r = self.data_rows(*items)[0]; lemma_map_push(rs, trow(total), r); rs = rs.push(r); assert(table.rv().last() =~= trow(total)(r)); }
@before `Emit for Garbage::emit_text` write!
    proof { assert(rs =~= self.rows(*items)); lemma_table_text(table); }
@attr `Emit for Garbage::emit_text`
#[verifier::rlimit(60)]
@attr `Emit for Garbage::emit_json`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for Garbage::emit_json`
    hide(wrote);
    broadcast use crate::report::lemma_wrote;
    let ghost w0 = dest.vp_sink(); let ghost total = items.size as int; let ghost im = items.im();
    let ghost cut = self.cut();
    proof { lemma_listed(im, self.items@, cut); lemma_listed(im, self.data_segments@, 0); }
    let ghost mut rs: Seq<Row> = Seq::empty(); let ghost mut js: Seq<J> = Seq::empty();
@looppre `Emit for Garbage::emit_json` 0
    let ghost arr0 = arr;
    proof { lemma_begin(w0, arr.w.vp_sink()); assert(js =~= rs.map_values(jrow(total))); }
@loop `Emit for Garbage::emit_json` 0 iter=it
    invariant
        it.seq() == refs::<ir::Id>(self.items@).take(cut),
        final(arr.w).vp_sink() == final(arr0.w).vp_sink(),
        js == rs.map_values(jrow(total)), rs =~= self.listed_rows(*items, it.index() as int), arr.need_comma == (js.len() > 0),
        begun(w0, arr.w.vp_sink(), js),
@before `Emit for Garbage::emit_json` object#0
    let ghost a0 = arr.w.vp_sink();
@after `Emit for Garbage::emit_json` object#0
    let ghost o0 = obj.w.vp_sink();
@after `Emit for Garbage::emit_json` field#0
    let ghost o1 = obj.w.vp_sink();
@after `Emit for Garbage::emit_json` field#1
    let ghost o2 = obj.w.vp_sink();
@after `Emit for Garbage::emit_json` field#2
    proof {
        let r = self.item_row(*items, it.index() as int); let m = jrow(total)(r)->Obj_0;
        lemma_object3(w0, a0, o0, o1, o2, obj.w.vp_sink(), js, m);
        lemma_map_push(rs, jrow(total), r); rs = rs.push(r); js = js.push(J::Obj(m));
    }
@before `Emit for Garbage::emit_json` object#1
    let ghost a0 = arr.w.vp_sink();
@after `Emit for Garbage::emit_json` object#1
    let ghost o0 = obj.w.vp_sink();
@after `Emit for Garbage::emit_json` field#3
    let ghost o1 = obj.w.vp_sink();
@after `Emit for Garbage::emit_json` field#4
    let ghost o2 = obj.w.vp_sink();
@after `Emit for Garbage::emit_json` field#5
    proof {
        let r = self.more_rows(*items)[0]; let m = jrow(total)(r)->Obj_0;
        lemma_object3(w0, a0, o0, o1, o2, obj.w.vp_sink(), js, m);
        lemma_map_push(rs, jrow(total), r); rs = rs.push(r); js = js.push(J::Obj(m));
    }
@before `Emit for Garbage::emit_json` object#2
    let ghost a0 = arr.w.vp_sink();
@after `Emit for Garbage::emit_json` object#2
    let ghost o0 = obj.w.vp_sink();
@after `Emit for Garbage::emit_json` field#6
    let ghost o1 = obj.w.vp_sink();
@after `Emit for Garbage::emit_json` field#7
    let ghost o2 = obj.w.vp_sink();
@after `Emit for Garbage::emit_json` field#8
    proof {
        let r = self.total_row(*items); let m = jrow(total)(r)->Obj_0;
        lemma_object3(w0, a0, o0, o1, o2, obj.w.vp_sink(), js, m);
        lemma_map_push(rs, jrow(total), r); rs = rs.push(r); js = js.push(J::Obj(m));
    }
@before `Emit for Garbage::emit_json` object#3
    let ghost a0 = arr.w.vp_sink();
@after `Emit for Garbage::emit_json` object#3
    let ghost o0 = obj.w.vp_sink();
@after `Emit for Garbage::emit_json` field#9
    let ghost o1 = obj.w.vp_sink();
@after `Emit for Garbage::emit_json` field#10
    let ghost o2 = obj.w.vp_sink();
@after `Emit for Garbage::emit_json` field#11
    proof {
        let r = self.data_rows(*items)[0]; let m = jrow(total)(r)->Obj_0;
        lemma_object3(w0, a0, o0, o1, o2, obj.w.vp_sink(), js, m);
        lemma_map_push(rs, jrow(total), r); rs = rs.push(r); js = js.push(J::Obj(m));
    }
@before `Emit for Garbage::emit_json` fold
    assert(rs =~= self.listed_rows(*items, cut));
@before `Emit for Garbage::emit_json` format!#1
    assert(rs =~= self.listed_rows(*items, cut) + self.more_rows(*items));
@exit `Emit for Garbage::emit_json`
    proof { assert(rs =~= self.rows(*items)); lemma_end(w0, arr.w.vp_sink(), js); }
@closure `Emit for Garbage::emit_json` 0
|&ir::Id| -> (r: &ir::Item)
    requires items.im().contains_key(*$0)
    ensures *r == items.im()[*$0]
@closure `Emit for Garbage::emit_json` 1
|(u32, i32), &ir::Item| -> (r: (u32, i32))
    requires $0.0 + $1.size <= u32::MAX, $0.1 < i32::MAX,
    ensures r.0 == $0.0 + $1.size, r.1 == $0.1 + 1
@ghostarg `Emit for Garbage::emit_json` fold
Ghost(|k: int, a: (u32, i32)| a.0 == psum(sizes(im, self.items@).skip(cut), k) && a.1 == k)
@closure `Emit for Garbage::emit_json` 2
|&ir::Id| -> (r: u32)
    requires items.im().contains_key(*$0)
    ensures r == items.im()[*$0].size
@closure `Emit for Garbage::emit_json` 3
|&ir::Id| -> (r: u32)
    requires items.im().contains_key(*$0)
    ensures r == items.im()[*$0].size

@attr `Emit for Garbage::emit_csv`
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]
@entry `Emit for Garbage::emit_csv`
    hide(wrote);
    broadcast use crate::report::lemma_wrote;
    let ghost w0 = dest.vp_sink(); let ghost total = items.size as int; let ghost im = items.im();
    let ghost cut = self.cut();
    proof { lemma_listed(im, self.items@, cut); lemma_listed(im, self.data_segments@, 0); }
    let ghost mut rs: Seq<Row> = Seq::empty(); let ghost mut cs: Seq<Rec> = Seq::empty();
@looppre `Emit for Garbage::emit_csv` 0
    let ghost wtr0 = wtr;
    proof { lemma_no_records(w0); assert(cs =~= rs.map_values(crow(total))); }
@loop `Emit for Garbage::emit_csv` 0 iter=it
    invariant
        it.seq() == refs::<ir::Id>(self.items@).take(cut),
        final(wtr.w).vp_sink() == final(wtr0.w).vp_sink(),
        cs == rs.map_values(crow(total)), rs =~= self.listed_rows(*items, it.index() as int), wtr.st@.n == cs.len(),
        filed(w0, wtr.st@.sink, cs),
@before `Emit for Garbage::emit_csv` serialize#0
    let ghost a0 = wtr.st@.sink;
@after `Emit for Garbage::emit_csv` serialize#0
    proof {
        let r = self.item_row(*items, it.index() as int); let c = crow(total)(r);
        lemma_record(w0, a0, wtr.st@.sink, cs, c);
        lemma_map_push(rs, crow(total), r); rs = rs.push(r); cs = cs.push(c);
    }
@before `Emit for Garbage::emit_csv` serialize#1
    let ghost a0 = wtr.st@.sink;
@after `Emit for Garbage::emit_csv` serialize#1
    proof {
        let r = self.more_rows(*items)[0]; let c = crow(total)(r);
        lemma_record(w0, a0, wtr.st@.sink, cs, c);
        lemma_map_push(rs, crow(total), r); rs = rs.push(r); cs = cs.push(c);
    }
@before `Emit for Garbage::emit_csv` serialize#2
    let ghost a0 = wtr.st@.sink;
@after `Emit for Garbage::emit_csv` serialize#2
    proof {
        let r = self.total_row(*items); let c = crow(total)(r);
        lemma_record(w0, a0, wtr.st@.sink, cs, c);
        lemma_map_push(rs, crow(total), r); rs = rs.push(r); cs = cs.push(c);
    }
@before `Emit for Garbage::emit_csv` serialize#3
    let ghost a0 = wtr.st@.sink;
@after `Emit for Garbage::emit_csv` serialize#3
    proof {
        let r = self.data_rows(*items)[0]; let c = crow(total)(r);
        lemma_record(w0, a0, wtr.st@.sink, cs, c);
        lemma_map_push(rs, crow(total), r); rs = rs.push(r); cs = cs.push(c);
    }
@before `Emit for Garbage::emit_csv` fold
    assert(rs =~= self.listed_rows(*items, cut));
@before `Emit for Garbage::emit_csv` format!#1
    assert(rs =~= self.listed_rows(*items, cut) + self.more_rows(*items));
@before `Emit for Garbage::emit_csv` flush
    let ghost a1 = wtr.st@.sink;
@exit `Emit for Garbage::emit_csv`
    proof { assert(rs =~= self.rows(*items)); lemma_flushed(w0, a1, wtr.st@.sink, cs); }
@closure `Emit for Garbage::emit_csv` 0
|String, u32| -> (r: CsvRecord)
    ensures r.vp_rec() =~= crow(items.size as int)(Row { name: $0@, size: $1 as int })
@closure `Emit for Garbage::emit_csv` 1
|&ir::Id| -> (r: &ir::Item)
    requires items.im().contains_key(*$0)
    ensures *r == items.im()[*$0]
@closure `Emit for Garbage::emit_csv` 2
|(u32, i32), &ir::Item| -> (r: (u32, i32))
    requires $0.0 + $1.size <= u32::MAX, $0.1 < i32::MAX,
    ensures r.0 == $0.0 + $1.size, r.1 == $0.1 + 1
@ghostarg `Emit for Garbage::emit_csv` fold
Ghost(|k: int, a: (u32, i32)| a.0 == psum(sizes(im, self.items@).skip(cut), k) && a.1 == k)
@closure `Emit for Garbage::emit_csv` 3
|&ir::Id| -> (r: u32)
    requires items.im().contains_key(*$0)
    ensures r == items.im()[*$0].size
@closure `Emit for Garbage::emit_csv` 4
|&ir::Id| -> (r: u32)
    requires items.im().contains_key(*$0)
    ensures r == items.im()[*$0].size
@ghostarg garbage sort_by
Ghost(by_size())
@pre
/// Largest first.
pub open spec fn by_size<'a>() -> spec_fn(&'a ir::Item, &'a ir::Item) -> core::cmp::Ordering { |a: &'a ir::Item, b: &'a ir::Item| ucmp(b.size, a.size) }
pub open spec fn ucmp(a: u32, b: u32) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
/// What cannot be reached from the roots.
pub open spec fn lost<'a>(items: ir::Items) -> spec_fn(&'a ir::Item) -> bool { |x: &'a ir::Item| !crate::graph::reach(ir::adj(items.em()), ir::root_id(), x.id) }
pub open spec fn is_lost(items: ir::Items, x: ir::Id) -> bool { items.im().contains_key(x) && !crate::graph::reach(ir::adj(items.em()), ir::root_id(), x) }
/// Larger items first, ties in identifier order.
pub open spec fn ranked(im: ir::Im, s: Seq<ir::Id>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> im[s[i]].size > im[s[j]].size || (im[s[i]].size == im[s[j]].size && crate::ir_ord::idlt(s[i], s[j]))
}
impl Garbage {
    /// The report asked for.
    pub open spec fn reports(&self, items: ir::Items, show_data: bool, limit: int) -> bool {
        &&& self.limit == limit
        &&& ranked(items.im(), self.items@) && ranked(items.im(), self.data_segments@)
        &&& forall|x: ir::Id| #[trigger] self.items@.contains(x) <==> is_lost(items, x) && (show_data || !(items.im()[x].kind is Data))
        &&& forall|x: ir::Id| #[trigger] self.data_segments@.contains(x) <==> is_lost(items, x) && !show_data && items.im()[x].kind is Data
    }
}
@fn get_unreachable_items ret=r
    requires items.wf()
    ensures r@ == refs(items.item_seq()).filter(lost(*items))
@entry get_unreachable_items
    proof { assert(crate::petgraph::visit::adj_of(items) =~= ir::adj(items.em())); }
@closure get_unreachable_items 0
|&&ir::Item| -> (b: bool)
    ensures b == lost(*items)(*$0)
@fn garbage ret=r
    requires items.wf(), items.im().dom().len() <= i32::MAX
    ensures r matches Ok(b) ==> exists|g: Garbage| #[trigger] g.reports(*items, opts.shown().show_data_segments, opts.shown().max_items as int) && g.ok(*items)
        && b.vp_ok(*items) && b.vp_text(*items) == g.vp_text(*items) && b.vp_json(*items) == g.vp_json(*items) && b.vp_csv(*items) == g.vp_csv(*items)
@closure garbage 0
|&&ir::Item, &&ir::Item| -> (o: core::cmp::Ordering)
    ensures o == by_size()(*$0, *$1)
@closure garbage 1
|&&ir::Item| -> (x: ir::Id)
    ensures x == $0.id
@closure garbage 2
|&&&ir::Item| -> (b: bool)
    ensures b == ($0.kind is Data)
@closure garbage 3
|&&ir::Item| -> (x: ir::Id)
    ensures x == $0.id
@closure garbage 4
|&&&ir::Item| -> (b: bool)
    ensures b == !($0.kind is Data)
@closure garbage 5
|&&ir::Item| -> (x: ir::Id)
    ensures x == $0.id
@pre
pub open spec fn id_of<'a, 'b>() -> spec_fn(&'b &'a ir::Item) -> ir::Id { |x: &'b &'a ir::Item| x.id }
pub open spec fn has_data<'a, 'b>(b: bool) -> spec_fn(&'b &'a ir::Item) -> bool { |x: &'b &'a ir::Item| (x.kind is Data) == b }
pub open spec fn any_ref<'a, 'b>() -> spec_fn(&'b &'a ir::Item) -> bool { |x: &'b &'a ir::Item| true }
pub open spec fn before(a: &ir::Item, b: &ir::Item) -> bool { a.size > b.size || (a.size == b.size && crate::ir_ord::idlt(a.id, b.id)) }
pub open spec fn sequence(items: ir::Items, us: Seq<&ir::Item>) -> bool {
    &&& forall|i: int, j: int| #![trigger us[i], us[j]] 0 <= i < j < us.len() ==> before(us[i], us[j])
    &&& forall|i: int| #![trigger us[i]] 0 <= i < us.len() ==> is_lost(items, us[i].id) && *us[i] == items.im()[us[i].id]
    &&& forall|x: ir::Id| #[trigger] is_lost(items, x) ==> exists|i: int| 0 <= i < us.len() && (#[trigger] us[i]).id == x
}
/// The sorted unreachable items.
pub proof fn lemma_sequence<'a>(items: ir::Items, us0: Seq<&'a ir::Item>, us: Seq<&'a ir::Item>)
    requires items.wf(), us0 == refs(items.item_seq()).filter(lost(items)), exists|p: Seq<int>| #[trigger] sorts(us0, us, by_size(), p)
    ensures sequence(items, us)
{
    ir::lemma_item_seq(items);
    let q = lost::<'a>(items); let all: Seq<&'a ir::Item> = refs(items.item_seq());
    let rel = |a: &'a ir::Item, b: &'a ir::Item| crate::ir_ord::idlt(a.id, b.id);
    assert forall|i: int, j: int| #![trigger all[i], all[j]] 0 <= i < j < all.len() implies rel(all[i], all[j]) by { assert(*all[i] == items.item_seq()[i] && *all[j] == items.item_seq()[j]); }
    lemma_filter_pairwise(all, q, rel);
    let p = choose|p: Seq<int>| #[trigger] sorts(us0, us, by_size(), p);
    assert forall|i: int, j: int| #![trigger us[i], us[j]] 0 <= i < j < us.len() implies before(us[i], us[j]) by {
        assert(us[i] == us0[p[i]] && us[j] == us0[p[j]]);
        if us[i].size == us[j].size { assert(by_size()(us[i], us[j]) is Equal); assert(rel(us0[p[i]], us0[p[j]])); }
    }
    assert forall|i: int| #![trigger us[i]] 0 <= i < us.len() implies is_lost(items, us[i].id) && *us[i] == items.im()[us[i].id] by {
        assert(us[i] == us0[p[i]]); assert(us0.contains(us0[p[i]])); assert(q(us[i]) && all.contains(us[i]));
        let k = choose|k: int| 0 <= k < all.len() && all[k] == us[i]; assert(items.item_seq()[k] == *us[i]);
    }
    assert forall|x: ir::Id| #[trigger] is_lost(items, x) implies exists|i: int| 0 <= i < us.len() && (#[trigger] us[i]).id == x by {
        let k = choose|k: int| 0 <= k < items.item_seq().len() && (#[trigger] items.item_seq()[k]).id == x;
        assert(all[k].id == x); assert(q(all[k])); assert(all.contains(all[k])); assert(us0.contains(all[k]));
        let m = choose|m: int| 0 <= m < us0.len() && us0[m] == all[k];
        let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == m;
        assert(us[i] == us0[m]);
    }
}
/// A part of them.
pub proof fn lemma_part<'a, 'b>(items: ir::Items, us: Seq<&'a ir::Item>, f: Seq<&'b &'a ir::Item>, q: spec_fn(&'b &'a ir::Item) -> bool, s: Seq<ir::Id>)
    requires items.wf(), sequence(items, us), f == refs::<&'a ir::Item>(us).filter(q), s == f.map_values(id_of())
    ensures
        listed(items.im(), s), ranked(items.im(), s),
        forall|x: ir::Id| #[trigger] s.contains(x) <==> is_lost(items, x) && exists|i: int| 0 <= i < us.len() && (#[trigger] us[i]).id == x && q(&us[i]),
{
    let all: Seq<&'b &'a ir::Item> = refs::<&'a ir::Item>(us);
    let rel = |a: &'b &'a ir::Item, b: &'b &'a ir::Item| before(*a, *b);
    assert forall|i: int, j: int| #![trigger all[i], all[j]] 0 <= i < j < all.len() implies rel(all[i], all[j]) by { assert(*all[i] == us[i] && *all[j] == us[j]); }
    lemma_filter_pairwise(all, q, rel);
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies is_lost(items, s[i]) && **f[i] == items.im()[s[i]] && s[i] == f[i].id && exists|k: int| 0 <= k < us.len() && (#[trigger] us[k]).id == s[i] && q(&us[k]) by {
        assert(s[i] == f[i].id); assert(f.contains(f[i])); assert(all.contains(f[i]));
        let k = choose|k: int| 0 <= k < all.len() && all[k] == f[i]; assert(us[k] == *f[i]); assert(all[k] == &us[k]);
    }
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies items.im()[s[i]].size > items.im()[s[j]].size || (items.im()[s[i]].size == items.im()[s[j]].size && crate::ir_ord::idlt(s[i], s[j])) by { assert(rel(f[i], f[j])); }
    assert forall|x: ir::Id| #[trigger] s.contains(x) <==> is_lost(items, x) && exists|i: int| 0 <= i < us.len() && (#[trigger] us[i]).id == x && q(&us[i]) by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(is_lost(items, s[i])); }
        if is_lost(items, x) && exists|i: int| 0 <= i < us.len() && (#[trigger] us[i]).id == x && q(&us[i]) {
            let i = choose|i: int| 0 <= i < us.len() && (#[trigger] us[i]).id == x && q(&us[i]);
            assert(all[i] == &us[i]); assert(all.contains(all[i])); assert(f.contains(all[i]));
            let k = choose|k: int| 0 <= k < f.len() && f[k] == all[i]; assert(s[k] == x);
        }
    }
}
@before garbage sort_by
    let ghost us0 = unreachable_items@;
@before garbage show_data_segments
    let ghost us = unreachable_items@;
    proof { lemma_sequence(*items, us0, us); lemma_filter_all(refs::<&ir::Item>(us), any_ref()); }
@exit garbage
    proof {
        if opts.shown().show_data_segments {
            lemma_part(*items, us, refs::<&ir::Item>(us).filter(any_ref()), any_ref(), garbage_items.items@);
        } else {
            lemma_part(*items, us, refs::<&ir::Item>(us).filter(has_data(true)), has_data(true), garbage_items.data_segments@);
            lemma_part(*items, us, refs::<&ir::Item>(us).filter(has_data(false)), has_data(false), garbage_items.items@);
        }
    }
    proof { assert(garbage_items.reports(*items, opts.shown().show_data_segments, opts.shown().max_items as int)); assert(garbage_items.ok(*items)); }
@pre
/// P21: the report is a function of the items and the options.
pub proof fn theorem_deterministic(a: Garbage, b: Garbage, items: ir::Items, show_data: bool, limit: int)
    requires a.reports(items, show_data, limit), b.reports(items, show_data, limit)
    ensures a.vp_text(items) == b.vp_text(items), a.vp_json(items) == b.vp_json(items), a.vp_csv(items) == b.vp_csv(items)
{
    let im = items.im();
    let lt = |x: ir::Id, y: ir::Id| im[x].size > im[y].size || (im[x].size == im[y].size && crate::ir_ord::idlt(x, y));
    assert(pairwise(a.items@, lt)); assert(pairwise(b.items@, lt)); assert(pairwise(a.data_segments@, lt)); assert(pairwise(b.data_segments@, lt));
    assert forall|x: ir::Id| #[trigger] a.items@.contains(x) <==> b.items@.contains(x) by { }
    assert forall|x: ir::Id| #[trigger] a.data_segments@.contains(x) <==> b.data_segments@.contains(x) by { }
    assert forall|x: ir::Id, y: ir::Id| #![trigger lt(x, y)] lt(x, y) implies !lt(y, x) by { }
    lemma_unique_list(a.items@, b.items@, lt); lemma_unique_list(a.data_segments@, b.data_segments@, lt);
    assert(a.listed_rows(items, a.cut()) =~= b.listed_rows(items, b.cut()));
    assert(a.rows(items) == b.rows(items));
}
/// P23: what stands beside a size is its share of the file.
pub proof fn theorem_percent(total: int, r: Row)
    ensures trow(total)(r)[0] == dec(r.size as nat), trow(total)(r)[1] == pct(r.size, total),
        jrow(total)(r)->Obj_0[1] == ("bytes"@, J::Int(r.size)), jrow(total)(r)->Obj_0[2] == ("size_percent"@, J::Flt(percent(r.size, total))),
        crow(total)(r)[1] == ("Bytes"@, dec(r.size as nat)), crow(total)(r)[2] == ("SizePercent"@, fcsv(percent(r.size, total)))
{ }
