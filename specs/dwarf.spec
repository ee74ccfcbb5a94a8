## Sizes from debug information (P19).
@include vp.rs
@include vp_text.rs
@include demangle.rs
@include vp_std.rs
@include vp_more.rs
@include anyhow.rs
@include graph.rs
@include frozen.rs
@include petgraph.rs
@include ir_ord.rs
@include ir_alias.rs
@include gimli.rs
@use ir.spec
@module twiggy_parser::object_parse parser/object_parse/mod.rs
@only `fn parse_items`
@only `fn parse_edges`
@pre
use vstd::prelude::*;
use crate::vp::*;
use crate::ir::{ItemsBuilder, Item, Id, root_id};
use crate::twiggy_parser::object_parse::compilation_unit_parse::*;
use crate::twiggy_parser::object_parse::die_parse::*;
/// The entries of the first `n` units with what they take.
pub open spec fn in_units<R: gimli::Reader>(id: Id, dwarf: gimli::Dwarf<R>, n: int) -> bool { id.0 < n && in_unit(id, dwarf, dwarf.unit_of(dwarf.headers()[id.0 as int]), id.0 as int, entries(dwarf.unit_of(dwarf.headers()[id.0 as int]))) }
/// The units that can be read, each with its number.
pub open spec fn listed<R: gimli::Reader>(es: Seq<(usize, gimli::UnitHeader<R>)>, dwarf: gimli::Dwarf<R>) -> bool {
    es.len() <= dwarf.headers().len() && es.len() < 0xffff_ffff && forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> es[i] == (i as usize, dwarf.headers()[i])
}
/// What the first `n` units add.
pub open spec fn collected<R: gimli::Reader>(a: ItemsBuilder, b: ItemsBuilder, dwarf: gimli::Dwarf<R>, n: int) -> bool {
    &&& b.wf() && b.edges == a.edges && b.roots == a.roots && b.data == a.data && b.size == a.size
    &&& forall|k: Id| #[trigger] b.items@.contains_key(k) <==> a.items@.contains_key(k) || in_units(k, dwarf, n)
    &&& forall|k: Id| #[trigger] a.items@.contains_key(k) ==> b.items@[k] == a.items@[k]
    &&& forall|k: Id| in_units(k, dwarf, n) ==> described(#[trigger] b.items@[k], dwarf, dwarf.unit_of(dwarf.headers()[k.0 as int]), k)
}
/// One more unit.
pub proof fn lemma_unit<R: gimli::Reader>(a: ItemsBuilder, b: ItemsBuilder, dwarf: gimli::Dwarf<R>, n: int)
    requires 0 <= n < dwarf.headers().len(), n < 0xffff_ffff, collected(a, b, dwarf, n), forall|k: Id| #[trigger] a.items@.contains_key(k) ==> k.1 == 0xffff_ffff
    ensures forall|c: ItemsBuilder| #[trigger] gathered(b, c, dwarf, dwarf.unit_of(dwarf.headers()[n]), n, entries(dwarf.unit_of(dwarf.headers()[n]))) ==> collected(a, c, dwarf, n + 1),
        forall|k: Id| #[trigger] b.items@.contains_key(k) ==> k.0 < n || k.1 == 0xffff_ffff
{
    let u = dwarf.unit_of(dwarf.headers()[n]);
    assert forall|c: ItemsBuilder| #[trigger] gathered(b, c, dwarf, u, n, entries(u)) implies collected(a, c, dwarf, n + 1) by {
        assert forall|k: Id| #[trigger] c.items@.contains_key(k) <==> a.items@.contains_key(k) || in_units(k, dwarf, n + 1) by {
            assert(b.items@.contains_key(k) <==> a.items@.contains_key(k) || in_units(k, dwarf, n));
            assert(c.items@.contains_key(k) <==> b.items@.contains_key(k) || in_unit(k, dwarf, u, n, entries(u)));
        }
        assert forall|k: Id| in_units(k, dwarf, n + 1) implies described(#[trigger] c.items@[k], dwarf, dwarf.unit_of(dwarf.headers()[k.0 as int]), k) by {
            if k.0 == n { assert(in_unit(k, dwarf, u, n, entries(u))); } else {
                assert(in_units(k, dwarf, n)); assert(b.items@.contains_key(k)); assert(c.items@[k] == b.items@[k]);
            }
        }
        assert forall|k: Id| #[trigger] a.items@.contains_key(k) implies c.items@[k] == a.items@[k] by { assert(b.items@.contains_key(k)); }
    }
}
@fn parse_items ret=r
    requires old(items).wf(), forall|k: Id| #[trigger] old(items).items@.contains_key(k) ==> k.1 == 0xffff_ffff
    ensures r is Ok ==> collected(*old(items), *final(items), *dwarf, dwarf.headers().len() as int)
@entry parse_items
    let ghost a = *items; let ghost mut n: int = 0;
@after parse_items enumerate
    let ghost es = headers@;
    proof { assert(listed(es, *dwarf)); assert(es.skip(0) =~= es); }
@loopentry parse_items 0
    proof {
        assert(es.skip(n)[0] == es[n]); assert(es.skip(n).drop_first() =~= es.skip(n + 1));
        lemma_unit(a, *items, *dwarf, n);
        n = n + 1;
    }
@loop parse_items 0
    invariant
        0 <= n <= es.len(), listed(es, *dwarf), headers@ == es.skip(n), !crate::fallible_iterator::fails(headers) ==> es.len() == dwarf.headers().len(),
        collected(a, *items, *dwarf, n), forall|k: Id| #[trigger] a.items@.contains_key(k) ==> k.1 == 0xffff_ffff,
    ensures n == dwarf.headers().len()
    decreases es.len() - n
@fn parse_edges ret=r
    requires old(items).wf()
    ensures *final(items) == *old(items)
@entry parse_edges
    let ghost mut n: int = 0;
@after parse_edges enumerate
    let ghost es = headers@;
    proof { assert(listed(es, *dwarf)); assert(es.skip(0) =~= es); }
@loopentry parse_edges 0
    proof {
        assert(es.skip(n)[0] == es[n]); assert(es.skip(n).drop_first() =~= es.skip(n + 1));
        n = n + 1;
    }
@loop parse_edges 0
    invariant 0 <= n <= es.len(), listed(es, *dwarf), headers@ == es.skip(n), *items == *old(items)
    decreases es.len() - n
@module twiggy_parser::object_parse::compilation_unit_parse parser/object_parse/compilation_unit_parse/mod.rs
@pre
use vstd::prelude::*;
use crate::gimli::*;
use crate::ir::{ItemsBuilder, Item, Id, root_id};
use crate::twiggy_parser::object_parse::die_parse::*;
broadcast use crate::gimli::axiom_dies;
/// The entries of the unit, its own entry aside: up to where the depth is back at that of the unit's entry.
pub open spec fn inside<R: Reader>(u: Unit<R>, j: int) -> bool { 1 <= j < u.dies().len() && forall|i: int| #![trigger depth_at(u.dies(), i + 1)] 1 <= i <= j ==> depth_at(u.dies(), i + 1) - depth_at(u.dies(), 1) > 0 }
pub open spec fn entries<R: Reader>(u: Unit<R>) -> int { choose|n: int| 0 <= n && #[trigger] count_is(u, n) }
pub open spec fn count_is<R: Reader>(u: Unit<R>, n: int) -> bool { forall|j: int| 1 <= j ==> (j <= n <==> #[trigger] inside(u, j)) }
pub open spec fn in_unit<R: Reader>(id: Id, dwarf: Dwarf<R>, u: Unit<R>, k: int, n: int) -> bool { id.0 == k && id.1 < n && sized(dwarf, u, u.dies()[id.1 as int + 1].1) is Some }
pub open spec fn described<R: Reader>(x: Item, dwarf: Dwarf<R>, u: Unit<R>, id: Id) -> bool { describes(x, dwarf, u, u.dies()[id.1 as int + 1].1, id) }
/// What the first `n` entries of the unit add.
pub open spec fn gathered<R: Reader>(a: ItemsBuilder, b: ItemsBuilder, dwarf: Dwarf<R>, u: Unit<R>, uid: int, n: int) -> bool {
    &&& b.wf() && b.edges == a.edges && b.roots == a.roots && b.data == a.data && b.size == a.size
    &&& forall|k: Id| #[trigger] b.items@.contains_key(k) <==> a.items@.contains_key(k) || in_unit(k, dwarf, u, uid, n)
    &&& forall|k: Id| #[trigger] a.items@.contains_key(k) ==> b.items@[k] == a.items@[k]
    &&& forall|k: Id| in_unit(k, dwarf, u, uid, n) ==> described(#[trigger] b.items@[k], dwarf, u, k)
}
/// Counters are `usize`.
pub open spec fn ix(n: usize) -> int { n as int }
pub proof fn lemma_count<R: Reader>(u: Unit<R>, n: int, m: int)
    requires count_is(u, n), count_is(u, m), 0 <= n, 0 <= m
    ensures n == m
{
    if n < m { assert(inside(u, n + 1)); } else if m < n { assert(inside(u, m + 1)); }
}
pub proof fn lemma_step<R: Reader>(u: Unit<R>, n: int)
    requires 0 <= n, n + 1 < u.dies().len(), n > 0 ==> inside(u, n), depth_at(u.dies(), n + 2) - depth_at(u.dies(), 1) > 0
    ensures inside(u, n + 1)
{
    assert forall|i: int| #![trigger depth_at(u.dies(), i + 1)] 1 <= i <= n + 1 implies depth_at(u.dies(), i + 1) - depth_at(u.dies(), 1) > 0 by { if i == n + 1 { assert(i + 1 == n + 2); } }
}
pub proof fn lemma_all<R: Reader>(u: Unit<R>, n: int)
    requires 0 <= n, n > 0 ==> inside(u, n), !inside(u, n + 1)
    ensures entries(u) == n
{
    assert forall|j: int| 1 <= j implies (j <= n <==> #[trigger] inside(u, j)) by {
        if j <= n { } else if inside(u, j) { assert(inside(u, n + 1)); }
    }
    assert(count_is(u, n));
    lemma_count(u, entries(u), n);
}
/// One more entry read.
pub proof fn lemma_turn<R: Reader>(u: Unit<R>, n: int)
    requires 0 <= n
    ensures n + 1 < u.dies().len() ==> u.dies().skip(n + 1)[0] == u.dies()[n + 1] && u.dies().skip(n + 1).drop_first() == u.dies().skip(n + 2)
            && depth_at(u.dies(), n + 2) == depth_at(u.dies(), n + 1) + u.dies()[n + 1].0
            && -0x1_0000_0000 < depth_at(u.dies(), n + 2) - depth_at(u.dies(), 1) < 0x1_0000_0000
            && ((n > 0 ==> inside(u, n)) ==> (inside(u, n + 1) <==> depth_at(u.dies(), n + 2) - depth_at(u.dies(), 1) > 0)),
{
    let ds = u.dies();
    if n + 1 < ds.len() {
        assert(ds.skip(n + 1).drop_first() =~= ds.skip(n + 2));
        assert(depth_at(ds, n + 2) == depth_at(ds, n + 1) + ds[n + 1].0);
        if (n > 0 ==> inside(u, n)) && depth_at(ds, n + 2) - depth_at(ds, 1) > 0 { lemma_step(u, n); }
        if inside(u, n + 1) { assert(depth_at(ds, (n + 1) + 1) - depth_at(ds, 1) > 0); }
    }
}
@result parse_items
    proof { if r is Ok { lemma_all(*unit, ix(entry_id)); } }
@fn parse_items ret=r
    requires old(items).wf(), unit_id < 0xffff_ffff, forall|k: Id| #[trigger] old(items).items@.contains_key(k) ==> k.0 < unit_id || k.1 == 0xffff_ffff
    ensures r is Ok ==> gathered(*old(items), *final(items), *dwarf, *unit, unit_id as int, entries(*unit))
@entry parse_items
    let ghost a = *items; let ghost ds = unit.dies();
@loopentry parse_items 0
    proof { lemma_turn(*unit, ix(entry_id)); }
@loop parse_items 0
    invariant_except_break
        die_cursor@ == ds.skip(ix(entry_id) + 1), ix(entry_id) + 1 <= ds.len(), ix(entry_id) > 0 ==> inside(*unit, ix(entry_id)),
        depth == depth_at(ds, ix(entry_id) + 1) - depth_at(ds, 1),
    invariant
        ds == unit.dies(), unit_id < 0xffff_ffff,
        gathered(a, *items, *dwarf, *unit, unit_id as int, ix(entry_id)),
        forall|k: Id| #[trigger] a.items@.contains_key(k) ==> k.0 < unit_id || k.1 == 0xffff_ffff,
    ensures
        ix(entry_id) > 0 ==> inside(*unit, ix(entry_id)), !inside(*unit, ix(entry_id) + 1),
    decreases ds.len() - ix(entry_id)
@fn parse_edges ret=r
    requires unit_id < 0xffff_ffff
    ensures *final(items) == *old(items)
@entry parse_edges
    let ghost ds = unit.dies();
@loopentry parse_edges 0
    proof { lemma_turn(*unit, ix(entry_id)); }
@loop parse_edges 0
    invariant_except_break
        die_cursor@ == ds.skip(ix(entry_id) + 1), ix(entry_id) + 1 <= ds.len(),
        depth == depth_at(ds, ix(entry_id) + 1) - depth_at(ds, 1),
    invariant
        ds == unit.dies(), unit_id < 0xffff_ffff, *items == *old(items),
    decreases ds.len() - ix(entry_id)
@module twiggy_parser::object_parse::die_parse parser/object_parse/die_parse/mod.rs
@pre
use vstd::prelude::*;
use crate::gimli::*;
use crate::vp::*;
use crate::vp_text::*;
use crate::ir::{ItemsBuilder, Item, Id, ItemKind, root_id};
broadcast use {crate::gimli::axiom_string_from_ref, crate::gimli::axiom_string_obeys_from_ref, crate::gimli::axiom_kind_from_kind, crate::gimli::axiom_kind_obeys_from_kind};
pub use crate::twiggy_parser::object_parse::die_parse::location_attrs::*;
pub use crate::twiggy_parser::object_parse::die_parse::item_name::*;
/// The bytes of the function an entry describes; `None` if it describes no function, or one without code of its own.
pub open spec fn sized<R: Reader>(dwarf: Dwarf<R>, u: Unit<R>, d: DebuggingInformationEntry<R>) -> Option<int> {
    if d.tag_of() == DW_TAG_subprogram { match extent(dwarf, u, d) { Extent::Bytes(n) => Some(n), _ => None } } else { None }
}
pub open spec fn title<R: Reader>(dwarf: Dwarf<R>, u: Unit<R>, d: DebuggingInformationEntry<R>, id: Id) -> Seq<char> {
    match given(dwarf, u, d) { Some(t) => t, None => "Subroutine["@ + dec(id.0 as nat) + "]["@ + dec(id.1 as nat) + "]"@ }
}
pub open spec fn describes<R: Reader>(x: Item, dwarf: Dwarf<R>, u: Unit<R>, d: DebuggingInformationEntry<R>, id: Id) -> bool {
    &&& x.id == id && Some(x.size as int) == sized(dwarf, u, d) && x.name@ == title(dwarf, u, d, id)
    &&& x.kind matches ItemKind::Code(c) && c.of_name(x.name@)
}
@fn parse_items ret=r
    requires old(items).wf(), unit_id < 0xffff_ffff, entry_id < 0xffff_ffff, !old(items).items@.contains_key(Id(unit_id as u32, entry_id as u32))
    ensures
        r is Ok && sized(*dwarf, *unit, *entry) is None ==> *final(items) == *old(items),
        r is Ok && sized(*dwarf, *unit, *entry) is Some ==> {
            let id = Id(unit_id as u32, entry_id as u32);
            &&& final(items).wf() && final(items).edges == old(items).edges && final(items).roots == old(items).roots && final(items).data == old(items).data && final(items).size == old(items).size
            &&& final(items).items@ == old(items).items@.insert(id, final(items).items@[id]) && describes(final(items).items@[id], *dwarf, *unit, *entry, id)
        },
        entry.tag_of() == DW_TAG_subprogram && extent(*dwarf, *unit, *entry) is Bad ==> r is Err,
@closure parse_items 0
|&u32| -> (b: bool)
    ensures b == (items.size_added + *$0 <= u32::MAX)
@closure parse_items 1
|| -> (e: crate::anyhow::Error)
@closure parse_items 2
|| -> (s: String)
    ensures s@ == "Subroutine["@ + dec(unit_id as nat) + "]["@ + dec(entry_id as nat) + "]"@
@entry parse_items
    let ghost mut nm = Seq::<char>::empty();
@before parse_items new#1
 proof { nm = name@;let id = Id(unit_id as u32, entry_id as u32); assert(name@ =~= title(*dwarf, *unit, *entry, id)); assert(kind is Code); assert(kind->Code_0.of_name(name@)); }
@before parse_items add_item
    proof {
        let id = Id(unit_id as u32, entry_id as u32);
        assert(nm == title(*dwarf, *unit, *entry, id));
        assert(exists|y: &String| y@ == nm && call_ensures(<&String as Into<String>>::into, (y,), item.name));
        assert forall|y: &String| call_ensures(<&String as Into<String>>::into, (y,), item.name) implies item.name@ == y@ by {  assert(<String as vstd::std_specs::convert::FromSpec<&String>>::from_spec(y)@ == y@); }
        assert(item.name@ == nm);
        assert(<ItemKind as vstd::std_specs::convert::FromSpec<ItemKind>>::from_spec(item.kind) == item.kind);
        assert(forall|k: ItemKind| call_ensures(<ItemKind as Into<ItemKind>>::into, (k,), item.kind) ==> #[trigger] <ItemKind as vstd::std_specs::convert::FromSpec<ItemKind>>::from_spec(k) == item.kind);
        assert(item.kind is Code);
        assert(item.kind->Code_0.of_name(nm));
        assert(describes(item, *dwarf, *unit, *entry, id));
    }
@fn parse_edges ret=r
    ensures *final(_items) == *old(_items), r is Ok
@module twiggy_parser::object_parse::die_parse::item_name parser/object_parse/die_parse/item_name.rs
@pre
use vstd::prelude::*;
use crate::vp::*;
use crate::gimli::*;
pub type Res<T> = core::result::Result<T, crate::anyhow::Error>;
/// The linkage name, or else the name.
pub open spec fn given<R: Reader>(dwarf: Dwarf<R>, u: Unit<R>, d: DebuggingInformationEntry<R>) -> Option<Seq<char>> {
    match d.attr(DW_AT_linkage_name) { Some(a) => Some(dwarf.text_of(u, a)), None => match d.attr(DW_AT_name) { Some(a) => Some(dwarf.text_of(u, a)), None => None } }
}
@fn item_name ret=r
    ensures r matches Ok(o) ==> (match o { Some(s) => given(*dwarf, *unit, *die) == Some(s@), None => given(*dwarf, *unit, *die) is None })
@closure item_name 0
|AttributeValue<R>| -> (r: Res<String>)
    ensures r matches Ok(s) ==> s@ == dwarf.text_of(*unit, $0)
@module twiggy_parser::object_parse::die_parse::location_attrs parser/object_parse/die_parse/location_attrs.rs
@pre
use vstd::prelude::*;
use crate::vp::*;
use crate::gimli::*;
use crate::gimli::Range;
/// What the attributes of an entry say about its code: nothing sensible, nothing at all, or so many bytes.
pub enum Extent { Bad, Absent, Bytes(int) }
pub open spec fn span<R: Reader>(low: Option<AttributeValue<R>>, high: Option<AttributeValue<R>>) -> Extent {
    match low {
        None => Extent::Absent,
        Some(AttributeValue::Addr(l)) => match high {
            None => Extent::Absent,
            Some(AttributeValue::Addr(h)) => if h < l { Extent::Bad } else { Extent::Bytes(h - l) },
            Some(AttributeValue::Udata(n)) => Extent::Bytes(n as int),
            Some(_) => Extent::Bad,
        },
        Some(_) => Extent::Bad,
    }
}
pub open spec fn spread<R: Reader>(dwarf: Dwarf<R>, u: Unit<R>, ranges: Option<AttributeValue<R>>) -> Extent {
    match ranges {
        None => Extent::Absent,
        Some(AttributeValue::RangeListsRef(o)) => {
            let rs = dwarf.ranges_at(u, dwarf.range_offset(u, o));
            let n = covered(rs, rs.len() as int);
            if n > u64::MAX { Extent::Bad } else { Extent::Bytes(n) }
        },
        Some(_) => Extent::Bad,
    }
}
pub open spec fn extent_of<R: Reader>(dwarf: Dwarf<R>, u: Unit<R>, low: Option<AttributeValue<R>>, high: Option<AttributeValue<R>>, ranges: Option<AttributeValue<R>>) -> Extent {
    match span(low, high) { Extent::Absent => spread(dwarf, u, ranges), x => x }
}
pub open spec fn extent<R: Reader>(dwarf: Dwarf<R>, u: Unit<R>, d: DebuggingInformationEntry<R>) -> Extent {
    extent_of(dwarf, u, d.attr(DW_AT_low_pc), d.attr(DW_AT_high_pc), d.attr(DW_AT_ranges))
}
pub open spec fn says(r: core::result::Result<Option<u64>, crate::anyhow::Error>, e: Extent) -> bool {
    match r { Ok(None) => e is Absent, Ok(Some(n)) => e == Extent::Bytes(n as int), Err(_) => true }
}
/// The sum so far, as the code keeps it.
pub open spec fn so_far(rs: Seq<Range>, k: int) -> Option<u64> { if covered(rs, k) > u64::MAX { None } else { Some(covered(rs, k) as u64) } }
pub open spec fn orderly(rs: Seq<Range>) -> bool { forall|i: int| #![trigger rs[i]] 0 <= i < rs.len() ==> rs[i].begin <= rs[i].end }
pub proof fn lemma_covered(rs: Seq<Range>)
    requires orderly(rs)
    ensures covered(rs, 0) == 0, forall|k: int| #![trigger so_far(rs, k)] 0 <= k < rs.len() ==> rs[k].end - rs[k].begin <= u64::MAX && so_far(rs, k + 1) == (match so_far(rs, k) { Some(a) => if a + (rs[k].end - rs[k].begin) <= u64::MAX { Some((a + (rs[k].end - rs[k].begin)) as u64) } else { None }, None => None }),
        forall|k: int| #![trigger covered(rs, k)] 0 <= covered(rs, k)
{
    assert forall|k: int| #![trigger covered(rs, k)] 0 <= covered(rs, k) by { lemma_covered_at(rs, k); }
    assert forall|k: int| #![trigger so_far(rs, k)] 0 <= k < rs.len() implies rs[k].end - rs[k].begin <= u64::MAX && so_far(rs, k + 1) == (match so_far(rs, k) { Some(a) => if a + (rs[k].end - rs[k].begin) <= u64::MAX { Some((a + (rs[k].end - rs[k].begin)) as u64) } else { None }, None => None }) by { lemma_covered_at(rs, k); lemma_covered_at(rs, k + 1); assert(covered(rs, k + 1) == covered(rs, k) + (rs[k].end - rs[k].begin)); }
}
pub proof fn lemma_covered_at(rs: Seq<Range>, k: int)
    requires orderly(rs)
    ensures 0 <= covered(rs, k)
    decreases k
{ if 0 < k <= rs.len() { lemma_covered_at(rs, k - 1); } }
@fn DieLocationAttributes::try_from ret=r
    ensures r matches Ok(x) ==> x.dw_at_low_pc == die.attr(DW_AT_low_pc) && x.dw_at_high_pc == die.attr(DW_AT_high_pc) && x.dw_at_ranges == die.attr(DW_AT_ranges)
@fn DieLocationAttributes::entity_size ret=r
    ensures says(r, extent_of(*dwarf, *unit, self.dw_at_low_pc, self.dw_at_high_pc, self.dw_at_ranges)), extent_of(*dwarf, *unit, self.dw_at_low_pc, self.dw_at_high_pc, self.dw_at_ranges) is Bad ==> r is Err
@fn DieLocationAttributes::contiguous_entity_size ret=r
    ensures says(r, span(self.dw_at_low_pc, self.dw_at_high_pc)), r is Err <==> span(self.dw_at_low_pc, self.dw_at_high_pc) is Bad
@closure DieLocationAttributes::contiguous_entity_size 0
|| -> (e: crate::anyhow::Error)
@fn DieLocationAttributes::noncontiguous_entity_size ret=r
    ensures says(r, spread(*dwarf, *unit, self.dw_at_ranges)), spread(*dwarf, *unit, self.dw_at_ranges) is Bad ==> r is Err
@after DieLocationAttributes::noncontiguous_entity_size ranges
    let ghost rs = ranges@;
    proof { lemma_covered(rs); }
    let ghost inv = |k: int, a: Option<u64>| a == so_far(rs, k);
@closure DieLocationAttributes::noncontiguous_entity_size 0
|Range| -> (x: core::result::Result<u64, crate::gimli::Error>)
    requires $0.begin <= $0.end
    ensures x == Ok::<u64, crate::gimli::Error>((($0.end - $0.begin) as u64))
@closure DieLocationAttributes::noncontiguous_entity_size 1
|Option<u64>, u64| -> (x: core::result::Result<Option<u64>, crate::gimli::Error>)
    ensures x == Ok::<Option<u64>, crate::gimli::Error>(match $0 { Some(a) => if a + $1 <= u64::MAX { Some((a + $1) as u64) } else { None }, None => None })
@closure DieLocationAttributes::noncontiguous_entity_size 2
|u64| -> (x: Option<u64>)
    ensures x == if $0 + size <= u64::MAX { Some(($0 + size) as u64) } else { None }
@closure DieLocationAttributes::noncontiguous_entity_size 3
|| -> (e: crate::anyhow::Error)
@ghostarg DieLocationAttributes::noncontiguous_entity_size fold
    Ghost(inv)
@fn DieLocationAttributes::dw_at_low_pc ret=r
    ensures r matches Ok(None) ==> self.dw_at_low_pc is None, r matches Ok(Some(x)) ==> self.dw_at_low_pc == Some(AttributeValue::<R>::Addr(x)),
        r is Err ==> self.dw_at_low_pc is Some && !(self.dw_at_low_pc->Some_0 is Addr)
@fn DieLocationAttributes::dw_at_ranges ret=r
    ensures r matches Ok(None) ==> self.dw_at_ranges is None, r matches Ok(Some(x)) ==> self.dw_at_ranges == Some(AttributeValue::<R>::RangeListsRef(x)),
        r is Err ==> self.dw_at_ranges is Some && !(self.dw_at_ranges->Some_0 is RangeListsRef)
