## Parsing wasm (P01, P03, P17, P24).
@include vp.rs
@include vp_text.rs
@include demangle.rs
@include vp_std.rs
@include vp_more.rs
@include vp_hash.rs
@include anyhow.rs
@include graph.rs
@include frozen.rs
@include petgraph.rs
@include ir_ord.rs
@include ir_alias.rs
@include wasmparser.rs
@use ir.spec
@use traits.spec
@module twiggy_parser parser/parser.rs
@only `trait Parse`
@only `fn parse_wasm`
@only `fn parse_fallback`
@only `fn parse`
@pre
use vstd::prelude::*;
use crate::vp::*;
use crate::ir::{ItemsBuilder, Items, Item, Id, root_id, at, ssum, lemma_ssum_ext, lemma_ssum_insert};
use self::wasm_parse::{module_items, module_edge, module_rel, places, payloads, kept, linked};
use crate::wasmparser::parser_at;
/// The placements of the data segments of a file.
pub open spec fn placed_at(d: Seq<u8>) -> Map<u64, (Id, u64)> { let ks = kept(payloads(d), false); places(ks, ks.len() as int) }
/// What is made of a module: its items, with the meta root; they are as big as the file; and the edges its references stand for.
pub open spec fn module_graph(t: Items, d: Seq<u8>) -> bool {
    &&& t.wf() && t.size == d.len() && t.meta_root == root_id() && ssum(t.im(), t.im().dom()) == d.len()
    &&& exists|b: ItemsBuilder| #[trigger] module_items(b, d) && items_of(t, b)
    &&& forall|x: Id, y: Id| x != root_id() ==> (#[trigger] at(t.em(), x).contains(y) <==> module_edge(d, placed_at(d), x, y))
}
/// The items are those of the builder, and the meta root over its roots.
pub open spec fn items_of(t: Items, b: ItemsBuilder) -> bool {
    &&& forall|k: Id| #[trigger] t.im().contains_key(k) <==> b.items@.contains_key(k) || k == root_id()
    &&& forall|k: Id| #[trigger] b.items@.contains_key(k) ==> t.im()[k] == b.items@[k]
    &&& t.im()[root_id()].size == 0
    &&& forall|y: Id| #[trigger] at(t.em(), root_id()).contains(y) <==> b.roots@.contains(y)
}
pub proof fn lemma_parsed(b: ItemsBuilder, c: ItemsBuilder, t: Items, d: Seq<u8>)
    requires module_items(b, d), linked(b, c, module_rel(d, b.data@)), items_of(t, c), t.wf(), t.size == d.len(), t.meta_root == root_id(),
        forall|x: Id, y: Id| x != root_id() ==> (#[trigger] at(t.em(), x).contains(y) <==> c.has_edge(x, y)),
    ensures module_graph(t, d)
{
    assert(items_of(t, b));
    assert(t.im().dom() =~= b.items@.dom().insert(root_id()));
    assert(!b.items@.contains_key(root_id()));
    lemma_ssum_insert(t.im(), b.items@.dom(), root_id());
    lemma_ssum_ext(t.im(), b.items@, b.items@.dom());
    assert(b.data@ == placed_at(d));
}
@fn parse_wasm ret=r
    requires data@.len() <= u32::MAX
    ensures r matches Ok(t) ==> module_graph(t, data@)
@after parse_wasm parse_items
    let ghost b = items;
@after parse_wasm parse_edges
    let ghost c = items;
@result parse_wasm
    proof { if r is Ok { lemma_parsed(b, c, r->Ok_0, data@); } }
@fn parse_fallback ret=r
    requires data@.len() <= u32::MAX
    ensures r matches Ok(t) ==> module_graph(t, data@)
@fn parse ret=r
    requires data@.len() <= u32::MAX
    ensures r matches Ok(t) ==> module_graph(t, data@)
@inject Parse
    spec fn vp_items_req(&self, items: ItemsBuilder, extra: Self::ItemsExtra) -> bool;
    spec fn vp_edges_req(&self, items: ItemsBuilder, extra: Self::EdgesExtra) -> bool;
@fn Parse::parse_items ret=r
    requires old(self).vp_items_req(*old(items), extra)
@fn Parse::parse_edges ret=r
    requires old(self).vp_edges_req(*old(items), extra)

@module twiggy_parser::wasm_parse parser/wasm_parse/mod.rs
@opt hash
@pre
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::vp::*;
use crate::vp_text::*;
use crate::vp_more::*;
use crate::vp_hash::*;
use crate::wasmparser::*;
use crate::ir::{ItemsBuilder, root_id, Item, data_at};
broadcast use {crate::vp_text::group_num, crate::wasmparser::axiom_reader, crate::ir_ord::lemma_id_key};
pub type Res<T> = core::result::Result<T, crate::anyhow::Error>;

// ------------------------------------------------------------ entries and the bytes they take
pub open spec fn eid(k: int, i: int) -> Id { Id(k as u32, i as u32) }
/// The results up to `i` are all good.
pub open spec fn oks<T>(o: Seq<Res<T>>, i: int) -> bool { forall|j: int| 0 <= j < i ==> #[trigger] o[j] is Ok }
/// What `iterate_with_size` makes of a section of `n` entries: each entry with its size; good to the end only if nothing but the entries is there.
pub open spec fn steps<T>(o: Seq<Res<(T, u32)>>, v: RV<T>, n: int) -> bool {
    &&& o.len() == n
    &&& forall|i: int| 0 <= i < n && oks(o, i) && #[trigger] o[i] is Ok ==> i < v.left.len() && o[i]->Ok_0.0 == v.left[i].0 && o[i]->Ok_0.1 == v.left[i].1
    &&& forall|i: int| 0 <= i < n && #[trigger] o[i] is Ok ==> o[i]->Ok_0.1 <= v.end - v.pos
    &&& oks(o, n) ==> v.full(n)
}
pub proof fn lemma_taken<T>(s: Seq<(T, int)>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).1 >= 1
    ensures taken(s, j) - taken(s, i) >= j - i, taken(s, i) >= 0
    decreases j
{ if i < j { lemma_taken(s, i, j - 1); } else if i > 0 { lemma_taken(s, i - 1, j - 1); } }
pub proof fn lemma_taken_drop<T>(s: Seq<(T, int)>, k: int)
    requires 0 < k <= s.len()
    ensures taken(s, k) == s[0].1 + taken(s.drop_first(), k - 1)
    decreases k
{ if k > 1 { lemma_taken_drop(s, k - 1); assert(s.drop_first()[k - 2] == s[k - 1]); } else { assert(taken(s, 0) == 0); assert(taken(s.drop_first(), 0) == 0); } }
/// The same, numbered.
pub open spec fn eoks<T>(o: Seq<(usize, Res<T>)>, i: int) -> bool { forall|j: int| 0 <= j < i ==> (#[trigger] o[j]).1 is Ok }
pub open spec fn esteps<T>(o: Seq<(usize, Res<(T, u32)>)>, v: RV<T>, n: int) -> bool {
    &&& o.len() == n
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] o[i]).0 == i
    &&& forall|i: int| 0 <= i < n && eoks(o, i) && (#[trigger] o[i]).1 is Ok ==> i < v.left.len() && o[i].1->Ok_0.0 == v.left[i].0 && o[i].1->Ok_0.1 == v.left[i].1
    &&& eoks(o, n) ==> v.full(n)
}
/// What one more entry takes.
pub proof fn lemma_entry<T>(v: RV<T>, i: int)
    requires v.ok(), v.end <= u32::MAX, 0 <= i
    ensures i < v.left.len() ==> taken(v.left, i + 1) == taken(v.left, i) + v.left[i].1 && taken(v.left, i) >= i && v.pos + taken(v.left, i + 1) <= v.end && i < 0xffff_ffff && v.left[i].1 >= 1
{ if i < v.left.len() { lemma_taken(v.left, 0, i); lemma_taken(v.left, i + 1, v.left.len() as int); } }
// ------------------------------------------------------------ the items of one section
pub open spec fn free(b: ItemsBuilder, idx: int) -> bool { forall|k: Id| #[trigger] b.items@.contains_key(k) ==> k.0 != idx }
pub open spec fn entry_of<T>(k: Id, idx: int, left: Seq<(T, int)>, n: int, sel: spec_fn(T) -> bool) -> bool {
    k.0 == idx && k.1 < n && k.1 < left.len() && sel(left[k.1 as int].0)
}
/// `b` is `a` with the first `n` entries of section `idx` added, those that `sel` selects, as roots or not.
pub open spec fn grown<T>(a: ItemsBuilder, b: ItemsBuilder, idx: int, left: Seq<(T, int)>, n: int, sel: spec_fn(T) -> bool, rooted: bool) -> bool {
    &&& b.wf() && b.size == a.size && b.edges == a.edges
    &&& forall|k: Id| #[trigger] b.items@.contains_key(k) <==> a.items@.contains_key(k) || entry_of(k, idx, left, n, sel)
    &&& forall|k: Id| #[trigger] a.items@.contains_key(k) ==> b.items@[k] == a.items@[k]
    &&& forall|k: Id| entry_of(k, idx, left, n, sel) ==> (#[trigger] b.items@[k]).size == left[k.1 as int].1
    &&& forall|k: Id| #[trigger] b.roots@.contains(k) <==> a.roots@.contains(k) || (rooted && entry_of(k, idx, left, n, sel))
    &&& a.size_added <= b.size_added <= a.size_added + taken(left, n)
}
pub open spec fn every<T>() -> spec_fn(T) -> bool { |x: T| true }
/// What adding the entries of a section needs.
pub open spec fn room<T>(b: ItemsBuilder, idx: int, v: RV<T>) -> bool {
    b.wf() && free(b, idx) && 0 <= idx < 0xffff_ffff && v.end <= u32::MAX && b.size_added + (v.end - v.pos) <= u32::MAX
}
pub proof fn lemma_grown<T>(a: ItemsBuilder, b: ItemsBuilder, c: ItemsBuilder, idx: int, left: Seq<(T, int)>, n: int, sel: spec_fn(T) -> bool, rooted: bool, it: Item)
    requires grown(a, b, idx, left, n, sel, rooted), 0 <= n < left.len(), free(a, idx), 0 <= idx < 0xffff_ffff, n < 0xffff_ffff,
        sel(left[n].0), it.id == eid(idx, n), it.size == left[n].1,
        c.wf(), c.size == b.size, c.edges == b.edges, c.items@ == b.items@.insert(it.id, it), c.roots@ == (if rooted { b.roots@.insert(it.id) } else { b.roots@ }),
        c.size_added == b.size_added + it.size,
    ensures grown(a, c, idx, left, n + 1, sel, rooted)
{
    let id = eid(idx, n);
    assert forall|k: Id| entry_of(k, idx, left, n + 1, sel) <==> entry_of(k, idx, left, n, sel) || k == id by { }
}
pub open spec fn is_func(t: TypeDef) -> bool { t is Func }
pub open spec fn funcs<'a>() -> spec_fn(TypeDef<'a>) -> bool { |t: TypeDef<'a>| is_func(t) }
pub proof fn lemma_skipped<T>(a: ItemsBuilder, b: ItemsBuilder, idx: int, left: Seq<(T, int)>, n: int, sel: spec_fn(T) -> bool, rooted: bool)
    requires grown(a, b, idx, left, n, sel, rooted), 0 <= n < left.len(), !sel(left[n].0), left[n].1 >= 0, n < 0xffff_ffff
    ensures grown(a, b, idx, left, n + 1, sel, rooted)
{
    assert forall|k: Id| entry_of(k, idx, left, n + 1, sel) <==> entry_of(k, idx, left, n, sel) by { }
}
// ------------------------------------------------------------ index spaces and edges
/// The index spaces of a module.
pub ghost struct Ix { pub types: Seq<Option<Id>>, pub code: Option<usize>, pub functions: Seq<Id>, pub tables: Seq<Id>, pub memories: Seq<Id>, pub globals: Seq<Id> }
impl SectionIndices { pub open spec fn v(&self) -> Ix { Ix { types: self.types@, code: self.code, functions: self.functions@, tables: self.tables@, memories: self.memories@, globals: self.globals@ } } }
pub open spec fn all_in(s: Seq<Id>, b: ItemsBuilder) -> bool { forall|i: int| 0 <= i < s.len() ==> b.items@.contains_key(#[trigger] s[i]) }
/// Every index stands for an item.
pub open spec fn ix_ok(x: Ix, b: ItemsBuilder) -> bool {
    &&& all_in(x.functions, b) && all_in(x.tables, b) && all_in(x.memories, b) && all_in(x.globals, b)
    &&& forall|i: int| 0 <= i < x.types.len() && #[trigger] x.types[i] is Some ==> b.items@.contains_key(x.types[i]->Some_0)
}
pub open spec fn pick(s: Seq<Id>, i: u32) -> Option<Id> { if i < s.len() { Some(s[i as int]) } else { None } }
/// `b` is `a` with the edges of `rel` added, and nothing else.
pub open spec fn linked(a: ItemsBuilder, b: ItemsBuilder, rel: spec_fn(Id, Id) -> bool) -> bool {
    &&& b.wf() && b.items == a.items && b.roots == a.roots && b.data == a.data && b.size == a.size && b.size_added == a.size_added
    &&& forall|x: Id, y: Id| #[trigger] b.has_edge(x, y) <==> a.has_edge(x, y) || rel(x, y)
}
pub open spec fn no_edges() -> spec_fn(Id, Id) -> bool { |x: Id, y: Id| false }
pub open spec fn entries_in<T>(b: ItemsBuilder, idx: int, left: Seq<(T, int)>, n: int) -> bool { forall|i: int| 0 <= i < n && i < left.len() ==> b.items@.contains_key(#[trigger] eid(idx, i)) }
/// What drawing the edges of the entries of a section needs.
pub open spec fn drawn<T>(b: ItemsBuilder, idx: int, v: RV<T>, n: int, x: Ix) -> bool {
    b.wf() && ix_ok(x, b) && 0 <= idx < 0xffff_ffff && v.end <= u32::MAX && entries_in(b, idx, v.left, n)
}
pub open spec fn export_to(e: Export, x: Ix) -> Option<Id> {
    match e.kind {
        ExternalKind::Function => pick(x.functions, e.index),
        ExternalKind::Table => pick(x.tables, e.index),
        ExternalKind::Memory => pick(x.memories, e.index),
        ExternalKind::Global => pick(x.globals, e.index),
        _ => None,
    }
}
/// An exported entity, for the first `n` exports.
pub open spec fn export_edge(left: Seq<(Export, int)>, n: int, idx: int, ix: Ix, x: Id, y: Id) -> bool {
    exists|i: int| 0 <= i < n && x == eid(idx, i) && export_to((#[trigger] left[i]).0, ix) == Some(y)
}
pub open spec fn exported<'a>(left: Seq<(Export<'a>, int)>, n: int, idx: int, ix: Ix) -> spec_fn(Id, Id) -> bool { |x: Id, y: Id| export_edge(left, n, idx, ix, x, y) }
pub proof fn lemma_exported(left: Seq<(Export, int)>, n: int, idx: int, ix: Ix)
    requires 0 <= n < left.len()
    ensures forall|x: Id, y: Id| #[trigger] export_edge(left, n + 1, idx, ix, x, y) <==> export_edge(left, n, idx, ix, x, y) || (x == eid(idx, n) && export_to(left[n].0, ix) == Some(y))
{
    assert forall|x: Id, y: Id| x == eid(idx, n) && export_to(left[n].0, ix) == Some(y) implies #[trigger] export_edge(left, n + 1, idx, ix, x, y) by { let _ = left[n]; }
    assert forall|x: Id, y: Id| export_edge(left, n, idx, ix, x, y) implies #[trigger] export_edge(left, n + 1, idx, ix, x, y) by { }
}
/// The function an item of an element segment names.
pub open spec fn item_to(e: ElementItem, ix: Ix) -> Option<Id> { match e { ElementItem::Func(f) => pick(ix.functions, f), _ => None } }
/// The edges of one element segment: from its table when it is active, and to the functions its first `m` items name.
pub open spec fn table_edge(e: Element, id: Id, ix: Ix, x: Id, y: Id) -> bool { e.kind matches ElementKind::Active { table_index, init_expr } && pick(ix.tables, table_index) == Some(x) && y == id }
pub open spec fn items_edge(s: Seq<ElementItem>, m: int, id: Id, ix: Ix, x: Id, y: Id) -> bool { x == id && exists|j: int| 0 <= j < m && item_to(#[trigger] s[j], ix) == Some(y) }
pub open spec fn elem_edge(e: Element, id: Id, ix: Ix, x: Id, y: Id) -> bool { table_edge(e, id, ix, x, y) || items_edge(e.items.items(), e.items.items().len() as int, id, ix, x, y) }
pub open spec fn elems_edge(left: Seq<(Element, int)>, n: int, idx: int, ix: Ix, x: Id, y: Id) -> bool { exists|i: int| 0 <= i < n && elem_edge((#[trigger] left[i]).0, eid(idx, i), ix, x, y) }
pub open spec fn elements<'a>(left: Seq<(Element<'a>, int)>, n: int, idx: int, ix: Ix) -> spec_fn(Id, Id) -> bool { |x: Id, y: Id| elems_edge(left, n, idx, ix, x, y) }
pub proof fn lemma_elements(left: Seq<(Element, int)>, n: int, idx: int, ix: Ix)
    requires 0 <= n < left.len()
    ensures forall|x: Id, y: Id| #[trigger] elems_edge(left, n + 1, idx, ix, x, y) <==> elems_edge(left, n, idx, ix, x, y) || elem_edge(left[n].0, eid(idx, n), ix, x, y)
{
    assert forall|x: Id, y: Id| elem_edge(left[n].0, eid(idx, n), ix, x, y) implies #[trigger] elems_edge(left, n + 1, idx, ix, x, y) by { let _ = left[n]; }
    assert forall|x: Id, y: Id| elems_edge(left, n, idx, ix, x, y) implies #[trigger] elems_edge(left, n + 1, idx, ix, x, y) by { }
}
pub proof fn lemma_items_edge(s: Seq<ElementItem>, m: int, id: Id, ix: Ix)
    requires 0 <= m < s.len()
    ensures forall|x: Id, y: Id| #[trigger] items_edge(s, m + 1, id, ix, x, y) <==> items_edge(s, m, id, ix, x, y) || (x == id && item_to(s[m], ix) == Some(y))
{
    assert forall|x: Id, y: Id| x == id && item_to(s[m], ix) == Some(y) implies #[trigger] items_edge(s, m + 1, id, ix, x, y) by { let _ = s[m]; }
    assert forall|x: Id, y: Id| items_edge(s, m, id, ix, x, y) implies #[trigger] items_edge(s, m + 1, id, ix, x, y) by { }
}
/// What the active placement of a data segment does to the table of placements.
pub open spec fn put(m: Map<u64, (Id, u64)>, off: int, len: int, id: Id) -> Map<u64, (Id, u64)> { if 0 <= off <= u32::MAX && off + len < u32::MAX { m.insert(off as u64, (id, len as u64)) } else { m } }
pub open spec fn placed_at(d: Data) -> Option<int> {
    match d.kind {
        DataKind::Active { memory_index, init_expr } => if init_expr.ops().len() > 0 { match init_expr.ops()[0] { Operator::I32Const { value } => Some((value as u32) as int), Operator::I64Const { value } => Some(value as int), _ => None } } else { None },
        _ => None,
    }
}
pub open spec fn place(m: Map<u64, (Id, u64)>, d: Data, id: Id) -> Map<u64, (Id, u64)> { match placed_at(d) { Some(o) => put(m, o, d.data@.len() as int, id), None => m } }
/// ... of the first `n` segments of a section.
pub open spec fn placements(m: Map<u64, (Id, u64)>, left: Seq<(Data, int)>, n: int, idx: int) -> Map<u64, (Id, u64)>
    decreases n
{ if n <= 0 { m } else { place(placements(m, left, n - 1, idx), left[n - 1].0, eid(idx, n - 1)) } }
/// `b` is `a` with items of section `idx` added, whose sizes add up to at most `n`.
pub open spec fn widened(a: ItemsBuilder, b: ItemsBuilder, idx: int, n: int) -> bool {
    &&& b.wf() && b.size == a.size && b.edges == a.edges && b.data == a.data
    &&& forall|k: Id| #[trigger] a.items@.contains_key(k) ==> b.items@.contains_key(k) && b.items@[k] == a.items@[k]
    &&& forall|k: Id| #[trigger] b.items@.contains_key(k) ==> a.items@.contains_key(k) || (k.0 == idx && k.1 != 0xffff_ffff)
    &&& forall|k: Id| #[trigger] b.roots@.contains(k) ==> a.roots@.contains(k) || (k.0 == idx && k.1 != 0xffff_ffff)
    &&& forall|k: Id| #[trigger] a.roots@.contains(k) ==> b.roots@.contains(k)
    &&& a.size_added <= b.size_added <= a.size_added + n
}
/// The start section refers to the start function.
pub open spec fn start_edge(idx: int, f: u32, ix: Ix) -> spec_fn(Id, Id) -> bool { |x: Id, y: Id| x == eid(idx, 0xffff_ffff) && pick(ix.functions, f) == Some(y) }
// ------------------------------------------------------------ functions
// derived
impl<'a> Default for Names<'a> { #[verifier::external_body] fn default() -> (r: Names<'a>) { unimplemented!() } }
impl Default for SectionIndices { #[verifier::external_body] fn default() -> (r: SectionIndices) ensures r.v() == (Ix { types: Seq::empty(), code: None, functions: Seq::empty(), tables: Seq::empty(), memories: Seq::empty(), globals: Seq::empty() }) { unimplemented!() } }
/// The entry of section `k` is the item of body `i` of the code section: its declaration and its body.
pub open spec fn bodies_in(b: ItemsBuilder, idx: int, fl: Seq<(u32, int)>, cl: Seq<(FunctionBody, int)>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> b.items@.contains_key(#[trigger] eid(idx, i)) && b.items@[eid(idx, i)].size == fl[i].1 + cl[i].1
}
/// `b` is `a` with the functions and the header of the code section added: together they take `total` bytes.
pub open spec fn coded(a: ItemsBuilder, b: ItemsBuilder, idx: int, fl: Seq<(u32, int)>, cl: Seq<(FunctionBody, int)>, n: int, total: int) -> bool {
    &&& b.wf() && b.size == a.size && b.edges == a.edges && b.data == a.data
    &&& forall|k: Id| #[trigger] b.items@.contains_key(k) <==> a.items@.contains_key(k) || (k.0 == idx && (k.1 < n || k.1 == 0xffff_ffff))
    &&& forall|k: Id| #[trigger] a.items@.contains_key(k) ==> b.items@[k] == a.items@[k]
    &&& bodies_in(b, idx, fl, cl, n)
    &&& b.roots@ == a.roots@.insert(eid(idx, 0xffff_ffff))
    &&& b.size_added == a.size_added + total
}
/// Entries taken together with the items of their declarations: good if all of them are.
pub proof fn lemma_zipped<T>(v: RV<T>, n: int, fs: Seq<Item>)
    requires fs.len() == n
    ensures forall|o: Seq<Res<(T, u32)>>| #![trigger zip_seq(o, fs)] steps(o, v, n) && (forall|i: int| #![trigger zip_seq(o, fs)[i]] 0 <= i < n ==> zip_seq(o, fs)[i].0 is Ok) ==>
        v.full(n) && forall|i: int| #![trigger zip_seq(o, fs)[i]] 0 <= i < n ==> zip_seq(o, fs)[i].0->Ok_0.1 == v.left[i].1
{
    assert forall|o: Seq<Res<(T, u32)>>| #![trigger zip_seq(o, fs)] steps(o, v, n) && (forall|i: int| #![trigger zip_seq(o, fs)[i]] 0 <= i < n ==> zip_seq(o, fs)[i].0 is Ok) implies
        v.full(n) && forall|i: int| #![trigger zip_seq(o, fs)[i]] 0 <= i < n ==> zip_seq(o, fs)[i].0->Ok_0.1 == v.left[i].1 by {
        let z = zip_seq(o, fs);
        assert forall|j: int| 0 <= j < n implies #[trigger] o[j] is Ok by { assert(z[j].0 == o[j]); }
        assert(oks(o, n));
        assert forall|i: int| 0 <= i < n implies (#[trigger] z[i]).0->Ok_0.1 == v.left[i].1 by { assert(oks(o, i)); assert(z[i].0 == o[i]); }
    }
}
/// The type of a function, for the first `n` declarations.
pub open spec fn type_to(t: u32, ix: Ix) -> Option<Id> { if t < ix.types.len() { ix.types[t as int] } else { None } }
pub open spec fn type_edge(fl: Seq<(u32, int)>, n: int, idx: int, ix: Ix, x: Id, y: Id) -> bool { exists|i: int| 0 <= i < n && x == eid(idx, i) && type_to((#[trigger] fl[i]).0, ix) == Some(y) }
pub proof fn lemma_type_edge(fl: Seq<(u32, int)>, n: int, idx: int, ix: Ix)
    requires 0 <= n < fl.len()
    ensures forall|x: Id, y: Id| #[trigger] type_edge(fl, n + 1, idx, ix, x, y) <==> type_edge(fl, n, idx, ix, x, y) || (x == eid(idx, n) && type_to(fl[n].0, ix) == Some(y))
{
    assert forall|x: Id, y: Id| x == eid(idx, n) && type_to(fl[n].0, ix) == Some(y) implies #[trigger] type_edge(fl, n + 1, idx, ix, x, y) by { let _ = fl[n]; }
    assert forall|x: Id, y: Id| type_edge(fl, n, idx, ix, x, y) implies #[trigger] type_edge(fl, n + 1, idx, ix, x, y) by { }
}
/// The constant address an instruction leaves on the stack.
pub open spec fn const_of(o: Option<Operator>) -> Option<i32> { match o { Some(Operator::I32Const { value }) => Some(value), _ => None } }
pub open spec fn load_of(o: Operator) -> Option<MemoryImmediate> {
    match o {
        Operator::I32Load { memarg } => Some(memarg), Operator::I32Load8S { memarg } => Some(memarg), Operator::I32Load8U { memarg } => Some(memarg),
        Operator::I32Load16S { memarg } => Some(memarg), Operator::I32Load16U { memarg } => Some(memarg), Operator::I64Load { memarg } => Some(memarg),
        Operator::I64Load8S { memarg } => Some(memarg), Operator::I64Load8U { memarg } => Some(memarg), Operator::I64Load16S { memarg } => Some(memarg),
        Operator::I64Load16U { memarg } => Some(memarg), Operator::I64Load32S { memarg } => Some(memarg), Operator::I64Load32U { memarg } => Some(memarg),
        Operator::F32Load { memarg } => Some(memarg), Operator::F64Load { memarg } => Some(memarg), _ => None,
    }
}
pub open spec fn before_of<'a>(s: Seq<Operator<'a>>, j: int) -> Option<i32> { if j > 0 { const_of(Some(s[j - 1])) } else { None } }
/// What instruction `j` of a body refers to: the function it calls, the global it reads or writes, or the data segment found at the constant
/// address (operand and offset both unsigned) it loads from.
pub open spec fn op_to(s: Seq<Operator>, j: int, ix: Ix, m: Map<u64, (Id, u64)>) -> Option<Id> {
    match s[j] {
        Operator::Call { function_index } => pick(ix.functions, function_index),
        Operator::GlobalGet { global_index } => pick(ix.globals, global_index),
        Operator::GlobalSet { global_index } => pick(ix.globals, global_index),
        _ => match (load_of(s[j]), before_of(s, j)) {
            (Some(g), Some(v)) => if (v as u32) + g.offset <= u64::MAX { data_at(m, ((v as u32) + g.offset) as u64) } else { None },
            _ => None,
        },
    }
}
pub open spec fn ops_edge(s: Seq<Operator>, n: int, id: Id, ix: Ix, m: Map<u64, (Id, u64)>, x: Id, y: Id) -> bool { x == id && exists|j: int| 0 <= j < n && #[trigger] op_to(s, j, ix, m) == Some(y) }
pub proof fn lemma_ops_edge(s: Seq<Operator>, n: int, id: Id, ix: Ix, m: Map<u64, (Id, u64)>)
    requires 0 <= n < s.len()
    ensures forall|x: Id, y: Id| #[trigger] ops_edge(s, n + 1, id, ix, m, x, y) <==> ops_edge(s, n, id, ix, m, x, y) || (x == id && op_to(s, n, ix, m) == Some(y))
{
    assert forall|x: Id, y: Id| x == id && op_to(s, n, ix, m) == Some(y) implies #[trigger] ops_edge(s, n + 1, id, ix, m, x, y) by { }
    assert forall|x: Id, y: Id| ops_edge(s, n, id, ix, m, x, y) implies #[trigger] ops_edge(s, n + 1, id, ix, m, x, y) by { }
}
pub open spec fn body_edge(cl: Seq<(FunctionBody, int)>, i: int, idx: int, ix: Ix, m: Map<u64, (Id, u64)>, x: Id, y: Id) -> bool { ops_edge(cl[i].0.ops(), cl[i].0.ops().len() as int, eid(idx, i), ix, m, x, y) }
pub open spec fn bodies_edge(cl: Seq<(FunctionBody, int)>, n: int, idx: int, ix: Ix, m: Map<u64, (Id, u64)>, x: Id, y: Id) -> bool { exists|i: int| 0 <= i < n && #[trigger] body_edge(cl, i, idx, ix, m, x, y) }
pub proof fn lemma_bodies_edge(cl: Seq<(FunctionBody, int)>, n: int, idx: int, ix: Ix, m: Map<u64, (Id, u64)>)
    requires 0 <= n
    ensures forall|x: Id, y: Id| #[trigger] bodies_edge(cl, n + 1, idx, ix, m, x, y) <==> bodies_edge(cl, n, idx, ix, m, x, y) || body_edge(cl, n, idx, ix, m, x, y)
{
    assert forall|x: Id, y: Id| body_edge(cl, n, idx, ix, m, x, y) implies #[trigger] bodies_edge(cl, n + 1, idx, ix, m, x, y) by { }
    assert forall|x: Id, y: Id| bodies_edge(cl, n, idx, ix, m, x, y) implies #[trigger] bodies_edge(cl, n + 1, idx, ix, m, x, y) by { }
}
/// The edges of the functions.
pub open spec fn code_rel<'a>(fl: Seq<(u32, int)>, cl: Seq<(FunctionBody<'a>, int)>, n: int, idx: int, ix: Ix, m: Map<u64, (Id, u64)>) -> spec_fn(Id, Id) -> bool {
    |x: Id, y: Id| type_edge(fl, n, idx, ix, x, y) || bodies_edge(cl, n, idx, ix, m, x, y)
}
/// Both ends of every edge are items.
pub open spec fn ends_in(es: Seq<(Id, Id)>, b: ItemsBuilder) -> bool { forall|k: int| 0 <= k < es.len() ==> b.items@.contains_key((#[trigger] es[k]).0) && b.items@.contains_key(es[k].1) }
pub proof fn lemma_pushed(es: Seq<(Id, Id)>)
    ensures forall|e: (Id, Id), x: Id, y: Id| #[trigger] es.push(e).contains((x, y)) <==> es.contains((x, y)) || e == (x, y)
{
    assert forall|e: (Id, Id), x: Id, y: Id| es.contains((x, y)) || e == (x, y) implies #[trigger] es.push(e).contains((x, y)) by {
        let p = es.push(e);
        if e == (x, y) { assert(p[es.len() as int] == e); } else { let k = choose|k: int| 0 <= k < es.len() && es[k] == (x, y); assert(p[k] == es[k]); }
    }
    assert forall|e: (Id, Id), x: Id, y: Id| #[trigger] es.push(e).contains((x, y)) implies es.contains((x, y)) || e == (x, y) by {
        let p = es.push(e);
        let k = choose|k: int| 0 <= k < p.len() && p[k] == (x, y);
        if k < es.len() { assert(es[k] == (x, y)); }
    }
}
/// The entries take no more than the section.
pub proof fn lemma_room<T>(v: RV<T>, n: int)
    requires v.ok(), v.full(n)
    ensures forall|i: int| 0 <= i <= v.left.len() ==> 0 <= #[trigger] taken(v.left, i) <= v.end - v.pos
{ assert forall|i: int| 0 <= i <= v.left.len() implies 0 <= #[trigger] taken(v.left, i) <= v.end - v.pos by { lemma_taken(v.left, 0, i); lemma_taken(v.left, i, v.left.len() as int); } }
// ------------------------------------------------------------ the payloads of a module
/// One payload of a module: its number, where it starts, the bytes taken for it, and what it is.
pub ghost struct Step<'a> { pub idx: int, pub start: int, pub size: int, pub payload: Payload<'a> }
pub open spec fn rest_of(d: Seq<u8>, o: int) -> Seq<u8> { d.subrange(o, d.len() as int) }
pub open spec fn step_ok(d: Seq<u8>, log: Seq<Step>, sts: Seq<PState>, i: int) -> bool {
    &&& log[i].idx == i && log[i].start == sts[i].offset && 0 <= sts[i].offset < d.len()
    &&& stepped(sts[i], rest_of(d, sts[i].offset)) == Some((log[i].size, log[i].payload, sts[i + 1]))
}
/// The parser's steps over a file, with its states in between.
pub open spec fn run(d: Seq<u8>, log: Seq<Step>, sts: Seq<PState>) -> bool {
    &&& sts.len() == log.len() + 1 && sts[0] == parser_at(0)
    &&& forall|i: int| 0 <= i < log.len() ==> #[trigger] step_ok(d, log, sts, i)
}
pub open spec fn whole(d: Seq<u8>, log: Seq<Step>, sts: Seq<PState>) -> bool { run(d, log, sts) && sts.last().offset == d.len() }
pub open spec fn is_log(d: Seq<u8>, log: Seq<Step>) -> bool { exists|sts: Seq<PState>| whole(d, log, sts) }
/// The payloads of a file.
pub open spec fn payloads<'a>(d: Seq<u8>) -> Seq<Step<'a>> { choose|log: Seq<Step<'a>>| is_log(d, log) }
pub open spec fn spent(s: Step) -> int { match s.payload { Payload::CodeSectionStart { count, range, size } => range.end - s.start, Payload::CodeSectionEntry(_) => 0, _ => s.size } }
pub open spec fn tot(log: Seq<Step>, n: int) -> int decreases n { if n <= 0 { 0 } else { tot(log, n - 1) + spent(log[n - 1]) } }
/// What is known of a payload of a file.
pub open spec fn fact(d: Seq<u8>, log: Seq<Step>, i: int) -> bool { log[i].idx == i && log[i].size > 0 && 0 <= log[i].start && log[i].start + log[i].size <= d.len() && payload_within(log[i].payload, log[i].start, log[i].size) }
pub open spec fn facts(d: Seq<u8>, log: Seq<Step>) -> bool { forall|i: int| 0 <= i < log.len() ==> #[trigger] fact(d, log, i) }
pub proof fn lemma_facts(d: Seq<u8>, log: Seq<Step>, sts: Seq<PState>)
    requires run(d, log, sts)
    ensures facts(d, log), numbered(log)
{
    assert forall|i: int| 0 <= i < log.len() implies #[trigger] fact(d, log, i) by { lemma_run(d, log, sts, i); }
    assert forall|i: int| 0 <= i < log.len() implies (#[trigger] log[i]).idx == i by { assert(fact(d, log, i)); }
}
pub open spec fn roomy<T>(v: RV<T>, n: int, s: Step, len: int) -> bool { v.ok() && v.end <= len && v.end - v.pos <= s.size && (v.full(n) ==> taken(v.left, n) <= s.size) }
pub proof fn lemma_roomy<T>(v: RV<T>, n: int, s: Step, len: int)
    requires v.ok(), within(v, s.start, s.size), s.start + s.size <= len, 0 <= n, s.size >= 0
    ensures roomy(v, n, s, len)
{ if v.full(n) { lemma_room(v, n); assert(0 <= taken(v.left, n)); } }
/// The entries of a section take no more than the payload.
pub open spec fn rooms(s: Step, len: int) -> bool {
    match s.payload {
        Payload::TypeSection(r) => roomy(r.rv(), r.cnt() as int, s, len),
        Payload::ImportSection(r) => roomy(r.rv(), r.cnt() as int, s, len),
        Payload::TableSection(r) => roomy(r.rv(), r.cnt() as int, s, len),
        Payload::MemorySection(r) => roomy(r.rv(), r.cnt() as int, s, len),
        Payload::GlobalSection(r) => roomy(r.rv(), r.cnt() as int, s, len),
        Payload::ExportSection(r) => roomy(r.rv(), r.cnt() as int, s, len),
        Payload::ElementSection(r) => roomy(r.rv(), r.cnt() as int, s, len),
        Payload::DataSection(r) => roomy(r.rv(), r.cnt() as int, s, len),
        _ => true,
    }
}
pub proof fn lemma_rooms(s: Step, len: int)
    requires payload_within(s.payload, s.start, s.size), s.start + s.size <= len, s.size >= 0
    ensures rooms(s, len)
{
    match s.payload {
        Payload::TypeSection(r) => lemma_roomy(r.rv(), r.cnt() as int, s, len),
        Payload::ImportSection(r) => lemma_roomy(r.rv(), r.cnt() as int, s, len),
        Payload::TableSection(r) => lemma_roomy(r.rv(), r.cnt() as int, s, len),
        Payload::MemorySection(r) => lemma_roomy(r.rv(), r.cnt() as int, s, len),
        Payload::GlobalSection(r) => lemma_roomy(r.rv(), r.cnt() as int, s, len),
        Payload::ExportSection(r) => lemma_roomy(r.rv(), r.cnt() as int, s, len),
        Payload::ElementSection(r) => lemma_roomy(r.rv(), r.cnt() as int, s, len),
        Payload::DataSection(r) => lemma_roomy(r.rv(), r.cnt() as int, s, len),
        _ => { },
    }
}
pub open spec fn imax(a: int, b: int) -> int { if a > b { a } else { b } }
pub proof fn lemma_run(d: Seq<u8>, log: Seq<Step>, sts: Seq<PState>, n: int)
    requires run(d, log, sts), 0 <= n <= log.len()
    ensures n <= sts[n].offset <= d.len(), tot(log, n) == imax(sts[n].offset, sts[n].code_end),
        n < log.len() ==> log[n].idx == n && log[n].start == sts[n].offset && 0 < log[n].size && log[n].start + log[n].size == sts[n + 1].offset <= d.len() && payload_within(log[n].payload, log[n].start, log[n].size) && spent(log[n]) >= 0,
    decreases n
{
    if n == 0 { axiom_parser_at(0); } else { lemma_run(d, log, sts, n - 1); assert(step_ok(d, log, sts, n - 1)); axiom_stepped(sts[n - 1], rest_of(d, sts[n - 1].offset)); }
    if n < log.len() { assert(step_ok(d, log, sts, n)); axiom_stepped(sts[n], rest_of(d, sts[n].offset)); }
}
pub proof fn lemma_prefix(d: Seq<u8>, l1: Seq<Step>, s1: Seq<PState>, l2: Seq<Step>, s2: Seq<PState>, n: int)
    requires run(d, l1, s1), run(d, l2, s2), 0 <= n <= l1.len(), n <= l2.len()
    ensures s1[n] == s2[n], forall|i: int| 0 <= i < n ==> l1[i] == l2[i]
    decreases n
{
    if n > 0 { lemma_prefix(d, l1, s1, l2, s2, n - 1); assert(step_ok(d, l1, s1, n - 1)); assert(step_ok(d, l2, s2, n - 1)); assert(l1[n - 1] == l2[n - 1]); }
}
/// There is only one way to read a file.
pub proof fn lemma_payloads(d: Seq<u8>, log: Seq<Step>, sts: Seq<PState>)
    requires whole(d, log, sts)
    ensures payloads(d) == log
{
    let l2 = payloads(d);
    assert(is_log(d, log));
    let s2 = choose|s2: Seq<PState>| whole(d, l2, s2);
    if log.len() < l2.len() { lemma_prefix(d, log, sts, l2, s2, log.len() as int); assert(step_ok(d, l2, s2, log.len() as int)); }
    if l2.len() < log.len() { lemma_prefix(d, log, sts, l2, s2, l2.len() as int); assert(step_ok(d, log, sts, l2.len() as int)); }
    lemma_prefix(d, log, sts, l2, s2, log.len() as int);
    assert(log =~= l2);
}
pub proof fn lemma_ran(d: Seq<u8>, log: Seq<Step>, sts: Seq<PState>, s: Step, t: PState)
    requires run(d, log, sts), s.idx == log.len(), s.start == sts.last().offset, 0 <= sts.last().offset < d.len(), stepped(sts.last(), rest_of(d, sts.last().offset)) == Some((s.size, s.payload, t))
    ensures run(d, log.push(s), sts.push(t)), tot(log.push(s), log.len() as int) == tot(log, log.len() as int)
{
    assert forall|i: int| 0 <= i < log.push(s).len() implies #[trigger] step_ok(d, log.push(s), sts.push(t), i) by { if i < log.len() { assert(step_ok(d, log, sts, i)); } }
    lemma_tot(log, log.push(s), log.len() as int);
}
pub proof fn lemma_tot(a: Seq<Step>, b: Seq<Step>, n: int)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures tot(a, n) == tot(b, n)
    decreases n
{ if n > 0 { lemma_tot(a, b, n - 1); } }
/// The payloads that are looked at one by one: not the function and the code section, and with `e` the bodies.
pub open spec fn other(p: Payload, e: bool) -> bool { match p { Payload::CodeSectionStart { count, range, size } => false, Payload::FunctionSection(_) => false, Payload::CodeSectionEntry(_) => e, _ => true } }
pub open spec fn kept<'a>(log: Seq<Step<'a>>, e: bool) -> Seq<Step<'a>>
    decreases log.len()
{ if log.len() == 0 { Seq::empty() } else { let r = kept(log.drop_last(), e); if other(log.last().payload, e) { r.push(log.last()) } else { r } } }
pub open spec fn zsum(ks: Seq<Step>, n: int) -> int decreases n { if n <= 0 { 0 } else { zsum(ks, n - 1) + ks[n - 1].size } }
pub proof fn lemma_zsum(a: Seq<Step>, b: Seq<Step>, n: int)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures zsum(a, n) == zsum(b, n)
    decreases n
{ if n > 0 { lemma_zsum(a, b, n - 1); } }
pub proof fn lemma_zsum_le(a: Seq<Step>, n: int, m: int)
    requires 0 <= n <= m <= a.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).size > 0
    ensures 0 <= zsum(a, n) <= zsum(a, m)
    decreases m
{ if n < m { lemma_zsum_le(a, n, m - 1); } else if n > 0 { lemma_zsum_le(a, n - 1, n - 1); } }
pub proof fn lemma_kept_push(log: Seq<Step>, s: Step, e: bool)
    ensures kept(log.push(s), e) == (if other(s.payload, e) { kept(log, e).push(s) } else { kept(log, e) }),
        other(s.payload, e) ==> zsum(kept(log.push(s), e), kept(log.push(s), e).len() as int) == zsum(kept(log, e), kept(log, e).len() as int) + s.size,
{
    assert(log.push(s).drop_last() =~= log);
    if other(s.payload, e) { lemma_zsum(kept(log, e), kept(log, e).push(s), kept(log, e).len() as int); }
}
pub open spec fn numbered(log: Seq<Step>) -> bool { forall|i: int| 0 <= i < log.len() ==> (#[trigger] log[i]).idx == i }
pub open spec fn stands(ks: Seq<Step>, j: int, log: Seq<Step>, e: bool) -> bool { let s = ks[j]; 0 <= s.idx < log.len() && log[s.idx] == s && other(s.payload, e) }
pub proof fn lemma_kept(log: Seq<Step>, e: bool)
    requires numbered(log)
    ensures ({
        let ks = kept(log, e);
        &&& ks.len() <= log.len()
        &&& forall|j: int| 0 <= j < ks.len() ==> #[trigger] stands(ks, j, log, e)
        &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> (#[trigger] ks[i]).idx < (#[trigger] ks[j]).idx
        &&& forall|i: int| #![trigger log[i]] 0 <= i < log.len() && other(log[i].payload, e) ==> ks.contains(log[i])
    })
    decreases log.len()
{
    if log.len() > 0 {
        let l = log.drop_last(); let ks0 = kept(l, e); let ks = kept(log, e);
        lemma_kept(l, e);
        assert forall|j: int| 0 <= j < ks.len() implies #[trigger] stands(ks, j, log, e) by { if j < ks0.len() { assert(stands(ks0, j, l, e)); } }
        assert forall|i: int, j: int| 0 <= i < j < ks.len() implies (#[trigger] ks[i]).idx < (#[trigger] ks[j]).idx by { assert(stands(ks0, i, l, e)); if j < ks0.len() { assert(ks0[i].idx < ks0[j].idx); } }
        assert forall|i: int| #![trigger log[i]] 0 <= i < log.len() && other(log[i].payload, e) implies ks.contains(log[i]) by {
            if i < l.len() { assert(l[i] == log[i]); assert(ks0.contains(l[i])); let j = choose|j: int| 0 <= j < ks0.len() && ks0[j] == l[i]; assert(ks[j] == log[i]); } else { assert(ks.last() == log[i]); }
        }
    }
}
pub open spec fn code_of<'a>(log: Seq<Step<'a>>) -> Option<Step<'a>>
    decreases log.len()
{ if log.len() == 0 { None } else if log.last().payload is CodeSectionStart { Some(log.last()) } else { code_of(log.drop_last()) } }
pub open spec fn func_of<'a>(log: Seq<Step<'a>>) -> Option<Step<'a>>
    decreases log.len()
{ if log.len() == 0 { None } else if log.last().payload is FunctionSection { Some(log.last()) } else { func_of(log.drop_last()) } }
pub proof fn lemma_special(log: Seq<Step>)
    requires numbered(log)
    ensures code_of(log) matches Some(s) ==> 0 <= s.idx < log.len() && log[s.idx] == s && s.payload is CodeSectionStart,
        func_of(log) matches Some(s) ==> 0 <= s.idx < log.len() && log[s.idx] == s && s.payload is FunctionSection,
    decreases log.len()
{ if log.len() > 0 { lemma_special(log.drop_last()); } }
/// The reader made of the code section that step begins.
pub open spec fn bodies_of<'a>(d: Seq<u8>, s: Step<'a>) -> RV<FunctionBody<'a>> { match s.payload { Payload::CodeSectionStart { count, range, size } => code_view(d.subrange(range.start as int, range.end as int), range.start as int), _ => arbitrary() } }
pub open spec fn bodies_count(d: Seq<u8>, s: Step) -> u32 { match s.payload { Payload::CodeSectionStart { count, range, size } => code_count(d.subrange(range.start as int, range.end as int), range.start as int), _ => 0 } }
pub open spec fn decls_of<'a>(s: Step<'a>) -> RV<u32> { match s.payload { Payload::FunctionSection(r) => r.rv(), _ => arbitrary() } }
pub open spec fn decls_count(s: Step) -> u32 { match s.payload { Payload::FunctionSection(r) => r.cnt(), _ => 0 } }
pub open spec fn code_end_of(s: Step) -> int { match s.payload { Payload::CodeSectionStart { count, range, size } => range.end as int, _ => 0 } }
pub open spec fn code_is<'a>(c: Option<CodeSection<'a>>, d: Seq<u8>, log: Seq<Step<'a>>) -> bool {
    match (c, code_of(log)) {
        (Some(x), Some(s)) => x.index == s.idx && x.reader.rv() == bodies_of(d, s) && x.reader.cnt() == bodies_count(d, s) && x.reader.rv().end == code_end_of(s) <= d.len() && x.reader.rv().pos >= s.start,
        (None, None) => true,
        _ => false,
    }
}
pub open spec fn func_is<'a>(c: Option<FunctionSection<'a>>, log: Seq<Step<'a>>) -> bool {
    match (c, func_of(log)) {
        (Some(x), Some(s)) => x.index == s.idx && s.payload == Payload::<'a>::FunctionSection(x.reader),
        (None, None) => true,
        _ => false,
    }
}
pub open spec fn secs_are<'a>(v: Seq<IndexedSection<'a>>, ks: Seq<Step<'a>>) -> bool { v.len() == ks.len() && forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).0 == ks[j].idx && v[j].1 == ks[j].payload }
// ------------------------------------------------------------ the items of a module
pub open spec fn owns<T>(b: ItemsBuilder, idx: int, v: RV<T>, n: int, sel: spec_fn(T) -> bool) -> bool {
    &&& v.full(n)
    &&& forall|k: Id| k.0 == idx ==> (#[trigger] b.items@.contains_key(k) <==> k.1 == 0xffff_ffff || entry_of(k, idx, v.left, n, sel))
    &&& forall|k: Id| entry_of(k, idx, v.left, n, sel) ==> (#[trigger] b.items@[k]).size == v.left[k.1 as int].1
}
/// The items of one section: its entries, each of the size it has in the file, and the section itself.
pub open spec fn own(b: ItemsBuilder, p: Payload, k: int) -> bool {
    &&& b.items@.contains_key(eid(k, 0xffff_ffff)) && b.roots@.contains(eid(k, 0xffff_ffff))
    &&& match p {
        Payload::TypeSection(r) => owns(b, k, r.rv(), r.cnt() as int, funcs()),
        Payload::ImportSection(r) => owns(b, k, r.rv(), r.cnt() as int, every()),
        Payload::TableSection(r) => owns(b, k, r.rv(), r.cnt() as int, every()),
        Payload::MemorySection(r) => owns(b, k, r.rv(), r.cnt() as int, every()),
        Payload::GlobalSection(r) => owns(b, k, r.rv(), r.cnt() as int, every()),
        Payload::ExportSection(r) => owns(b, k, r.rv(), r.cnt() as int, every()),
        Payload::ElementSection(r) => owns(b, k, r.rv(), r.cnt() as int, every()),
        Payload::DataSection(r) => owns(b, k, r.rv(), r.cnt() as int, every()),
        _ => true,
    }
}
/// `b` is `a` with items of section `idx` added.
pub open spec fn apart(a: ItemsBuilder, b: ItemsBuilder, idx: int) -> bool {
    &&& forall|k: Id| #[trigger] a.items@.contains_key(k) ==> b.items@.contains_key(k) && b.items@[k] == a.items@[k]
    &&& forall|k: Id| #[trigger] b.items@.contains_key(k) ==> a.items@.contains_key(k) || k.0 == idx
    &&& forall|k: Id| #[trigger] a.roots@.contains(k) ==> b.roots@.contains(k)
}
pub proof fn lemma_apart(a: ItemsBuilder, b: ItemsBuilder, idx: int, p: Payload, k: int)
    requires apart(a, b, idx), own(a, p, k), 0 <= k < 0xffff_ffff, 0 <= idx < 0xffff_ffff, k != idx
    ensures own(b, p, k)
{
    assert forall|q: Id| q.0 == k implies (a.items@.contains_key(q) <==> #[trigger] b.items@.contains_key(q)) && (a.items@.contains_key(q) ==> a.items@[q] == b.items@[q]) by { }
    match p {
        Payload::TypeSection(r) => lemma_owns_kept(a, b, k, r.rv(), r.cnt() as int, funcs()),
        Payload::ImportSection(r) => lemma_owns_kept(a, b, k, r.rv(), r.cnt() as int, every()),
        Payload::TableSection(r) => lemma_owns_kept(a, b, k, r.rv(), r.cnt() as int, every()),
        Payload::MemorySection(r) => lemma_owns_kept(a, b, k, r.rv(), r.cnt() as int, every()),
        Payload::GlobalSection(r) => lemma_owns_kept(a, b, k, r.rv(), r.cnt() as int, every()),
        Payload::ExportSection(r) => lemma_owns_kept(a, b, k, r.rv(), r.cnt() as int, every()),
        Payload::ElementSection(r) => lemma_owns_kept(a, b, k, r.rv(), r.cnt() as int, every()),
        Payload::DataSection(r) => lemma_owns_kept(a, b, k, r.rv(), r.cnt() as int, every()),
        _ => { },
    }
}
pub proof fn lemma_owns_kept<T>(a: ItemsBuilder, b: ItemsBuilder, k: int, v: RV<T>, n: int, sel: spec_fn(T) -> bool)
    requires owns(a, k, v, n, sel), forall|q: Id| q.0 == k ==> (a.items@.contains_key(q) <==> #[trigger] b.items@.contains_key(q)) && (a.items@.contains_key(q) ==> a.items@[q] == b.items@[q])
    ensures owns(b, k, v, n, sel)
{
    assert forall|q: Id| entry_of(q, k, v.left, n, sel) implies (#[trigger] b.items@[q]).size == v.left[q.1 as int].1 by { assert(a.items@.contains_key(q)); assert(b.items@.contains_key(q)); assert(a.items@[q].size == v.left[q.1 as int].1); }
}
/// What parsing the entries of a section does.
pub open spec fn parsed_as(a: ItemsBuilder, b: ItemsBuilder, s: Step) -> bool {
    match s.payload {
        Payload::TypeSection(r) => r.rv().full(r.cnt() as int) && b.data == a.data && grown(a, b, s.idx, r.rv().left, r.cnt() as int, funcs(), false),
        Payload::ImportSection(r) => r.rv().full(r.cnt() as int) && b.data == a.data && grown(a, b, s.idx, r.rv().left, r.cnt() as int, every(), false),
        Payload::TableSection(r) => r.rv().full(r.cnt() as int) && b.data == a.data && grown(a, b, s.idx, r.rv().left, r.cnt() as int, every(), true),
        Payload::MemorySection(r) => r.rv().full(r.cnt() as int) && b.data == a.data && grown(a, b, s.idx, r.rv().left, r.cnt() as int, every(), false),
        Payload::GlobalSection(r) => r.rv().full(r.cnt() as int) && b.data == a.data && grown(a, b, s.idx, r.rv().left, r.cnt() as int, every(), false),
        Payload::ExportSection(r) => r.rv().full(r.cnt() as int) && b.data == a.data && grown(a, b, s.idx, r.rv().left, r.cnt() as int, every(), true),
        Payload::ElementSection(r) => r.rv().full(r.cnt() as int) && b.data == a.data && grown(a, b, s.idx, r.rv().left, r.cnt() as int, every(), false),
        Payload::DataSection(r) => r.rv().full(r.cnt() as int) && b.data@ == placements(a.data@, r.rv().left, r.cnt() as int, s.idx) && grown(a, b, s.idx, r.rv().left, r.cnt() as int, every(), false),
        Payload::CustomSection { name, data_offset, data, range } => widened(a, b, s.idx, data@.len() as int),
        _ => a == b,
    }
}
pub open spec fn entered<T>(b: ItemsBuilder, idx: int, v: RV<T>, n: int, sel: spec_fn(T) -> bool) -> bool {
    &&& v.full(n)
    &&& forall|k: Id| k.0 == idx ==> (#[trigger] b.items@.contains_key(k) <==> entry_of(k, idx, v.left, n, sel))
    &&& forall|k: Id| entry_of(k, idx, v.left, n, sel) ==> (#[trigger] b.items@[k]).size == v.left[k.1 as int].1
}
pub open spec fn entries_as(b: ItemsBuilder, p: Payload, k: int) -> bool {
    match p {
        Payload::TypeSection(r) => entered(b, k, r.rv(), r.cnt() as int, funcs()),
        Payload::ImportSection(r) => entered(b, k, r.rv(), r.cnt() as int, every()),
        Payload::TableSection(r) => entered(b, k, r.rv(), r.cnt() as int, every()),
        Payload::MemorySection(r) => entered(b, k, r.rv(), r.cnt() as int, every()),
        Payload::GlobalSection(r) => entered(b, k, r.rv(), r.cnt() as int, every()),
        Payload::ExportSection(r) => entered(b, k, r.rv(), r.cnt() as int, every()),
        Payload::ElementSection(r) => entered(b, k, r.rv(), r.cnt() as int, every()),
        Payload::DataSection(r) => entered(b, k, r.rv(), r.cnt() as int, every()),
        _ => true,
    }
}
/// The entries of a section have been added; its header has not.
pub open spec fn done(a: ItemsBuilder, b: ItemsBuilder, s: Step) -> bool {
    &&& b.wf() && b.size == a.size && b.edges == a.edges && apart(a, b, s.idx) && a.size_added <= b.size_added <= a.size_added + s.size
    &&& !b.items@.contains_key(eid(s.idx, 0xffff_ffff)) && entries_as(b, s.payload, s.idx)
    &&& b.data@ == data_after(a.data@, s)
}
pub open spec fn data_after(m: Map<u64, (Id, u64)>, s: Step) -> Map<u64, (Id, u64)> { match s.payload { Payload::DataSection(r) => placements(m, r.rv().left, r.cnt() as int, s.idx), _ => m } }
pub proof fn lemma_entered<T>(a: ItemsBuilder, b: ItemsBuilder, s: Step, v: RV<T>, n: int, sel: spec_fn(T) -> bool, rooted: bool)
    requires grown(a, b, s.idx, v.left, n, sel, rooted), free(a, s.idx), v.full(n), 0 <= n <= 0xffff_ffff, 0 <= s.idx < 0xffff_ffff, taken(v.left, n) <= s.size
    ensures b.wf() && b.size == a.size && b.edges == a.edges && apart(a, b, s.idx) && a.size_added <= b.size_added <= a.size_added + s.size, !b.items@.contains_key(eid(s.idx, 0xffff_ffff)), entered(b, s.idx, v, n, sel)
{ }
pub proof fn lemma_done(a: ItemsBuilder, b: ItemsBuilder, s: Step, len: int)
    requires parsed_as(a, b, s), free(a, s.idx), 0 <= s.idx < 0xffff_ffff, rooms(s, len), a.wf(), s.size >= 0,
        s.payload matches Payload::CustomSection { name, data_offset, data, range } ==> data@.len() <= s.size
    ensures done(a, b, s)
{
    match s.payload {
        Payload::TypeSection(r) => lemma_entered(a, b, s, r.rv(), r.cnt() as int, funcs(), false),
        Payload::ImportSection(r) => lemma_entered(a, b, s, r.rv(), r.cnt() as int, every(), false),
        Payload::TableSection(r) => lemma_entered(a, b, s, r.rv(), r.cnt() as int, every(), true),
        Payload::MemorySection(r) => lemma_entered(a, b, s, r.rv(), r.cnt() as int, every(), false),
        Payload::GlobalSection(r) => lemma_entered(a, b, s, r.rv(), r.cnt() as int, every(), false),
        Payload::ExportSection(r) => lemma_entered(a, b, s, r.rv(), r.cnt() as int, every(), true),
        Payload::ElementSection(r) => lemma_entered(a, b, s, r.rv(), r.cnt() as int, every(), false),
        Payload::DataSection(r) => lemma_entered(a, b, s, r.rv(), r.cnt() as int, every(), false),
        _ => { },
    }
}
pub proof fn lemma_owned<T>(b: ItemsBuilder, c: ItemsBuilder, idx: int, v: RV<T>, n: int, sel: spec_fn(T) -> bool, it: Item)
    requires entered(b, idx, v, n, sel), 0 <= n <= 0xffff_ffff, 0 <= idx < 0xffff_ffff, it.id == eid(idx, 0xffff_ffff), c.items@ == b.items@.insert(it.id, it)
    ensures owns(c, idx, v, n, sel)
{ }
pub proof fn lemma_headed(a: ItemsBuilder, b: ItemsBuilder, c: ItemsBuilder, s: Step, it: Item)
    requires done(a, b, s), 0 <= s.idx < 0xffff_ffff, it.id == eid(s.idx, 0xffff_ffff), c.items@ == b.items@.insert(it.id, it), c.roots@ == b.roots@.insert(it.id)
    ensures own(c, s.payload, s.idx), apart(a, c, s.idx)
{
    match s.payload {
        Payload::TypeSection(r) => lemma_owned(b, c, s.idx, r.rv(), r.cnt() as int, funcs(), it),
        Payload::ImportSection(r) => lemma_owned(b, c, s.idx, r.rv(), r.cnt() as int, every(), it),
        Payload::TableSection(r) => lemma_owned(b, c, s.idx, r.rv(), r.cnt() as int, every(), it),
        Payload::MemorySection(r) => lemma_owned(b, c, s.idx, r.rv(), r.cnt() as int, every(), it),
        Payload::GlobalSection(r) => lemma_owned(b, c, s.idx, r.rv(), r.cnt() as int, every(), it),
        Payload::ExportSection(r) => lemma_owned(b, c, s.idx, r.rv(), r.cnt() as int, every(), it),
        Payload::ElementSection(r) => lemma_owned(b, c, s.idx, r.rv(), r.cnt() as int, every(), it),
        Payload::DataSection(r) => lemma_owned(b, c, s.idx, r.rv(), r.cnt() as int, every(), it),
        _ => { },
    }
}
pub proof fn lemma_owns_apart(a: ItemsBuilder, b: ItemsBuilder, idx: int, ks: Seq<Step>, n: int)
    requires apart(a, b, idx), 0 <= idx < 0xffff_ffff, 0 <= n <= ks.len(), forall|i: int| #![trigger ks[i]] 0 <= i < n ==> own(a, ks[i].payload, ks[i].idx) && ks[i].idx != idx && 0 <= ks[i].idx < 0xffff_ffff
    ensures forall|i: int| #![trigger ks[i]] 0 <= i < n ==> own(b, ks[i].payload, ks[i].idx)
{ assert forall|i: int| #![trigger ks[i]] 0 <= i < n implies own(b, ks[i].payload, ks[i].idx) by { lemma_apart(a, b, idx, ks[i].payload, ks[i].idx); } }
pub proof fn lemma_functions_apart(a: ItemsBuilder, b: ItemsBuilder, idx: int, d: Seq<u8>, c: Step, f: Step)
    requires apart(a, b, idx), functions_in(a, d, c, f), c.idx != idx, 0 <= c.idx < 0xffff_ffff, 0 <= idx < 0xffff_ffff
    ensures functions_in(b, d, c, f)
{
    assert forall|k: Id| k.0 == c.idx implies (#[trigger] b.items@.contains_key(k) <==> k.1 < bodies_count(d, c) || k.1 == 0xffff_ffff) by { assert(a.items@.contains_key(k) <==> b.items@.contains_key(k)); }
    assert forall|i: int| 0 <= i < bodies_count(d, c) implies b.items@.contains_key(#[trigger] eid(c.idx, i)) && b.items@[eid(c.idx, i)].size == decls_of(f).left[i].1 + bodies_of(d, c).left[i].1 by { assert(a.items@.contains_key(eid(c.idx, i))); }
}
pub proof fn lemma_functions(a: ItemsBuilder, b: ItemsBuilder, d: Seq<u8>, c: Step, f: Step, total: int)
    requires coded(a, b, c.idx, decls_of(f).left, bodies_of(d, c).left, bodies_count(d, c) as int, total), free(a, c.idx),
        bodies_count(d, c) == decls_count(f), bodies_of(d, c).full(bodies_count(d, c) as int), decls_of(f).full(bodies_count(d, c) as int)
    ensures functions_in(b, d, c, f)
{ }
/// Every payload that is looked at has its items.
pub proof fn lemma_all_owned(b: ItemsBuilder, log: Seq<Step>)
    requires numbered(log), forall|i: int| #![trigger kept(log, false)[i]] 0 <= i < kept(log, false).len() ==> own(b, kept(log, false)[i].payload, kept(log, false)[i].idx)
    ensures forall|i: int| #![trigger log[i]] 0 <= i < log.len() && other(log[i].payload, false) ==> own(b, log[i].payload, i)
{
    lemma_kept(log, false);
    let ks = kept(log, false);
    assert forall|i: int| #![trigger log[i]] 0 <= i < log.len() && other(log[i].payload, false) implies own(b, log[i].payload, i) by {
        assert(ks.contains(log[i])); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == log[i]; assert(own(b, ks[j].payload, ks[j].idx));
    }
}
/// The placements of the data segments of a module.
pub open spec fn places(ks: Seq<Step>, n: int) -> Map<u64, (Id, u64)>
    decreases n
{
    if n <= 0 { Map::empty() } else { data_after(places(ks, n - 1), ks[n - 1]) }
}
/// The functions: one item for each body and its declaration.
pub open spec fn functions_in(b: ItemsBuilder, d: Seq<u8>, c: Step, f: Step) -> bool {
    &&& bodies_count(d, c) == decls_count(f) && bodies_of(d, c).full(bodies_count(d, c) as int) && decls_of(f).full(bodies_count(d, c) as int)
    &&& forall|k: Id| k.0 == c.idx ==> (#[trigger] b.items@.contains_key(k) <==> k.1 < bodies_count(d, c) || k.1 == 0xffff_ffff)
    &&& bodies_in(b, c.idx, decls_of(f).left, bodies_of(d, c).left, bodies_count(d, c) as int)
    &&& b.roots@.contains(eid(c.idx, 0xffff_ffff))
}
/// What is made of a file: its sections with their entries, and the functions; together they take all of it.
pub open spec fn module_items(b: ItemsBuilder, d: Seq<u8>) -> bool {
    let log = payloads(d);
    &&& is_log(d, log) && b.wf() && (forall|x: Id, y: Id| !#[trigger] b.has_edge(x, y)) && b.size_added == d.len()
    &&& code_of(log) is Some && func_of(log) is Some && functions_in(b, d, code_of(log)->Some_0, func_of(log)->Some_0) && code_end_of(code_of(log)->Some_0) <= d.len()
    &&& forall|i: int| #![trigger log[i]] 0 <= i < log.len() && other(log[i].payload, false) ==> own(b, log[i].payload, i)
    &&& forall|k: Id| #[trigger] b.items@.contains_key(k) ==> k.0 < log.len() && (k.0 == code_of(log)->Some_0.idx || other(log[k.0 as int].payload, false))
    &&& b.data@ == places(kept(log, false), kept(log, false).len() as int)
}
// ------------------------------------------------------------ the edges of a module
pub open spec fn push_types(s: Seq<Option<Id>>, left: Seq<(TypeDef, int)>, n: int, idx: int) -> Seq<Option<Id>>
    decreases n
{ if n <= 0 { s } else { push_types(s, left, n - 1, idx).push(if is_func(left[n - 1].0) { Some(eid(idx, n - 1)) } else { None }) } }
pub open spec fn push_ids(s: Seq<Id>, n: int, idx: int) -> Seq<Id>
    decreases n
{ if n <= 0 { s } else { push_ids(s, n - 1, idx).push(eid(idx, n - 1)) } }
/// An import goes to the index space of its kind.
pub open spec fn imported(x: Ix, t: ImportSectionEntryType, id: Id) -> Ix {
    match t {
        ImportSectionEntryType::Function(_) => Ix { functions: x.functions.push(id), ..x },
        ImportSectionEntryType::Table(_) => Ix { tables: x.tables.push(id), ..x },
        ImportSectionEntryType::Memory(_) => Ix { memories: x.memories.push(id), ..x },
        ImportSectionEntryType::Global(_) => Ix { globals: x.globals.push(id), ..x },
        _ => x,
    }
}
pub open spec fn push_imports(x: Ix, left: Seq<(Import, int)>, n: int, idx: int) -> Ix
    decreases n
{ if n <= 0 { x } else { imported(push_imports(x, left, n - 1, idx), left[n - 1].0.ty, eid(idx, n - 1)) } }
/// What a section adds to the index spaces.
pub open spec fn indexed(x: Ix, s: Step) -> Ix {
    match s.payload {
        Payload::TypeSection(r) => Ix { types: push_types(x.types, r.rv().left, r.cnt() as int, s.idx), ..x },
        Payload::ImportSection(r) => push_imports(x, r.rv().left, r.cnt() as int, s.idx),
        Payload::GlobalSection(r) => Ix { globals: push_ids(x.globals, r.cnt() as int, s.idx), ..x },
        Payload::MemorySection(r) => Ix { memories: push_ids(x.memories, r.cnt() as int, s.idx), ..x },
        Payload::TableSection(r) => Ix { tables: push_ids(x.tables, r.cnt() as int, s.idx), ..x },
        _ => x,
    }
}
pub open spec fn no_ix() -> Ix { Ix { types: Seq::empty(), code: None, functions: Seq::empty(), tables: Seq::empty(), memories: Seq::empty(), globals: Seq::empty() } }
/// The index spaces after the first `n` sections, in the order of the file.
pub open spec fn spaces(ks: Seq<Step>, n: int) -> Ix
    decreases n
{ if n <= 0 { no_ix() } else { indexed(spaces(ks, n - 1), ks[n - 1]) } }
/// ... and with the functions the module defines itself, after all imported ones.
pub open spec fn with_code(x: Ix, c: int, n: int) -> Ix { Ix { code: Some(c as usize), functions: push_ids(x.functions, n, c), ..x } }
pub open spec fn module_ix(d: Seq<u8>) -> Ix {
    let log = payloads(d); let ks = kept(log, true); let c = code_of(log)->Some_0;
    with_code(spaces(ks, ks.len() as int), c.idx, bodies_count(d, c) as int)
}
pub open spec fn entered_in(b: ItemsBuilder, idx: int, n: int) -> bool { forall|i: int| 0 <= i < n ==> b.items@.contains_key(#[trigger] eid(idx, i)) }
pub proof fn lemma_push_ids(s: Seq<Id>, n: int, idx: int, b: ItemsBuilder)
    requires all_in(s, b), entered_in(b, idx, n)
    ensures all_in(push_ids(s, n, idx), b)
    decreases n
{ if n > 0 { lemma_push_ids(s, n - 1, idx, b); assert(b.items@.contains_key(eid(idx, n - 1))); } }
pub open spec fn types_in(s: Seq<Option<Id>>, b: ItemsBuilder) -> bool { forall|i: int| 0 <= i < s.len() && #[trigger] s[i] is Some ==> b.items@.contains_key(s[i]->Some_0) }
pub proof fn lemma_push_types(s: Seq<Option<Id>>, left: Seq<(TypeDef, int)>, n: int, idx: int, b: ItemsBuilder)
    requires types_in(s, b), forall|i: int| 0 <= i < n && is_func((#[trigger] left[i]).0) ==> b.items@.contains_key(eid(idx, i))
    ensures types_in(push_types(s, left, n, idx), b)
    decreases n
{ if n > 0 { lemma_push_types(s, left, n - 1, idx, b); let _ = left[n - 1]; } }
pub proof fn lemma_push_imports(x: Ix, left: Seq<(Import, int)>, n: int, idx: int, b: ItemsBuilder)
    requires ix_ok(x, b), entered_in(b, idx, n)
    ensures ix_ok(push_imports(x, left, n, idx), b)
    decreases n
{ if n > 0 { lemma_push_imports(x, left, n - 1, idx, b); assert(b.items@.contains_key(eid(idx, n - 1))); } }
pub proof fn lemma_entered_in<T>(b: ItemsBuilder, idx: int, v: RV<T>, n: int)
    requires owns(b, idx, v, n, every()), 0 <= n <= 0xffff_ffff, 0 <= idx < 0xffff_ffff
    ensures entered_in(b, idx, n), entries_in(b, idx, v.left, n)
{
    assert forall|i: int| 0 <= i < n implies b.items@.contains_key(#[trigger] eid(idx, i)) by { assert(entry_of(eid(idx, i), idx, v.left, n, every())); }
}
pub proof fn lemma_indexed(x: Ix, s: Step, b: ItemsBuilder)
    requires ix_ok(x, b), other(s.payload, false) ==> own(b, s.payload, s.idx), other(s.payload, true), 0 <= s.idx < 0xffff_ffff
    ensures ix_ok(indexed(x, s), b)
{
    match s.payload {
        Payload::TypeSection(r) => {
            assert forall|i: int| 0 <= i < r.cnt() && is_func((#[trigger] r.rv().left[i]).0) implies b.items@.contains_key(eid(s.idx, i)) by { assert(entry_of(eid(s.idx, i), s.idx, r.rv().left, r.cnt() as int, funcs())); }
            lemma_push_types(x.types, r.rv().left, r.cnt() as int, s.idx, b);
        },
        Payload::ImportSection(r) => { lemma_entered_in(b, s.idx, r.rv(), r.cnt() as int); lemma_push_imports(x, r.rv().left, r.cnt() as int, s.idx, b); },
        Payload::GlobalSection(r) => { lemma_entered_in(b, s.idx, r.rv(), r.cnt() as int); lemma_push_ids(x.globals, r.cnt() as int, s.idx, b); },
        Payload::MemorySection(r) => { lemma_entered_in(b, s.idx, r.rv(), r.cnt() as int); lemma_push_ids(x.memories, r.cnt() as int, s.idx, b); },
        Payload::TableSection(r) => { lemma_entered_in(b, s.idx, r.rv(), r.cnt() as int); lemma_push_ids(x.tables, r.cnt() as int, s.idx, b); },
        _ => { },
    }
}
/// The items of a section are there.
pub open spec fn owned_step(b: ItemsBuilder, ks: Seq<Step>, k: int, log: Seq<Step>) -> bool {
    let s = ks[k];
    &&& 0 <= s.idx < 0xffff_ffff && s.idx < log.len() && other(s.payload, true)
    &&& other(s.payload, false) ==> own(b, s.payload, s.idx)
}
/// The edges of one section.
pub open spec fn sec_edge(s: Step, ix: Ix, x: Id, y: Id) -> bool {
    match s.payload {
        Payload::ExportSection(r) => export_edge(r.rv().left, r.cnt() as int, s.idx, ix, x, y),
        Payload::ElementSection(r) => elems_edge(r.rv().left, r.cnt() as int, s.idx, ix, x, y),
        Payload::StartSection { func, range } => x == eid(s.idx, 0xffff_ffff) && pick(ix.functions, func) == Some(y),
        _ => false,
    }
}
pub open spec fn secs_edge(ks: Seq<Step>, n: int, ix: Ix, x: Id, y: Id) -> bool { exists|j: int| 0 <= j < n && #[trigger] step_edge(ks, j, ix, x, y) }
pub open spec fn step_edge(ks: Seq<Step>, j: int, ix: Ix, x: Id, y: Id) -> bool { sec_edge(ks[j], ix, x, y) }
pub proof fn lemma_secs_edge(ks: Seq<Step>, n: int, ix: Ix)
    requires 0 <= n
    ensures forall|x: Id, y: Id| #[trigger] secs_edge(ks, n + 1, ix, x, y) <==> secs_edge(ks, n, ix, x, y) || sec_edge(ks[n], ix, x, y)
{
    assert forall|x: Id, y: Id| sec_edge(ks[n], ix, x, y) implies #[trigger] secs_edge(ks, n + 1, ix, x, y) by { assert(step_edge(ks, n, ix, x, y)); }
    assert forall|x: Id, y: Id| secs_edge(ks, n, ix, x, y) implies #[trigger] secs_edge(ks, n + 1, ix, x, y) by { }
}
/// What drawing the edges of a section needs is there.
pub proof fn lemma_drawing(a: ItemsBuilder, b: ItemsBuilder, s: Step, ix: Ix, len: int)
    requires other(s.payload, false) ==> own(a, s.payload, s.idx), 0 <= s.idx < 0xffff_ffff, b.wf(), b.items == a.items, ix_ok(ix, a),
        0 <= s.start, s.start + s.size <= len <= u32::MAX, payload_within(s.payload, s.start, s.size),
    ensures ix_ok(ix, b),
        s.payload matches Payload::ExportSection(r) ==> drawn(b, s.idx, r.rv(), r.cnt() as int, ix),
        s.payload matches Payload::ElementSection(r) ==> drawn(b, s.idx, r.rv(), r.cnt() as int, ix),
        s.payload is StartSection ==> b.items@.contains_key(eid(s.idx, 0xffff_ffff)),
{
    match s.payload {
        Payload::ExportSection(r) => { lemma_entered_in(b, s.idx, r.rv(), r.cnt() as int); },
        Payload::ElementSection(r) => { lemma_entered_in(b, s.idx, r.rv(), r.cnt() as int); },
        _ => { },
    }
}
/// The references in a module (P03, P24).
pub open spec fn module_edge(d: Seq<u8>, m: Map<u64, (Id, u64)>, x: Id, y: Id) -> bool {
    let log = payloads(d); let ks = kept(log, true); let ix = module_ix(d); let c = code_of(log)->Some_0; let f = func_of(log)->Some_0; let n = bodies_count(d, c) as int;
    ||| type_edge(decls_of(f).left, n, c.idx, ix, x, y)
    ||| bodies_edge(bodies_of(d, c).left, n, c.idx, ix, m, x, y)
    ||| secs_edge(ks, ks.len() as int, ix, x, y)
}
pub open spec fn module_rel(d: Seq<u8>, m: Map<u64, (Id, u64)>) -> spec_fn(Id, Id) -> bool { |x: Id, y: Id| module_edge(d, m, x, y) }
/// Reading the file again finds the same payloads.
pub open spec fn again(d: Seq<u8>, log: Seq<Step>, sts: Seq<PState>) -> bool {
    run(d, log, sts) && log.len() <= payloads(d).len() && forall|i: int| 0 <= i < log.len() ==> log[i] == payloads(d)[i]
}
/// What the next payload is, and that it is the one seen before.
pub proof fn lemma_again(d: Seq<u8>, log: Seq<Step>, sts: Seq<PState>, c: int, p: Payload, t: PState)
    requires again(d, log, sts), is_log(d, payloads(d)), 0 <= sts.last().offset < d.len(), stepped(sts.last(), rest_of(d, sts.last().offset)) == Some((c, p, t))
    ensures ({ let s = Step { idx: log.len() as int, start: sts.last().offset, size: c, payload: p }; again(d, log.push(s), sts.push(t)) && payloads(d)[log.len() as int] == s && fact(d, payloads(d), log.len() as int) && log.len() < payloads(d).len() })
{
    let s = Step { idx: log.len() as int, start: sts.last().offset, size: c, payload: p };
    let l2 = payloads(d); let s2 = choose|s2: Seq<PState>| whole(d, l2, s2);
    lemma_prefix(d, log, sts, l2, s2, log.len() as int);
    if log.len() < l2.len() { assert(step_ok(d, l2, s2, log.len() as int)); } else { assert(false); }
    lemma_ran(d, log, sts, s, t);
    lemma_facts(d, l2, s2);
}
/// The item made of a declaration or a body.
pub open spec fn made(r: Res<Item>, idx: usize, i: usize, ok: bool, size: int) -> bool { r is Ok <==> ok && (r matches Ok(x) ==> x.id == eid(idx as int, i as int) && x.size == size) }

@fn iterate_with_size ret=r
    requires old(s).rv().end <= u32::MAX
    ensures steps(r@, old(s).rv(), old(s).cnt() as int)
@step iterate_with_size 0 s,count
fn read_entry<S: SectionWithLimitedItems + SectionReader>(s: &mut S, count: u32, $0: u32) -> (r: Res<(S::Item, u32)>)
    requires $0 < count, old(s).rv().end <= u32::MAX
    ensures
        final(s).rv().end == old(s).rv().end, final(s).rv().pos >= old(s).rv().pos,
        r matches Ok(x) ==> old(s).rv().left.len() > 0 && x.0 == old(s).rv().left[0].0 && x.1 == old(s).rv().left[0].1
            && final(s).rv().pos == old(s).rv().pos + x.1 && x.1 <= old(s).rv().end - old(s).rv().pos && final(s).rv().left == old(s).rv().left.drop_first() && ($0 == count - 1 ==> final(s).rv().pos == final(s).rv().end),
@loop iterate_with_size 0 iter=it
    invariant
        it.seq().len() == count, count == old(s).cnt(),
        s.rv().end == old(s).rv().end <= u32::MAX,
        vp_out@.len() == it.index(), s.rv().pos >= old(s).rv().pos,
        forall|i: int| 0 <= i < it.index() && #[trigger] vp_out@[i] is Ok ==> vp_out@[i]->Ok_0.1 <= old(s).rv().end - old(s).rv().pos,
        oks(vp_out@, it.index() as int) ==> it.index() <= old(s).rv().left.len() && s.rv().left == old(s).rv().left.skip(it.index() as int)
            && s.rv().pos == old(s).rv().pos + taken(old(s).rv().left, it.index() as int) && (it.index() == count && count > 0 ==> s.rv().pos == s.rv().end),
        forall|i: int| 0 <= i < it.index() && oks(vp_out@, i) && #[trigger] vp_out@[i] is Ok ==> i < old(s).rv().left.len() && vp_out@[i]->Ok_0.0 == old(s).rv().left[i].0 && vp_out@[i]->Ok_0.1 == old(s).rv().left[i].1,
@loopentry iterate_with_size 0
    let ghost o0 = vp_out@; let ghost n = it.index() as int;
@loopexit iterate_with_size 0
    proof {
        assert(forall|i: int| 0 <= i < n ==> vp_out@[i] == o0[i]);
        assert forall|i: int| 0 <= i <= n && oks(vp_out@, i) implies oks(o0, i) by { assert(forall|j: int| 0 <= j < i ==> o0[j] == vp_out@[j]); }
        if oks(vp_out@, n + 1) { assert(oks(vp_out@, n)); assert(vp_out@[n] is Ok); assert(old(s).rv().left.skip(n)[0] == old(s).rv().left[n]); assert(old(s).rv().left.skip(n).drop_first() =~= old(s).rv().left.skip(n + 1)); }
    }
@fn ty2str ret=r
@fn get_code_section_name ret=r
@fn lookup ret=r
    ensures match r { Ok(x) => index < ids@.len() && x == ids@[index as int], Err(_) => index >= ids@.len() }
@closure lookup 0
|| -> (r: crate::anyhow::Error)
@inject `Parse for ImportSectionReader`
    open spec fn vp_items_req(&self, items: ItemsBuilder, idx: usize) -> bool { room(items, idx as int, self.rv()) }
    open spec fn vp_edges_req(&self, items: ItemsBuilder, extra: ()) -> bool { true }
@fn `Parse for ImportSectionReader::parse_items` ret=r
    ensures r is Ok ==> old(self).rv().full(old(self).cnt() as int) && final(items).data == old(items).data && grown(*old(items), *final(items), idx as int, old(self).rv().left, old(self).cnt() as int, every(), false)
@entry `Parse for ImportSectionReader::parse_items`
    let ghost a = *items; let ghost v = self.rv(); let ghost n = self.cnt() as int;
@loop `Parse for ImportSectionReader::parse_items` 0 iter=it
    invariant
        esteps(it.seq(), v, n), eoks(it.seq(), it.index() as int), room(a, idx as int, v), v.ok(),
        grown(a, *items, idx as int, v.left, it.index() as int, every(), false), items.data == a.data,
@loopentry `Parse for ImportSectionReader::parse_items` 0
    let ghost k = it.index() as int; let ghost b0 = *items;
    proof { lemma_entry(v, k); }
@loopexit `Parse for ImportSectionReader::parse_items` 0
    proof { lemma_grown(a, b0, *items, idx as int, v.left, k, every(), false, items.items@[eid(idx as int, k)]); }
@inject `Parse for TableSectionReader`
    open spec fn vp_items_req(&self, items: ItemsBuilder, idx: usize) -> bool { room(items, idx as int, self.rv()) }
    open spec fn vp_edges_req(&self, items: ItemsBuilder, extra: ()) -> bool { true }
@fn `Parse for TableSectionReader::parse_items` ret=r
    ensures r is Ok ==> old(self).rv().full(old(self).cnt() as int) && final(items).data == old(items).data && grown(*old(items), *final(items), idx as int, old(self).rv().left, old(self).cnt() as int, every(), true)
@entry `Parse for TableSectionReader::parse_items`
    let ghost a = *items; let ghost v = self.rv(); let ghost n = self.cnt() as int;
@loop `Parse for TableSectionReader::parse_items` 0 iter=it
    invariant
        esteps(it.seq(), v, n), eoks(it.seq(), it.index() as int), room(a, idx as int, v), v.ok(),
        grown(a, *items, idx as int, v.left, it.index() as int, every(), true), items.data == a.data,
@loopentry `Parse for TableSectionReader::parse_items` 0
    let ghost k = it.index() as int; let ghost b0 = *items;
    proof { lemma_entry(v, k); }
@loopexit `Parse for TableSectionReader::parse_items` 0
    proof { lemma_grown(a, b0, *items, idx as int, v.left, k, every(), true, items.items@[eid(idx as int, k)]); }
@inject `Parse for MemorySectionReader`
    open spec fn vp_items_req(&self, items: ItemsBuilder, idx: usize) -> bool { room(items, idx as int, self.rv()) }
    open spec fn vp_edges_req(&self, items: ItemsBuilder, extra: ()) -> bool { true }
@fn `Parse for MemorySectionReader::parse_items` ret=r
    ensures r is Ok ==> old(self).rv().full(old(self).cnt() as int) && final(items).data == old(items).data && grown(*old(items), *final(items), idx as int, old(self).rv().left, old(self).cnt() as int, every(), false)
@entry `Parse for MemorySectionReader::parse_items`
    let ghost a = *items; let ghost v = self.rv(); let ghost n = self.cnt() as int;
@loop `Parse for MemorySectionReader::parse_items` 0 iter=it
    invariant
        esteps(it.seq(), v, n), eoks(it.seq(), it.index() as int), room(a, idx as int, v), v.ok(),
        grown(a, *items, idx as int, v.left, it.index() as int, every(), false), items.data == a.data,
@loopentry `Parse for MemorySectionReader::parse_items` 0
    let ghost k = it.index() as int; let ghost b0 = *items;
    proof { lemma_entry(v, k); }
@loopexit `Parse for MemorySectionReader::parse_items` 0
    proof { lemma_grown(a, b0, *items, idx as int, v.left, k, every(), false, items.items@[eid(idx as int, k)]); }
@inject `Parse for GlobalSectionReader`
    open spec fn vp_items_req(&self, items: ItemsBuilder, idx: usize) -> bool { room(items, idx as int, self.rv()) }
    open spec fn vp_edges_req(&self, items: ItemsBuilder, extra: ()) -> bool { true }
@fn `Parse for GlobalSectionReader::parse_items` ret=r
    ensures r is Ok ==> old(self).rv().full(old(self).cnt() as int) && final(items).data == old(items).data && grown(*old(items), *final(items), idx as int, old(self).rv().left, old(self).cnt() as int, every(), false)
@entry `Parse for GlobalSectionReader::parse_items`
    let ghost a = *items; let ghost v = self.rv(); let ghost n = self.cnt() as int;
@loop `Parse for GlobalSectionReader::parse_items` 0 iter=it
    invariant
        esteps(it.seq(), v, n), eoks(it.seq(), it.index() as int), room(a, idx as int, v), v.ok(),
        grown(a, *items, idx as int, v.left, it.index() as int, every(), false), items.data == a.data,
@loopentry `Parse for GlobalSectionReader::parse_items` 0
    let ghost k = it.index() as int; let ghost b0 = *items;
    proof { lemma_entry(v, k); }
@loopexit `Parse for GlobalSectionReader::parse_items` 0
    proof { lemma_grown(a, b0, *items, idx as int, v.left, k, every(), false, items.items@[eid(idx as int, k)]); }
@inject `Parse for ExportSectionReader`
    open spec fn vp_items_req(&self, items: ItemsBuilder, idx: usize) -> bool { room(items, idx as int, self.rv()) }
    open spec fn vp_edges_req(&self, items: ItemsBuilder, extra: (&'a SectionIndices, usize)) -> bool { drawn(items, extra.1 as int, self.rv(), self.cnt() as int, extra.0.v()) }
@fn `Parse for ExportSectionReader::parse_items` ret=r
    ensures r is Ok ==> old(self).rv().full(old(self).cnt() as int) && final(items).data == old(items).data && grown(*old(items), *final(items), idx as int, old(self).rv().left, old(self).cnt() as int, every(), true)
@entry `Parse for ExportSectionReader::parse_items`
    let ghost a = *items; let ghost v = self.rv(); let ghost n = self.cnt() as int;
@loop `Parse for ExportSectionReader::parse_items` 0 iter=it
    invariant
        esteps(it.seq(), v, n), eoks(it.seq(), it.index() as int), room(a, idx as int, v), v.ok(),
        grown(a, *items, idx as int, v.left, it.index() as int, every(), true), items.data == a.data,
@loopentry `Parse for ExportSectionReader::parse_items` 0
    let ghost k = it.index() as int; let ghost b0 = *items;
    proof { lemma_entry(v, k); }
@loopexit `Parse for ExportSectionReader::parse_items` 0
    proof { lemma_grown(a, b0, *items, idx as int, v.left, k, every(), true, items.items@[eid(idx as int, k)]); }
@inject `Parse for ElementSectionReader`
    open spec fn vp_items_req(&self, items: ItemsBuilder, idx: usize) -> bool { room(items, idx as int, self.rv()) }
    open spec fn vp_edges_req(&self, items: ItemsBuilder, extra: (&'a SectionIndices, usize)) -> bool { drawn(items, extra.1 as int, self.rv(), self.cnt() as int, extra.0.v()) }
@fn `Parse for ElementSectionReader::parse_items` ret=r
    ensures r is Ok ==> old(self).rv().full(old(self).cnt() as int) && final(items).data == old(items).data && grown(*old(items), *final(items), idx as int, old(self).rv().left, old(self).cnt() as int, every(), false)
@entry `Parse for ElementSectionReader::parse_items`
    let ghost a = *items; let ghost v = self.rv(); let ghost n = self.cnt() as int;
@loop `Parse for ElementSectionReader::parse_items` 0 iter=it
    invariant
        esteps(it.seq(), v, n), eoks(it.seq(), it.index() as int), room(a, idx as int, v), v.ok(),
        grown(a, *items, idx as int, v.left, it.index() as int, every(), false), items.data == a.data,
@loopentry `Parse for ElementSectionReader::parse_items` 0
    let ghost k = it.index() as int; let ghost b0 = *items;
    proof { lemma_entry(v, k); }
@loopexit `Parse for ElementSectionReader::parse_items` 0
    proof { lemma_grown(a, b0, *items, idx as int, v.left, k, every(), false, items.items@[eid(idx as int, k)]); }
@fn `Parse for ExportSectionReader::parse_edges` ret=r
    ensures r is Ok ==> linked(*old(items), *final(items), exported(old(self).rv().left, old(self).cnt() as int, $1.1 as int, $1.0.v()))
@entry `Parse for ExportSectionReader::parse_edges`
    let ghost a = *items; let ghost v = self.rv(); let ghost n = self.cnt() as int; let ghost ix = indices.v();
@loop `Parse for ExportSectionReader::parse_edges` 0 iter=it
    invariant
        esteps(it.seq(), v, n), eoks(it.seq(), it.index() as int), drawn(a, idx as int, v, n, ix), v.ok(), ix == indices.v(),
        linked(a, *items, exported(v.left, it.index() as int, idx as int, ix)),
@loopentry `Parse for ExportSectionReader::parse_edges` 0
    let ghost k = it.index() as int; let ghost b0 = *items;
    proof { lemma_entry(v, k); if k < v.left.len() { lemma_exported(v.left, k, idx as int, ix); assert(a.items@.contains_key(eid(idx as int, k))); } }
@fn `Parse for ElementSectionReader::parse_edges` ret=r
    ensures r is Ok ==> linked(*old(items), *final(items), elements(old(self).rv().left, old(self).cnt() as int, $1.1 as int, $1.0.v()))
@entry `Parse for ElementSectionReader::parse_edges`
    let ghost a = *items; let ghost v = self.rv(); let ghost n = self.cnt() as int; let ghost ix = indices.v();
@loop `Parse for ElementSectionReader::parse_edges` 0 iter=it
    invariant
        esteps(it.seq(), v, n), eoks(it.seq(), it.index() as int), drawn(a, idx as int, v, n, ix), v.ok(), ix == indices.v(),
        linked(a, *items, elements(v.left, it.index() as int, idx as int, ix)),
@loopentry `Parse for ElementSectionReader::parse_edges` 0
    let ghost k = it.index() as int; let ghost b0 = *items;
    proof { lemma_entry(v, k); if k < v.left.len() { lemma_elements(v.left, k, idx as int, ix); assert(a.items@.contains_key(eid(idx as int, k))); } }
@loop `Parse for ElementSectionReader::parse_edges` 1 iter=it2
    invariant
        drawn(a, idx as int, v, n, ix), v.ok(), ix == indices.v(), 0 <= k < v.left.len(), elem == v.left[k].0, elem_id == eid(idx as int, k), a.items@.contains_key(elem_id), 
        it2.seq().len() >= elem.items.items().len(),
        forall|j: int| 0 <= j < it2.seq().len() ==> (if j < elem.items.items().len() { #[trigger] it2.seq()[j] == Result::<ElementItem>::Ok(elem.items.items()[j]) } else { it2.seq()[j] is Err }),
        it2.index() <= elem.items.items().len(),
        linked(a, *items, |x: Id, y: Id| elems_edge(v.left, k, idx as int, ix, x, y) || table_edge(elem, elem_id, ix, x, y) || items_edge(elem.items.items(), it2.index() as int, elem_id, ix, x, y)),
@loopentry `Parse for ElementSectionReader::parse_edges` 1
    let ghost j0 = it2.index() as int;
    proof { if j0 < elem.items.items().len() { lemma_items_edge(elem.items.items(), j0, elem_id, ix); } }
@inject `Parse for StartSection`
    open spec fn vp_items_req(&self, items: ItemsBuilder, extra: usize) -> bool { true }
    open spec fn vp_edges_req(&self, items: ItemsBuilder, extra: (&'a SectionIndices, usize)) -> bool { items.wf() && ix_ok(extra.0.v(), items) && extra.1 < 0xffff_ffff && items.items@.contains_key(Id(extra.1 as u32, 0xffff_ffff)) }
@fn `Parse for StartSection::parse_items` ret=r
    ensures r is Ok, *final($0) == *old($0)
@fn `Parse for StartSection::parse_edges` ret=r
    ensures r is Ok ==> linked(*old(items), *final(items), start_edge($1.1 as int, old(self).function_index, $1.0.v()))
@inject `Parse for DataSectionReader`
    open spec fn vp_items_req(&self, items: ItemsBuilder, extra: (usize, &'a HashMap<usize, &'a str>)) -> bool { room(items, extra.0 as int, self.rv()) }
    open spec fn vp_edges_req(&self, items: ItemsBuilder, extra: ()) -> bool { true }
@fn `Parse for DataSectionReader::parse_items` ret=r
    ensures r is Ok ==> old(self).rv().full(old(self).cnt() as int) && final(items).data@ == placements(old(items).data@, old(self).rv().left, old(self).cnt() as int, $1.0 as int)
        && grown(*old(items), *final(items), $1.0 as int, old(self).rv().left, old(self).cnt() as int, every(), false)
@entry `Parse for DataSectionReader::parse_items`
    let ghost a = *items; let ghost v = self.rv(); let ghost n = self.cnt() as int; let ghost s0 = *self;
@closure `Parse for DataSectionReader::parse_items` 0
|| -> (r: String)
@closure `Parse for DataSectionReader::parse_items` 1
|&&str| -> (r: String)
@loop `Parse for DataSectionReader::parse_items` 0 iter=it
    invariant
        esteps(it.seq(), v, n), eoks(it.seq(), it.index() as int), room(a, idx as int, v), v.ok(), v == s0.rv(),
        grown(a, *items, idx as int, v.left, it.index() as int, every(), false), items.data@ == placements(a.data@, v.left, it.index() as int, idx as int),
@loopentry `Parse for DataSectionReader::parse_items` 0
    let ghost k = it.index() as int; let ghost b0 = *items;
    proof { lemma_entry(v, k); if k < v.left.len() { axiom_data(s0, k); } }
@after `Parse for DataSectionReader::parse_items` add_item
    proof { lemma_grown(a, b0, *items, idx as int, v.left, k, every(), false, items.items@[eid(idx as int, k)]); }
@inject `Parse for TypeSectionReader`
    open spec fn vp_items_req(&self, items: ItemsBuilder, idx: usize) -> bool { room(items, idx as int, self.rv()) }
    open spec fn vp_edges_req(&self, items: ItemsBuilder, extra: ()) -> bool { true }
@fn `Parse for TypeSectionReader::parse_items` ret=r
    ensures r is Ok ==> old(self).rv().full(old(self).cnt() as int) && final(items).data == old(items).data && grown(*old(items), *final(items), idx as int, old(self).rv().left, old(self).cnt() as int, funcs(), false)
@entry `Parse for TypeSectionReader::parse_items`
    let ghost a = *items; let ghost v = self.rv(); let ghost n = self.cnt() as int;
@loop `Parse for TypeSectionReader::parse_items` 0 iter=it
    invariant
        esteps(it.seq(), v, n), eoks(it.seq(), it.index() as int), room(a, idx as int, v), v.ok(),
        grown(a, *items, idx as int, v.left, it.index() as int, funcs(), false), items.data == a.data,
@loopentry `Parse for TypeSectionReader::parse_items` 0
    let ghost k = it.index() as int; let ghost b0 = *items;
    proof { lemma_entry(v, k); }
@loop `Parse for TypeSectionReader::parse_items` 1 iter=it1
    invariant it1.seq().len() >= 0
@loop `Parse for TypeSectionReader::parse_items` 2 iter=it2
    invariant it2.seq().len() >= 0
@after `Parse for TypeSectionReader::parse_items` add_item
    proof { lemma_grown(a, b0, *items, idx as int, v.left, k, funcs(), false, items.items@[eid(idx as int, k)]); }
@loopexit `Parse for TypeSectionReader::parse_items` 0
    proof { if !is_func(v.left[k].0) { lemma_skipped(a, *items, idx as int, v.left, k, funcs(), false); } }
@inject `Parse for NameSectionReader`
    open spec fn vp_items_req(&self, items: ItemsBuilder, idx: usize) -> bool { items.wf() && free(items, idx as int) && idx < 0xffff_ffff && self.pos() <= self.end() <= u32::MAX && items.size_added + (self.end() - self.pos()) <= u32::MAX }
    open spec fn vp_edges_req(&self, items: ItemsBuilder, extra: ()) -> bool { true }
@fn `Parse for NameSectionReader::parse_items` ret=r
    ensures r is Ok ==> widened(*old(items), *final(items), idx as int, old(self).end() - old(self).pos())
@entry `Parse for NameSectionReader::parse_items`
    let ghost a = *items; let ghost p0 = self.pos();
@loop `Parse for NameSectionReader::parse_items` 0
    invariant
        a.wf(), free(a, idx as int), idx < 0xffff_ffff, p0 <= self.pos() <= self.end() <= u32::MAX, a.size_added + (self.end() - p0) <= u32::MAX, 0 <= p0, self.end() == old(self).end(),
        i <= self.pos() - p0, widened(a, *items, idx as int, self.pos() - p0),
        forall|k: Id| #[trigger] items.items@.contains_key(k) && k.0 == idx ==> k.1 < i,
    decreases self.end() - self.pos()
@inject `Parse for CustomSectionReader`
    open spec fn vp_items_req(&self, items: ItemsBuilder, idx: usize) -> bool { items.wf() && free(items, idx as int) && idx < 0xffff_ffff && self.data_offset + self.data@.len() <= u32::MAX && items.size_added + self.data@.len() <= u32::MAX }
    open spec fn vp_edges_req(&self, items: ItemsBuilder, extra: ()) -> bool { true }
@fn `Parse for CustomSectionReader::parse_items` ret=r
    ensures r is Ok ==> widened(*old(items), *final(items), idx as int, old(self).data@.len() as int)
@entry `Parse for CustomSectionReader::parse_items`
    let ghost a = *items;
@fn `Parse for ImportSectionReader::parse_edges` ret=r
    ensures r is Ok, *final($0) == *old($0)
@fn `Parse for TableSectionReader::parse_edges` ret=r
    ensures r is Ok, *final($0) == *old($0)
@fn `Parse for MemorySectionReader::parse_edges` ret=r
    ensures r is Ok, *final($0) == *old($0)
@fn `Parse for GlobalSectionReader::parse_edges` ret=r
    ensures r is Ok, *final($0) == *old($0)
@fn `Parse for DataSectionReader::parse_edges` ret=r
    ensures r is Ok, *final($0) == *old($0)
@fn `Parse for TypeSectionReader::parse_edges` ret=r
    ensures r is Ok, *final($0) == *old($0)
@fn `Parse for NameSectionReader::parse_edges` ret=r
    ensures r is Ok, *final($0) == *old($0)
@fn `Parse for CustomSectionReader::parse_edges` ret=r
    ensures r is Ok, *final($0) == *old($0)
@fn get_section_name ret=r
    requires !(section is CodeSectionEntry)
@fn parse_names_section ret=r
@fn count_imported_functions ret=r
    requires indexed_sections@.len() <= 0xffff_ffff
    ensures r matches Ok(n) ==> n <= indexed_sections@.len() * 0xffff_ffff
@loop parse_names_section 0 iter=it
    invariant it.seq().len() >= 0
@loop parse_names_section 1 iter=it1
    invariant it1.seq().len() >= 0
@loop parse_names_section 2
    invariant true
@loop parse_names_section 3
    invariant true
@loop count_imported_functions 0 iter=it
    invariant it.seq().len() == indexed_sections@.len(), it.seq().len() <= 0xffff_ffff, imported_functions <= it.index() * 0xffff_ffff
@loopentry count_imported_functions 0
    let ghost i0 = it.index() as int;
@loop count_imported_functions 1 iter=it1
    invariant i0 < indexed_sections@.len() <= 0xffff_ffff, it1.seq().len() <= 0x1_0000_0000, it1.index() < it1.seq().len() || imported_functions <= (i0 + 1) * 0xffff_ffff, imported_functions <= i0 * 0xffff_ffff + it1.index(),
@inject `Parse for (FunctionSection<'a>,CodeSection<'a>)`
    open spec fn vp_items_req(&self, items: ItemsBuilder, extra: (usize, &'a HashMap<usize, &'a str>)) -> bool {
        &&& items.wf() && free(items, self.1.index as int) && self.0.index < 0xffff_ffff && self.1.index < 0xffff_ffff
        &&& self.0.reader.rv().end <= u32::MAX && self.1.reader.rv().end <= u32::MAX
        &&& self.0.reader.rv().end - self.0.reader.rv().pos <= self.0.byte_size && self.1.reader.rv().end - self.1.reader.rv().pos <= self.1.byte_size
        &&& items.size_added + self.0.byte_size + self.1.byte_size <= u32::MAX
        &&& extra.0 <= 0xffff_fffe_0000_0001
    }
    open spec fn vp_edges_req(&self, items: ItemsBuilder, extra: &'a SectionIndices) -> bool {
        &&& items.wf() && ix_ok(extra.v(), items) && extra.code == Some(self.1.index) && self.0.index < 0xffff_ffff && self.1.index < 0xffff_ffff
        &&& self.0.reader.rv().end <= u32::MAX && self.1.reader.rv().end <= u32::MAX && self.0.reader.cnt() == self.1.reader.cnt()
        &&& forall|i: int| 0 <= i < self.1.reader.cnt() ==> items.items@.contains_key(#[trigger] eid(self.1.index as int, i))
    }
@fn `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_items` ret=r
    ensures r is Ok ==> old(self).0.reader.cnt() == old(self).1.reader.cnt() && old(self).0.reader.rv().full(old(self).0.reader.cnt() as int) && old(self).1.reader.rv().full(old(self).1.reader.cnt() as int)
        && coded(*old(items), *final(items), old(self).1.index as int, old(self).0.reader.rv().left, old(self).1.reader.rv().left, old(self).1.reader.cnt() as int, old(self).0.byte_size + old(self).1.byte_size)
@entry `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_items`
    let ghost a = *items; let ghost fv = self.0.reader.rv(); let ghost cv = self.1.reader.rv(); let ghost n = self.1.reader.cnt() as int;
    let ghost fb = self.0.byte_size as int; let ghost cb = self.1.byte_size as int; let ghost idx = self.1.index as int;
@closure `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_items` 0
|(usize, Res<(u32, u32)>)| -> (r: Res<Item>)
    requires $0.0 < 0xffff_ffff, func_section_index < 0xffff_ffff
    ensures made(r, func_section_index, $0.0, $0.1 is Ok, $0.1->Ok_0.1 as int)
@closure `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_items` 1
|(usize, (Res<(FunctionBody<'a>, u32)>, Item))| -> (r: Res<Item>)
    requires $0.0 < 0xffff_ffff, code_section_index < 0xffff_ffff, imported_functions <= 0xffff_fffe_0000_0001, $0.1.0 matches Ok(x) ==> x.1 + $0.1.1.size <= u32::MAX
    ensures made(r, code_section_index, $0.0, $0.1.0 is Ok, $0.1.0->Ok_0.1 + $0.1.1.size)
@closure `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_items` 2
|| -> (r: String)
@closure `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_items` 3
|&&str| -> (r: String)
@after `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_items` collect#0
    proof {
        assert(fv.full(n));
        assert forall|i: int| 0 <= i < n implies (#[trigger] func_items@[i]).size == fv.left[i].1 by { }
        lemma_zipped(cv, n, func_items@);
    }
@after `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_items` collect#1
    proof {
        assert(cv.full(n));
        assert(code_items@.len() == n);
        assert forall|i: int| 0 <= i < n implies (#[trigger] code_items@[i]).size == fv.left[i].1 + cv.left[i].1 && code_items@[i].id == eid(idx, i) by { }
        assert(taken(fv.left, 0) == 0); assert(taken(cv.left, 0) == 0);
        lemma_room(fv, n); lemma_room(cv, n);
    }
@loop `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_items` 0 iter=it
    invariant
        it.seq() == code_items@, code_items@.len() == n, 0 <= n < 0x1_0000_0000, idx < 0xffff_ffff, idx == code_section.index, code_section.byte_size == cb, func_section.byte_size == fb,
        forall|i: int| 0 <= i < n ==> (#[trigger] code_items@[i]).size == fv.left[i].1 + cv.left[i].1 && code_items@[i].id == eid(idx, i),
        a.wf(), free(a, idx), a.size_added + fb + cb <= u32::MAX, start == a.size_added,
        fv.ok(), cv.ok(), fv.full(n), cv.full(n), fv.end <= u32::MAX, cv.end <= u32::MAX, fv.end - fv.pos <= fb, cv.end - cv.pos <= cb,
        items.wf(), items.size == a.size, items.edges == a.edges, items.data == a.data, items.roots@ == a.roots@,
        forall|k: Id| #[trigger] items.items@.contains_key(k) <==> a.items@.contains_key(k) || (k.0 == idx && k.1 < it.index()),
        forall|k: Id| #[trigger] a.items@.contains_key(k) ==> items.items@[k] == a.items@[k],
        bodies_in(*items, idx, fv.left, cv.left, it.index() as int),
        items.size_added == a.size_added + taken(fv.left, it.index() as int) + taken(cv.left, it.index() as int),
@loopentry `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_items` 0
    proof { let k = it.index() as int; lemma_entry(fv, k); lemma_entry(cv, k); }

@fn `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_edges` ret=r
    ensures r is Ok ==> linked(*old(items), *final(items), code_rel(old(self).0.reader.rv().left, old(self).1.reader.rv().left, old(self).1.reader.cnt() as int, old(self).1.index as int, indices.v(), old(items).data@))
@entry `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_edges`
    let ghost a = *items; let ghost fv = self.0.reader.rv(); let ghost cv = self.1.reader.rv(); let ghost n = self.1.reader.cnt() as int;
    let ghost idx = self.1.index as int; let ghost ix = indices.v(); let ghost m = items.data@;
    proof { assert(forall|x: Id, y: Id| !type_edge(fv.left, 0, idx, ix, x, y)); assert(forall|x: Id, y: Id| !bodies_edge(cv.left, 0, idx, ix, m, x, y)); }
@loop `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_edges` 0 iter=it
    invariant
        esteps(it.seq(), fv, n), eoks(it.seq(), it.index() as int), fv.ok(), fv.end <= u32::MAX, 0 <= n < 0x1_0000_0000, ix == indices.v(), indices.code == Some(idx as usize), 0 <= idx < 0xffff_ffff,
        forall|i: int| 0 <= i < n ==> a.items@.contains_key(#[trigger] eid(idx, i)), ix_ok(ix, a), ends_in(edges@, a),
        forall|x: Id, y: Id| #[trigger] edges@.contains((x, y)) <==> type_edge(fv.left, it.index() as int, idx, ix, x, y),
@loopentry `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_edges` 0
    let ghost k = it.index() as int;
    proof { lemma_entry(fv, k); lemma_pushed(edges@); if k < fv.left.len() { lemma_type_edge(fv.left, k, idx, ix); } assert(a.items@.contains_key(eid(idx, k))); }
@loop `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_edges` 1 iter=it1
    invariant
        esteps(it1.seq(), cv, n), eoks(it1.seq(), it1.index() as int), cv.ok(), cv.end <= u32::MAX, 0 <= n < 0x1_0000_0000, ix == indices.v(), 0 <= idx < 0xffff_ffff, idx == code_section.index,
        forall|i: int| 0 <= i < n ==> a.items@.contains_key(#[trigger] eid(idx, i)), ix_ok(ix, a), ends_in(edges@, a), *items == a, a.wf(), m == a.data@,
        forall|x: Id, y: Id| #[trigger] edges@.contains((x, y)) <==> type_edge(fv.left, n, idx, ix, x, y) || bodies_edge(cv.left, it1.index() as int, idx, ix, m, x, y),
@loopentry `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_edges` 1
    let ghost k = it1.index() as int;
    proof { lemma_entry(cv, k); lemma_bodies_edge(cv.left, k, idx, ix, m); assert(a.items@.contains_key(eid(idx, k))); }
@looppre `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_edges` 2
    let ghost ops = body.ops();
    proof { assert(forall|x: Id, y: Id| !ops_edge(ops, 0, body_id, ix, m, x, y)); }
@loop `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_edges` 2 iter=it2
    invariant
        ops.len() <= it2.seq().len(),
        forall|i: int| 0 <= i < it2.seq().len() ==> (if i < ops.len() { (#[trigger] it2.seq()[i]) is Ok && it2.seq()[i]->Ok_0 == ops[i] } else { it2.seq()[i] is Err }), it2.index() <= ops.len(),
        const_of(cache) == before_of(ops, it2.index() as int), body_id == eid(idx, k), a.items@.contains_key(body_id),
        ix == indices.v(), ix_ok(ix, a), ends_in(edges@, a), *items == a, a.wf(), m == a.data@,
        forall|x: Id, y: Id| #[trigger] edges@.contains((x, y)) <==> type_edge(fv.left, n, idx, ix, x, y) || bodies_edge(cv.left, k, idx, ix, m, x, y) || ops_edge(ops, it2.index() as int, body_id, ix, m, x, y),
@loopentry `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_edges` 2
    let ghost j = it2.index() as int;
    proof { lemma_pushed(edges@); if j < ops.len() { lemma_ops_edge(ops, j, body_id, ix, m); } }
@closure `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_edges` 0
|u64| -> (r: Option<Id>)
    requires items.wf()
    ensures r == data_at(items.data@, $0), r matches Some(i) ==> items.items@.contains_key(i)
@loop `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_edges` 3 iter=it3
    invariant
        it3.seq() == edges@, ends_in(edges@, a), a.wf(),
        items.wf(), items.items == a.items, items.roots == a.roots, items.data == a.data, items.size == a.size, items.size_added == a.size_added,
        forall|x: Id, y: Id| #[trigger] items.has_edge(x, y) <==> a.has_edge(x, y) || edges@.take(it3.index() as int).contains((x, y)),
@loopentry `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_edges` 3
    proof { let q = it3.index() as int; lemma_pushed(edges@.take(q)); assert(edges@.take(q + 1) =~= edges@.take(q).push(edges@[q])); }
@looppost `Parse for (FunctionSection<'a>,CodeSection<'a>)::parse_edges` 3
    proof { assert(edges@.take(edges@.len() as int) =~= edges@); }
@fn ModuleReader::new ret=r
    ensures r.data@ == data@, r.offset == 0, r.parser@ == parser_at(0)
@fn ModuleReader::current_position ret=r
    ensures r == self.offset
@fn ModuleReader::eof ret=r
    ensures r == (self.offset == self.data@.len())
@fn ModuleReader::read ret=r
    requires old(self).offset < old(self).data@.len() <= u32::MAX, old(self).parser@.offset == old(self).offset
    ensures final(self).data == old(self).data,
        r matches Ok(p) ==> stepped(old(self).parser@, rest_of(old(self).data@, old(self).offset as int)) == Some((final(self).offset - old(self).offset, p, final(self).parser@)) && old(self).offset < final(self).offset <= final(self).data@.len()
@entry ModuleReader::read
    proof { if stepped(self.parser@, rest_of(self.data@, self.offset as int)) is Some { axiom_stepped(self.parser@, rest_of(self.data@, self.offset as int)); } }
@fn ModuleReader::new_code_section ret=r
    requires start_offset <= byte_range.start <= byte_range.end
    ensures r matches Ok(x) ==> byte_range.end <= self.data@.len() && x.index == index && x.byte_size == byte_range.end - start_offset
        && x.reader.rv() == code_view::<'a>(self.data@.subrange(byte_range.start as int, byte_range.end as int), byte_range.start as int)
        && x.reader.cnt() == code_count(self.data@.subrange(byte_range.start as int, byte_range.end as int), byte_range.start as int)
        && x.reader.rv().pos >= byte_range.start && x.reader.rv().end == byte_range.end
@closure ModuleReader::new_code_section 0
|| -> (r: crate::anyhow::Error)
@inject `Parse for ModuleReader`
    open spec fn vp_items_req(&self, items: ItemsBuilder, extra: ()) -> bool {
        &&& self.data@.len() <= u32::MAX && self.offset == 0 && self.parser@ == parser_at(0)
        &&& items.wf() && items.items@ == Map::<Id, Item>::empty() && items.size_added == 0 && (forall|x: Id, y: Id| !#[trigger] items.has_edge(x, y)) && items.data@ == Map::<u64, (Id, u64)>::empty()
    }
    open spec fn vp_edges_req(&self, items: ItemsBuilder, extra: ()) -> bool { self.data@.len() <= u32::MAX && self.offset == 0 && self.parser@ == parser_at(0) && module_items(items, self.data@) }
@fn `Parse for ModuleReader::parse_items` ret=r
    ensures r is Ok ==> module_items(*final(items), old(self).data@) && final(items).size == old(items).size
@attr `Parse for ModuleReader::parse_items` #[verifier::rlimit(20)]
@entry `Parse for ModuleReader::parse_items`
    let ghost d = self.data@; let ghost mut log: Seq<Step<'a>> = Seq::empty(); let ghost mut sts: Seq<PState> = seq![parser_at(0)]; let ghost b0 = *items;
    proof { axiom_parser_at(0); }
@loop `Parse for ModuleReader::parse_items` 0
    invariant
        self.data@ == d, d.len() <= u32::MAX, run(d, log, sts), self.parser@ == sts.last(), self.offset == sts.last().offset, self.offset <= d.len(), idx == log.len(),
        secs_are(sections@, kept(log, false)), code_is(code_section, d, log), func_is(function_section, log),
        code_section matches Some(c) ==> c.byte_size == code_end_of(code_of(log)->Some_0) - code_of(log)->Some_0.start,
        function_section matches Some(f) ==> f.byte_size == func_of(log)->Some_0.size,
        tot(log, log.len() as int) == (match code_section { Some(c) => c.byte_size as int, None => 0 }) + (match function_section { Some(f) => f.byte_size as int, None => 0 }) + zsum(kept(log, false), kept(log, false).len() as int),
        sts.last().code_end <= d.len(),
        forall|i: int| 0 <= i < log.len() ==> sizes@.contains_key(#[trigger] (i as usize)) && sizes@[i as usize] == log[i].size,
    ensures self.offset == d.len()
    decreases d.len() - self.offset
@loopentry `Parse for ModuleReader::parse_items` 0
    let ghost st = self.parser@; let ghost o = self.offset as int;
    proof { lemma_run(d, log, sts, log.len() as int); if o < d.len() && stepped(st, rest_of(d, o)) is Some { axiom_stepped(st, rest_of(d, o)); } }
@after `Parse for ModuleReader::parse_items` current_position#1
    let ghost log0 = log; let ghost s = Step { idx: idx as int, start: start as int, size: size as int, payload: section };
    proof {
        lemma_ran(d, log, sts, s, self.parser@); lemma_kept_push(log, s, false);
        log = log.push(s); sts = sts.push(self.parser@);
        lemma_run(d, log, sts, log0.len() as int); lemma_run(d, log, sts, log.len() as int); assert(log.drop_last() =~= log0); assert(log.last() == s);
    }
@looppost `Parse for ModuleReader::parse_items` 0
    let ghost ks = kept(log, false); let ghost secs0 = sections@;
    proof {
        lemma_payloads(d, log, sts); lemma_run(d, log, sts, log.len() as int); lemma_facts(d, log, sts);
        lemma_kept(log, false); lemma_special(log);
        assert forall|k: int| 0 <= k < ks.len() implies (#[trigger] ks[k]).size > 0 by { assert(stands(ks, k, log, false)); assert(fact(d, log, ks[k].idx)); }
        lemma_zsum_le(ks, 0, ks.len() as int);
        if code_section is Some && function_section is Some {
            let x = code_section->Some_0; let y = function_section->Some_0; let c = code_of(log)->Some_0; let f = func_of(log)->Some_0;
            assert(fact(d, log, c.idx)); assert(fact(d, log, f.idx));
            assert(x.index < 0xffff_ffff && y.index < 0xffff_ffff);
            assert(x.reader.rv().end <= u32::MAX); assert(y.reader.rv().end <= u32::MAX);
            assert(x.reader.rv().end - x.reader.rv().pos <= x.byte_size); assert(y.reader.rv().end - y.reader.rv().pos <= y.byte_size);
            assert(x.byte_size + y.byte_size <= u32::MAX);
        }
        assert(secs0.len() * 0xffff_ffff <= 0xffff_fffe_0000_0001) by (nonlinear_arith) requires secs0.len() <= 0xffff_ffff;
    }
@looppre `Parse for ModuleReader::parse_items` 1
    let ghost c = code_of(log)->Some_0; let ghost f = func_of(log)->Some_0;
    let ghost base = items.size_added as int;
    proof {
        lemma_functions(b0, *items, d, c, f, base); assert(zsum(ks, 0) == 0);
        assert forall|k: Id| #[trigger] items.items@.contains_key(k) implies k.0 == c.idx by { }
    }
@loop `Parse for ModuleReader::parse_items` 1 iter=it
    invariant
        it.seq() == secs0, self.data@ == d, d.len() <= u32::MAX, facts(d, log), log.len() <= d.len(), ks == kept(log, false), secs_are(secs0, ks), ks.len() <= log.len(),
        forall|j: int| 0 <= j < ks.len() ==> #[trigger] stands(ks, j, log, false),
        forall|i: int, j: int| 0 <= i < j < ks.len() ==> (#[trigger] ks[i]).idx < (#[trigger] ks[j]).idx,
        forall|i: int| 0 <= i < log.len() ==> sizes@.contains_key(#[trigger] (i as usize)) && sizes@[i as usize] == log[i].size,
        code_of(log) == Some(c), func_of(log) == Some(f), c.payload is CodeSectionStart, 0 <= c.idx < log.len(), log[c.idx] == c, code_end_of(c) <= d.len(),
        forall|k: int| 0 <= k < ks.len() ==> (#[trigger] ks[k]).size > 0, base + zsum(ks, ks.len() as int) == d.len(), base >= 0,
        items.wf(), items.size == b0.size, items.edges == b0.edges, items.size_added == base + zsum(ks, it.index() as int), functions_in(*items, d, c, f),
        forall|i: int| #![trigger ks[i]] 0 <= i < it.index() ==> own(*items, ks[i].payload, ks[i].idx),
        forall|k: Id| #[trigger] items.items@.contains_key(k) ==> k.0 == c.idx || (k.0 < log.len() && other(log[k.0 as int].payload, false) && forall|j: int| #![trigger ks[j]] it.index() <= j < ks.len() ==> k.0 < ks[j].idx),
        items.data@ == places(ks, it.index() as int),
@loopentry `Parse for ModuleReader::parse_items` 1
    let ghost j = it.index() as int; let ghost a0 = *items; let ghost s = ks[j];
    proof {
        assert(stands(ks, j, log, false)); assert(fact(d, log, s.idx));
        lemma_zsum_le(ks, j + 1, ks.len() as int);
        lemma_rooms(s, d.len() as int);
        assert(free(a0, s.idx)) by { assert forall|k: Id| #[trigger] a0.items@.contains_key(k) implies k.0 != s.idx by { assert(ks[j] == s); } }
    }
@before `Parse for ModuleReader::parse_items` size_added#1
    let ghost b1 = *items;
    proof { assert(parsed_as(a0, b1, s)); lemma_done(a0, b1, s, d.len() as int); assert(sizes@[s.idx as usize] == s.size); assert(eid(s.idx, 0xffff_ffff) != root_id()); }
@loopexit `Parse for ModuleReader::parse_items` 1
    proof {
        let it1 = items.items@[eid(s.idx, 0xffff_ffff)];
        lemma_headed(a0, b1, *items, s, it1);
        assert forall|i: int| #![trigger ks[i]] 0 <= i < j implies own(a0, ks[i].payload, ks[i].idx) && ks[i].idx != s.idx && 0 <= ks[i].idx < 0xffff_ffff by { assert(stands(ks, i, log, false)); assert(ks[i].idx < ks[j].idx); }
        lemma_owns_apart(a0, *items, s.idx, ks, j);
        lemma_functions_apart(a0, *items, s.idx, d, c, f);
    }
@looppost `Parse for ModuleReader::parse_items` 1
    proof { lemma_all_owned(*items, log); assert(whole(d, log, sts)); assert(is_log(d, log)); assert(functions_in(*items, d, c, f)); assert(items.size_added == d.len()); assert(items.data@ == places(ks, ks.len() as int)); }
@closure `Parse for ModuleReader::parse_items` 0
|| -> (r: crate::anyhow::Error)
@fn `Parse for ModuleReader::parse_edges` ret=r
    ensures r is Ok ==> linked(*old(items), *final(items), module_rel(old(self).data@, old(items).data@))
@attr `Parse for ModuleReader::parse_edges` #[verifier::rlimit(20)]
@entry `Parse for ModuleReader::parse_edges`
    let ghost d = self.data@; let ghost mut log: Seq<Step<'a>> = Seq::empty(); let ghost mut sts: Seq<PState> = seq![parser_at(0)]; let ghost a = *items; let ghost pl = payloads::<'a>(d);
    proof { axiom_parser_at(0); }
@loop `Parse for ModuleReader::parse_edges` 0
    invariant
        self.data@ == d, d.len() <= u32::MAX, again(d, log, sts), is_log(d, pl), pl == payloads::<'a>(d), self.parser@ == sts.last(), self.offset == sts.last().offset, self.offset <= d.len(), idx == log.len(), idx <= d.len(),
        secs_are(sections@, kept(log, true)), code_is(code_section, d, log), func_is(function_section, log), a == *items, module_items(a, d),
    decreases d.len() - self.offset
@loopentry `Parse for ModuleReader::parse_edges` 0
    let ghost st = self.parser@; let ghost o = self.offset as int;
    proof { lemma_run(d, log, sts, log.len() as int); }
@after `Parse for ModuleReader::parse_edges` read
    let ghost log0 = log; let ghost s = Step { idx: idx as int, start: o, size: self.offset - o, payload: section };
    proof {
        axiom_stepped(st, rest_of(d, o)); lemma_again(d, log, sts, s.size, section, self.parser@); lemma_kept_push(log, s, true);
        log = log.push(s); sts = sts.push(self.parser@);
        lemma_run(d, log, sts, log0.len() as int); lemma_run(d, log, sts, log.len() as int); assert(log.drop_last() =~= log0); assert(log.last() == s);
    }
@looppost `Parse for ModuleReader::parse_edges` 0
    let ghost ks = kept(pl, true); let ghost secs0 = sections@; let ghost c = code_of(pl)->Some_0; let ghost f = func_of(pl)->Some_0; let ghost c_n = bodies_count(d, c) as int;
    proof {
        lemma_payloads(d, log, sts); assert(log == pl); lemma_run(d, log, sts, log.len() as int); lemma_facts(d, log, sts);
        lemma_kept(pl, true); lemma_special(pl); assert(fact(d, pl, c.idx)); assert(fact(d, pl, f.idx));
        assert forall|k: int| 0 <= k < ks.len() implies #[trigger] owned_step(a, ks, k, pl) by { assert(stands(ks, k, pl, true)); assert(fact(d, pl, ks[k].idx)); }
    }
@loop `Parse for ModuleReader::parse_edges` 1 iter=it
    invariant
        it.seq() == refs(secs0), secs_are(secs0, ks), ks == kept(pl, true), ks.len() <= pl.len() <= u32::MAX, forall|k: int| 0 <= k < ks.len() ==> #[trigger] owned_step(a, ks, k, pl),
        indices.v() == spaces(ks, it.index() as int), ix_ok(indices.v(), a),
@loopentry `Parse for ModuleReader::parse_edges` 1
    let ghost j = it.index() as int; let ghost s = ks[j]; let ghost ix0 = indices.v();
    proof { assert(owned_step(a, ks, j, pl)); lemma_indexed(ix0, s, a); }
@loop `Parse for ModuleReader::parse_edges` 2 iter=it2
    invariant
        it2.seq().len() <= reader.rv().left.len() + 1, it2.seq().len() <= reader.cnt(), it2.index() <= reader.rv().left.len(), forall|q: int| 0 <= q < it2.seq().len() ==> #[trigger] it2.seq()[q].0 == q && (if q < reader.rv().left.len() { it2.seq()[q].1 is Ok && it2.seq()[q].1->Ok_0 == reader.rv().left[q].0 } else { it2.seq()[q].1 is Err }),
        *idx == s.idx, 0 <= s.idx < 0xffff_ffff,
        indices.v() == (Ix { types: push_types(ix0.types, reader.rv().left, it2.index() as int, s.idx), ..ix0 }),
@loop `Parse for ModuleReader::parse_edges` 3 iter=it3
    invariant
        it3.seq().len() <= reader.rv().left.len() + 1, it3.seq().len() <= reader.cnt(), it3.index() <= reader.rv().left.len(), forall|q: int| 0 <= q < it3.seq().len() ==> #[trigger] it3.seq()[q].0 == q && (if q < reader.rv().left.len() { it3.seq()[q].1 is Ok && it3.seq()[q].1->Ok_0 == reader.rv().left[q].0 } else { it3.seq()[q].1 is Err }),
        *idx == s.idx, 0 <= s.idx < 0xffff_ffff,
        indices.v() == push_imports(ix0, reader.rv().left, it3.index() as int, s.idx),
@loop `Parse for ModuleReader::parse_edges` 4 iter=it4
    invariant
        it4.seq().len() == reader.cnt(), forall|q: int| 0 <= q < it4.seq().len() ==> #[trigger] it4.seq()[q] == q, *idx == s.idx, 0 <= s.idx < 0xffff_ffff,
        indices.v() == (Ix { globals: push_ids(ix0.globals, it4.index() as int, s.idx), ..ix0 }),
@loop `Parse for ModuleReader::parse_edges` 5 iter=it5
    invariant
        it5.seq().len() == reader.cnt(), forall|q: int| 0 <= q < it5.seq().len() ==> #[trigger] it5.seq()[q] == q, *idx == s.idx, 0 <= s.idx < 0xffff_ffff,
        indices.v() == (Ix { memories: push_ids(ix0.memories, it5.index() as int, s.idx), ..ix0 }),
@loop `Parse for ModuleReader::parse_edges` 6 iter=it6
    invariant
        it6.seq().len() == reader.cnt(), forall|q: int| 0 <= q < it6.seq().len() ==> #[trigger] it6.seq()[q] == q, *idx == s.idx, 0 <= s.idx < 0xffff_ffff,
        indices.v() == (Ix { tables: push_ids(ix0.tables, it6.index() as int, s.idx), ..ix0 }),
@looppost `Parse for ModuleReader::parse_edges` 1
    let ghost ix1 = indices.v(); let ghost ix: Ix = module_ix(d);
@loop `Parse for ModuleReader::parse_edges` 7 iter=it7
    invariant
        it7.seq().len() == c_n, forall|q: int| 0 <= q < it7.seq().len() ==> #[trigger] it7.seq()[q] == q, code_section.index == c.idx, 0 <= c.idx < 0xffff_ffff,
        indices.v() == (Ix { functions: push_ids(ix1.functions, it7.index() as int, c.idx), code: Some(c.idx as usize), ..ix1 }),
@before `Parse for ModuleReader::parse_edges` parse_edges#0
    proof {
        assert(entered_in(a, c.idx, c_n)); lemma_push_ids(ix1.functions, c_n, c.idx, a);
        assert(ix == indices.v()); assert(ix_ok(ix, a));
    }
@looppre `Parse for ModuleReader::parse_edges` 8
    let ghost cr = code_rel(decls_of(f).left, bodies_of(d, c).left, c_n, c.idx, ix, a.data@);
    proof { assert(forall|x: Id, y: Id| !secs_edge(ks, 0, ix, x, y)); }
@loop `Parse for ModuleReader::parse_edges` 8 iter=it8
    invariant
        it8.seq() == secs0, self.data@ == d, secs_are(secs0, ks), ks == kept(pl, true), ks.len() <= pl.len() <= u32::MAX, ix == indices.v(), ix_ok(ix, a),
        forall|k: int| 0 <= k < ks.len() ==> #[trigger] owned_step(a, ks, k, pl), facts(d, pl), d.len() <= u32::MAX, forall|k: int| 0 <= k < ks.len() ==> #[trigger] stands(ks, k, pl, true),
        linked(a, *items, |x: Id, y: Id| cr(x, y) || secs_edge(ks, it8.index() as int, ix, x, y)),
@loopentry `Parse for ModuleReader::parse_edges` 8
    let ghost j = it8.index() as int; let ghost b0 = *items; let ghost s = ks[j];
    proof { assert(owned_step(a, ks, j, pl)); lemma_secs_edge(ks, j, ix); assert(stands(ks, j, pl, true)); assert(fact(d, pl, s.idx)); lemma_drawing(a, b0, s, ix, d.len() as int); }

