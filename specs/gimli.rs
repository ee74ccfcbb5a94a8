// Contracts assumed on gimli 0.27 and fallible_iterator (TRUSTED): what reading gives, as uninterpreted functions of the file.
pub mod object { pub trait Object { } }
pub mod typed_arena { pub struct Arena; }
pub mod fallible_iterator {
use vstd::prelude::*;
pub use crate::vp::VpIt;
use crate::gimli::Error;
verus! {
pub trait FallibleIterator { }
/// An iterator whose steps can fail: the elements before the first failure, and whether there is one.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct FIter<T> { p: core::marker::PhantomData<T> }
pub uninterp spec fn good<T>(it: FIter<T>) -> Seq<T>;
pub uninterp spec fn fails<T>(it: FIter<T>) -> bool;
impl<T> View for FIter<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { good(*self) } }
impl<T> VpIt for FIter<T> {
    type Out = FIter<T>;
    open spec fn vp_post(&self, o: FIter<T>) -> bool { o == *self }
    fn vp_it(self) -> FIter<T> { self }
}
impl<T> FIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Result<Option<T>, Error>)
        ensures
            r matches Ok(Some(x)) ==> old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first() && fails(*final(self)) == fails(*old(self)),
            r matches Ok(None) ==> old(self)@.len() == 0 && !fails(*old(self)) && *final(self) == *old(self),
            r is Err ==> fails(*old(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: FIter<(usize, T)>)
        ensures r@.len() == self@.len(), fails(r) == fails(self), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i] == (i as usize, self@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> Result<U, Error>>(self, f: F) -> (r: FIter<U>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.requires((self@[i],))
        ensures
            r@.len() <= self@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> f.ensures((self@[i],), Ok(r@[i])),
            !fails(r) ==> r@.len() == self@.len() && !fails(self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fold<A, F: Fn(A, T) -> Result<A, Error>>(self, init: A, f: F, inv: Ghost<spec_fn(int, A) -> bool>) -> (r: Result<A, Error>)
        requires
            inv@(0, init),
            forall|k: int, a: A| 0 <= k < self@.len() && #[trigger] inv@(k, a) ==> f.requires((a, self@[k])),
            forall|k: int, a: A, b: A| #![trigger inv@(k, a), f.ensures((a, self@[k]), Ok(b))] 0 <= k < self@.len() && inv@(k, a) && f.ensures((a, self@[k]), Ok(b)) ==> inv@(k + 1, b),
        ensures r matches Ok(a) ==> !fails(self) && inv@(self@.len() as int, a)
    { unimplemented!() }
}
} // verus!
}
pub mod gimli {
use vstd::prelude::*;
use crate::vp::VpIt;
pub use crate::fallible_iterator::FIter;
pub mod read { pub use super::AttributeValue; }
verus! {
pub assume_specification<T, E>[ Option::<core::result::Result<T, E>>::transpose ](o: Option<core::result::Result<T, E>>) -> (r: core::result::Result<Option<T>, E>)
    ensures r == (match o { None => Ok::<Option<T>, E>(None), Some(Ok(x)) => Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => Err::<Option<T>, E>(e) });
pub assume_specification<T, P: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, p: P) -> (r: Option<T>)
    requires o matches Some(x) ==> p.requires((&x,))
    ensures r is Some ==> r == o && p.ensures((&o->Some_0,), true), o is Some && r is None ==> p.ensures((&o->Some_0,), false);
/// `String::from(&String)`.
#[verifier::external_body]
pub broadcast proof fn axiom_string_from_ref(s: &String) ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<&String>>::from_spec(s)@ == s@ {}
#[verifier::external_body]
pub broadcast proof fn axiom_string_obeys_from_ref() ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<&String>>::obeys_from_spec() {}
/// The reflexive `From`.
#[verifier::external_body]
pub broadcast proof fn axiom_kind_from_kind(s: crate::ir::ItemKind) ensures #[trigger] <crate::ir::ItemKind as vstd::std_specs::convert::FromSpec<crate::ir::ItemKind>>::from_spec(s) == s {}
#[verifier::external_body]
pub broadcast proof fn axiom_kind_obeys_from_kind() ensures #[trigger] <crate::ir::ItemKind as vstd::std_specs::convert::FromSpec<crate::ir::ItemKind>>::obeys_from_spec() {}
#[verifier::external_body]
pub struct Error { p: core::marker::PhantomData<u8> }
impl From<Error> for crate::anyhow::Error { #[verifier::external_body] fn from(e: Error) -> crate::anyhow::Error { unimplemented!() } }
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
pub enum DwTag { DW_TAG_subprogram, DW_TAG_inlined_subroutine, DW_TAG_lexical_block, DW_TAG_variable, DW_TAG_namespace, DW_TAG_structure_type, DW_TAG_compile_unit, DW_TAG_label, DW_TAG_entry_point, Other(u16) }
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
pub enum DwAt { DW_AT_low_pc, DW_AT_high_pc, DW_AT_ranges, DW_AT_linkage_name, DW_AT_name, DW_AT_entry_pc, DW_AT_abstract_origin, DW_AT_specification, DW_AT_byte_size, DW_AT_declaration, Other(u16) }
pub use self::DwTag::*;
pub use self::DwAt::{DW_AT_low_pc, DW_AT_high_pc, DW_AT_ranges, DW_AT_linkage_name, DW_AT_name, DW_AT_entry_pc, DW_AT_abstract_origin, DW_AT_specification, DW_AT_byte_size, DW_AT_declaration};
pub trait Reader: Sized { type Offset: Copy; spec fn str_of(&self) -> Seq<char>;
    /// The bytes as text.
    fn vp_to_string(&self) -> (r: Result<Text, Error>) ensures r matches Ok(s) ==> s.s@ == self.str_of(); }
pub struct Text { pub s: String }
impl Text { #[verifier::external_body] pub fn vp_to_string(&self) -> (r: String) ensures r@ == self.s@ { unimplemented!() } }
#[derive(Clone, Copy)]
pub struct RawRangeListsOffset<T>(pub T);
#[derive(Clone, Copy)]
pub struct RangeListsOffset<T>(pub T);
pub enum AttributeValue<R: Reader, O = <R as Reader>::Offset> {
    Addr(u64), Block(R), Data1(u8), Data2(u16), Data4(u32), Data8(u64), Sdata(i64), Udata(u64), Flag(bool), SecOffset(O), RangeListsRef(RawRangeListsOffset<O>), String(R), Other(u64),
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(O)]
pub struct DebuggingInformationEntry<R: Reader, O = <R as Reader>::Offset> { p: core::marker::PhantomData<(R, O)> }
impl<R: Reader, O> DebuggingInformationEntry<R, O> {
    pub uninterp spec fn tag_of(&self) -> DwTag;
    pub uninterp spec fn attr(&self, a: DwAt) -> Option<AttributeValue<R, O>>;
    #[verifier::external_body]
    pub fn tag(&self) -> (r: DwTag) ensures r == self.tag_of() { unimplemented!() }
    #[verifier::external_body]
    pub fn attr_value(&self, name: DwAt) -> (r: Result<Option<AttributeValue<R, O>>, Error>) ensures r matches Ok(v) ==> v == self.attr(name) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct UnitHeader<R: Reader> { p: core::marker::PhantomData<R> }
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Unit<R: Reader> { p: core::marker::PhantomData<R> }
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Dwarf<R: Reader> { p: core::marker::PhantomData<R> }
pub struct Range { pub begin: u64, pub end: u64 }
/// The entries of a unit in depth-first order, each with how much deeper it is than the one before.
pub open spec fn depth_at<E>(s: Seq<(isize, E)>, k: int) -> int
    decreases k
{ if k <= 0 || k > s.len() { 0 } else { depth_at(s, k - 1) + s[k - 1].0 } }
impl<R: Reader> Unit<R> {
    pub uninterp spec fn dies(&self) -> Seq<(isize, DebuggingInformationEntry<R>)>;
    #[verifier::external_body]
    pub fn entries(&self) -> (r: EntriesCursor<R>) ensures r@ == self.dies() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct EntriesCursor<R: Reader> { p: core::marker::PhantomData<R> }
impl<R: Reader> View for EntriesCursor<R> { type V = Seq<(isize, DebuggingInformationEntry<R>)>; uninterp spec fn view(&self) -> Seq<(isize, DebuggingInformationEntry<R>)>; }
impl<R: Reader> EntriesCursor<R> {
    #[verifier::external_body]
    pub fn next_dfs(&mut self) -> (r: Result<Option<(isize, &DebuggingInformationEntry<R>)>, Error>)
        ensures
            r matches Ok(Some(x)) ==> old(self)@.len() > 0 && x.0 == old(self)@[0].0 && *x.1 == old(self)@[0].1 && final(self)@ == old(self)@.drop_first(),
            r matches Ok(None) ==> old(self)@.len() == 0,
    { unimplemented!() }
}
/// A unit has fewer than 2^32-1 entries, and depths are counts of entries.
pub broadcast axiom fn axiom_dies<R: Reader>(u: Unit<R>)
    ensures (#[trigger] u.dies()).len() < 0xffff_ffff, forall|i: int, k: int| 0 <= i <= k <= u.dies().len() ==> -0x1_0000_0000 < #[trigger] depth_at(u.dies(), k) - #[trigger] depth_at(u.dies(), i) < 0x1_0000_0000;
/// Bytes covered by the first `k` ranges.
pub open spec fn covered(s: Seq<Range>, k: int) -> int
    decreases k
{ if k <= 0 || k > s.len() { 0 } else { covered(s, k - 1) + (s[k - 1].end - s[k - 1].begin) } }
impl<R: Reader> Dwarf<R> {
    pub uninterp spec fn headers(&self) -> Seq<UnitHeader<R>>;
    pub uninterp spec fn unit_of(&self, h: UnitHeader<R>) -> Unit<R>;
    pub uninterp spec fn range_offset(&self, u: Unit<R>, o: RawRangeListsOffset<R::Offset>) -> RangeListsOffset<R::Offset>;
    pub uninterp spec fn ranges_at(&self, u: Unit<R>, o: RangeListsOffset<R::Offset>) -> Seq<Range>;
    pub uninterp spec fn text_of(&self, u: Unit<R>, a: AttributeValue<R>) -> Seq<char>;
    /// There are fewer than 2^32-1 units.
    #[verifier::external_body]
    pub fn units(&self) -> (r: FIter<UnitHeader<R>>) ensures r@.len() < 0xffff_ffff, !crate::fallible_iterator::fails(r) ==> r@ == self.headers(), r@.is_prefix_of(self.headers()) { unimplemented!() }
    #[verifier::external_body]
    pub fn unit(&self, h: UnitHeader<R>) -> (r: Result<Unit<R>, Error>) ensures r matches Ok(u) ==> u == self.unit_of(h) { unimplemented!() }
    #[verifier::external_body]
    pub fn ranges_offset_from_raw(&self, u: &Unit<R>, o: RawRangeListsOffset<R::Offset>) -> (r: RangeListsOffset<R::Offset>) ensures r == self.range_offset(*u, o) { unimplemented!() }
    /// Ranges end no earlier than they begin: gimli makes the others an error.
    #[verifier::external_body]
    pub fn ranges(&self, u: &Unit<R>, o: RangeListsOffset<R::Offset>) -> (r: Result<FIter<Range>, Error>)
        ensures r matches Ok(it) ==> it@.is_prefix_of(self.ranges_at(*u, o)) && (!crate::fallible_iterator::fails(it) ==> it@ == self.ranges_at(*u, o)) && forall|i: int| #![trigger it@[i]] 0 <= i < it@.len() ==> it@[i].begin <= it@[i].end
    { unimplemented!() }
    #[verifier::external_body]
    pub fn attr_string(&self, u: &Unit<R>, a: AttributeValue<R>) -> (r: Result<R, Error>) ensures r matches Ok(x) ==> x.str_of() == self.text_of(*u, a) { unimplemented!() }
}
} // verus!
}
