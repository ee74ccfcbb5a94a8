// Contracts assumed on the standard library and helper vocabulary.  Everything `external_body` here is TRUSTED: it is
// the specification of a std function (named after it) that the verified code calls.
pub mod vp {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
verus! {
global size_of usize == 8;

/// panic!/unreachable!: reaching it is an obligation failure.
#[verifier::external_body]
pub fn vp_panic() -> ! requires false { unimplemented!() }
/// assert!/debug_assert!/assert_eq!: the condition is an obligation.
pub fn vp_assert(b: bool) requires b, ensures b { }

/// assert! in units that treat a panic as a rejection: execution continues only if the condition holds.
#[verifier::external_body]
pub fn vp_check(b: bool) ensures b { unimplemented!() }

/// The sequence of elements an iterator yields.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VpIter<T> { p: core::marker::PhantomData<T> }
impl<T> View for VpIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Iterator for VpIter<T> {
    type Item = T;
    #[verifier::external_body]
    fn next(&mut self) -> Option<T> { unimplemented!() }
}
impl<T> vstd::std_specs::iter::IteratorSpecImpl for VpIter<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<T> { self@ }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self@.len()) }
    open spec fn peek(&self, i: int) -> Option<T> { if 0 <= i < self@.len() { Some(self@[i]) } else { None } }
}
impl<T> Clone for VpIter<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}

pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }

/// `p` computes the predicate `q` on every element.
pub open spec fn computes_pred<T, F: Fn(&T) -> bool>(f: F, s: Seq<T>, q: spec_fn(T) -> bool) -> bool {
    forall|i: int, b: bool| 0 <= i < s.len() && #[trigger] f.ensures((&s[i],), b) ==> b == q(s[i])
}
pub open spec fn computes_map<T, B, F: Fn(T) -> B>(f: F, s: Seq<T>, q: spec_fn(T) -> B) -> bool {
    forall|i: int, b: B| 0 <= i < s.len() && #[trigger] f.ensures((s[i],), b) ==> b == q(s[i])
}

impl<T> VpIter<T> {
    #[verifier::external_body]
    pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: VpIter<B>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.requires((self@[i],)),
        ensures r@.len() == self@.len(),
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> f.ensures((self@[i],), r@[i]),
            forall|q: spec_fn(T) -> B| #![trigger self@.map_values(q)] computes_map(f, self@, q) ==> r@ == self@.map_values(q),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VpIter<T>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.requires((&self@[i],)),
        ensures
            r@.len() <= self@.len(),
            forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> self@.contains(r@[i]) && f.ensures((&r@[i],), true),
            forall|q: spec_fn(T) -> bool| #![trigger self@.filter(q)] computes_pred(f, self@, q) ==> r@ == self@.filter(q),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<B, F: Fn(T) -> Option<B>>(self, f: F) -> (r: VpIter<B>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.requires((self@[i],)),
        ensures
            forall|q: spec_fn(T) -> Option<B>| #![trigger filter_map_seq(self@, q)]
                (forall|i: int, b: Option<B>| 0 <= i < self@.len() && #[trigger] f.ensures((self@[i],), b) ==> b == q(self@[i]))
                ==> r@ == filter_map_seq(self@, q),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flat_map<B, F: Fn(T) -> VpIter<B>>(self, f: F) -> (r: VpIter<B>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.requires((self@[i],)),
        ensures
            forall|q: spec_fn(T) -> Seq<B>| #![trigger flat_map_seq(self@, q)]
                (forall|i: int, b: VpIter<B>| 0 <= i < self@.len() && #[trigger] f.ensures((self@[i],), b) ==> b@ == q(self@[i]))
                ==> r@ == flat_map_seq(self@, q),
            exists|bs: Seq<VpIter<B>>| #[trigger] parts_of(f, self@, bs) && r@ == concat(bs),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<I: VpIt<Out = VpIter<T>>>(self, other: I) -> (r: VpIter<T>)
        ensures exists|o: VpIter<T>| #[trigger] other.vp_post(o) && r@ == self@ + o@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<B, I: VpIt<Out = VpIter<B>>>(self, other: I) -> (r: VpIter<(T, B)>)
        ensures exists|o: VpIter<B>| #[trigger] other.vp_post(o) && r@ == zip_seq(self@, o@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VpIter<(usize, T)>)
        ensures r@.len() == self@.len(), self@.len() <= usize::MAX, forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i] == ((i as usize), self@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VpIter<T>)
        ensures r@ == (if n < self@.len() { self@.take(n as int) } else { self@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VpIter<T>)
        ensures r@ == (if n < self@.len() { self@.skip(n as int) } else { Seq::empty() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VpIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.requires((&self@[i],)),
        ensures
            forall|q: spec_fn(T) -> bool| #![trigger find_seq(self@, q)] computes_pred(f, self@, q) ==> r == find_seq(self@, q),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.requires((self@[i],)),
        ensures r ==> forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((self@[i],), true),
            !r ==> exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && f.ensures((self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.requires((self@[i],)),
        ensures !r ==> forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((self@[i],), false),
            r ==> exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && f.ensures((self@[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) ensures r == (if self@.len() > 0 { Some(self@.last()) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: VpFrom<T>>(self) -> (r: C) ensures C::vp_from_post(self@, r) { unimplemented!() }
}
impl<'a, T: Clone> VpIter<&'a T> {
    /// `.cloned()`/`.copied()` on Copy element types.
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VpIter<T>) where T: Copy
        ensures r@ == self@.map_values(|x: &'a T| *x) { unimplemented!() }
    #[verifier::external_body]
    pub fn copied(self) -> (r: VpIter<T>) where T: Copy
        ensures r@ == self@.map_values(|x: &'a T| *x) { unimplemented!() }
}

pub open spec fn filter_map_seq<T, B>(s: Seq<T>, q: spec_fn(T) -> Option<B>) -> Seq<B>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let p = filter_map_seq(s.drop_last(), q);
        match q(s.last()) { Some(b) => p.push(b), None => p }
    }
}
/// Boxing an iterator does not change it.
pub fn vp_boxed<T>(x: VpIter<T>) -> (r: VpIter<T>) ensures r == x { x }
/// What `f` makes of each element.
pub open spec fn parts_of<T, B, F: Fn(T) -> VpIter<B>>(f: F, s: Seq<T>, bs: Seq<VpIter<B>>) -> bool { bs.len() == s.len() && forall|i: int| #![trigger bs[i]] 0 <= i < s.len() ==> f.ensures((s[i],), bs[i]) }
pub open spec fn concat<B>(bs: Seq<VpIter<B>>) -> Seq<B>
    decreases bs.len()
{ if bs.len() == 0 { Seq::empty() } else { concat(bs.drop_last()) + bs.last()@ } }
pub open spec fn flat_map_seq<T, B>(s: Seq<T>, q: spec_fn(T) -> Seq<B>) -> Seq<B>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { flat_map_seq(s.drop_last(), q) + q(s.last()) }
}
pub open spec fn zip_seq<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> {
    Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i]))
}
pub open spec fn find_seq<T>(s: Seq<T>, q: spec_fn(T) -> bool) -> Option<T>
    decreases s.len()
{
    if s.len() == 0 { None } else if q(s[0]) { Some(s[0]) } else { find_seq(s.drop_first(), q) }
}

/// `into_iter` / the iterator itself / `Option` adaptors.
pub trait VpIt: Sized {
    type Out;
    #[verifier::prophetic]
    spec fn vp_post(&self, o: Self::Out) -> bool;
    fn vp_it(self) -> (r: Self::Out) ensures self.vp_post(r);
}
impl<T> VpIt for VpIter<T> {
    type Out = VpIter<T>;
    open spec fn vp_post(&self, o: VpIter<T>) -> bool { o@ == self@ }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<T> { unimplemented!() }
}
impl<T> VpIt for Option<T> {
    type Out = Option<T>;
    open spec fn vp_post(&self, o: Option<T>) -> bool { o == *self }
    #[verifier::external_body]
    fn vp_it(self) -> Option<T> { unimplemented!() }
}
impl<T, E> VpIt for Result<T, E> {
    type Out = Result<T, E>;
    open spec fn vp_post(&self, o: Result<T, E>) -> bool { o == *self }
    #[verifier::external_body]
    fn vp_it(self) -> Result<T, E> { unimplemented!() }
}
impl<T> VpIt for Vec<T> {
    type Out = VpIter<T>;
    open spec fn vp_post(&self, o: VpIter<T>) -> bool { o@ == self@ }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<T> { unimplemented!() }
}
impl<'a, T> VpIt for &'a Vec<T> {
    type Out = VpIter<&'a T>;
    open spec fn vp_post(&self, o: VpIter<&'a T>) -> bool { o@ == refs((*self)@) }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<&'a T> { unimplemented!() }
}
impl<'a, T> VpIt for &'a [T] {
    type Out = VpIter<&'a T>;
    open spec fn vp_post(&self, o: VpIter<&'a T>) -> bool { o@ == refs((*self)@) }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<&'a T> { unimplemented!() }
}
impl<'a, T> VpIt for core::slice::Iter<'a, T> {
    type Out = VpIter<&'a T>;
    #[verifier::prophetic]
    open spec fn vp_post(&self, o: VpIter<&'a T>) -> bool { o@ == self.remaining() }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<&'a T> { unimplemented!() }
}
impl VpIt for core::ops::Range<u32> {
    type Out = VpIter<u32>;
    open spec fn vp_post(&self, o: VpIter<u32>) -> bool { o@ == Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as u32) }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<u32> { unimplemented!() }
}

/// Ordered maps and sets iterate in increasing key order, each key once.
pub open spec fn increasing<K: Ord>(s: Seq<K>) -> bool { vstd::std_specs::btree::increasing_seq(s) }
pub open spec fn map_seq<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(s[i].0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #![trigger m.contains_key(k)] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> s[i].0 != s[j].0
}
pub open spec fn set_seq<K>(m: Set<K>, s: Seq<K>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains(s[i])
    &&& forall|k: K| #![trigger m.contains(k)] m.contains(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == k
    &&& s.no_duplicates()
}
/// The canonical (increasing) enumeration of an ordered map / set.
pub uninterp spec fn btree_pairs<K, V>(m: Map<K, V>) -> Seq<(K, V)>;
pub uninterp spec fn btree_elems<K>(m: Set<K>) -> Seq<K>;
pub open spec fn keys_of<K, V>(s: Seq<(K, V)>) -> Seq<K> { s.map_values(|p: (K, V)| p.0) }
#[verifier::external_body]
pub broadcast proof fn axiom_btree_pairs<K: Ord, V>(m: Map<K, V>)
    requires vstd::std_specs::btree::key_obeys_cmp_spec::<K>(),
    ensures map_seq(m, #[trigger] btree_pairs::<K, V>(m)), increasing(keys_of(btree_pairs::<K, V>(m)))
{}
#[verifier::external_body]
pub broadcast proof fn axiom_btree_elems<K: Ord>(m: Set<K>)
    requires vstd::std_specs::btree::key_obeys_cmp_spec::<K>(),
    ensures set_seq(m, #[trigger] btree_elems::<K>(m)), increasing(btree_elems::<K>(m))
{}
pub open spec fn pair_refs<'a, K, V>(s: Seq<(K, V)>) -> Seq<(&'a K, &'a V)> { s.map_values(|p: (K, V)| (&p.0, &p.1)) }
impl<K, V> VpIt for BTreeMap<K, V> {
    type Out = VpIter<(K, V)>;
    open spec fn vp_post(&self, o: VpIter<(K, V)>) -> bool { o@ == btree_pairs(self@) }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<(K, V)> { unimplemented!() }
}
impl<'a, K, V> VpIt for &'a BTreeMap<K, V> {
    type Out = VpIter<(&'a K, &'a V)>;
    open spec fn vp_post(&self, o: VpIter<(&'a K, &'a V)>) -> bool { o@ == pair_refs(btree_pairs((*self)@)) }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<(&'a K, &'a V)> { unimplemented!() }
}
impl<K> VpIt for BTreeSet<K> {
    type Out = VpIter<K>;
    open spec fn vp_post(&self, o: VpIter<K>) -> bool { o@ == btree_elems(self@) }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<K> { unimplemented!() }
}
impl<'a, K> VpIt for &'a BTreeSet<K> {
    type Out = VpIter<&'a K>;
    open spec fn vp_post(&self, o: VpIter<&'a K>) -> bool { o@ == refs(btree_elems((*self)@)) }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<&'a K> { unimplemented!() }
}

impl<'a, K, V> VpIt for std::collections::btree_map::Iter<'a, K, V> {
    type Out = VpIter<(&'a K, &'a V)>;
    #[verifier::prophetic]
    open spec fn vp_post(&self, o: VpIter<(&'a K, &'a V)>) -> bool { o@ == self.remaining() }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<(&'a K, &'a V)> { unimplemented!() }
}
impl<'a, K> VpIt for std::collections::btree_set::Iter<'a, K> {
    type Out = VpIter<&'a K>;
    #[verifier::prophetic]
    open spec fn vp_post(&self, o: VpIter<&'a K>) -> bool { o@ == self.remaining() }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<&'a K> { unimplemented!() }
}

/// `String::from(&str)` and the reflexive `From`.
#[verifier::external_body]
pub broadcast proof fn axiom_string_from_str(s: &str)
    ensures <String as vstd::std_specs::convert::FromSpec<&str>>::obeys_from_spec(), #[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::from_spec(s)@ == s@
{}
#[verifier::external_body]
pub broadcast proof fn axiom_string_obeys_from_str()
    ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::obeys_from_spec()
{}
#[verifier::external_body]
pub broadcast proof fn axiom_string_from_string(s: String)
    ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<String>>::from_spec(s) == s
{}
#[verifier::external_body]
pub broadcast proof fn axiom_string_obeys_from_string()
    ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<String>>::obeys_from_spec()
{}
pub broadcast group group_vp {
    axiom_btree_pairs, axiom_btree_elems, axiom_string_from_str, axiom_string_obeys_from_str, axiom_string_from_string, axiom_string_obeys_from_string,
}

/// A `str` is its characters (used where the code matches on string literals).
#[verifier::external_body]
pub proof fn axiom_str_ext(a: &str, b: &str) ensures a@ == b@ ==> a == b {}

/// `cmp::max`, `cmp::min`.
#[verifier::external_body]
pub fn vp_max<T: Ord>(a: T, b: T) -> (r: T) ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) is Greater { a } else { b }) { unimplemented!() }
#[verifier::external_body]
pub fn vp_min<T: Ord>(a: T, b: T) -> (r: T) ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) is Greater { b } else { a }) { unimplemented!() }
/// `x.get(a..b)` on slices, and comparing the result.
/// Slicing bytes.
pub trait VpBytes {
    spec fn vp_all(&self) -> Seq<u8>;
    fn vp_slice_from(&self, a: usize) -> (r: &[u8]) requires a <= self.vp_all().len() ensures r@ == self.vp_all().subrange(a as int, self.vp_all().len() as int);
    fn vp_slice_to(&self, b: usize) -> (r: &[u8]) requires b <= self.vp_all().len() ensures r@ == self.vp_all().subrange(0, b as int);
    fn vp_slice(&self, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= self.vp_all().len() ensures r@ == self.vp_all().subrange(a as int, b as int);
    fn vp_slice_all(&self) -> (r: &[u8]) ensures r@ == self.vp_all();
}
impl VpBytes for [u8] {
    open spec fn vp_all(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vp_slice_from(&self, a: usize) -> (r: &[u8]) { &self[a..] }
    #[verifier::external_body]
    fn vp_slice_to(&self, b: usize) -> (r: &[u8]) { &self[..b] }
    #[verifier::external_body]
    fn vp_slice(&self, a: usize, b: usize) -> (r: &[u8]) { &self[a..b] }
    #[verifier::external_body]
    fn vp_slice_all(&self) -> (r: &[u8]) { &self[..] }
}
impl<const N: usize> VpBytes for [u8; N] {
    open spec fn vp_all(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vp_slice_from(&self, a: usize) -> (r: &[u8]) { &self[a..] }
    #[verifier::external_body]
    fn vp_slice_to(&self, b: usize) -> (r: &[u8]) { &self[..b] }
    #[verifier::external_body]
    fn vp_slice(&self, a: usize, b: usize) -> (r: &[u8]) { &self[a..b] }
    #[verifier::external_body]
    fn vp_slice_all(&self) -> (r: &[u8]) { &self[..] }
}
pub trait VpGetRange { fn vp_get_range(&self, a: usize, b: usize) -> (r: Option<&[u8]>) ensures vp_got(self.vp_bytes(), a, b, r); spec fn vp_bytes(&self) -> Seq<u8>; }
pub open spec fn vp_got(s: Seq<u8>, a: usize, b: usize, r: Option<&[u8]>) -> bool {
    if a <= b <= s.len() { r is Some && r->Some_0@ == s.subrange(a as int, b as int) } else { r is None }
}
impl VpGetRange for [u8] { open spec fn vp_bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vp_get_range(&self, a: usize, b: usize) -> (r: Option<&[u8]>) { unimplemented!() } }
#[verifier::external_body]
pub fn vp_bytes_eq<A: VpBytes + ?Sized, B: VpBytes + ?Sized>(a: Option<&A>, b: Option<&B>) -> (r: bool)
    ensures r == (match (a, b) { (Some(x), Some(y)) => x.vp_all() == y.vp_all(), (None, None) => true, _ => false }) { unimplemented!() }
/// Comparing slices and arrays of bytes, and strings.
pub trait VpSeqd { type T; spec fn vp_sq(&self) -> Seq<Self::T>; }
impl VpSeqd for [u8] { type T = u8; open spec fn vp_sq(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VpSeqd for [u8; N] { type T = u8; open spec fn vp_sq(&self) -> Seq<u8> { self@ } }
impl VpSeqd for str { type T = char; open spec fn vp_sq(&self) -> Seq<char> { self@ } }
impl VpSeqd for String { type T = char; open spec fn vp_sq(&self) -> Seq<char> { self@ } }
impl<'a, X: VpSeqd + ?Sized> VpSeqd for &'a X { type T = X::T; open spec fn vp_sq(&self) -> Seq<X::T> { (**self).vp_sq() } }
#[verifier::external_body]
pub fn vp_seq_eq<A: VpSeqd + ?Sized, B: VpSeqd<T = A::T> + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.vp_sq() == b.vp_sq()) { unimplemented!() }
/// `starts_with` on bytes.
pub trait VpStarts { fn vp_starts_with(&self, p: &[u8]) -> (r: bool); }
impl VpStarts for [u8] {
    #[verifier::external_body]
    fn vp_starts_with(&self, p: &[u8]) -> (r: bool) ensures r == (p@.len() <= self@.len() && self@.subrange(0, p@.len() as int) == p@) { unimplemented!() }
}
/// Constructors, as functions.
pub fn vp_some<T>(x: T) -> (r: Option<T>) ensures r == Some(x) { Some(x) }
pub fn vp_ok_of<T, E>(x: T) -> (r: Result<T, E>) ensures r == Ok::<T, E>(x) { Ok(x) }
/// `Option` methods without a vstd contract.
pub trait VpOption<T> {
    spec fn vp_opt(&self) -> Option<T>;
    fn vp_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> (r: U) where Self: Sized
        requires self.vp_opt() is Some ==> f.requires((self.vp_opt()->Some_0,)), self.vp_opt() is None ==> default.requires(()),
        ensures self.vp_opt() matches Some(x) ==> f.ensures((x,), r), self.vp_opt() is None ==> default.ensures((), r);
}
impl<T> VpOption<T> for Option<T> {
    open spec fn vp_opt(&self) -> Option<T> { *self }
    #[verifier::external_body]
    fn vp_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> (r: U) { unimplemented!() }
}

/// `.iter()` on std collections.
pub trait VpIterSlice<T> {
    spec fn vp_iter_seq<'a>(&'a self) -> Seq<&'a T>;
    fn vp_iter<'a>(&'a self) -> (r: core::slice::Iter<'a, T>) ensures r.remaining() == self.vp_iter_seq(), r.obeys_prophetic_iter_laws(), r.will_return_none();
}
impl<T> VpIterSlice<T> for Vec<T> {
    open spec fn vp_iter_seq<'a>(&'a self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (r: core::slice::Iter<'a, T>) { unimplemented!() }
}
impl<T> VpIterSlice<T> for [T] {
    open spec fn vp_iter_seq<'a>(&'a self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (r: core::slice::Iter<'a, T>) { unimplemented!() }
}
impl<T, const N: usize> VpIterSlice<T> for [T; N] {
    open spec fn vp_iter_seq<'a>(&'a self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (r: core::slice::Iter<'a, T>) { unimplemented!() }
}
pub trait VpIterMap<K, V> {
    spec fn vp_iter_seq<'a>(&'a self) -> Seq<(&'a K, &'a V)>;
    fn vp_iter<'a>(&'a self) -> (r: std::collections::btree_map::Iter<'a, K, V>) ensures r.remaining() == self.vp_iter_seq(), r.obeys_prophetic_iter_laws(), r.will_return_none();
}
impl<K, V> VpIterMap<K, V> for BTreeMap<K, V> {
    open spec fn vp_iter_seq<'a>(&'a self) -> Seq<(&'a K, &'a V)> { pair_refs(btree_pairs(self@)) }
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (r: std::collections::btree_map::Iter<'a, K, V>) { unimplemented!() }
}
pub trait VpIterSet<K> {
    spec fn vp_iter_seq<'a>(&'a self) -> Seq<&'a K>;
    fn vp_iter<'a>(&'a self) -> (r: std::collections::btree_set::Iter<'a, K>) ensures r.remaining() == self.vp_iter_seq(), r.obeys_prophetic_iter_laws(), r.will_return_none();
}
impl<K> VpIterSet<K> for BTreeSet<K> {
    open spec fn vp_iter_seq<'a>(&'a self) -> Seq<&'a K> { refs(btree_elems(self@)) }
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (r: std::collections::btree_set::Iter<'a, K>) { unimplemented!() }
}
/// `map[&k]`.
pub trait VpAt<K> {
    type Out;
    spec fn vp_at_req(&self, k: K) -> bool;
    spec fn vp_at_spec(&self, k: K) -> Self::Out;
    fn vp_at(&self, k: &K) -> (r: &Self::Out) requires self.vp_at_req(*k), ensures *r == self.vp_at_spec(*k);
}
impl<K: Ord, V> VpAt<K> for BTreeMap<K, V> {
    type Out = V;
    open spec fn vp_at_req(&self, k: K) -> bool { vstd::std_specs::btree::key_obeys_cmp_spec::<K>() && self@.contains_key(k) }
    open spec fn vp_at_spec(&self, k: K) -> V { self@[k] }
    #[verifier::external_body]
    fn vp_at(&self, k: &K) -> (r: &V) { unimplemented!() }
}

pub proof fn lemma_filter<T>(s: Seq<T>, q: spec_fn(T) -> bool)
    ensures
        s.filter(q).len() <= s.len(),
        forall|i: int| #![trigger s.filter(q)[i]] 0 <= i < s.filter(q).len() ==> q(s.filter(q)[i]) && s.contains(s.filter(q)[i]),
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() && q(s[i]) ==> s.filter(q).contains(s[i]),
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_filter(t, q);
        let f = s.filter(q); let g = t.filter(q);
        assert forall|i: int| #![trigger f[i]] 0 <= i < f.len() implies q(f[i]) && s.contains(f[i]) by {
            if i < g.len() { assert(f[i] == g[i]); let j = choose|j: int| 0 <= j < t.len() && t[j] == g[i]; assert(s[j] == f[i]); }
            else { assert(s[s.len() - 1] == f[i]); }
        }
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() && q(s[i]) implies f.contains(s[i]) by {
            if i < t.len() { assert(t[i] == s[i]); let j = choose|j: int| 0 <= j < g.len() && g[j] == t[i]; assert(f[j] == s[i]); }
            else { assert(f[f.len() - 1] == s[i]); }
        }
    }
}
/// `map.range(lo..)`: the entries with a key from `lo` on, in increasing order.
pub trait VpBounds { spec fn vp_in(&self, k: u64) -> bool; }
impl VpBounds for core::ops::RangeFrom<u64> { open spec fn vp_in(&self, k: u64) -> bool { k >= self.start } }
impl VpBounds for core::ops::RangeToInclusive<u64> { open spec fn vp_in(&self, k: u64) -> bool { k <= self.end } }
impl VpBounds for core::ops::RangeTo<u64> { open spec fn vp_in(&self, k: u64) -> bool { k < self.end } }
pub trait VpRange<V> {
    spec fn vp_pairs(&self) -> Seq<(u64, V)>;
    fn vp_range<'a, B: VpBounds>(&'a self, b: B) -> (r: VpIter<(&'a u64, &'a V)>) ensures r@ == pair_refs(self.vp_pairs().filter(|p: (u64, V)| b.vp_in(p.0)));
}
impl<V> VpRange<V> for BTreeMap<u64, V> {
    open spec fn vp_pairs(&self) -> Seq<(u64, V)> { btree_pairs(self@) }
    #[verifier::external_body]
    fn vp_range<'a, B: VpBounds>(&'a self, b: B) -> (r: VpIter<(&'a u64, &'a V)>) { unimplemented!() }
}

/// `collect()`.
pub trait VpFrom<T>: Sized { spec fn vp_from_post(s: Seq<T>, r: Self) -> bool; }
impl<T> VpFrom<T> for Vec<T> { open spec fn vp_from_post(s: Seq<T>, r: Self) -> bool { r@ == s } }
impl<K: Ord, V> VpFrom<(K, V)> for BTreeMap<K, V> {
    open spec fn vp_from_post(s: Seq<(K, V)>, r: Self) -> bool {
        // later entries overwrite earlier ones
        &&& forall|k: K| #[trigger] r@.contains_key(k) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k
        &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() && (forall|j: int| #![trigger s[j]] i < j < s.len() ==> s[j].0 != s[i].0) ==> r@[s[i].0] == s[i].1
    }
}
impl<K: Ord> VpFrom<K> for BTreeSet<K> {
    open spec fn vp_from_post(s: Seq<K>, r: Self) -> bool { forall|k: K| #[trigger] r@.contains(k) <==> s.contains(k) }
}

/// `entry(k).or_insert_with(f)` / `.or_insert(v)`.
pub trait VpEntry<K, V> {
    spec fn vp_view(&self) -> Map<K, V>;
    spec fn vp_ok() -> bool;
    fn vp_entry_or_insert_with<F: FnOnce() -> V>(&mut self, k: K, f: F) -> (r: &mut V)
        requires f.requires(()), Self::vp_ok(),
        ensures
            old(self).vp_view().contains_key(k) ==> *r == old(self).vp_view()[k],
            !old(self).vp_view().contains_key(k) ==> f.ensures((), *r),
            final(self).vp_view() == old(self).vp_view().insert(k, *final(r));
    fn vp_entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
        requires Self::vp_ok(),
        ensures
            *r == (if old(self).vp_view().contains_key(k) { old(self).vp_view()[k] } else { v }),
            final(self).vp_view() == old(self).vp_view().insert(k, *final(r));
}
impl<K: Ord, V> VpEntry<K, V> for BTreeMap<K, V> {
    open spec fn vp_view(&self) -> Map<K, V> { self@ }
    open spec fn vp_ok() -> bool { vstd::std_specs::btree::key_obeys_cmp_spec::<K>() }
    #[verifier::external_body]
    fn vp_entry_or_insert_with<F: FnOnce() -> V>(&mut self, k: K, f: F) -> (r: &mut V) { unimplemented!() }
    #[verifier::external_body]
    fn vp_entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V) { unimplemented!() }
}

} // verus!
}
