// Contracts assumed on std::collections::{HashMap, HashSet} (TRUSTED): maps and sets of the contents of their keys; the
// order in which they are iterated is not known.
pub mod vp_hash {
use vstd::prelude::*;
use crate::vp::*;
verus! {
/// What two equal keys share: the text of a string, the number.
pub trait VpKey { type S; spec fn vp_key(&self) -> Self::S; }
impl VpKey for str { type S = Seq<char>; open spec fn vp_key(&self) -> Seq<char> { self@ } }
impl VpKey for String { type S = Seq<char>; open spec fn vp_key(&self) -> Seq<char> { self@ } }
impl VpKey for usize { type S = usize; open spec fn vp_key(&self) -> usize { *self } }
impl<'a, T: VpKey + ?Sized> VpKey for &'a T { type S = T::S; open spec fn vp_key(&self) -> T::S { (**self).vp_key() } }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
pub struct HashSet<K> { p: core::marker::PhantomData<K> }
impl<K: VpKey, V> View for HashMap<K, V> { type V = Map<K::S, V>; uninterp spec fn view(&self) -> Map<K::S, V>; }
impl<K: VpKey> View for HashSet<K> { type V = Set<K::S>; uninterp spec fn view(&self) -> Set<K::S>; }
/// The order in which a table is iterated: some order.
pub uninterp spec fn map_order<K, V>(m: HashMap<K, V>) -> Seq<K>;
pub uninterp spec fn set_order<K>(m: HashSet<K>) -> Seq<K>;
/// Every key once, in some order.
pub open spec fn keyed<K: VpKey>(s: Seq<K>, k: K::S) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vp_key() == k }
pub open spec fn enumerates<K: VpKey>(s: Seq<K>, m: Set<K::S>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains(s[i].vp_key())
    &&& forall|k: K::S| #![trigger m.contains(k)] #![trigger keyed(s, k)] m.contains(k) ==> keyed(s, k)
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].vp_key() != s[j].vp_key()
}
impl<K: VpKey, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: HashMap<K, V>) ensures r@ == Map::<K::S, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VpKey<S = K::S> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some <==> self@.contains_key(k.vp_key()), r matches Some(v) ==> *v == self@[k.vp_key()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.vp_key(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: VpIter<&'a K>) ensures r@ == refs(map_order(*self)), enumerates(map_order(*self), self@.dom()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k.vp_key()) { old(self)@[k.vp_key()] } else { v }), final(self)@ == old(self)@.insert(k.vp_key(), *final(r))
    { unimplemented!() }
}
impl<K: VpKey, V> Default for HashMap<K, V> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Map::<K::S, V>::empty() { unimplemented!() } }
impl<K: VpKey> HashSet<K> {
    #[verifier::external_body]
    pub fn contains<Q: VpKey<S = K::S> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k.vp_key()) { unimplemented!() }
}
impl<K: VpKey> VpIt for HashSet<K> {
    type Out = VpIter<K>;
    open spec fn vp_post(&self, o: VpIter<K>) -> bool { o@ == set_order(*self) && enumerates(set_order(*self), self@) }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<K> { unimplemented!() }
}
impl<K: VpKey> VpFrom<K> for HashSet<K> {
    open spec fn vp_from_post(s: Seq<K>, r: Self) -> bool { forall|k: K::S| #[trigger] r@.contains(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vp_key() == k }
}
/// `collect()` into a `Result`: the first failure, or all the successes.
impl<T, E> VpFrom<core::result::Result<T, E>> for core::result::Result<Vec<T>, E> {
    open spec fn vp_from_post(s: Seq<core::result::Result<T, E>>, r: Self) -> bool {
        &&& r is Ok <==> forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Ok
        &&& r matches Ok(v) ==> v@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v@[i]] 0 <= i < s.len() ==> v@[i] == s[i]->Ok_0
    }
}
// ------------------------------------------------------------ the order of strings
/// Characters one by one; a proper beginning comes first.
pub open spec fn scmp_from(a: Seq<char>, b: Seq<char>, i: int) -> core::cmp::Ordering
    decreases a.len() - i
{
    if i < 0 || (i >= a.len() && i >= b.len()) { core::cmp::Ordering::Equal }
    else if i >= a.len() { core::cmp::Ordering::Less } else if i >= b.len() { core::cmp::Ordering::Greater }
    else if a[i] < b[i] { core::cmp::Ordering::Less } else if a[i] > b[i] { core::cmp::Ordering::Greater } else { scmp_from(a, b, i + 1) }
}
pub open spec fn scmp(a: Seq<char>, b: Seq<char>) -> core::cmp::Ordering { scmp_from(a, b, 0) }
pub proof fn lemma_scmp_from(a: Seq<char>, b: Seq<char>, i: int)
    requires i >= 0
    ensures scmp_from(a, b, i) is Less <==> scmp_from(b, a, i) is Greater,
        scmp_from(a, b, i) is Equal <==> scmp_from(b, a, i) is Equal,
        (scmp_from(a, b, i) is Equal && i <= a.len() && i <= b.len()) ==> a.skip(i) == b.skip(i),
    decreases a.len() - i
{
    if i < a.len() && i < b.len() && a[i] == b[i] { lemma_scmp_from(a, b, i + 1); assert(scmp_from(a, b, i) is Equal ==> a.skip(i) =~= seq![a[i]] + a.skip(i + 1) && b.skip(i) =~= seq![b[i]] + b.skip(i + 1)); }
    else if i >= a.len() && i >= b.len() { assert(i <= a.len() && i <= b.len() ==> a.skip(i) =~= b.skip(i)); }
}
pub proof fn lemma_scmp_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>, i: int)
    requires i >= 0
    ensures !(scmp_from(a, b, i) is Greater) && !(scmp_from(b, c, i) is Greater) ==> !(scmp_from(a, c, i) is Greater),
        scmp_from(a, b, i) is Equal && scmp_from(b, c, i) is Equal ==> scmp_from(a, c, i) is Equal,
    decreases a.len() - i
{ if i < a.len() && i < b.len() && i < c.len() { lemma_scmp_trans(a, b, c, i + 1); } }
pub proof fn lemma_scmp()
    ensures
        forall|a: Seq<char>, b: Seq<char>| #[trigger] scmp(a, b) is Less <==> scmp(b, a) is Greater,
        forall|a: Seq<char>, b: Seq<char>| #[trigger] scmp(a, b) is Equal <==> a == b,
        forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #![trigger scmp(a, b), scmp(b, c)] !(scmp(a, b) is Greater) && !(scmp(b, c) is Greater) ==> !(scmp(a, c) is Greater),
{
    assert forall|a: Seq<char>, b: Seq<char>| #[trigger] scmp(a, b) is Less <==> scmp(b, a) is Greater by { lemma_scmp_from(a, b, 0); }
    assert forall|a: Seq<char>, b: Seq<char>| #[trigger] scmp(a, b) is Equal <==> a == b by {
        lemma_scmp_from(a, b, 0); assert(a.skip(0) =~= a && b.skip(0) =~= b);
        if a == b { lemma_scmp_same(a, 0); }
    }
    assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #![trigger scmp(a, b), scmp(b, c)] !(scmp(a, b) is Greater) && !(scmp(b, c) is Greater) implies !(scmp(a, c) is Greater) by { lemma_scmp_trans(a, b, c, 0); }
}
pub proof fn lemma_scmp_same(a: Seq<char>, i: int)
    ensures scmp_from(a, a, i) is Equal
    decreases a.len() - i
{ if 0 <= i < a.len() { lemma_scmp_same(a, i + 1); } }
/// Strings are ordered by their characters (UTF-8 keeps that order).
#[verifier::external_body]
pub broadcast proof fn axiom_string_cmp(a: &String, b: &String) ensures #[trigger] <String as vstd::std_specs::cmp::OrdSpec>::cmp_spec(a, b) == scmp(a@, b@) {}
#[verifier::external_body]
pub broadcast proof fn axiom_string_obeys_cmp() ensures #[trigger] <String as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() {}
pub broadcast group group_strings { axiom_string_cmp, axiom_string_obeys_cmp }
/// `Ordering::then`.
pub open spec fn then(a: core::cmp::Ordering, b: core::cmp::Ordering) -> core::cmp::Ordering { if a is Equal { b } else { a } }
pub trait VpThen: Sized { spec fn vp_o(&self) -> core::cmp::Ordering; fn vp_then(self, o: core::cmp::Ordering) -> (r: core::cmp::Ordering) ensures r == then(self.vp_o(), o);
    fn vp_then_with<F: FnOnce() -> core::cmp::Ordering>(self, f: F) -> (r: core::cmp::Ordering) requires self.vp_o() is Equal ==> f.requires(()) ensures self.vp_o() is Equal ==> f.ensures((), r), !(self.vp_o() is Equal) ==> r == self.vp_o(); }
impl VpThen for core::cmp::Ordering {
    open spec fn vp_o(&self) -> core::cmp::Ordering { *self }
    #[verifier::external_body]
    fn vp_then(self, o: core::cmp::Ordering) -> (r: core::cmp::Ordering) { unimplemented!() }
    fn vp_then_with<F: FnOnce() -> core::cmp::Ordering>(self, f: F) -> (r: core::cmp::Ordering) { match self { core::cmp::Ordering::Equal => f(), o => o } }
}
} // verus!
}
