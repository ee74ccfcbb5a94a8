// Contracts assumed on std::collections::BTreeMap with string keys (TRUSTED): a map of the contents of its keys,
// iterated in the order of strings.
pub mod vp_tree {
use vstd::prelude::*;
use crate::vp::*;
use crate::vp_hash::*;
verus! {
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K: VpKey, V> View for BTreeMap<K, V> { type V = Map<K::S, V>; uninterp spec fn view(&self) -> Map<K::S, V>; }
/// The entries in the order of their keys.
pub open spec fn is_pairs<K: VpKey<S = Seq<char>>, V>(m: Map<Seq<char>, V>, s: Seq<(K, V)>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(s[i].0.vp_key()) && m[s[i].0.vp_key()] == s[i].1
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.vp_key() == k
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> scmp(s[i].0.vp_key(), s[j].0.vp_key()) is Less
}
impl<K: VpKey, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: BTreeMap<K, V>) ensures r@ == Map::<K::S, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_entry_or_insert_with<F: FnOnce() -> V>(&mut self, k: K, f: F) -> (r: &mut V)
        requires f.requires(()),
        ensures
            old(self)@.contains_key(k.vp_key()) ==> *r == old(self)@[k.vp_key()],
            !old(self)@.contains_key(k.vp_key()) ==> f.ensures((), *r),
            final(self)@ == old(self)@.insert(k.vp_key(), *final(r))
    { unimplemented!() }
}
impl<K: VpKey<S = Seq<char>>, V> VpIt for BTreeMap<K, V> {
    type Out = VpIter<(K, V)>;
    open spec fn vp_post(&self, o: VpIter<(K, V)>) -> bool { is_pairs(self@, o@) }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<(K, V)> { unimplemented!() }
}
impl<K: VpKey<S = Seq<char>>, V> VpFrom<(K, V)> for BTreeMap<K, V> {
    open spec fn vp_from_post(s: Seq<(K, V)>, r: Self) -> bool {
        // later entries overwrite earlier ones
        &&& forall|k: Seq<char>| #[trigger] r@.contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.vp_key() == k
        &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() && (forall|j: int| #![trigger s[j]] i < j < s.len() ==> s[j].0.vp_key() != s[i].0.vp_key()) ==> r@[s[i].0.vp_key()] == s[i].1
    }
}
} // verus!
}
