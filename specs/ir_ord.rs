// derive(PartialEq, Eq, PartialOrd, Ord, Hash) on Id (TRUSTED: the derive compares the fields lexicographically; the
// weaver drops the derive and reports an anchor as lost when the list of derived traits changes).
pub mod ir_ord {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::btree::*;
use vstd::laws_cmp::*;
use vstd::laws_eq::*;
use crate::ir::Id;
verus! {
pub open spec fn idlt(a: Id, b: Id) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
pub open spec fn id_cmp(a: Id, b: Id) -> core::cmp::Ordering { if idlt(a, b) { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
impl PartialEqSpecImpl for Id { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Id) -> bool { *self == *o } }
impl PartialEq for Id { #[verifier::external_body] fn eq(&self, o: &Id) -> bool { unimplemented!() } }
impl Eq for Id {}
impl PartialOrdSpecImpl for Id { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Id) -> Option<core::cmp::Ordering> { Some(id_cmp(*self, *o)) } }
impl PartialOrd for Id { #[verifier::external_body] fn partial_cmp(&self, o: &Id) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl OrdSpecImpl for Id { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Id) -> core::cmp::Ordering { id_cmp(*self, *o) } }
impl Ord for Id { #[verifier::external_body] fn cmp(&self, o: &Id) -> core::cmp::Ordering { unimplemented!() } }
impl core::hash::Hash for Id { #[verifier::external_body] fn hash<H: core::hash::Hasher>(&self, state: &mut H) { unimplemented!() } }
pub broadcast proof fn lemma_id_key()
    ensures #[trigger] key_obeys_cmp_spec::<Id>(), obeys_cmp::<Id>()
{
    reveal(obeys_cmp_partial_ord); reveal(obeys_cmp_ord); reveal(obeys_eq); reveal(obeys_eq_spec_properties); reveal(obeys_partial_cmp_spec_properties);
    broadcast use vstd::std_specs::btree::group_btree_axioms;
    assert(obeys_eq::<Id>()); assert(obeys_cmp_partial_ord::<Id>()); assert(obeys_cmp_ord::<Id>()); assert(obeys_partial_cmp_spec_properties::<Id>());
    assert(obeys_cmp::<Id>());
}

/// Increasing sequences of identifiers are sorted by `idlt`.
pub proof fn lemma_increasing_ids(s: Seq<Id>)
    requires increasing_seq(s)
    ensures forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> idlt(s[i], s[j])
{
    broadcast use lemma_id_key; assert(key_obeys_cmp_spec::<Id>());
    broadcast use vstd::std_specs::btree::group_btree_axioms;
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies idlt(s[i], s[j]) by {
        assert(<Id as OrdSpec>::cmp_spec(&s[i], &s[j]) is Less);
    }
}
} // verus!
}
