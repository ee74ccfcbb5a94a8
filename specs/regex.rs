// Contract assumed on crate `regex` (TRUSTED): a set of patterns, valid or not, each of which matches a text or not.
pub mod regex {
use vstd::prelude::*;
use crate::vp_hash::VpKey;
verus! {
pub uninterp spec fn rx_valid(ps: Seq<Seq<char>>) -> bool;
pub uninterp spec fn rx_match(p: Seq<char>, s: Seq<char>) -> bool;
pub open spec fn args(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub open spec fn rx_any(ps: Seq<Seq<char>>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < ps.len() && #[trigger] rx_match(ps[i], s) }
/// The names that arguments select: those given, or those matched, or all.
pub open spec fn picked(ps: Seq<Seq<char>>, rx: bool, s: Seq<char>) -> bool { ps.len() == 0 || (if rx { rx_any(ps, s) } else { ps.contains(s) }) }
#[verifier::external_body]
pub struct Error { p: core::marker::PhantomData<u8> }
impl From<Error> for crate::anyhow::Error { #[verifier::external_body] fn from(e: Error) -> crate::anyhow::Error { unimplemented!() } }
#[verifier::external_body]
pub struct RegexSet { p: core::marker::PhantomData<u8> }
impl View for RegexSet { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl RegexSet {
    #[verifier::external_body]
    pub fn new(exprs: &[String]) -> (r: core::result::Result<RegexSet, Error>)
        ensures r is Ok <==> rx_valid(args(exprs@)), r matches Ok(s) ==> s@ == args(exprs@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match<T: VpKey<S = Seq<char>> + ?Sized>(&self, text: &T) -> (r: bool) ensures r == rx_any(self@, text.vp_key()) { unimplemented!() }
}
/// No pattern at all is fine.
#[verifier::external_body]
pub proof fn axiom_no_patterns() ensures rx_valid(Seq::empty()) {}
} // verus!
}
