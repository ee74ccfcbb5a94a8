// Contracts assumed on crates `rustc_demangle` and `cpp_demangle`: total functions from symbol to text, if any.
pub mod rustc_demangle {
use vstd::prelude::*;
use crate::vp_text::*;
verus! {
pub uninterp spec fn rust_demangled(s: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub struct Demangle { p: core::marker::PhantomData<u8> }
#[verifier::external_body]
pub struct TryDemangleError { p: core::marker::PhantomData<u8> }
impl View for Demangle { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VpDisplay for Demangle { open spec fn disp(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn try_demangle(s: &str) -> (r: Result<Demangle, TryDemangleError>)
    ensures match r { Ok(d) => rust_demangled(s@) == Some(d@), Err(_) => rust_demangled(s@) is None }
{ unimplemented!() }
} // verus!
}
pub mod cpp_demangle {
use vstd::prelude::*;
use crate::vp_text::*;
verus! {
pub uninterp spec fn cpp_demangled(s: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub struct Symbol { p: core::marker::PhantomData<u8> }
#[verifier::external_body]
pub struct Error { p: core::marker::PhantomData<u8> }
impl View for Symbol { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VpDisplay for Symbol { open spec fn disp(&self) -> Seq<char> { self@ } }
impl Symbol {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Result<Symbol, Error>)
        ensures match r { Ok(d) => cpp_demangled(s@) == Some(d@), Err(_) => cpp_demangled(s@) is None }
    { unimplemented!() }
}
} // verus!
}
