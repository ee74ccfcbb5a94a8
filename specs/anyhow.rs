// Contracts assumed on std::path, std::io errors and anyhow (TRUSTED).
pub mod anyhow {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub struct Error { p: core::marker::PhantomData<u8> }
impl Error {
    #[verifier::external_body]
    pub fn downcast_ref<T>(&self) -> Option<&T> { unimplemented!() }
    #[verifier::external_body]
    pub fn is<T>(&self) -> bool { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
pub fn vp_anyhow() -> Error { unimplemented!() }
pub fn anyhow() { }
impl From<crate::vp_std::io::Error> for Error { #[verifier::external_body] fn from(e: crate::vp_std::io::Error) -> Error { unimplemented!() } }
} // verus!
}
