// std::convert::AsRef (TRUSTED: each conversion yields the value's own text or path).
pub mod vp_asref {
use vstd::prelude::*;
use crate::vp_std::path::{Path, PathBuf};
verus! {
pub trait AsRef<T: ?Sized> {
    spec fn vp_ref(&self) -> &T;
    fn as_ref(&self) -> (r: &T) ensures r == self.vp_ref();
}
impl AsRef<Path> for Path { open spec fn vp_ref(&self) -> &Path { self } fn as_ref(&self) -> (r: &Path) { self } }
impl<'a> AsRef<Path> for &'a Path { open spec fn vp_ref(&self) -> &Path { *self } fn as_ref(&self) -> (r: &Path) { *self } }
impl AsRef<Path> for PathBuf { open spec fn vp_ref(&self) -> &Path { &self.p } fn as_ref(&self) -> (r: &Path) { &self.p } }
impl<'a> AsRef<str> for &'a str { open spec fn vp_ref(&self) -> &str { *self } fn as_ref(&self) -> (r: &str) { *self } }
} // verus!
}
