// Contracts assumed on crate `frozen`: a Frozen<T> is an immutable T.
pub mod frozen {
use vstd::prelude::*;
verus! {
pub struct Frozen<T> { pub t: T }
impl<T> Frozen<T> {
    pub fn freeze(t: T) -> (r: Frozen<T>) ensures r.t == t { Frozen { t } }
}
impl<T> core::ops::Deref for Frozen<T> {
    type Target = T;
    fn deref(&self) -> (r: &T) ensures *r == self.t { &self.t }
}
} // verus!
}
