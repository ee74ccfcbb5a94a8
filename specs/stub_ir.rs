// The item graph, opaque.
pub mod twiggy_ir {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub struct Items { p: core::marker::PhantomData<u8> }
} // verus!
}
