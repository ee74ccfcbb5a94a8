// What the run unit relies on: an analysis yields the data it is named after (each analysis has its own unit).
pub mod twiggy_analyze {
use vstd::prelude::*;
use crate::twiggy_ir as ir;
use crate::twiggy_opt as opt;
use crate::twiggy_traits as traits;
use crate::anyhow;
verus! {
/// "This is the data the analysis of that name returned for these items and options."
pub uninterp spec fn is_top(items: ir::Items, opts: opt::Top, data: &dyn traits::Emit) -> bool;
pub uninterp spec fn is_dominators(items: ir::Items, opts: opt::Dominators, data: &dyn traits::Emit) -> bool;
pub uninterp spec fn is_paths(items: ir::Items, opts: opt::Paths, data: &dyn traits::Emit) -> bool;
pub uninterp spec fn is_monos(items: ir::Items, opts: opt::Monos, data: &dyn traits::Emit) -> bool;
pub uninterp spec fn is_garbage(items: ir::Items, opts: opt::Garbage, data: &dyn traits::Emit) -> bool;
pub uninterp spec fn is_diff(old: ir::Items, new: ir::Items, opts: opt::Diff, data: &dyn traits::Emit) -> bool;
#[verifier::external_body]
pub fn top(items: &mut ir::Items, opts: &opt::Top) -> (r: anyhow::Result<Box<dyn traits::Emit>>)
    ensures r is Ok ==> is_top(*old(items), *opts, &*r->Ok_0) && r->Ok_0.vp_ok(*final(items)) { unimplemented!() }
#[verifier::external_body]
pub fn dominators(items: &mut ir::Items, opts: &opt::Dominators) -> (r: anyhow::Result<Box<dyn traits::Emit>>)
    ensures r is Ok ==> is_dominators(*old(items), *opts, &*r->Ok_0) && r->Ok_0.vp_ok(*final(items)) { unimplemented!() }
#[verifier::external_body]
pub fn paths(items: &mut ir::Items, opts: &opt::Paths) -> (r: anyhow::Result<Box<dyn traits::Emit>>)
    ensures r is Ok ==> is_paths(*old(items), *opts, &*r->Ok_0) && r->Ok_0.vp_ok(*final(items)) { unimplemented!() }
#[verifier::external_body]
pub fn monos(items: &mut ir::Items, opts: &opt::Monos) -> (r: anyhow::Result<Box<dyn traits::Emit>>)
    ensures r is Ok ==> is_monos(*old(items), *opts, &*r->Ok_0) && r->Ok_0.vp_ok(*final(items)) { unimplemented!() }
#[verifier::external_body]
pub fn garbage(items: &ir::Items, opts: &opt::Garbage) -> (r: anyhow::Result<Box<dyn traits::Emit>>)
    ensures r is Ok ==> is_garbage(*items, *opts, &*r->Ok_0) && r->Ok_0.vp_ok(*items) { unimplemented!() }
#[verifier::external_body]
pub fn diff(old_items: &mut ir::Items, new_items: &mut ir::Items, opts: &opt::Diff) -> (r: anyhow::Result<Box<dyn traits::Emit>>)
    ensures r is Ok ==> is_diff(*old(old_items), *old(new_items), *opts, &*r->Ok_0) && r->Ok_0.vp_ok(*final(old_items)) { unimplemented!() }
} // verus!
}
