// Contracts assumed on crate `petgraph` 0.4 (TRUSTED): what `simple_fast` and `Dfs` compute, over the graph the
// `IntoNeighbors` implementation in /repo presents (that implementation is verified against `vp_adj`).
pub mod petgraph {
pub mod visit {
use vstd::prelude::*;
use crate::graph::*;
verus! {
pub trait GraphBase { type EdgeId; type NodeId; }
impl<'a, G: GraphBase> GraphBase for &'a G { type EdgeId = G::EdgeId; type NodeId = G::NodeId; }
/// Specification-only view of a graph (and of a visit map).
pub trait GraphView: GraphBase {
    spec fn vp_ok(self) -> bool where Self: Sized;
    spec fn vp_adj(self, n: Self::NodeId) -> Seq<Self::NodeId> where Self: Sized;
}
pub open spec fn adj_of<G: GraphView>(g: G) -> spec_fn(G::NodeId) -> Seq<G::NodeId> { |n: G::NodeId| g.vp_adj(n) }
pub trait NodeView { spec fn vp_nodes(&self) -> nat; }
pub trait MapView<N> { spec fn vp_marked(&self, n: N) -> bool; }
pub trait NbView<N> {
    #[verifier::prophetic]
    spec fn vp_nb(&self) -> Seq<N>;
}
pub trait Visitable: GraphBase {
    type Map: MapView<Self::NodeId>;
    fn visit_map(&self) -> (r: Self::Map) ensures forall|n: Self::NodeId| !#[trigger] r.vp_marked(n);
    fn reset_map(&self, map: &mut Self::Map) ensures forall|n: Self::NodeId| !#[trigger] final(map).vp_marked(n);
}
pub trait IntoNeighbors: GraphView + Sized {
    type Neighbors: NbView<Self::NodeId>;
    fn neighbors(self, id: Self::NodeId) -> (r: Self::Neighbors)
        requires self.vp_ok(),
        ensures r.vp_nb() == self.vp_adj(id);
}
/// Depth-first search.
#[verifier::external_body]
#[verifier::accept_recursive_types(N)]
pub struct Dfs<N> { p: core::marker::PhantomData<N> }
pub trait Walker { }
impl<N> Dfs<N> {
    pub uninterp spec fn adj(&self) -> spec_fn(N) -> Seq<N>;
    pub uninterp spec fn root(&self) -> N;
    #[verifier::external_body]
    pub fn new<G: IntoNeighbors<NodeId = N>>(g: G, start: N) -> (r: Dfs<N>)
        requires g.vp_ok(),
        ensures r.root() == start, r.adj() == adj_of(g),
    { unimplemented!() }
    /// `Walker::iter`: what it visits is what can be reached.
    #[verifier::external_body]
    pub fn vp_iter<'a, G: IntoNeighbors<NodeId = N>>(self, g: &'a G) -> (r: crate::vp::VpIter<N>)
        requires (*g).vp_ok(), self.adj() == adj_of(*g),
        ensures forall|n: N| #[trigger] r@.contains(n) <==> reach(self.adj(), self.root(), n)
    { unimplemented!() }
}
pub trait NodeCount: GraphBase + NodeView {
    fn node_count(&self) -> (r: usize) ensures r == self.vp_nodes();
}
} // verus!
}
pub mod algo {
pub mod dominators {
use vstd::prelude::*;
use crate::graph::*;
use crate::petgraph::visit::*;
verus! {
#[verifier::external_body]
#[verifier::accept_recursive_types(N)]
pub struct Dominators<N> { p: core::marker::PhantomData<N> }
impl<N> Dominators<N> {
    pub uninterp spec fn adj(&self) -> spec_fn(N) -> Seq<N>;
    pub uninterp spec fn root(&self) -> N;
    /// The immediate dominator of a reachable node other than the root.
    #[verifier::external_body]
    pub fn immediate_dominator(&self, node: N) -> (r: Option<N>) where N: Copy
        ensures
            r is Some ==> idom(self.adj(), self.root(), r->Some_0, node),
            r is None ==> node == self.root() || !reach(self.adj(), self.root(), node),
    { unimplemented!() }
}
/// The dominator tree of the graph reachable from `root`.
#[verifier::external_body]
pub fn simple_fast<G: IntoNeighbors>(g: G, root: G::NodeId) -> (r: Dominators<G::NodeId>)
    requires g.vp_ok(),
    ensures r.root() == root, forall|n: G::NodeId| #[trigger] (r.adj())(n) == g.vp_adj(n),
{ unimplemented!() }
} // verus!
}
}
}
