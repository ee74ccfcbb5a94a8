// Vocabulary and theory of dominance, over an adjacency function.  Everything here is PROVED from the definitions.
pub mod graph {
use vstd::prelude::*;
verus! {
pub open spec fn edge<N>(g: spec_fn(N) -> Seq<N>, a: N, b: N) -> bool { g(a).contains(b) }
pub open spec fn is_path<N>(g: spec_fn(N) -> Seq<N>, p: Seq<N>) -> bool {
    p.len() > 0 && forall|i: int| #![trigger p[i + 1]] 0 <= i < p.len() - 1 ==> edge(g, p[i], p[i + 1])
}
pub open spec fn path_ft<N>(g: spec_fn(N) -> Seq<N>, a: N, b: N, p: Seq<N>) -> bool { is_path(g, p) && p[0] == a && p.last() == b }
/// `n` can be reached from `r`.
pub open spec fn reach<N>(g: spec_fn(N) -> Seq<N>, r: N, n: N) -> bool { exists|p: Seq<N>| path_ft(g, r, n, p) }
/// `n` is reachable and every path from `r` to `n` passes through `d`.
pub open spec fn dom<N>(g: spec_fn(N) -> Seq<N>, r: N, d: N, n: N) -> bool {
    reach(g, r, n) && forall|p: Seq<N>| #[trigger] path_ft(g, r, n, p) ==> p.contains(d)
}
pub open spec fn sdom<N>(g: spec_fn(N) -> Seq<N>, r: N, d: N, n: N) -> bool { d != n && dom(g, r, d, n) }
pub open spec fn idom<N>(g: spec_fn(N) -> Seq<N>, r: N, d: N, n: N) -> bool {
    sdom(g, r, d, n) && forall|x: N| #[trigger] sdom(g, r, x, n) ==> dom(g, r, x, d)
}

pub proof fn lemma_prefix<N>(g: spec_fn(N) -> Seq<N>, a: N, b: N, p: Seq<N>, i: int)
    requires path_ft(g, a, b, p), 0 <= i < p.len()
    ensures path_ft(g, a, p[i], p.take(i + 1))
{
    let q = p.take(i + 1);
    assert forall|j: int| #![trigger q[j + 1]] 0 <= j < q.len() - 1 implies edge(g, q[j], q[j + 1]) by { assert(p[j + 1] == q[j + 1]); }
}
pub proof fn lemma_concat<N>(g: spec_fn(N) -> Seq<N>, a: N, b: N, c: N, p: Seq<N>, q: Seq<N>)
    requires path_ft(g, a, b, p), path_ft(g, b, c, q)
    ensures path_ft(g, a, c, p + q.skip(1)), forall|x: N| (p + q.skip(1)).contains(x) ==> p.contains(x) || q.skip(1).contains(x)
{
    let w = p + q.skip(1);
    assert forall|j: int| #![trigger w[j + 1]] 0 <= j < w.len() - 1 implies edge(g, w[j], w[j + 1]) by {
        if j + 1 < p.len() { assert(p[j + 1] == w[j + 1]); }
        else { let k = j + 1 - p.len() + 1; assert(w[j + 1] == q[k]); assert(q[(k - 1) + 1] == q[k]);
            if j < p.len() { assert(k == 1); assert(w[j] == p.last()); } else { assert(w[j] == q[k - 1]); } }
    }
    assert forall|x: N| w.contains(x) implies p.contains(x) || q.skip(1).contains(x) by {
        let j = choose|j: int| 0 <= j < w.len() && w[j] == x;
        if j < p.len() { assert(p[j] == x); } else { assert(q.skip(1)[j - p.len()] == x); }
    }
    if q.len() == 1 { assert(w.last() == p.last()); } else { assert(w.last() == q.last()); }
}
pub proof fn lemma_suffix<N>(g: spec_fn(N) -> Seq<N>, a: N, b: N, p: Seq<N>, i: int)
    requires path_ft(g, a, b, p), 0 <= i < p.len()
    ensures path_ft(g, p[i], b, p.skip(i))
{
    let q = p.skip(i);
    assert forall|j: int| #![trigger q[j + 1]] 0 <= j < q.len() - 1 implies edge(g, q[j], q[j + 1]) by { assert(p[(i + j) + 1] == q[j + 1]); }
}
pub proof fn lemma_dom_refl<N>(g: spec_fn(N) -> Seq<N>, r: N, n: N)
    requires reach(g, r, n)
    ensures dom(g, r, n, n), dom(g, r, r, n)
{
    assert forall|p: Seq<N>| #[trigger] path_ft(g, r, n, p) implies p.contains(n) && p.contains(r) by { assert(p[p.len() - 1] == n); assert(p[0] == r); }
}
pub proof fn lemma_reach_root<N>(g: spec_fn(N) -> Seq<N>, r: N)
    ensures reach(g, r, r)
{
    assert(path_ft(g, r, r, seq![r]));
}
pub proof fn lemma_dom_reach<N>(g: spec_fn(N) -> Seq<N>, r: N, d: N, n: N)
    requires dom(g, r, d, n)
    ensures reach(g, r, d), reach(g, r, n)
{
    let p = choose|p: Seq<N>| path_ft(g, r, n, p);
    let i = choose|i: int| 0 <= i < p.len() && p[i] == d;
    lemma_prefix(g, r, n, p, i);
}
pub proof fn lemma_dom_trans<N>(g: spec_fn(N) -> Seq<N>, r: N, a: N, b: N, c: N)
    requires dom(g, r, a, b), dom(g, r, b, c)
    ensures dom(g, r, a, c)
{
    assert forall|p: Seq<N>| #[trigger] path_ft(g, r, c, p) implies p.contains(a) by {
        let i = choose|i: int| 0 <= i < p.len() && p[i] == b;
        lemma_prefix(g, r, c, p, i);
        let q = p.take(i + 1);
        let j = choose|j: int| 0 <= j < q.len() && q[j] == a;
        assert(p[j] == a);
    }
}
proof fn lemma_descent<N>(g: spec_fn(N) -> Seq<N>, r: N, a: N, b: N, p: Seq<N>)
    requires dom(g, r, a, b), dom(g, r, b, a), a != b, path_ft(g, r, b, p)
    ensures false
    decreases p.len()
{
    let i = choose|i: int| 0 <= i < p.len() && p[i] == a;
    lemma_prefix(g, r, b, p, i);
    let q = p.take(i + 1);
    let j = choose|j: int| 0 <= j < q.len() && q[j] == b;
    lemma_prefix(g, r, a, q, j);
    assert(q.last() == a);
    lemma_descent(g, r, a, b, q.take(j + 1));
}
pub proof fn lemma_dom_antisym<N>(g: spec_fn(N) -> Seq<N>, r: N, a: N, b: N)
    requires dom(g, r, a, b), dom(g, r, b, a)
    ensures a == b
{
    if a != b {
        let p = choose|p: Seq<N>| path_ft(g, r, b, p);
        lemma_descent(g, r, a, b, p);
    }
}
pub proof fn lemma_idom_unique<N>(g: spec_fn(N) -> Seq<N>, r: N, d: N, e: N, n: N)
    requires idom(g, r, d, n), idom(g, r, e, n)
    ensures d == e
{
    assert(sdom(g, r, e, n)); assert(sdom(g, r, d, n));
    lemma_dom_antisym(g, r, d, e);
}
/// Two dominators of one node are comparable.
proof fn lemma_last<N>(g: spec_fn(N) -> Seq<N>, r: N, a: N, b: N, m: N, p: Seq<N>, i: int)
    requires dom(g, r, a, m), dom(g, r, b, m), path_ft(g, r, m, p), 0 <= i < p.len(), p[i] == a, a != b,
        forall|j: int| i < j < p.len() ==> #[trigger] p[j] != b
    ensures dom(g, r, b, a)
{
    lemma_dom_reach(g, r, a, m);
    assert forall|q: Seq<N>| #[trigger] path_ft(g, r, a, q) implies q.contains(b) by {
        lemma_suffix(g, r, m, p, i);
        lemma_concat(g, r, a, m, q, p.skip(i));
        let w = q + p.skip(i).skip(1);
        assert(w.contains(b));
        if !q.contains(b) {
            let t = p.skip(i).skip(1);
            let j = choose|j: int| 0 <= j < t.len() && t[j] == b;
            assert(p[i + 1 + j] == b);
        }
    }
}
proof fn lemma_last_index<N>(p: Seq<N>, b: N) -> (j: int)
    requires p.contains(b)
    ensures 0 <= j < p.len(), p[j] == b, forall|k: int| j < k < p.len() ==> #[trigger] p[k] != b
    decreases p.len()
{
    if p.last() == b { p.len() - 1 } else {
        let q = p.drop_last();
        let j0 = choose|j: int| 0 <= j < p.len() && p[j] == b;
        assert(q[j0] == b);
        let j = lemma_last_index(q, b);
        assert forall|k: int| j < k < p.len() implies #[trigger] p[k] != b by { if k < p.len() - 1 { assert(q[k] == p[k]); } }
        j
    }
}
pub proof fn lemma_dom_comparable<N>(g: spec_fn(N) -> Seq<N>, r: N, a: N, b: N, m: N)
    requires dom(g, r, a, m), dom(g, r, b, m)
    ensures dom(g, r, a, b) || dom(g, r, b, a)
{
    let p = choose|p: Seq<N>| path_ft(g, r, m, p);
    if a == b { lemma_dom_reach(g, r, a, m); lemma_dom_refl(g, r, a); } else {
        let i = lemma_last_index(p, a);
        let j = lemma_last_index(p, b);
        if i > j { lemma_last(g, r, a, b, m, p, i); } else { lemma_last(g, r, b, a, m, p, j); }
    }
}
/// Subtrees of different children of one node are disjoint.
pub proof fn lemma_children_disjoint<N>(g: spec_fn(N) -> Seq<N>, r: N, n: N, c: N, d: N, m: N)
    requires idom(g, r, n, c), idom(g, r, n, d), dom(g, r, c, m), dom(g, r, d, m)
    ensures c == d
{
    lemma_dom_comparable(g, r, c, d, m);
    if c != d {
        if dom(g, r, c, d) { assert(sdom(g, r, c, d)); assert(dom(g, r, c, n)); lemma_dom_antisym(g, r, c, n); }
        else { assert(sdom(g, r, d, c)); assert(dom(g, r, d, n)); lemma_dom_antisym(g, r, d, n); }
    }
}
/// Depends only on the values of the adjacency function.
pub proof fn lemma_path_ext<N>(g: spec_fn(N) -> Seq<N>, h: spec_fn(N) -> Seq<N>)
    requires forall|n: N| #[trigger] g(n) == h(n)
    ensures g == h
{
    assert(g =~= h);
}
} // verus!
}
