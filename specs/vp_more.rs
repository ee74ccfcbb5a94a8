// More contracts assumed on the standard library (TRUSTED): sorting, folding, summing; and theory about lists (PROVED).
pub mod vp_more {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use crate::vp::*;
verus! {
// ------------------------------------------------------------ sorting
/// `g` orders totally (ties allowed).
pub open spec fn preorder<T>(g: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|a: T, b: T| #[trigger] g(a, b) is Less <==> g(b, a) is Greater
    &&& forall|a: T, b: T, c: T| #![trigger g(a, b), g(b, c)] !(g(a, b) is Greater) && !(g(b, c) is Greater) ==> !(g(a, c) is Greater)
    &&& forall|a: T, b: T, c: T| #![trigger g(a, b), g(b, c)] g(a, b) is Equal && g(b, c) is Equal ==> g(a, c) is Equal
}
pub open spec fn placed(p: Seq<int>, j: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == j }
/// `r` is `s` rearranged by `p`, in order, ties in the order they had.
pub open spec fn sorts<T>(s: Seq<T>, r: Seq<T>, g: spec_fn(T, T) -> Ordering, p: Seq<int>) -> bool {
    &&& p.len() == s.len() && r.len() == s.len()
    &&& forall|i: int| #![trigger r[i]] #![trigger p[i]] 0 <= i < p.len() ==> 0 <= p[i] < s.len() && r[i] == s[p[i]]
    &&& forall|j: int| #![trigger s[j]] #![trigger placed(p, j)] 0 <= j < s.len() ==> placed(p, j)
    &&& forall|i: int, j: int| #![trigger r[i], r[j]] #![trigger p[i], p[j]] 0 <= i < j < p.len() ==> p[i] != p[j] && !(g(r[i], r[j]) is Greater) && (g(r[i], r[j]) is Equal ==> p[i] < p[j])
}
pub open spec fn computes_cmp<T, F: Fn(&T, &T) -> Ordering>(f: F, s: Seq<T>, g: spec_fn(T, T) -> Ordering) -> bool {
    forall|i: int, j: int, o: Ordering| #![trigger f.ensures((&s[i], &s[j]), o)] 0 <= i < s.len() && 0 <= j < s.len() && f.ensures((&s[i], &s[j]), o) ==> o == g(s[i], s[j])
}
pub trait VpSort<T> {
    spec fn vp_seq(&self) -> Seq<T>;
    /// `g` names the order the closure computes (ghost: checked, not assumed).
    fn vp_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F, g: Ghost<spec_fn(T, T) -> Ordering>)
        requires
            preorder(g@), computes_cmp(f, old(self).vp_seq(), g@),
            forall|i: int, j: int| #![trigger old(self).vp_seq()[i], old(self).vp_seq()[j]] 0 <= i < old(self).vp_seq().len() && 0 <= j < old(self).vp_seq().len() ==> f.requires((&old(self).vp_seq()[i], &old(self).vp_seq()[j])),
        ensures exists|p: Seq<int>| #[trigger] sorts(old(self).vp_seq(), final(self).vp_seq(), g@, p);
    fn vp_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F, g: Ghost<spec_fn(T) -> K>)
        requires
            K::obeys_cmp_spec(), preorder(key_order(g@)),
            forall|i: int, k: K| #![trigger f.ensures((&old(self).vp_seq()[i],), k)] 0 <= i < old(self).vp_seq().len() && f.ensures((&old(self).vp_seq()[i],), k) ==> k == g@(old(self).vp_seq()[i]),
            forall|i: int| #![trigger old(self).vp_seq()[i]] 0 <= i < old(self).vp_seq().len() ==> f.requires((&old(self).vp_seq()[i],)),
        ensures exists|p: Seq<int>| #[trigger] sorts(old(self).vp_seq(), final(self).vp_seq(), key_order(g@), p);
    fn vp_sort(&mut self) where T: Ord
        requires T::obeys_cmp_spec(), preorder(own_order::<T>()),
        ensures exists|p: Seq<int>| #[trigger] sorts(old(self).vp_seq(), final(self).vp_seq(), own_order::<T>(), p);
}
/// A copy of the elements.
pub trait VpToVec<T> {
    spec fn vp_elems(&self) -> Seq<T>;
    fn vp_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vp_elems();
}
impl<T: Copy> VpToVec<T> for [T] { open spec fn vp_elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T: Copy> VpToVec<T> for Vec<T> { open spec fn vp_elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
pub open spec fn key_order<T, K: Ord>(g: spec_fn(T) -> K) -> spec_fn(T, T) -> Ordering { |a: T, b: T| g(a).cmp_spec(&g(b)) }
pub open spec fn own_order<T: Ord>() -> spec_fn(T, T) -> Ordering { |a: T, b: T| a.cmp_spec(&b) }
impl<T> VpSort<T> for Vec<T> {
    open spec fn vp_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F, g: Ghost<spec_fn(T, T) -> Ordering>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F, g: Ghost<spec_fn(T) -> K>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_sort(&mut self) where T: Ord { unimplemented!() }
}
pub proof fn lemma_sorts_same<T>(s: Seq<T>, r: Seq<T>, g: spec_fn(T, T) -> Ordering, h: spec_fn(T, T) -> Ordering, p: Seq<int>)
    requires sorts(s, r, g, p), forall|a: T, b: T| #[trigger] g(a, b) == h(a, b)
    ensures sorts(s, r, h, p)
{
    assert forall|i: int| #![trigger r[i]] #![trigger p[i]] 0 <= i < p.len() implies 0 <= p[i] < s.len() && r[i] == s[p[i]] by { }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] #![trigger p[i], p[j]] 0 <= i < j < p.len() implies p[i] != p[j] && !(h(r[i], r[j]) is Greater) && (h(r[i], r[j]) is Equal ==> p[i] < p[j]) by { assert(g(r[i], r[j]) == h(r[i], r[j])); }
}
/// A strict order leaves one way to list the same elements.
pub proof fn lemma_unique_list<T>(s: Seq<T>, t: Seq<T>, lt: spec_fn(T, T) -> bool)
    requires
        pairwise(s, lt), pairwise(t, lt), forall|x: T| #[trigger] s.contains(x) <==> t.contains(x),
        forall|x: T, y: T| #![trigger lt(x, y)] lt(x, y) ==> !lt(y, x),
    ensures s == t
    decreases s.len()
{
    if s.len() == 0 { if t.len() > 0 { assert(t.contains(t[0])); assert(s.contains(t[0])); } assert(s =~= t); }
    else {
        assert forall|x: T| #[trigger] t.contains(x) implies s.contains(x) by { assert(s.contains(x) <==> t.contains(x)); }
        assert(s.contains(s[0])); let j = choose|j: int| 0 <= j < t.len() && t[j] == s[0];
        assert(t.contains(t[0])); let i = choose|i: int| 0 <= i < s.len() && s[i] == t[0];
        if j > 0 { assert(lt(t[0], t[j])); if i > 0 { assert(lt(s[0], s[i])); } }
        assert(s[0] == t[0]);
        let a = s.drop_first(); let b = t.drop_first();
        assert(pairwise(a, lt)) by { assert forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < a.len() implies lt(a[i], a[j]) by { assert(lt(s[i + 1], s[j + 1])); } }
        assert(pairwise(b, lt)) by { assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() implies lt(b[i], b[j]) by { assert(lt(t[i + 1], t[j + 1])); } }
        assert forall|x: T| #[trigger] a.contains(x) <==> b.contains(x) by {
            if a.contains(x) { let k = choose|k: int| 0 <= k < a.len() && a[k] == x; assert(s[k + 1] == x); assert(lt(s[0], s[k + 1])); assert(s.contains(x)); assert(t.contains(x)); let m = choose|m: int| 0 <= m < t.len() && t[m] == x; assert(m > 0); assert(b[m - 1] == x); }
            if b.contains(x) { let k = choose|k: int| 0 <= k < b.len() && b[k] == x; assert(t[k + 1] == x); assert(lt(t[0], t[k + 1])); assert(t.contains(x)); assert(s.contains(x)); let m = choose|m: int| 0 <= m < s.len() && s[m] == x; assert(m > 0); assert(a[m - 1] == x); }
        }
        lemma_unique_list(a, b, lt);
        assert(s =~= seq![s[0]] + a); assert(t =~= seq![t[0]] + b);
    }
}
/// The same order on what two sequences have at `i` and `j`.
pub open spec fn pairwise<T>(s: Seq<T>, rel: spec_fn(T, T) -> bool) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> rel(s[i], s[j]) }
pub proof fn lemma_filter_pairwise<T>(s: Seq<T>, q: spec_fn(T) -> bool, rel: spec_fn(T, T) -> bool)
    requires pairwise(s, rel)
    ensures pairwise(s.filter(q), rel), forall|x: T| #[trigger] s.filter(q).contains(x) <==> s.contains(x) && q(x)
    decreases s.len()
{
    reveal(Seq::filter);
    lemma_filter(s, q);
    let f = s.filter(q);
    assert forall|x: T| #[trigger] f.contains(x) <==> s.contains(x) && q(x) by {
        if f.contains(x) { let i = choose|i: int| 0 <= i < f.len() && f[i] == x; assert(s.contains(f[i])); }
        if s.contains(x) && q(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(q(s[i])); }
    }
    if s.len() > 0 {
        let t = s.drop_last(); let g = t.filter(q);
        assert(pairwise(t, rel)) by { assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies rel(t[i], t[j]) by { assert(s[i] == t[i] && s[j] == t[j]); } }
        lemma_filter_pairwise(t, q, rel);
        assert forall|i: int, j: int| #![trigger f[i], f[j]] 0 <= i < j < f.len() implies rel(f[i], f[j]) by {
            assert(f[i] == g[i]);
            if j < g.len() { assert(f[j] == g[j]); } else {
                assert(g.contains(g[i])); assert(t.contains(g[i]));
                let k = choose|k: int| 0 <= k < t.len() && t[k] == g[i];
                assert(s[k] == f[i] && s[s.len() - 1] == f[j]);
            }
        }
    }
}

pub proof fn lemma_filter_all<T>(s: Seq<T>, q: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> q(#[trigger] s[i])
    ensures s.filter(q) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { assert(q(s[s.len() - 1])); assert forall|i: int| 0 <= i < s.drop_last().len() implies q(#[trigger] s.drop_last()[i]) by { assert(q(s[i])); } lemma_filter_all(s.drop_last(), q); assert(s =~= s.drop_last().push(s.last())); } else { assert(s.filter(q) =~= s); }
}
// ------------------------------------------------------------ folding
impl<T> VpIter<T> {
    /// `inv` relates the accumulator to the number of elements seen (ghost: checked, not assumed).
    #[verifier::external_body]
    pub fn fold<A, F: Fn(A, T) -> A>(self, init: A, f: F, inv: Ghost<spec_fn(int, A) -> bool>) -> (r: A)
        requires
            inv@(0, init),
            forall|k: int, a: A| 0 <= k < self@.len() && #[trigger] inv@(k, a) ==> f.requires((a, self@[k])),
            forall|k: int, a: A, b: A| #![trigger inv@(k, a), f.ensures((a, self@[k]), b)] 0 <= k < self@.len() && inv@(k, a) && f.ensures((a, self@[k]), b) ==> inv@(k + 1, b),
        ensures inv@(self@.len() as int, r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sum<S: VpSum<T>>(self) -> (r: S)
        requires S::sum_fits(self@),
        ensures r.is_sum(self@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self) -> (r: Option<T>) where T: Ord
        requires T::obeys_cmp_spec(),
        ensures r is None <==> self@.len() == 0,
            r matches Some(x) ==> self@.contains(x) && forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> !(self@[i].cmp_spec(&x) is Greater)
    { unimplemented!() }
}
/// `Iterator::sum`: every partial sum must fit.
pub trait VpSum<T>: Sized {
    spec fn sum_fits(s: Seq<T>) -> bool;
    spec fn is_sum(&self, s: Seq<T>) -> bool;
}
/// Sum of the first `k`.
pub open spec fn psum(s: Seq<int>, k: int) -> int decreases k { if k <= 0 || k > s.len() { 0 } else { psum(s, k - 1) + s[k - 1] } }
pub open spec fn isum(s: Seq<int>) -> int { psum(s, s.len() as int) }
pub open spec fn ints(s: Seq<u32>) -> Seq<int> { s.map_values(|x: u32| x as int) }
impl VpSum<u32> for u32 {
    open spec fn sum_fits(s: Seq<u32>) -> bool { isum(ints(s)) <= u32::MAX }
    open spec fn is_sum(&self, s: Seq<u32>) -> bool { *self == isum(ints(s)) }
}
impl<'a> VpSum<&'a u32> for u32 {
    open spec fn sum_fits(s: Seq<&'a u32>) -> bool { isum(s.map_values(|x: &'a u32| *x as int)) <= u32::MAX }
    open spec fn is_sum(&self, s: Seq<&'a u32>) -> bool { *self == isum(s.map_values(|x: &'a u32| *x as int)) }
}
pub proof fn lemma_psum_ext(s: Seq<int>, t: Seq<int>, k: int)
    requires k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i]
    ensures psum(s, k) == psum(t, k)
    decreases k
{ if k > 0 { lemma_psum_ext(s, t, k - 1); } }
pub proof fn lemma_psum_step(s: Seq<int>, k: int)
    requires 0 < k <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] >= 0
    ensures 0 <= psum(s, k - 1) <= psum(s, k)
    decreases k
{ assert(s[k - 1] >= 0); if k > 1 { lemma_psum_step(s, k - 1); } }
pub proof fn lemma_psum_bound(s: Seq<int>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] >= 0
    ensures 0 <= psum(s, k) <= isum(s)
    decreases s.len() - k
{ if k > 0 { lemma_psum_step(s, k); } if k < s.len() { lemma_psum_step(s, k + 1); lemma_psum_bound(s, k + 1); } }
/// Every partial sum of numbers that are not negative.
pub proof fn lemma_psums(s: Seq<int>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] >= 0
    ensures psum(s, 0) == 0, forall|k: int| #![trigger psum(s, k)] #![trigger s[k]] 0 <= k < s.len() ==> 0 <= psum(s, k) && psum(s, k) + s[k] <= isum(s)
{ assert forall|k: int| #![trigger psum(s, k)] #![trigger s[k]] 0 <= k < s.len() implies 0 <= psum(s, k) && psum(s, k) + s[k] <= isum(s) by { lemma_psum_bound(s, k); lemma_psum_bound(s, k + 1); } }
pub proof fn lemma_psum_skip(s: Seq<int>, n: int, k: int)
    requires 0 <= n <= s.len(), 0 <= k <= s.len() - n
    ensures psum(s, n + k) == psum(s, n) + psum(s.skip(n), k)
    decreases k
{ if k > 0 { lemma_psum_skip(s, n, k - 1); } }
pub proof fn lemma_map_push<A, B>(s: Seq<A>, f: spec_fn(A) -> B, x: A)
    ensures s.push(x).map_values(f) == s.map_values(f).push(f(x))
{ assert(s.push(x).map_values(f) =~= s.map_values(f).push(f(x))); }
/// Texts one after another with a separator between them.
pub open spec fn joined_upto(v: Seq<Seq<char>>, sep: Seq<char>, k: int) -> Seq<char> decreases k { if k <= 0 || k > v.len() { Seq::empty() } else if k == 1 { v[0] } else { joined_upto(v, sep, k - 1) + sep + v[k - 1] } }
pub open spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> { joined_upto(v, sep, v.len() as int) }
/// `[&str]::join`, `[String]::join` (TRUSTED).
pub trait VpJoin { spec fn vp_texts(&self) -> Seq<Seq<char>>; fn vp_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.vp_texts(), sep@); }
impl<'a> VpJoin for Vec<&'a str> { open spec fn vp_texts(&self) -> Seq<Seq<char>> { self@.map_values(|x: &'a str| x@) } #[verifier::external_body] fn vp_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl VpJoin for Vec<String> { open spec fn vp_texts(&self) -> Seq<Seq<char>> { self@.map_values(|x: String| x@) } #[verifier::external_body] fn vp_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
/// `Option::unwrap_or_default` (TRUSTED).
pub trait VpOrDefault<T> { spec fn vp_or(&self, r: T) -> bool; fn vp_unwrap_or_default(self) -> (r: T) where Self: Sized ensures self.vp_or(r); }
impl VpOrDefault<String> for Option<String> { open spec fn vp_or(&self, r: String) -> bool { match *self { Some(x) => r == x, None => r@ == Seq::<char>::empty() } } #[verifier::external_body] fn vp_unwrap_or_default(self) -> (r: String) { unimplemented!() } }
} // verus!
}
