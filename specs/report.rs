// Reports as lists of lines (PROVED).
pub mod report {
use vstd::prelude::*;
use crate::vp::*;
use crate::vp_text::*;
use crate::vp_more::*;
use crate::ir::*;
use crate::twiggy_analyze::formats::json::*;
use crate::twiggy_analyze::formats::table::*;
use crate::csv::{csv_text, fcsv, entry, line, lemma_csv_push, VpRecord, VpCell};
use crate::vp_std::io;
use crate::vp_std::io::{Sink, wrote};
verus! {
pub open spec fn pct(part: int, total: int) -> Seq<char> { fp2(percent(part, total)) + "%"@ }
pub open spec fn rests(n: nat) -> Seq<char> { "... and "@ + dec(n) + " more"@ }
pub open spec fn totals(n: nat) -> Seq<char> { "Σ ["@ + dec(n) + " Total Rows]"@ }
pub type Rec = Seq<(Seq<char>, Seq<char>)>;
/// The sizes of these items.
pub open spec fn sizes(im: Im, s: Seq<Id>) -> Seq<int> { s.map_values(|x: Id| im[x].size as int) }
pub open spec fn listed(im: Im, s: Seq<Id>) -> bool { s.no_duplicates() && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> im.contains_key(s[i]) }
pub proof fn lemma_sizes_upto(im: Im, s: Seq<Id>, k: int)
    requires listed(im, s), 0 <= k <= s.len()
    ensures psum(sizes(im, s), k) == ssum(im, s.take(k).to_set())
    decreases k
{
    broadcast use vstd::set::group_set_lemmas;
    if k > 0 {
        lemma_sizes_upto(im, s, k - 1);
        let t = s.take(k - 1); let x = s[k - 1];
        assert(!t.to_set().contains(x)) by { if t.contains(x) { let j = choose|j: int| 0 <= j < t.len() && t[j] == x; assert(s[j] == s[k - 1]); } }
        assert(s.take(k).to_set() =~= t.to_set().insert(x)) by {
            assert forall|y: Id| s.take(k).contains(y) <==> t.contains(y) || y == x by {
                if s.take(k).contains(y) { let j = choose|j: int| 0 <= j < k && s.take(k)[j] == y; if j < k - 1 { assert(t[j] == y); } }
                if t.contains(y) { let j = choose|j: int| 0 <= j < t.len() && t[j] == y; assert(s.take(k)[j] == y); }
                if y == x { assert(s.take(k)[k - 1] == y); }
            }
        }
        lemma_ssum_insert(im, t.to_set(), x);
    } else { assert(s.take(0).to_set() =~= Set::<Id>::empty()); }
}
/// Listed items together are no larger than all items together.
pub proof fn lemma_sizes(im: Im, s: Seq<Id>)
    requires listed(im, s), ssum(im, im.dom()) <= u32::MAX
    ensures isum(sizes(im, s)) <= u32::MAX, isum(sizes(im, s)) >= 0, s.len() == sizes(im, s).len(),
        isum(sizes(im, s)) == ssum(im, s.to_set()),
        forall|k: int| #![trigger psum(sizes(im, s), k)] #![trigger s[k]] 0 <= k < s.len() ==> sizes(im, s)[k] == im[s[k]].size && 0 <= psum(sizes(im, s), k) && psum(sizes(im, s), k) + im[s[k]].size <= isum(sizes(im, s))
{
    broadcast use vstd::set::group_set_lemmas;
    let n = s.len() as int;
    lemma_sizes_upto(im, s, n);
    assert(s.take(n) =~= s);
    assert(s.to_set().subset_of(im.dom())) by { assert forall|x: Id| s.to_set().contains(x) implies im.contains_key(x) by { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(im.contains_key(s[j])); } }
    lemma_ssum_subset(im, s.to_set(), im.dom());
    lemma_psums(sizes(im, s));
    assert forall|k: int| #![trigger psum(sizes(im, s), k)] #![trigger s[k]] 0 <= k < s.len() implies sizes(im, s)[k] == im[s[k]].size && 0 <= psum(sizes(im, s), k) && psum(sizes(im, s), k) + im[s[k]].size <= isum(sizes(im, s)) by { assert(sizes(im, s)[k] == im[s[k]].size); }
}
pub open spec fn to_item<'a>(im: Im) -> spec_fn(&'a Id) -> &'a Item { |x: &'a Id| &im[*x] }
pub open spec fn size_of<'a>() -> spec_fn(&'a Item) -> u32 { |x: &'a Item| x.size }
pub open spec fn size_at<'a>(im: Im) -> spec_fn(&'a Id) -> u32 { |x: &'a Id| im[*x].size }
/// What the code computes with a list of items, cut at `n`.
pub proof fn lemma_listed(im: Im, s: Seq<Id>, n: int)
    requires listed(im, s), ssum(im, im.dom()) <= u32::MAX, 0 <= n <= s.len()
    ensures
        isum(sizes(im, s)) <= u32::MAX, isum(sizes(im, s)) >= 0, s.len() == sizes(im, s).len(),
        isum(sizes(im, s).skip(n)) <= u32::MAX, isum(sizes(im, s).skip(n)) >= 0,
        ints(refs::<Id>(s).map_values(to_item(im)).map_values(size_of())) == sizes(im, s),
        ints(refs::<Id>(s).map_values(size_at(im))) == sizes(im, s),
        refs::<Id>(s).map_values(to_item(im)).len() == s.len(),
        forall|i: int| #![trigger refs::<Id>(s).map_values(to_item(im))[i]] #![trigger s[i]] 0 <= i < s.len() ==> *refs::<Id>(s).map_values(to_item(im))[i] == im[s[i]] && im.contains_key(s[i]),
        psum(sizes(im, s).skip(n), 0) == 0, sizes(im, s).skip(n).len() == s.len() - n,
        forall|k: int| #![trigger psum(sizes(im, s).skip(n), k)] 0 <= k < s.len() - n ==> sizes(im, s).skip(n)[k] == im[s[n + k]].size && psum(sizes(im, s).skip(n), k) + im[s[n + k]].size <= u32::MAX && psum(sizes(im, s).skip(n), k) >= 0,
{
    lemma_sizes(im, s);
    let z = sizes(im, s);
    assert(ints(refs::<Id>(s).map_values(to_item(im)).map_values(size_of())) =~= z);
    assert(ints(refs::<Id>(s).map_values(size_at(im))) =~= z);
    assert forall|k: int| #![trigger psum(z.skip(n), k)] 0 <= k < s.len() - n implies z.skip(n)[k] == im[s[n + k]].size && psum(z.skip(n), k) + im[s[n + k]].size <= u32::MAX && psum(z.skip(n), k) >= 0 by { lemma_psum_skip(z, n, k); lemma_psum_skip(z, n, k + 1); assert(z[n + k] == im[s[n + k]].size); lemma_psum_bound(z.skip(n), k); }
    lemma_psum_skip(z, n, s.len() - n);
    lemma_psum_bound(z, n);
    lemma_psum_bound(z.skip(n), s.len() - n);
}
/// Sorting a choice of the items.
pub proof fn lemma_sorted_items<'a>(items: Items, q: spec_fn(&'a Item) -> bool, g: spec_fn(&'a Item, &'a Item) -> core::cmp::Ordering, us0: Seq<&'a Item>, us: Seq<&'a Item>)
    requires items.wf(), us0 == refs(items.item_seq()).filter(q), exists|p: Seq<int>| #[trigger] sorts(us0, us, g, p)
    ensures
        us.len() <= items.im().dom().len(),
        forall|i: int| #![trigger us[i]] 0 <= i < us.len() ==> items.im().contains_key(us[i].id) && *us[i] == items.im()[us[i].id] && q(us[i]),
        forall|x: Id| #[trigger] items.im().contains_key(x) && q(&items.im()[x]) ==> exists|i: int| 0 <= i < us.len() && (#[trigger] us[i]).id == x,
        forall|i: int, j: int| #![trigger us[i], us[j]] 0 <= i < j < us.len() ==> !(g(us[i], us[j]) is Greater) && (g(us[i], us[j]) is Equal ==> crate::ir_ord::idlt(us[i].id, us[j].id)) && us[i].id != us[j].id,
{
    lemma_item_seq(items);
    let all: Seq<&'a Item> = refs(items.item_seq());
    let rel = |a: &'a Item, b: &'a Item| crate::ir_ord::idlt(a.id, b.id);
    assert forall|i: int, j: int| #![trigger all[i], all[j]] 0 <= i < j < all.len() implies rel(all[i], all[j]) by { assert(*all[i] == items.item_seq()[i] && *all[j] == items.item_seq()[j]); }
    lemma_filter_pairwise(all, q, rel);
    lemma_filter(all, q);
    let p = choose|p: Seq<int>| #[trigger] sorts(us0, us, g, p);
    assert forall|i: int, j: int| #![trigger us[i], us[j]] 0 <= i < j < us.len() implies !(g(us[i], us[j]) is Greater) && (g(us[i], us[j]) is Equal ==> crate::ir_ord::idlt(us[i].id, us[j].id)) && us[i].id != us[j].id by {
        assert(us[i] == us0[p[i]] && us[j] == us0[p[j]]);
        if p[i] < p[j] { assert(rel(us0[p[i]], us0[p[j]])); } else { assert(rel(us0[p[j]], us0[p[i]])); }
    }
    assert forall|i: int| #![trigger us[i]] 0 <= i < us.len() implies items.im().contains_key(us[i].id) && *us[i] == items.im()[us[i].id] && q(us[i]) by {
        assert(us[i] == us0[p[i]]); assert(us0.contains(us0[p[i]])); assert(q(us[i]) && all.contains(us[i]));
        let k = choose|k: int| 0 <= k < all.len() && all[k] == us[i]; assert(items.item_seq()[k] == *us[i]);
    }
    assert forall|x: Id| #[trigger] items.im().contains_key(x) && q(&items.im()[x]) implies exists|i: int| 0 <= i < us.len() && (#[trigger] us[i]).id == x by {
        let k = choose|k: int| 0 <= k < items.item_seq().len() && (#[trigger] items.item_seq()[k]).id == x;
        assert(all[k].id == x); assert(all[k] == &items.im()[x]); assert(all.contains(all[k])); assert(us0.contains(all[k]));
        let m = choose|m: int| 0 <= m < us0.len() && us0[m] == all[k];
        let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == m;
        assert(us[i] == us0[m]);
    }
}
// ------------------------------------------------------------ text
pub open spec fn vwidth(h: Seq<(Align, Seq<char>)>, rows: Seq<Seq<Seq<char>>>, n: int, c: int) -> nat
    decreases n
{
    if n <= 0 { blen(h[c].1) } else { let w = vwidth(h, rows, n - 1, c); let b = blen(rows[n - 1][c]); if b > w { b } else { w } }
}
pub open spec fn vhead(h: Seq<(Align, Seq<char>)>, rows: Seq<Seq<Seq<char>>>, k: int) -> Seq<char>
    decreases k
{
    if k <= 0 { Seq::empty() } else { vhead(h, rows, k - 1) + (if k == 1 { " "@ } else { " │ "@ }) + cell(h[k - 1].1, vwidth(h, rows, rows.len() as int, k - 1), Align::Left, k == h.len()) }
}
pub open spec fn vrule(h: Seq<(Align, Seq<char>)>, rows: Seq<Seq<Seq<char>>>, k: int) -> Seq<char>
    decreases k
{
    if k <= 0 { Seq::empty() } else { vrule(h, rows, k - 1) + (if k == 1 { "─"@ } else { "─┼─"@ }) + dashes(vwidth(h, rows, rows.len() as int, k - 1) as int) }
}
pub open spec fn vrow(h: Seq<(Align, Seq<char>)>, rows: Seq<Seq<Seq<char>>>, row: Seq<Seq<char>>, k: int) -> Seq<char>
    decreases k
{
    if k <= 0 { Seq::empty() } else { vrow(h, rows, row, k - 1) + (if k == 1 { " "@ } else { " ┊ "@ }) + cell(row[k - 1], vwidth(h, rows, rows.len() as int, k - 1), h[k - 1].0, k == h.len()) }
}
pub open spec fn vrows(h: Seq<(Align, Seq<char>)>, rows: Seq<Seq<Seq<char>>>, n: int) -> Seq<char>
    decreases n
{
    if n <= 0 { Seq::empty() } else { vrows(h, rows, n - 1) + vrow(h, rows, rows[n - 1], h.len() as int) + "\n"@ }
}
/// A table with these headings and rows.
pub open spec fn ttext(h: Seq<(Align, Seq<char>)>, rows: Seq<Seq<Seq<char>>>) -> Seq<char> {
    vhead(h, rows, h.len() as int) + "\n"@ + vrule(h, rows, h.len() as int) + "\n"@ + vrows(h, rows, rows.len() as int)
}
pub proof fn lemma_vwidth(t: Table, n: int, c: int)
    requires t.wf(), 0 <= n <= t.rows@.len(), 0 <= c < t.cols()
    ensures vwidth(t.hv(), t.rv(), n, c) == width(t.header@, t.rows@, n, c)
    decreases n
{ if n > 0 { lemma_vwidth(t, n - 1, c); assert(t.rv()[n - 1][c] == t.rows@[n - 1]@[c]@); } }
pub proof fn lemma_vparts(t: Table, row: Seq<String>, k: int)
    requires t.wf(), 0 <= k <= t.cols(), row.len() == t.cols()
    ensures vhead(t.hv(), t.rv(), k) == t.head_upto(k), vrule(t.hv(), t.rv(), k) == t.rule_upto(k), vrow(t.hv(), t.rv(), texts(row), k) == t.row_upto(row, k)
    decreases k
{ if k > 0 { lemma_vparts(t, row, k - 1); lemma_vwidth(t, t.rows@.len() as int, k - 1); } }
pub proof fn lemma_vrows(t: Table, n: int)
    requires t.wf(), 0 <= n <= t.rows@.len()
    ensures vrows(t.hv(), t.rv(), n) == t.rows_upto(n)
    decreases n
{ if n > 0 { lemma_vrows(t, n - 1); lemma_vparts(t, t.rows@[n - 1]@, t.cols()); assert(t.rv()[n - 1] == texts(t.rows@[n - 1]@)); } }
/// The text of a table depends on the texts in it.
pub proof fn lemma_table_text(t: Table)
    requires t.wf()
    ensures t.text() == ttext(t.hv(), t.rv())
{
    lemma_vrows(t, t.rows@.len() as int);
    let row = Seq::new(t.header@.len(), |i: int| t.header@[i].1);
    lemma_vparts(t, row, t.cols());
}
// ------------------------------------------------------------ JSON
pub open spec fn jelems(v: Seq<J>) -> Seq<char> { elems(v, v.len()) }
pub proof fn lemma_elems_ext(v: Seq<J>, w: Seq<J>, k: nat)
    requires k <= v.len(), k <= w.len(), forall|i: int| 0 <= i < k ==> v[i] == w[i]
    ensures elems(v, k) == elems(w, k)
    decreases k
{ if k > 0 { lemma_elems_ext(v, w, (k - 1) as nat); } }
pub proof fn lemma_jelems_push(v: Seq<J>, x: J)
    ensures jelems(v.push(x)) == jelems(v) + sep(v.len() > 0) + render(x)
{ lemma_elems_ext(v, v.push(x), v.len()); }
pub open spec fn member(m: (Seq<char>, J)) -> Seq<char> { quoted(m.0) + ":"@ + render(m.1) }
pub open spec fn jmembers(v: Seq<(Seq<char>, J)>) -> Seq<char> { members(v, v.len()) }
pub proof fn lemma_members_ext(v: Seq<(Seq<char>, J)>, w: Seq<(Seq<char>, J)>, k: nat)
    requires k <= v.len(), k <= w.len(), forall|i: int| 0 <= i < k ==> v[i] == w[i]
    ensures members(v, k) == members(w, k)
    decreases k
{ if k > 0 { lemma_members_ext(v, w, (k - 1) as nat); } }
pub proof fn lemma_jmembers_push(v: Seq<(Seq<char>, J)>, x: (Seq<char>, J))
    ensures jmembers(v.push(x)) == jmembers(v) + sep(v.len() > 0) + quoted(x.0) + ":"@ + render(x.1)
{ lemma_members_ext(v, v.push(x), v.len()); }
pub proof fn lemma_members3(a: (Seq<char>, J), b: (Seq<char>, J), c: (Seq<char>, J))
    ensures jmembers(seq![a, b, c]) == quoted(a.0) + ":"@ + render(a.1) + ","@ + quoted(b.0) + ":"@ + render(b.1) + ","@ + quoted(c.0) + ":"@ + render(c.1)
{
    let e = Seq::<(Seq<char>, J)>::empty();
    lemma_jmembers_push(e, a); lemma_jmembers_push(e.push(a), b); lemma_jmembers_push(e.push(a).push(b), c);
    assert(e.push(a).push(b).push(c) =~= seq![a, b, c]);
    assert(jmembers(seq![a, b, c]) =~= quoted(a.0) + ":"@ + render(a.1) + ","@ + quoted(b.0) + ":"@ + render(b.1) + ","@ + quoted(c.0) + ":"@ + render(c.1));
}
/// What is known of a failed write.
pub open spec fn failed(a: Sink, b: Sink) -> bool { b.dest == a.dest && (a.owed ==> b.owed) && b.bad }
pub open spec fn follows(a: Sink, b: Sink) -> bool { b.dest == a.dest && (a.owed ==> b.owed) && (a.bad ==> b.bad) }
pub broadcast proof fn lemma_wrote(a: Sink, b: Sink, t: Seq<char>, ok: bool)
    ensures ok && #[trigger] wrote(a, b, t, ok) ==> follows(a, b), !ok ==> (wrote(a, b, t, ok) <==> failed(a, b))
{ }
pub open spec fn begun(w0: Sink, a: Sink, js: Seq<J>) -> bool { wrote(w0, a, "["@ + jelems(js), true) }
pub proof fn lemma_begin(w0: Sink, a: Sink)
    requires wrote(w0, a, "["@, true)
    ensures begun(w0, a, Seq::empty())
{ assert("["@ + jelems(Seq::empty()) =~= "["@); }
pub proof fn lemma_end(w0: Sink, a: Sink, js: Seq<J>)
    requires begun(w0, a, js)
    ensures forall|c: Sink| #[trigger] wrote(a, c, "]"@, true) ==> wrote(w0, c, render(J::Arr(js)), true)
{
    let t = "["@ + jelems(js);
    assert(render(J::Arr(js)) == t + "]"@);
    assert forall|c: Sink| #[trigger] wrote(a, c, "]"@, true) implies wrote(w0, c, render(J::Arr(js)), true) by { if !c.bad { assert(c.out =~= w0.out + (t + "]"@)); } }
}
/// Another object of the array is complete but for its brace.
pub proof fn lemma_object(w0: Sink, a0: Sink, o: Sink, js: Seq<J>, m: Seq<(Seq<char>, J)>)
    requires begun(w0, a0, js), wrote(a0, o, sep(js.len() > 0) + "{"@ + jmembers(m), true)
    ensures forall|c: Sink| #[trigger] wrote(o, c, "}"@, true) ==> begun(w0, c, js.push(J::Obj(m)))
{
    lemma_jelems_push(js, J::Obj(m));
    assert(render(J::Obj(m)) == "{"@ + jmembers(m) + "}"@);
    let a = "["@ + jelems(js); let b = sep(js.len() > 0) + "{"@ + jmembers(m);
    assert(a + b + "}"@ =~= "["@ + jelems(js.push(J::Obj(m))));
    assert forall|c: Sink| #[trigger] wrote(o, c, "}"@, true) implies begun(w0, c, js.push(J::Obj(m))) by {
        if !c.bad { assert(c.out =~= w0.out + (a + b + "}"@)); }
    }
}
/// A member more; `pre` is what stands before the members.
pub proof fn lemma_member(a: Sink, o: Sink, p: Sink, pre: Seq<char>, m: Seq<(Seq<char>, J)>, x: (Seq<char>, J))
    requires wrote(a, o, pre + jmembers(m), true), wrote(o, p, sep(m.len() > 0) + quoted(x.0) + ":"@ + render(x.1), true)
    ensures wrote(a, p, pre + jmembers(m.push(x)), true)
{
    lemma_jmembers_push(m, x);
    if !p.bad { assert(p.out =~= a.out + (pre + jmembers(m.push(x)))); }
}
/// An object with three members.
pub proof fn lemma_object3(w0: Sink, a0: Sink, o0: Sink, o1: Sink, o2: Sink, o3: Sink, js: Seq<J>, m: Seq<(Seq<char>, J)>)
    requires
        begun(w0, a0, js), m.len() == 3,
        wrote(a0, o0, sep(js.len() > 0) + "{"@, true),
        wrote(o0, o1, sep(false) + quoted(m[0].0) + ":"@ + render(m[0].1), true),
        wrote(o1, o2, sep(true) + quoted(m[1].0) + ":"@ + render(m[1].1), true),
        wrote(o2, o3, sep(true) + quoted(m[2].0) + ":"@ + render(m[2].1), true),
    ensures forall|c: Sink| #[trigger] wrote(o3, c, "}"@, true) ==> begun(w0, c, js.push(J::Obj(m)))
{
    let pre = sep(js.len() > 0) + "{"@;
    let e = Seq::<(Seq<char>, J)>::empty();
    assert(pre + jmembers(e) =~= pre);
    lemma_member(a0, o0, o1, pre, e, m[0]);
    lemma_member(a0, o1, o2, pre, e.push(m[0]), m[1]);
    lemma_member(a0, o2, o3, pre, e.push(m[0]).push(m[1]), m[2]);
    assert(e.push(m[0]).push(m[1]).push(m[2]) =~= m);
    lemma_object(w0, a0, o3, js, m);
}
/// The members of an object, written one after the other.
pub open spec fn membered(a: Sink, o: Sink, m: Seq<(Seq<char>, J)>) -> bool { wrote(a, o, jmembers(m), true) }
pub proof fn lemma_no_members(a: Sink)
    ensures membered(a, a, Seq::empty())
{ assert(a.out =~= a.out + jmembers(Seq::<(Seq<char>, J)>::empty())); }
pub proof fn lemma_membered(a: Sink, o: Sink, p: Sink, m: Seq<(Seq<char>, J)>, x: (Seq<char>, J))
    requires membered(a, o, m), wrote(o, p, sep(m.len() > 0) + quoted(x.0) + ":"@ + render(x.1), true)
    ensures membered(a, p, m.push(x))
{
    assert(Seq::<char>::empty() + jmembers(m) =~= jmembers(m));
    lemma_member(a, o, p, Seq::empty(), m, x);
    assert(Seq::<char>::empty() + jmembers(m.push(x)) =~= jmembers(m.push(x)));
}
/// An array that is a member of an object: `pre` is what stands before its bracket.
pub open spec fn begun_in(o: Sink, a: Sink, pre: Seq<char>, js: Seq<J>) -> bool { wrote(o, a, pre + "["@ + jelems(js), true) }
pub proof fn lemma_begin_in(o: Sink, a: Sink, pre: Seq<char>)
    requires wrote(o, a, pre + "["@, true)
    ensures begun_in(o, a, pre, Seq::empty())
{ assert(pre + "["@ + jelems(Seq::empty()) =~= pre + "["@); }
/// Another object in it.
pub proof fn lemma_object_in(o: Sink, a0: Sink, b: Sink, c: Sink, pre: Seq<char>, js: Seq<J>, m: Seq<(Seq<char>, J)>)
    requires begun_in(o, a0, pre, js), wrote(a0, b, sep(js.len() > 0) + "{"@, true), membered(b, c, m)
    ensures forall|d: Sink| #[trigger] wrote(c, d, "}"@, true) ==> begun_in(o, d, pre, js.push(J::Obj(m)))
{
    lemma_jelems_push(js, J::Obj(m));
    assert(render(J::Obj(m)) == "{"@ + jmembers(m) + "}"@);
    let a = pre + "["@ + jelems(js); let x = sep(js.len() > 0) + "{"@; let y = jmembers(m);
    assert(a + x + y + "}"@ =~= pre + "["@ + jelems(js.push(J::Obj(m))));
    assert forall|d: Sink| #[trigger] wrote(c, d, "}"@, true) implies begun_in(o, d, pre, js.push(J::Obj(m))) by {
        if !d.bad { assert(d.out =~= o.out + (a + x + y + "}"@)); }
    }
}
/// Its end.
pub proof fn lemma_end_in(o: Sink, a: Sink, pre: Seq<char>, js: Seq<J>)
    requires begun_in(o, a, pre, js)
    ensures forall|c: Sink| #[trigger] wrote(a, c, "]"@, true) ==> wrote(o, c, pre + render(J::Arr(js)), true)
{
    let t = pre + "["@ + jelems(js);
    assert(pre + render(J::Arr(js)) =~= t + "]"@);
    assert forall|c: Sink| #[trigger] wrote(a, c, "]"@, true) implies wrote(o, c, pre + render(J::Arr(js)), true) by { if !c.bad { assert(c.out =~= o.out + (t + "]"@)); } }
}
/// Its end, as the member of an object.
pub proof fn lemma_end_member(o0: Sink, o: Sink, a: Sink, m: Seq<(Seq<char>, J)>, name: Seq<char>, js: Seq<J>)
    requires membered(o0, o, m), begun_in(o, a, sep(m.len() > 0) + quoted(name) + ":"@, js)
    ensures forall|c: Sink| #[trigger] wrote(a, c, "]"@, true) ==> membered(o0, c, m.push((name, J::Arr(js))))
{
    lemma_end_in(o, a, sep(m.len() > 0) + quoted(name) + ":"@, js);
    assert forall|c: Sink| #[trigger] wrote(a, c, "]"@, true) implies membered(o0, c, m.push((name, J::Arr(js)))) by { lemma_membered(o0, o, c, m, (name, J::Arr(js))); }
}
/// The same, when its last object is open, too.
pub proof fn lemma_only_member(o0: Sink, o: Sink, a: Sink, b: Sink, u: Sink, m: Seq<(Seq<char>, J)>, name: Seq<char>, x: Seq<(Seq<char>, J)>)
    requires membered(o0, o, m), wrote(o, a, sep(m.len() > 0) + quoted(name) + ":"@ + "["@, true), wrote(a, b, sep(false) + "{"@, true), membered(b, u, x)
    ensures forall|d: Sink, c: Sink| #[trigger] wrote(u, d, "}"@, true) && #[trigger] wrote(d, c, "]"@, true) ==> membered(o0, c, m.push((name, J::Arr(seq![J::Obj(x)]))))
{
    let pre = sep(m.len() > 0) + quoted(name) + ":"@; let e = Seq::<J>::empty();
    lemma_begin_in(o, a, pre); lemma_object_in(o, a, b, u, pre, e, x);
    assert(e.push(J::Obj(x)) =~= seq![J::Obj(x)]);
    assert forall|d: Sink, c: Sink| #[trigger] wrote(u, d, "}"@, true) && #[trigger] wrote(d, c, "]"@, true) implies membered(o0, c, m.push((name, J::Arr(seq![J::Obj(x)])))) by {
        assert(begun_in(o, d, pre, seq![J::Obj(x)])); lemma_end_member(o0, o, d, m, name, seq![J::Obj(x)]);
    }
}
/// An object on its own.
pub proof fn lemma_document(w0: Sink, o: Sink, p: Sink, m: Seq<(Seq<char>, J)>)
    requires wrote(w0, o, "{"@, true), membered(o, p, m)
    ensures forall|c: Sink| #[trigger] wrote(p, c, "}"@, true) ==> wrote(w0, c, render(J::Obj(m)), true)
{
    assert(render(J::Obj(m)) =~= "{"@ + jmembers(m) + "}"@);
    assert forall|c: Sink| #[trigger] wrote(p, c, "}"@, true) implies wrote(w0, c, render(J::Obj(m)), true) by { if !c.bad { assert(c.out =~= w0.out + ("{"@ + jmembers(m) + "}"@)); } }
}
// ------------------------------------------------------------ CSV
/// Records written after others.
pub open spec fn more_upto(v: Seq<Rec>, k: int, first: bool) -> Seq<char> decreases k { if k <= 0 || k > v.len() { Seq::empty() } else { more_upto(v, k - 1, first) + entry(v[k - 1], first && k == 1) } }
pub open spec fn more_text(v: Seq<Rec>, first: bool) -> Seq<char> { more_upto(v, v.len() as int, first) }
pub proof fn lemma_more_ext(v: Seq<Rec>, w: Seq<Rec>, k: int, first: bool)
    requires k <= v.len(), k <= w.len(), forall|i: int| 0 <= i < k ==> v[i] == w[i]
    ensures more_upto(v, k, first) == more_upto(w, k, first)
    decreases k
{ if k > 0 { lemma_more_ext(v, w, k - 1, first); } }
pub proof fn lemma_more_push(v: Seq<Rec>, r: Rec, first: bool)
    ensures more_text(v.push(r), first) == more_text(v, first) + entry(r, first && v.len() == 0)
{ lemma_more_ext(v, v.push(r), v.len() as int, first); }
pub proof fn lemma_more_add(v: Seq<Rec>, w: Seq<Rec>, first: bool)
    ensures more_text(v + w, first) == more_text(v, first) + more_text(w, first && v.len() == 0)
    decreases w.len()
{
    if w.len() == 0 { assert(v + w =~= v); assert(more_text(v, first) =~= more_text(v, first) + more_text(w, first && v.len() == 0)); }
    else {
        let u = w.drop_last(); lemma_more_add(v, u, first); assert(v + w =~= (v + u).push(w.last())); assert(w =~= u.push(w.last()));
        lemma_more_push(v + u, w.last(), first); lemma_more_push(u, w.last(), first && v.len() == 0);
        assert(more_text(v + w, first) =~= more_text(v, first) + more_text(w, first && v.len() == 0));
    }
}
pub proof fn lemma_more_csv(v: Seq<Rec>)
    ensures more_text(v, true) == csv_text(v)
    decreases v.len()
{
    if v.len() > 0 { let u = v.drop_last(); assert(v =~= u.push(v.last())); lemma_more_csv(u); lemma_more_push(u, v.last(), true); lemma_csv_push(u, v.last()); }
}
/// What the records `v` add to a document that had some already or not.
pub open spec fn added(a: Sink, b: Sink, v: Seq<Rec>, first: bool) -> bool { wrote(a, b, more_text(v, first), true) }
pub proof fn lemma_added_none(a: Sink, first: bool)
    ensures added(a, a, Seq::empty(), first)
{ assert(a.out =~= a.out + more_text(Seq::<Rec>::empty(), first)); }
pub proof fn lemma_added(a: Sink, b: Sink, c: Sink, v: Seq<Rec>, w: Seq<Rec>, first: bool)
    requires added(a, b, v, first), added(b, c, w, first && v.len() == 0)
    ensures added(a, c, v + w, first)
{ lemma_more_add(v, w, first); if !c.bad { assert(c.out =~= a.out + (more_text(v, first) + more_text(w, first && v.len() == 0))); } }
/// One record, and a flush.
pub proof fn lemma_added_one(a: Sink, b: Sink, c: Sink, r: Rec, first: bool)
    requires wrote(a, b, entry(r, first), true), wrote(b, c, Seq::empty(), true)
    ensures added(a, c, seq![r], first)
{ lemma_more_push(Seq::empty(), r, first); assert(Seq::<Rec>::empty().push(r) =~= seq![r]); assert(more_text(seq![r], first) =~= entry(r, first)); if !c.bad { assert(c.out =~= a.out + more_text(seq![r], first)); } }
pub open spec fn filed(w0: Sink, a: Sink, cs: Seq<Rec>) -> bool { wrote(w0, a, csv_text(cs), true) }
pub proof fn lemma_no_records(w0: Sink)
    ensures filed(w0, w0, Seq::empty())
{ assert(w0.out =~= w0.out + csv_text(Seq::<Rec>::empty())); }
/// Another record.
pub proof fn lemma_record(w0: Sink, a: Sink, b: Sink, cs: Seq<Rec>, r: Rec)
    requires filed(w0, a, cs), wrote(a, b, entry(r, cs.len() == 0), true)
    ensures filed(w0, b, cs.push(r))
{
    lemma_csv_push(cs, r);
    if !b.bad { assert(b.out =~= w0.out + (csv_text(cs) + entry(r, cs.len() == 0))); }
}
/// A flush adds nothing.
pub proof fn lemma_flushed(w0: Sink, a: Sink, b: Sink, cs: Seq<Rec>)
    requires filed(w0, a, cs), wrote(a, b, Seq::empty(), true)
    ensures filed(w0, b, cs)
{ if !b.bad { assert(b.out =~= w0.out + csv_text(cs)); } }
} // verus!
}
