## Text tables (P13).
@module twiggy_analyze::formats::table analyze/formats/table.rs
@pre
use vstd::prelude::*;
use crate::vp::*;
use crate::vp_text::*;
broadcast use {crate::vp::group_vp};
/// The widest cell of column `c` among the header and the first `n` rows.
pub open spec fn width(h: Seq<(Align, String)>, rows: Seq<Vec<String>>, n: int, c: int) -> nat
    decreases n
{
    if n <= 0 { blen(h[c].1@) } else { let w = width(h, rows, n - 1, c); let b = blen(rows[n - 1]@[c]@); if b > w { b } else { w } }
}
pub open spec fn spaces(n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| ' ') }
pub open spec fn dashes(n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| '─') }
/// A cell in a column of width `w`: padded on the right or on the left, the last column only on the left.
pub open spec fn cell(x: Seq<char>, w: nat, a: Align, last: bool) -> Seq<char> {
    match a {
        Align::Left => if last { x } else { x + spaces(w - blen(x)) },
        Align::Right => spaces(w - blen(x)) + x,
    }
}
impl Table {
    pub open spec fn wf(&self) -> bool {
        &&& self.header@.len() > 0
        &&& forall|i: int| #![trigger self.rows@[i]] 0 <= i < self.rows@.len() ==> self.rows@[i]@.len() == self.header@.len()
    }
    pub open spec fn cols(&self) -> int { self.header@.len() as int }
    pub open spec fn w(&self, c: int) -> nat { width(self.header@, self.rows@, self.rows@.len() as int, c) }
    pub open spec fn head_upto(&self, k: int) -> Seq<char>
        decreases k
    {
        if k <= 0 { Seq::empty() } else {
            self.head_upto(k - 1) + (if k == 1 { " "@ } else { " │ "@ }) + cell(self.header@[k - 1].1@, self.w(k - 1), Align::Left, k == self.cols())
        }
    }
    pub open spec fn rule_upto(&self, k: int) -> Seq<char>
        decreases k
    {
        if k <= 0 { Seq::empty() } else { self.rule_upto(k - 1) + (if k == 1 { "─"@ } else { "─┼─"@ }) + dashes(self.w(k - 1) as int) }
    }
    pub open spec fn row_upto(&self, row: Seq<String>, k: int) -> Seq<char>
        decreases k
    {
        if k <= 0 { Seq::empty() } else {
            self.row_upto(row, k - 1) + (if k == 1 { " "@ } else { " ┊ "@ }) + cell(row[k - 1]@, self.w(k - 1), self.header@[k - 1].0, k == self.cols())
        }
    }
    pub open spec fn rows_upto(&self, n: int) -> Seq<char>
        decreases n
    {
        if n <= 0 { Seq::empty() } else { self.rows_upto(n - 1) + self.row_upto(self.rows@[n - 1]@, self.cols()) + "\n"@ }
    }
    /// The whole table.
    pub open spec fn text(&self) -> Seq<char> {
        self.head_upto(self.cols()) + "\n"@ + self.rule_upto(self.cols()) + "\n"@ + self.rows_upto(self.rows@.len() as int)
    }
}
impl VpDisplay for Table {
    open spec fn disp(&self) -> Seq<char> { self.text() }
    open spec fn fmt_ok(&self) -> bool { self.wf() }
}
/// The same, of plain texts.
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn heads(v: Seq<(Align, String)>) -> Seq<(Align, Seq<char>)> { v.map_values(|p: (Align, String)| (p.0, p.1@)) }
impl Table {
    pub open spec fn hv(&self) -> Seq<(Align, Seq<char>)> { heads(self.header@) }
    pub open spec fn rv(&self) -> Seq<Seq<Seq<char>>> { self.rows@.map_values(|r: Vec<String>| texts(r@)) }
}
@fn Table::with_header ret=r
    requires header@.len() > 0,
    ensures r.wf(), r.header@ == header@, r.rows@.len() == 0, r.hv() == heads(header@), r.rv() == Seq::<Seq<Seq<char>>>::empty()
@exit Table::with_header
    proof { assert(Seq::<Vec<String>>::empty().map_values(|r: Vec<String>| texts(r@)) =~= Seq::<Seq<Seq<char>>>::empty()); }
@fn Table::add_row
    requires old(self).wf(), row@.len() == old(self).header@.len(),
    ensures final(self).wf(), final(self).header@ == old(self).header@, final(self).rows@ == old(self).rows@.push(row), final(self).hv() == old(self).hv(), final(self).rv() == old(self).rv().push(texts(row@))
@exit Table::add_row
    proof { assert(self.rv() =~= old(self).rv().push(texts(row@))); }
@pre
pub proof fn lemma_width(h: Seq<(Align, String)>, rows: Seq<Vec<String>>, n: int, c: int)
    ensures width(h, rows, n, c) >= blen(h[c].1@), forall|j: int| #![trigger rows[j]] 0 <= j < n ==> width(h, rows, n, c) >= blen(rows[j]@[c]@)
    decreases n
{ if n > 0 { lemma_width(h, rows, n - 1, c); } }
@entry `Display for Table::fmt`
    proof { reveal_strlit(" "); reveal_strlit("─"); reveal_strlit("─┼─"); reveal_strlit(" ┊ "); reveal_strlit(" │ "); reveal_strlit("\n"); }
    let ghost a = f.vp_out(); let ghost bad = f.vp_bad(); let ghost n = self.cols();
@closure `Display for Table::fmt` 0
|&(Align, String)| -> (r: usize)
    ensures r == blen($0.1@)
@closure `Display for Table::fmt` 1
|&(Align, String)| -> (r: &String)
    ensures *r == $0.1
@closure `Display for Table::fmt` 2
|&(Align, String)| -> (r: Align)
    ensures r == $0.0
@loop `Display for Table::fmt` 0 iter=it0
    invariant
        self.wf(), n == self.cols(), maxs@.len() == n, it0.seq() == refs(self.rows@), f.vp_out() == a, f.vp_bad() == bad,
        forall|c: int| 0 <= c < n ==> #[trigger] maxs@[c] == width(self.header@, self.rows@, it0.index() as int, c),
@loopentry `Display for Table::fmt` 0
    let ghost r0 = it0.index() as int;
    assert(self.rows@[r0] == *row);
@loop `Display for Table::fmt` 1 iter=it1
    invariant
        self.wf(), n == self.cols(), maxs@.len() == n, 0 <= r0 < self.rows@.len(), row@ == self.rows@[r0]@, f.vp_out() == a, f.vp_bad() == bad,
        it1.seq().len() == n, forall|j: int| #![trigger it1.seq()[j]] 0 <= j < n ==> it1.seq()[j].0 == j && *it1.seq()[j].1 == row@[j],
        forall|c: int| 0 <= c < it1.index() ==> #[trigger] maxs@[c] == width(self.header@, self.rows@, r0 + 1, c),
        forall|c: int| it1.index() <= c < n ==> #[trigger] maxs@[c] == width(self.header@, self.rows@, r0, c),
@loopentry `Display for Table::fmt` 1
    let ghost k1 = it1.index() as int; assert(i == k1 && *x == row@[k1]);
@looppost `Display for Table::fmt` 0
    assert(forall|c: int| 0 <= c < n ==> #[trigger] maxs@[c] == self.w(c));
@loop `Display for Table::fmt` 2 iter=it2
    invariant
        self.wf(), n == self.cols(), last == n - 1, maxs@.len() == n, forall|c: int| 0 <= c < n ==> #[trigger] maxs@[c] == self.w(c),
        it2.seq().len() == n, forall|j: int| #![trigger it2.seq()[j]] 0 <= j < n ==> it2.seq()[j].0 == j && *it2.seq()[j].1 == self.header@[j].1,
        f.vp_bad() == bad, f.vp_out() =~= a + self.head_upto(it2.index() as int),
@loopentry `Display for Table::fmt` 2
    let ghost k2 = it2.index() as int; assert(i == k2 && *h == self.header@[k2].1);
    proof { lemma_width(self.header@, self.rows@, self.rows@.len() as int, k2); assert(maxs@[k2] == self.w(k2)); }
@looppre `Display for Table::fmt` 3
    proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
    let ghost o3 = f.vp_out();
@loop `Display for Table::fmt` 3 iter=it3
    invariant
        0 <= k2 < n, maxs@.len() == n, i == k2, blen(h@) <= maxs@[k2], it3.seq().len() == maxs@[k2] - blen(h@),
        f.vp_bad() == bad, f.vp_out() =~= o3 + spaces(it3.index() as int), " "@ =~= seq![' '],
@looppost `Display for Table::fmt` 2
    let ghost t1 = self.head_upto(n) + "\n"@;
@loop `Display for Table::fmt` 4 iter=it4
    invariant
        self.wf(), n == self.cols(), maxs@.len() == n, forall|c: int| 0 <= c < n ==> #[trigger] maxs@[c] == self.w(c),
        it4.seq().len() == n, forall|j: int| #![trigger it4.seq()[j]] 0 <= j < n ==> it4.seq()[j].0 == j && *it4.seq()[j].1 == maxs@[j],
        f.vp_bad() == bad, f.vp_out() =~= a + t1 + self.rule_upto(it4.index() as int),
@loopentry `Display for Table::fmt` 4
    let ghost k4 = it4.index() as int; assert(i == k4 && *max_len == maxs@[k4]);
@looppre `Display for Table::fmt` 5
    proof { reveal_strlit("─"); assert("─"@ =~= seq!['─']); }
    let ghost o5 = f.vp_out();
@loop `Display for Table::fmt` 5 iter=it5
    invariant
        it5.seq().len() == *max_len, f.vp_bad() == bad, f.vp_out() =~= o5 + dashes(it5.index() as int), "─"@ =~= seq!['─'],
@looppost `Display for Table::fmt` 4
    let ghost t2 = t1 + self.rule_upto(n) + "\n"@;
@loop `Display for Table::fmt` 6 iter=it6
    invariant
        self.wf(), n == self.cols(), last == n - 1, maxs@.len() == n, forall|c: int| 0 <= c < n ==> #[trigger] maxs@[c] == self.w(c), it6.seq() == refs(self.rows@),
        f.vp_bad() == bad, f.vp_out() =~= a + t2 + self.rows_upto(it6.index() as int),
@loopentry `Display for Table::fmt` 6
    let ghost r6 = it6.index() as int; let ghost o6 = f.vp_out();
    assert(self.rows@[r6] == *row);
@looppre `Display for Table::fmt` 7
    assert(self.rows@[r6]@.len() == n);
    assert(row@ == self.rows@[r6]@);
    assert(f.vp_out() =~= o6 + self.row_upto(row@, 0));
@loop `Display for Table::fmt` 7 iter=it7
    invariant
        self.wf(), n == self.cols(), last == n - 1, maxs@.len() == n, forall|c: int| 0 <= c < n ==> #[trigger] maxs@[c] == self.w(c),
        0 <= r6 < self.rows@.len(), row@ == self.rows@[r6]@,
        it7.seq().len() == n, forall|j: int| #![trigger it7.seq()[j]] 0 <= j < n ==> it7.seq()[j].0 == j && *it7.seq()[j].1.0 == row@[j] && it7.seq()[j].1.1 == self.header@[j].0,
        f.vp_bad() == bad, f.vp_out() =~= o6 + self.row_upto(row@, it7.index() as int),
@loopentry `Display for Table::fmt` 7
    let ghost k7 = it7.index() as int; assert(i == k7 && *x == row@[k7] && align == self.header@[k7].0);
    proof { lemma_width(self.header@, self.rows@, self.rows@.len() as int, k7); assert(maxs@[k7] == self.w(k7)); assert(self.rows@[r6]@[k7] == *x); }
@looppre `Display for Table::fmt` 8
    proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
    let ghost o8 = f.vp_out();
@loop `Display for Table::fmt` 8 iter=it8
    invariant
        0 <= k7 < n, maxs@.len() == n, i == k7, blen(x@) <= maxs@[k7], it8.seq().len() == maxs@[k7] - blen(x@),
        f.vp_bad() == bad, f.vp_out() =~= o8 + spaces(it8.index() as int), " "@ =~= seq![' '],
@looppre `Display for Table::fmt` 9
    proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
    let ghost o9 = f.vp_out();
@loop `Display for Table::fmt` 9 iter=it9
    invariant
        0 <= k7 < n, maxs@.len() == n, i == k7, blen(x@) <= maxs@[k7], it9.seq().len() == maxs@[k7] - blen(x@),
        f.vp_bad() == bad, f.vp_out() =~= o9 + spaces(it9.index() as int), " "@ =~= seq![' '],
@attr `Display for Table::fmt`
#[verifier::rlimit(60)]
