// Contracts assumed on strings, formatting, numbers as text and writers (TRUSTED; each names the std function it stands for).
pub mod vp_text {
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::ops::*;
use crate::vp::*;
verus! {

// ------------------------------------------------------------ strings
/// Length in bytes.
pub open spec fn blen(s: Seq<char>) -> nat { vstd::utf8::encode_utf8(s).len() }
/// The byte offset of character `i`.
pub open spec fn boff(s: Seq<char>, i: int) -> int { blen(s.take(i)) as int }
#[verifier::external_body]
pub broadcast proof fn axiom_str_len(s: &str) ensures (#[trigger] s.spec_bytes()).len() <= isize::MAX, s.spec_bytes() == vstd::utf8::encode_utf8(s@) {}
pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == blen(s@), r <= isize::MAX;
pub assume_specification[ <String as core::convert::AsRef<str>>::as_ref ](s: &String) -> (r: &str) ensures r@ == s@;
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
/// Earlier characters start earlier.
pub proof fn lemma_boff(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len()
    ensures boff(s, i) < boff(s, j)
{
    vstd::utf8::encode_utf8_concat(s.take(i), s.subrange(i, j));
    assert(s.take(i) + s.subrange(i, j) =~= s.take(j));
    vstd::utf8::encode_utf8_concat(Seq::empty(), s.subrange(i, j));
    lemma_blen_pos(s.subrange(i, j));
}
pub proof fn lemma_blen_pos(s: Seq<char>) requires s.len() > 0 ensures blen(s) > 0
{
    reveal_with_fuel(vstd::utf8::encode_utf8, 2);
}
/// At most four bytes a character.
pub proof fn lemma_blen_max(s: Seq<char>)
    ensures blen(s) <= 4 * s.len()
    decreases s.len()
{
    reveal_with_fuel(vstd::utf8::encode_utf8, 2);
    if s.len() > 0 { lemma_blen_max(s.drop_first()); }
}
pub proof fn lemma_boff_same(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len(), boff(s, i) == boff(s, j)
    ensures i == j
{ if i < j { lemma_boff(s, i, j); } else if j < i { lemma_boff(s, j, i); } }
pub proof fn lemma_boff_le(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len()
    ensures boff(s, i) < boff(s, j) <==> i < j, boff(s, i) <= boff(s, j) <==> i <= j
{ if i < j { lemma_boff(s, i, j); } else if j < i { lemma_boff(s, j, i); } }
pub open spec fn occurs_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
/// The last position at which `p` occurs, -1 if it does not.
pub open spec fn last_at(s: Seq<char>, p: Seq<char>) -> int { last_below(s, p, s.len() as int) }
pub open spec fn last_below(s: Seq<char>, p: Seq<char>, n: int) -> int decreases n + 1 {
    if n < 0 { -1 } else if occurs_at(s, p, n) { n } else { last_below(s, p, n - 1) }
}
pub proof fn lemma_last_below(s: Seq<char>, p: Seq<char>, n: int)
    requires n >= -1
    ensures ({ let k = last_below(s, p, n); -1 <= k <= n && (k >= 0 ==> occurs_at(s, p, k)) && forall|j: int| k < j <= n ==> !#[trigger] occurs_at(s, p, j) })
    decreases n + 1
{ if n >= 0 && !occurs_at(s, p, n) { lemma_last_below(s, p, n - 1); } }
/// What is where in the text.
pub open spec fn first_char(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { -1 } else { let k = first_char(s.drop_last(), c); if k >= 0 { k } else if s.last() == c { s.len() - 1 } else { -1 } } }
pub open spec fn last_char(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { last_char(s.drop_last(), c) } }
pub proof fn lemma_first_char(s: Seq<char>, c: char)
    ensures ({ let k = first_char(s, c); -1 <= k < s.len() && (k >= 0 ==> s[k] == c && forall|j: int| 0 <= j < k ==> #[trigger] s[j] != c) && (k < 0 ==> forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] != c) })
    decreases s.len()
{ if s.len() > 0 { lemma_first_char(s.drop_last(), c); assert forall|j: int| 0 <= j < s.len() - 1 implies s[j] == s.drop_last()[j] by {} } }
pub proof fn lemma_last_char(s: Seq<char>, c: char)
    ensures ({ let k = last_char(s, c); -1 <= k < s.len() && (k >= 0 ==> s[k] == c && forall|j: int| k < j < s.len() ==> #[trigger] s[j] != c) && (k < 0 ==> forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] != c) })
    decreases s.len()
{ if s.len() > 0 { lemma_last_char(s.drop_last(), c); assert forall|j: int| 0 <= j < s.len() - 1 implies s[j] == s.drop_last()[j] by {} } }
pub proof fn lemma_find_first<T>(s: Seq<T>, q: spec_fn(T) -> bool)
    ensures match find_seq(s, q) { None => forall|i: int| 0 <= i < s.len() ==> !q(#[trigger] s[i]), Some(x) => exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == x && q(x) && forall|j: int| 0 <= j < i ==> !q(#[trigger] s[j]) }
    decreases s.len()
{
    if s.len() > 0 && !q(s[0]) {
        lemma_find_first(s.drop_first(), q);
        let t = s.drop_first();
        assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i + 1]);
        if let Some(x) = find_seq(t, q) {
            let i = choose|i: int| #![trigger t[i]] 0 <= i < t.len() && t[i] == x && q(x) && forall|j: int| 0 <= j < i ==> !q(#[trigger] t[j]);
            assert forall|j: int| 0 <= j < i + 1 implies !q(#[trigger] s[j]) by { if j > 0 { assert(t[j - 1] == s[j]); } }
            assert(s[i + 1] == x);
        } else {
            assert forall|j: int| 0 <= j < s.len() implies !q(#[trigger] s[j]) by { if j > 0 { assert(t[j - 1] == s[j]); } }
        }
    } else if s.len() > 0 { assert(s[0] == s[0]); }
}
pub open spec fn indexed_chars(s: Seq<char>) -> Seq<(usize, char)> { Seq::new(s.len(), |i: int| (boff(s, i) as usize, s[i])) }
pub proof fn lemma_indexed_chars(s: &str)
    ensures forall|i: int| 0 <= i < s@.len() ==> (#[trigger] indexed_chars(s@)[i]).1 == s@[i] && indexed_chars(s@)[i].0 == boff(s@, i), blen(s@) <= isize::MAX
{
    axiom_str_len(s);
    assert(s@.take(s@.len() as int) =~= s@);
    assert forall|i: int| 0 <= i < s@.len() implies (#[trigger] indexed_chars(s@)[i]).0 == boff(s@, i) by { lemma_boff(s@, i, s@.len() as int); }
}
/// A pattern of `str` methods: a string or a character.
pub trait VpPat { spec fn pat(&self) -> Seq<char>; }
impl<'a> VpPat for &'a str { open spec fn pat(&self) -> Seq<char> { (*self)@ } }
impl VpPat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
pub trait VpStr {
    spec fn vp_chars_seq(&self) -> Seq<char>;
    fn vp_chars(&self) -> (r: VpIter<char>) ensures r@ == self.vp_chars_seq();
    fn vp_char_indices(&self) -> (r: VpIter<(usize, char)>) ensures r@ == indexed_chars(self.vp_chars_seq());
    fn vp_starts_with<P: VpPat>(&self, p: P) -> (r: bool) ensures r == occurs_at(self.vp_chars_seq(), p.pat(), 0);
    fn vp_ends_with<P: VpPat>(&self, p: P) -> (r: bool) ensures r == occurs_at(self.vp_chars_seq(), p.pat(), self.vp_chars_seq().len() - p.pat().len());
    /// byte offset of the last occurrence
    fn vp_rfind<P: VpPat>(&self, p: P) -> (r: Option<usize>)
        ensures last_at(self.vp_chars_seq(), p.pat()) < 0 ==> r is None,
            last_at(self.vp_chars_seq(), p.pat()) >= 0 ==> r is Some && r->Some_0 == boff(self.vp_chars_seq(), last_at(self.vp_chars_seq(), p.pat()));
    fn vp_slice_to(&self, n: usize) -> (r: &str)
        requires exists|i: int| 0 <= i <= self.vp_chars_seq().len() && #[trigger] boff(self.vp_chars_seq(), i) == n
        ensures forall|i: int| 0 <= i <= self.vp_chars_seq().len() && #[trigger] boff(self.vp_chars_seq(), i) == n ==> r@ == self.vp_chars_seq().take(i);
    fn vp_slice_from(&self, n: usize) -> (r: &str)
        requires exists|i: int| 0 <= i <= self.vp_chars_seq().len() && #[trigger] boff(self.vp_chars_seq(), i) == n
        ensures forall|i: int| 0 <= i <= self.vp_chars_seq().len() && #[trigger] boff(self.vp_chars_seq(), i) == n ==> r@ == self.vp_chars_seq().skip(i);
}
impl VpStr for str {
    open spec fn vp_chars_seq(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vp_chars(&self) -> (r: VpIter<char>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_char_indices(&self) -> (r: VpIter<(usize, char)>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_starts_with<P: VpPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vp_ends_with<P: VpPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vp_rfind<P: VpPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_slice_to(&self, n: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vp_slice_from(&self, n: usize) -> (r: &str) { unimplemented!() }
}

// ------------------------------------------------------------ numbers
/// Decimal digits.
pub open spec fn digit(n: nat) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' } }
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
pub open spec fn sdec(n: int) -> Seq<char> { if n < 0 { seq!['-'] + dec((-n) as nat) } else { dec(n as nat) } }
pub open spec fn hexdigit(n: nat) -> char { if n < 10 { digit(n) } else if n == 10 { 'a' } else if n == 11 { 'b' } else if n == 12 { 'c' } else if n == 13 { 'd' } else if n == 14 { 'e' } else { 'f' } }
/// `{:04x}` of a number below 65536.
pub open spec fn hex4(n: nat) -> Seq<char> { seq![hexdigit(n / 4096), hexdigit(n / 256 % 16), hexdigit(n / 16 % 16), hexdigit(n % 16)] }
/// `{}` and `{:.2}` of a float.
pub uninterp spec fn fdisp(f: f64) -> Seq<char>;
pub uninterp spec fn fp2(f: f64) -> Seq<char>;
pub uninterp spec fn f64_of(n: int) -> f64;
pub open spec fn fdiv(a: f64, b: f64) -> f64 { a.div_spec(b) }
pub open spec fn fmul(a: f64, b: f64) -> f64 { a.mul_spec(b) }
pub open spec fn fadd(a: f64, b: f64) -> f64 { a.add_spec(b) }
/// `part` as a percentage of `total`.
pub open spec fn percent(part: int, total: int) -> f64 { fmul(fdiv(f64_of(part), f64_of(total)), 100.0f64) }
#[verifier::external_body]
pub broadcast proof fn axiom_f64_add(a: f64, b: f64) ensures #[trigger] <f64 as AddSpec<f64>>::add_req(a, b) {}
#[verifier::external_body]
pub broadcast proof fn axiom_f64_sub(a: f64, b: f64) ensures #[trigger] <f64 as SubSpec<f64>>::sub_req(a, b) {}
#[verifier::external_body]
pub broadcast proof fn axiom_f64_mul(a: f64, b: f64) ensures #[trigger] <f64 as MulSpec<f64>>::mul_req(a, b) {}
#[verifier::external_body]
pub broadcast proof fn axiom_f64_div(a: f64, b: f64) ensures #[trigger] <f64 as DivSpec<f64>>::div_req(a, b) {}
#[verifier::external_body]
pub broadcast proof fn axiom_f64_obeys_add() ensures #[trigger] <f64 as AddSpec<f64>>::obeys_add_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_f64_obeys_sub() ensures #[trigger] <f64 as SubSpec<f64>>::obeys_sub_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_f64_obeys_mul() ensures #[trigger] <f64 as MulSpec<f64>>::obeys_mul_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_f64_obeys_div() ensures #[trigger] <f64 as DivSpec<f64>>::obeys_div_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_f64_from_u32(n: u32) ensures #[trigger] <f64 as vstd::std_specs::convert::FromSpec<u32>>::from_spec(n) == f64_of(n as int) {}
#[verifier::external_body]
pub broadcast proof fn axiom_f64_obeys_from_u32() ensures #[trigger] <f64 as vstd::std_specs::convert::FromSpec<u32>>::obeys_from_spec() {}
pub broadcast group group_f64 {
    axiom_f64_add, axiom_f64_sub, axiom_f64_mul, axiom_f64_div, axiom_f64_obeys_add, axiom_f64_obeys_sub, axiom_f64_obeys_mul, axiom_f64_obeys_div,
    axiom_f64_from_u32, axiom_f64_obeys_from_u32,
}

#[verifier::external_body]
pub broadcast proof fn axiom_i64_from_u32(n: u32) ensures #[trigger] <i64 as vstd::std_specs::convert::FromSpec<u32>>::from_spec(n) == n as i64 {}
#[verifier::external_body]
pub broadcast proof fn axiom_i64_obeys_from_u32() ensures #[trigger] <i64 as vstd::std_specs::convert::FromSpec<u32>>::obeys_from_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_u64_from_u32(n: u32) ensures #[trigger] <u64 as vstd::std_specs::convert::FromSpec<u32>>::from_spec(n) == n as u64 {}
#[verifier::external_body]
pub broadcast proof fn axiom_u64_obeys_from_u32() ensures #[trigger] <u64 as vstd::std_specs::convert::FromSpec<u32>>::obeys_from_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_u32_from_char(n: char) ensures #[trigger] <u32 as vstd::std_specs::convert::FromSpec<char>>::from_spec(n) == n as u32 {}
#[verifier::external_body]
pub broadcast proof fn axiom_u32_obeys_from_char() ensures #[trigger] <u32 as vstd::std_specs::convert::FromSpec<char>>::obeys_from_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_i64_from_i32(n: i32) ensures #[trigger] <i64 as vstd::std_specs::convert::FromSpec<i32>>::from_spec(n) == n as i64 {}
#[verifier::external_body]
pub broadcast proof fn axiom_i64_obeys_from_i32() ensures #[trigger] <i64 as vstd::std_specs::convert::FromSpec<i32>>::obeys_from_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_u64_from_u8(n: u8) ensures #[trigger] <u64 as vstd::std_specs::convert::FromSpec<u8>>::from_spec(n) == n as u64 {}
#[verifier::external_body]
pub broadcast proof fn axiom_u64_obeys_from_u8() ensures #[trigger] <u64 as vstd::std_specs::convert::FromSpec<u8>>::obeys_from_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_u32_from_u8(n: u8) ensures #[trigger] <u32 as vstd::std_specs::convert::FromSpec<u8>>::from_spec(n) == n as u32 {}
#[verifier::external_body]
pub broadcast proof fn axiom_u32_obeys_from_u8() ensures #[trigger] <u32 as vstd::std_specs::convert::FromSpec<u8>>::obeys_from_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_u32_from_u16(n: u16) ensures #[trigger] <u32 as vstd::std_specs::convert::FromSpec<u16>>::from_spec(n) == n as u32 {}
#[verifier::external_body]
pub broadcast proof fn axiom_u32_obeys_from_u16() ensures #[trigger] <u32 as vstd::std_specs::convert::FromSpec<u16>>::obeys_from_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_u64_from_u16(n: u16) ensures #[trigger] <u64 as vstd::std_specs::convert::FromSpec<u16>>::from_spec(n) == n as u64 {}
#[verifier::external_body]
pub broadcast proof fn axiom_u64_obeys_from_u16() ensures #[trigger] <u64 as vstd::std_specs::convert::FromSpec<u16>>::obeys_from_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_usize_from_u8(n: u8) ensures #[trigger] <usize as vstd::std_specs::convert::FromSpec<u8>>::from_spec(n) == n as usize {}
#[verifier::external_body]
pub broadcast proof fn axiom_usize_obeys_from_u8() ensures #[trigger] <usize as vstd::std_specs::convert::FromSpec<u8>>::obeys_from_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_usize_from_u16(n: u16) ensures #[trigger] <usize as vstd::std_specs::convert::FromSpec<u16>>::from_spec(n) == n as usize {}
#[verifier::external_body]
pub broadcast proof fn axiom_usize_obeys_from_u16() ensures #[trigger] <usize as vstd::std_specs::convert::FromSpec<u16>>::obeys_from_spec() {}
pub broadcast group group_num { axiom_i64_from_u32, axiom_i64_obeys_from_u32, axiom_u64_from_u32, axiom_u64_obeys_from_u32, axiom_u32_from_char, axiom_u32_obeys_from_char, axiom_i64_from_i32, axiom_i64_obeys_from_i32, axiom_u64_from_u8, axiom_u64_obeys_from_u8, axiom_u32_from_u8, axiom_u32_obeys_from_u8, axiom_u32_from_u16, axiom_u32_obeys_from_u16, axiom_u64_from_u16, axiom_u64_obeys_from_u16, axiom_usize_from_u8, axiom_usize_obeys_from_u8, axiom_usize_from_u16, axiom_usize_obeys_from_u16 }

/// `x as f64`: integers up to 2^53 are represented exactly, so that they are shown as the integer they are.
pub trait VpAsF64 { spec fn vp_int(&self) -> int; }
impl VpAsF64 for i64 { open spec fn vp_int(&self) -> int { *self as int } }
impl VpAsF64 for u32 { open spec fn vp_int(&self) -> int { *self as int } }
impl VpAsF64 for u64 { open spec fn vp_int(&self) -> int { *self as int } }
impl VpAsF64 for usize { open spec fn vp_int(&self) -> int { *self as int } }
#[verifier::external_body]
pub fn vp_as_f64<T: VpAsF64>(x: T) -> (r: f64) ensures r == f64_of(x.vp_int()) { unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_f64_shows_int(n: int) ensures -0x20_0000_0000_0000 <= n <= 0x20_0000_0000_0000 ==> fdisp(f64_of(n)) == sdec(n) {}
/// `i64` operators on references.
#[verifier::external_body]
pub broadcast proof fn axiom_i64_add_ref(a: i64, b: &i64) ensures #[trigger] <i64 as AddSpec<&i64>>::add_req(a, b) <==> i64::MIN <= a + *b <= i64::MAX {}
#[verifier::external_body]
pub broadcast proof fn axiom_i64_add_ref_val(a: i64, b: &i64) ensures #[trigger] <i64 as AddSpec<&i64>>::add_spec(a, b) == (a + *b) as i64 {}
#[verifier::external_body]
pub broadcast proof fn axiom_i64_obeys_add_ref() ensures #[trigger] <i64 as AddSpec<&i64>>::obeys_add_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_i64_sub_ref(a: &i64, b: &i64) ensures #[trigger] <&i64 as SubSpec<&i64>>::sub_req(a, b) <==> i64::MIN <= *a - *b <= i64::MAX {}
#[verifier::external_body]
pub broadcast proof fn axiom_i64_sub_ref_val(a: &i64, b: &i64) ensures #[trigger] <&i64 as SubSpec<&i64>>::sub_spec(a, b) == (*a - *b) as i64 {}
#[verifier::external_body]
pub broadcast proof fn axiom_i64_obeys_sub_ref() ensures #[trigger] <&i64 as SubSpec<&i64>>::obeys_sub_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_i64_neg_ref(a: &i64) ensures #[trigger] <&i64 as NegSpec>::neg_req(a) <==> *a != i64::MIN {}
#[verifier::external_body]
pub broadcast proof fn axiom_i64_neg_ref_val(a: &i64) ensures #[trigger] <&i64 as NegSpec>::neg_spec(a) == (-*a) as i64 {}
#[verifier::external_body]
pub broadcast proof fn axiom_i64_obeys_neg_ref() ensures #[trigger] <&i64 as NegSpec>::obeys_neg_spec() {}
pub broadcast group group_refs { axiom_i64_add_ref, axiom_i64_add_ref_val, axiom_i64_obeys_add_ref, axiom_i64_sub_ref, axiom_i64_sub_ref_val, axiom_i64_obeys_sub_ref, axiom_i64_neg_ref, axiom_i64_neg_ref_val, axiom_i64_obeys_neg_ref }
pub open spec fn iabs(n: int) -> int { if n < 0 { -n } else { n } }
/// `i64::abs` (of the smallest number: an overflow, here wrapping).
pub assume_specification[ i64::abs ](x: i64) -> (r: i64) ensures r == (if x == i64::MIN { i64::MIN } else { iabs(x as int) as i64 });

// ------------------------------------------------------------ formatting
/// The text `{}` gives.
pub trait VpDisplay { spec fn disp(&self) -> Seq<char>; open spec fn fmt_ok(&self) -> bool { true } }
impl VpDisplay for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VpDisplay for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VpDisplay for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } }
impl VpDisplay for u8 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl VpDisplay for u16 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl VpDisplay for u32 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl VpDisplay for u64 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl VpDisplay for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl VpDisplay for i32 { open spec fn disp(&self) -> Seq<char> { sdec(*self as int) } }
impl VpDisplay for i64 { open spec fn disp(&self) -> Seq<char> { sdec(*self as int) } }
impl VpDisplay for f64 { open spec fn disp(&self) -> Seq<char> { fdisp(*self) } }
impl<'a, T: VpDisplay + ?Sized> VpDisplay for &'a T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } open spec fn fmt_ok(&self) -> bool { (**self).fmt_ok() } }
/// `to_string`.
pub trait VpToString: VpDisplay { fn vp_to_string(&self) -> (r: String) requires self.fmt_ok() ensures r@ == self.disp(); }
impl<T: VpDisplay + ?Sized> VpToString for T {
    #[verifier::external_body]
    fn vp_to_string(&self) -> (r: String) { unimplemented!() }
}
/// `{:?}`: some text.
pub uninterp spec fn dbg_text<T: ?Sized>(x: &T) -> Seq<char>;
pub trait VpPlus { spec fn plus_text(&self) -> Seq<char>; }
impl VpPlus for i64 { open spec fn plus_text(&self) -> Seq<char> { if *self < 0 { sdec(*self as int) } else { seq!['+'] + sdec(*self as int) } } }
impl<'a, T: VpPlus + ?Sized> VpPlus for &'a T { open spec fn plus_text(&self) -> Seq<char> { (**self).plus_text() } }
pub trait VpF64 { spec fn f64_val(&self) -> f64; }
impl VpF64 for f64 { open spec fn f64_val(&self) -> f64 { *self } }
impl<'a, T: VpF64 + ?Sized> VpF64 for &'a T { open spec fn f64_val(&self) -> f64 { (**self).f64_val() } }
#[verifier::external_body]
pub struct VpFmt { p: core::marker::PhantomData<u8> }
impl View for VpFmt { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VpFmt {
    #[verifier::external_body]
    pub fn new() -> (r: VpFmt) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn d<T: VpDisplay + ?Sized>(&mut self, x: &T) requires x.fmt_ok() ensures final(self)@ == old(self)@ + x.disp() { unimplemented!() }
    #[verifier::external_body]
    pub fn p2<T: VpF64 + ?Sized>(&mut self, x: &T) ensures final(self)@ == old(self)@ + fp2(x.f64_val()) { unimplemented!() }
    #[verifier::external_body]
    pub fn plus<T: VpPlus + ?Sized>(&mut self, x: &T) ensures final(self)@ == old(self)@ + x.plus_text() { unimplemented!() }
    #[verifier::external_body]
    pub fn x04(&mut self, x: &u32) ensures *x < 0x10000 ==> final(self)@ == old(self)@ + hex4(*x as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn dbg<T: ?Sized>(&mut self, x: &T) ensures final(self)@ == old(self)@ + dbg_text(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
} // verus!
}
