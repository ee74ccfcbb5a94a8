## JSON output (P12).
@module twiggy_analyze::formats::json analyze/formats/json.rs
@opt close=array
@opt close=object
@pre
use vstd::prelude::*;
use crate::vp::*;
use crate::vp_text::*;
use crate::vp_asref::AsRef;
use crate::vp_std::io::Write;
broadcast use {crate::vp::group_vp, crate::vp_text::group_num};
/// A JSON value.
pub enum J { Str(Seq<char>), Int(int), Flt(f64), Arr(Seq<J>), Obj(Seq<(Seq<char>, J)>) }
/// A character inside a string.
pub open spec fn esc1(c: char) -> Seq<char> {
    if c == '"' { "\\\""@ } else if c == '\\' { "\\\\"@ } else if c == '\n' { "\\n"@ } else if (c as u32) < 32 { "\\u"@ + hex4(c as nat) } else { seq![c] }
}
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + esc1(s.last()) } }
pub open spec fn quoted(s: Seq<char>) -> Seq<char> { "\""@ + esc(s) + "\""@ }
pub open spec fn sep(b: bool) -> Seq<char> { if b { ","@ } else { Seq::empty() } }
pub open spec fn render(j: J) -> Seq<char>
    decreases j
{
    match j {
        J::Str(s) => quoted(s),
        J::Int(n) => sdec(n),
        J::Flt(f) => fdisp(f),
        J::Arr(v) => "["@ + elems(v, v.len() as nat) + "]"@,
        J::Obj(v) => "{"@ + members(v, v.len() as nat) + "}"@,
    }
}
/// The first `k` elements, comma separated.
pub open spec fn elems(v: Seq<J>, k: nat) -> Seq<char>
    decreases v, k
{
    if k == 0 || k > v.len() { Seq::empty() } else { elems(v, (k - 1) as nat) + sep(k > 1) + render(v[k - 1]) }
}
pub open spec fn members(v: Seq<(Seq<char>, J)>, k: nat) -> Seq<char>
    decreases v, k
{
    if k == 0 || k > v.len() { Seq::empty() } else { members(v, (k - 1) as nat) + sep(k > 1) + quoted(v[k - 1].0) + ":"@ + render(v[k - 1].1) }
}
@inject JsonPrimitive
    spec fn vp_j(&self) -> J;
@inject `JsonPrimitive for &str`
    open spec fn vp_j(&self) -> J { J::Str((**self)@) }
@inject `JsonPrimitive for f64`
    open spec fn vp_j(&self) -> J { J::Flt(*self) }
@inject `JsonPrimitive for u32`
    open spec fn vp_j(&self) -> J { J::Int(*self as int) }
@fn JsonPrimitive::json_primitive ret=r
    ensures io::wrote(old(w).vp_sink(), final(w).vp_sink(), render(self.vp_j()), r is Ok)
@loop `JsonPrimitive for &str::json_primitive` 0 iter=it
    invariant
        it.seq() == self@, w0 == old(w).vp_sink(), io::wrote(w0, w.vp_sink(), "\""@ + esc(self@.take(it.index() as int)), true),
@entry `JsonPrimitive for &str::json_primitive`
    let ghost w0 = w.vp_sink();
    proof { assert(forall|k: int| 0 <= k < self@.len() ==> (#[trigger] self@.take(k + 1)).drop_last() =~= self@.take(k)); assert(self@.take(0) =~= Seq::empty()); assert(self@.take(self@.len() as int) =~= self@); }
@loopentry `JsonPrimitive for &str::json_primitive` 0
    let ghost k = it.index() as int;
    proof { assert(self@.take(k + 1).drop_last() =~= self@.take(k)); assert(self@.take(k + 1).last() == c); }
@fn array ret=r
    ensures match r { Ok(a) => !a.need_comma && io::wrote(old(w).vp_sink(), a.w.vp_sink(), "["@, true) && final(a.w).vp_sink() == final(w).vp_sink(), Err(_) => io::wrote(old(w).vp_sink(), final(w).vp_sink(), "["@, false) }
@fn object ret=r
    ensures match r { Ok(a) => !a.need_comma && io::wrote(old(w).vp_sink(), a.w.vp_sink(), "{"@, true) && final(a.w).vp_sink() == final(w).vp_sink(), Err(_) => io::wrote(old(w).vp_sink(), final(w).vp_sink(), "{"@, false) }
@entry `Drop for Array::drop`
    proof { reveal_strlit("]"); }
@entry `Drop for Object::drop`
    proof { reveal_strlit("}"); }
@fn `Drop for Array::drop`
    ensures io::wrote(old(self.w).vp_sink(), final(self.w).vp_sink(), "]"@, true)
@fn `Drop for Object::drop`
    ensures io::wrote(old(self.w).vp_sink(), final(self.w).vp_sink(), "}"@, true)
@fn Array::comma ret=r
    ensures final(self).need_comma, io::wrote(old(self).w.vp_sink(), final(self).w.vp_sink(), sep(old(self).need_comma), r is Ok), final(final(self).w).vp_sink() == final(old(self).w).vp_sink()
@fn Array::object ret=r
    ensures final(self).need_comma, final(final(self).w).vp_sink() == final(old(self).w).vp_sink(),
        match r {
            Ok(a) => !a.need_comma && io::wrote(old(self).w.vp_sink(), a.w.vp_sink(), sep(old(self).need_comma) + "{"@, true) && final(a.w).vp_sink() == final(self).w.vp_sink(),
            Err(_) => io::wrote(old(self).w.vp_sink(), final(self).w.vp_sink(), "{"@, false) }
@fn Array::array ret=r
    ensures final(self).need_comma, final(final(self).w).vp_sink() == final(old(self).w).vp_sink(),
        match r {
            Ok(a) => !a.need_comma && io::wrote(old(self).w.vp_sink(), a.w.vp_sink(), sep(old(self).need_comma) + "["@, true) && final(a.w).vp_sink() == final(self).w.vp_sink(),
            Err(_) => io::wrote(old(self).w.vp_sink(), final(self).w.vp_sink(), "["@, false) }
@fn Array::elem ret=r
    ensures final(self).need_comma, final(final(self).w).vp_sink() == final(old(self).w).vp_sink(),
        io::wrote(old(self).w.vp_sink(), final(self).w.vp_sink(), sep(old(self).need_comma) + render(elem.vp_j()), r is Ok)
@fn Object::comma_and_name ret=r
    ensures final(self).need_comma, final(final(self).w).vp_sink() == final(old(self).w).vp_sink(),
        io::wrote(old(self).w.vp_sink(), final(self).w.vp_sink(), sep(old(self).need_comma) + quoted(name.vp_ref()@) + ":"@, r is Ok)
@fn Object::object ret=r
    ensures final(self).need_comma, final(final(self).w).vp_sink() == final(old(self).w).vp_sink(),
        match r {
            Ok(a) => !a.need_comma && io::wrote(old(self).w.vp_sink(), a.w.vp_sink(), sep(old(self).need_comma) + quoted(name.vp_ref()@) + ":"@ + "{"@, true) && final(a.w).vp_sink() == final(self).w.vp_sink(),
            Err(_) => io::wrote(old(self).w.vp_sink(), final(self).w.vp_sink(), "{"@, false) }
@fn Object::array ret=r
    ensures final(self).need_comma, final(final(self).w).vp_sink() == final(old(self).w).vp_sink(),
        match r {
            Ok(a) => !a.need_comma && io::wrote(old(self).w.vp_sink(), a.w.vp_sink(), sep(old(self).need_comma) + quoted(name.vp_ref()@) + ":"@ + "["@, true) && final(a.w).vp_sink() == final(self).w.vp_sink(),
            Err(_) => io::wrote(old(self).w.vp_sink(), final(self).w.vp_sink(), "["@, false) }
@fn Object::field ret=r
    ensures final(self).need_comma, final(final(self).w).vp_sink() == final(old(self).w).vp_sink(),
        io::wrote(old(self).w.vp_sink(), final(self).w.vp_sink(), sep(old(self).need_comma) + quoted(name.vp_ref()@) + ":"@ + render(val.vp_j()), r is Ok)
@post
/// RFC 8259 string decoding, between the quotes.
pub open spec fn hexval(c: char) -> int {
    if c == '0' { 0 } else if c == '1' { 1 } else if c == '2' { 2 } else if c == '3' { 3 } else if c == '4' { 4 } else if c == '5' { 5 } else if c == '6' { 6 } else if c == '7' { 7 }
    else if c == '8' { 8 } else if c == '9' { 9 } else if c == 'a' || c == 'A' { 10 } else if c == 'b' || c == 'B' { 11 } else if c == 'c' || c == 'C' { 12 } else if c == 'd' || c == 'D' { 13 }
    else if c == 'e' || c == 'E' { 14 } else if c == 'f' || c == 'F' { 15 } else { -1 }
}
pub open spec fn code(c: char) -> int { c as int }
pub open spec fn chr(n: int) -> char { choose|c: char| #[trigger] code(c) == n }
pub open spec fn before(c: char, r: Option<Seq<char>>) -> Option<Seq<char>> { match r { Some(t) => Some(seq![c] + t), None => None } }
pub open spec fn unesc(t: Seq<char>) -> Option<Seq<char>>
    decreases t.len()
{
    if t.len() == 0 { Some(Seq::empty()) }
    else if t[0] == '"' || (t[0] as int) < 32 { None }
    else if t[0] != '\\' { before(t[0], unesc(t.skip(1))) }
    else if t.len() < 2 { None }
    else if t[1] == '"' || t[1] == '\\' || t[1] == '/' { before(t[1], unesc(t.skip(2))) }
    else if t[1] == 'n' { before('\n', unesc(t.skip(2))) }
    else if t[1] == 'r' { before('\r', unesc(t.skip(2))) }
    else if t[1] == 't' { before('\t', unesc(t.skip(2))) }
    else if t[1] == 'b' { before(chr(8), unesc(t.skip(2))) }
    else if t[1] == 'f' { before(chr(12), unesc(t.skip(2))) }
    else if t[1] == 'u' && t.len() >= 6 && hexval(t[2]) >= 0 && hexval(t[3]) >= 0 && hexval(t[4]) >= 0 && hexval(t[5]) >= 0 {
        before(chr(hexval(t[2]) * 4096 + hexval(t[3]) * 256 + hexval(t[4]) * 16 + hexval(t[5])), unesc(t.skip(6)))
    } else { None }
}
pub proof fn lemma_unesc1(c: char, t: Seq<char>)
    ensures unesc(esc1(c) + t) == before(c, unesc(t))
{
    reveal_strlit("\\\""); reveal_strlit("\\\\"); reveal_strlit("\\n"); reveal_strlit("\\u");
    let a = esc1(c) + t;
    if c == '"' || c == '\\' || c == '\n' { assert(a.skip(2) =~= t); }
    else if (c as u32) < 32 {
        assert(a.skip(6) =~= t);
        let n = c as int;
        assert(n / 16 % 16 == n / 16 && n / 256 % 16 == 0 && n / 4096 == 0);
        assert(n / 16 * 16 + n % 16 == n);
        assert(a[2] == hexdigit(0) && a[3] == hexdigit(0) && a[4] == hexdigit((n / 16) as nat) && a[5] == hexdigit((n % 16) as nat));
        let d = chr(n);
        assert(code(d) == n) by { assert(code(c) == n); }
        assert(d == c);
    } else { assert(a.skip(1) =~= t); }
}
pub open spec fn cat(s: Seq<char>, r: Option<Seq<char>>) -> Option<Seq<char>> { match r { Some(t) => Some(s + t), None => None } }
pub proof fn lemma_unesc(s: Seq<char>, t: Seq<char>)
    ensures unesc(esc(s) + t) == cat(s, unesc(t))
    decreases s.len()
{
    if s.len() == 0 {
        assert(esc(s) + t =~= t);
        if let Some(u) = unesc(t) { assert(s + u =~= u); }
    } else {
        let u = esc1(s.last()) + t;
        assert(esc(s) + t =~= esc(s.drop_last()) + u);
        lemma_unesc(s.drop_last(), u);
        lemma_unesc1(s.last(), t);
        if let Some(x) = unesc(t) { assert(s.drop_last() + (seq![s.last()] + x) =~= s + x); }
    }
}
/// Decoding what stands between the quotes gives the original text back.
pub proof fn theorem_strings_decode(s: Seq<char>)
    ensures quoted(s) == seq!['"'] + esc(s) + seq!['"'], unesc(esc(s)) == Some(s)
{
    reveal_strlit("\"");
    assert("\""@ =~= seq!['"']);
    lemma_unesc(s, Seq::empty());
    assert(esc(s) + Seq::<char>::empty() =~= esc(s));
    assert(s + Seq::<char>::empty() =~= s);
}
/// Comma separated parts.
pub open spec fn commas(p: Seq<Seq<char>>, k: nat) -> Seq<char>
    decreases k
{ if k == 0 || k > p.len() { Seq::empty() } else { commas(p, (k - 1) as nat) + sep(k > 1) + p[k - 1] } }
/// The JSON grammar (without white space): `t` is a document with this value.
pub open spec fn is_json(t: Seq<char>, j: J) -> bool
    decreases j
{
    match j {
        J::Str(s) => is_string(t, s),
        J::Int(n) => t == sdec(n),
        J::Flt(f) => t == fdisp(f),
        J::Arr(v) => exists|p: Seq<Seq<char>>| p.len() == v.len() && t == "["@ + #[trigger] commas(p, p.len()) + "]"@ && all_json(p, v, v.len() as nat),
        J::Obj(v) => exists|p: Seq<Seq<char>>, n: Seq<Seq<char>>, x: Seq<Seq<char>>| p.len() == v.len() && t == "{"@ + #[trigger] commas(p, p.len()) + "}"@ && #[trigger] pair(n, x) && all_members(p, n, x, v, v.len() as nat),
    }
}
pub open spec fn is_string(t: Seq<char>, s: Seq<char>) -> bool { exists|b: Seq<char>| t == seq!['"'] + b + seq!['"'] && #[trigger] unesc(b) == Some(s) }
pub open spec fn pair(n: Seq<Seq<char>>, x: Seq<Seq<char>>) -> bool { true }
/// The first `k` parts are documents with these values.
pub open spec fn all_json(p: Seq<Seq<char>>, v: Seq<J>, k: nat) -> bool
    decreases v, k
{ k == 0 || k > v.len() || (all_json(p, v, (k - 1) as nat) && is_json(p[k - 1], v[k - 1])) }
/// The first `k` parts are members: a string, a colon, a document.
pub open spec fn all_members(p: Seq<Seq<char>>, n: Seq<Seq<char>>, x: Seq<Seq<char>>, v: Seq<(Seq<char>, J)>, k: nat) -> bool
    decreases v, k
{ k == 0 || k > v.len() || (all_members(p, n, x, v, (k - 1) as nat) && p[k - 1] == n[k - 1] + ":"@ + x[k - 1] && is_string(n[k - 1], v[k - 1].0) && is_json(x[k - 1], v[k - 1].1)) }
/// What is written is a document with the given value.
pub proof fn theorem_render_is_json(j: J)
    ensures is_json(render(j), j)
    decreases j
{
    match j {
        J::Str(s) => { theorem_strings_decode(s); }
        J::Int(n) => {}
        J::Flt(f) => {}
        J::Arr(v) => {
            let p = Seq::new(v.len(), |i: int| render(v[i]));
            lemma_elems(v, p, v.len());
            lemma_all_json(p, v, v.len());
            let t = render(j);
            assert(t == "["@ + commas(p, p.len()) + "]"@);
            assert(exists|p: Seq<Seq<char>>| p.len() == v.len() && t == "["@ + #[trigger] commas(p, p.len()) + "]"@ && all_json(p, v, v.len() as nat));
            assert(j == J::Arr(v));
            assert(is_json(t, j) == (exists|p: Seq<Seq<char>>| p.len() == v.len() && t == "["@ + #[trigger] commas(p, p.len()) + "]"@ && all_json(p, v, v.len() as nat)));
        }
        J::Obj(v) => {
            let n = Seq::new(v.len(), |i: int| quoted(v[i].0));
            let x = Seq::new(v.len(), |i: int| render(v[i].1));
            let p = Seq::new(v.len(), |i: int| quoted(v[i].0) + ":"@ + render(v[i].1));
            lemma_members(v, p, v.len());
            lemma_all_members(p, n, x, v, v.len());
            let t = render(j);
            assert(pair(n, x));
            assert(t == "{"@ + commas(p, p.len()) + "}"@);
            assert(exists|p: Seq<Seq<char>>, n: Seq<Seq<char>>, x: Seq<Seq<char>>| p.len() == v.len() && t == "{"@ + #[trigger] commas(p, p.len()) + "}"@ && #[trigger] pair(n, x) && all_members(p, n, x, v, v.len() as nat));
            assert(j == J::Obj(v));
            assert(is_json(t, j) == (exists|p: Seq<Seq<char>>, n: Seq<Seq<char>>, x: Seq<Seq<char>>| p.len() == v.len() && t == "{"@ + #[trigger] commas(p, p.len()) + "}"@ && #[trigger] pair(n, x) && all_members(p, n, x, v, v.len() as nat)));
        }
    }
}
pub proof fn lemma_all_json(p: Seq<Seq<char>>, v: Seq<J>, k: nat)
    requires p == Seq::new(v.len(), |i: int| render(v[i]))
    ensures all_json(p, v, k)
    decreases v, k
{ if 0 < k <= v.len() { lemma_all_json(p, v, (k - 1) as nat); theorem_render_is_json(v[k - 1]); } }
pub proof fn lemma_all_members(p: Seq<Seq<char>>, n: Seq<Seq<char>>, x: Seq<Seq<char>>, v: Seq<(Seq<char>, J)>, k: nat)
    requires p == Seq::new(v.len(), |i: int| quoted(v[i].0) + ":"@ + render(v[i].1)), n == Seq::new(v.len(), |i: int| quoted(v[i].0)), x == Seq::new(v.len(), |i: int| render(v[i].1))
    ensures all_members(p, n, x, v, k)
    decreases v, k
{ if 0 < k <= v.len() { lemma_all_members(p, n, x, v, (k - 1) as nat); theorem_strings_decode(v[k - 1].0); theorem_render_is_json(v[k - 1].1); } }
pub proof fn lemma_elems(v: Seq<J>, p: Seq<Seq<char>>, k: nat)
    requires k <= v.len(), p == Seq::new(v.len(), |i: int| render(v[i]))
    ensures elems(v, k) == commas(p, k)
    decreases k
{ if k > 0 { lemma_elems(v, p, (k - 1) as nat); } }
pub proof fn lemma_members(v: Seq<(Seq<char>, J)>, p: Seq<Seq<char>>, k: nat)
    requires k <= v.len(), p == Seq::new(v.len(), |i: int| quoted(v[i].0) + ":"@ + render(v[i].1))
    ensures members(v, k) == commas(p, k)
    decreases k
{
    if k > 0 {
        lemma_members(v, p, (k - 1) as nat);
        let a = members(v, (k - 1) as nat); let q = quoted(v[k - 1].0); let r = render(v[k - 1].1);
        assert(a + sep(k > 1) + q + ":"@ + r =~= a + sep(k > 1) + (q + ":"@ + r));
    }
}
