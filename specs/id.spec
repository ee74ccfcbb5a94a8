## Identifiers, where a failed assertion is the rejection the property asks for.
@include vp.rs
@include vp_text.rs
@include vp_std.rs
@include frozen.rs
@include ir_ord.rs

@module ir ir/ir.rs
@opt assert=diverge
@only `struct Id`
@only `impl Id`
@derives Id Clone,Copy,Debug,PartialEq,Eq,PartialOrd,Ord,Hash
@pre
use vstd::prelude::*;
use crate::vp::*;
use crate::ir_ord::*;
pub open spec fn ser(i: Id) -> int { i.0 as int * 0x1_0000_0000 + i.1 }
/// Different identifiers serialize differently, and in the order of the identifiers.
pub proof fn theorem_serialization_is_ordered(a: Id, b: Id)
    ensures ser(a) == ser(b) <==> a == b, ser(a) < ser(b) <==> idlt(a, b)
{ }
@fn Id::section ret=r
    ensures section < 0xffff_ffff, r.0 == section, r.1 == 0xffff_ffff
@fn Id::entry ret=r
    ensures section < 0xffff_ffff, index < 0xffff_ffff, r.0 == section, r.1 == index
@fn Id::root ret=r
    ensures r.0 == 0xffff_ffff, r.1 == 0xffff_ffff
@fn Id::serializable ret=r
    ensures r == ser(self)
@exit Id::serializable
    proof {
        let a = self.0; let b = self.1;
        assert(((a as u64) << 32u64) | (b as u64) == (a as u64) * 0x1_0000_0000u64 + (b as u64)) by (bit_vector);
    }
@post
/// Sections, section entries and the meta root never share an identifier, and different numbers give different ones.
fn vp_theorem_kinds_are_disjoint(s: usize, t: usize, i: usize, u: usize, j: usize) {
    let a = Id::section(s); let b = Id::entry(t, i); let c = Id::root(); let d = Id::entry(u, j); let e = Id::section(u);
    assert(ser(a) != ser(b) && ser(a) != ser(c) && ser(b) != ser(c));
    assert(ser(b) == ser(d) <==> t == u && i == j);
    assert(ser(a) == ser(e) <==> s == u);
}
