// Contract assumed on crate `csv` 1.x (TRUSTED): a `Writer` writes each serialized record as one line, a header line
// with the names of the fields before the first; what it has accepted has reached the destination after a flush.
pub mod csv {
use vstd::prelude::*;
use crate::vp_text::*;
use crate::vp_std::io;
use crate::vp_std::io::{Sink, wrote};
verus! {
/// One line holding these cells (quoted where the csv format requires it).
pub uninterp spec fn line(cells: Seq<Seq<char>>) -> Seq<char>;
/// A float at full precision.
pub uninterp spec fn fcsv(f: f64) -> Seq<char>;
pub trait VpCell { spec fn vp_cell(&self) -> Seq<char>; }
impl VpCell for String { open spec fn vp_cell(&self) -> Seq<char> { self@ } }
impl<'a> VpCell for &'a str { open spec fn vp_cell(&self) -> Seq<char> { (*self)@ } }
impl VpCell for u32 { open spec fn vp_cell(&self) -> Seq<char> { dec(*self as nat) } }
impl VpCell for u64 { open spec fn vp_cell(&self) -> Seq<char> { dec(*self as nat) } }
impl VpCell for f64 { open spec fn vp_cell(&self) -> Seq<char> { fcsv(*self) } }
impl<T: VpCell> VpCell for Option<T> { open spec fn vp_cell(&self) -> Seq<char> { match self { Some(x) => x.vp_cell(), None => Seq::empty() } } }
/// The fields of a serialized record: names and cells.
pub trait VpRecord { spec fn vp_rec(&self) -> Seq<(Seq<char>, Seq<char>)>; }
impl<'a, T: VpRecord> VpRecord for &'a T { open spec fn vp_rec(&self) -> Seq<(Seq<char>, Seq<char>)> { (**self).vp_rec() } }
pub open spec fn heads(r: Seq<(Seq<char>, Seq<char>)>) -> Seq<Seq<char>> { r.map_values(|p: (Seq<char>, Seq<char>)| p.0) }
pub open spec fn cells(r: Seq<(Seq<char>, Seq<char>)>) -> Seq<Seq<char>> { r.map_values(|p: (Seq<char>, Seq<char>)| p.1) }
/// The first `k` records as a csv document.
pub open spec fn csv_upto(v: Seq<Seq<(Seq<char>, Seq<char>)>>, k: int) -> Seq<char>
    decreases k
{ if k <= 0 || k > v.len() { Seq::empty() } else { csv_upto(v, k - 1) + entry(v[k - 1], k == 1) } }
pub open spec fn csv_text(v: Seq<Seq<(Seq<char>, Seq<char>)>>) -> Seq<char> { csv_upto(v, v.len() as int) }
pub open spec fn entry(r: Seq<(Seq<char>, Seq<char>)>, first: bool) -> Seq<char> { if first { line(heads(r)) + line(cells(r)) } else { line(cells(r)) } }
pub proof fn lemma_csv_ext(v: Seq<Seq<(Seq<char>, Seq<char>)>>, w: Seq<Seq<(Seq<char>, Seq<char>)>>, k: int)
    requires k <= v.len(), k <= w.len(), forall|i: int| 0 <= i < k ==> v[i] == w[i]
    ensures csv_upto(v, k) == csv_upto(w, k)
    decreases k
{ if k > 0 { lemma_csv_ext(v, w, k - 1); } }
pub proof fn lemma_csv_push(v: Seq<Seq<(Seq<char>, Seq<char>)>>, r: Seq<(Seq<char>, Seq<char>)>)
    ensures csv_text(v.push(r)) == csv_text(v) + entry(r, v.len() == 0)
{ lemma_csv_ext(v, v.push(r), v.len() as int); }

#[verifier::external_body]
pub struct Error { p: core::marker::PhantomData<u8> }
impl From<Error> for crate::anyhow::Error { #[verifier::external_body] fn from(e: Error) -> crate::anyhow::Error { unimplemented!() } }
pub type Result<T> = core::result::Result<T, Error>;
/// What a writer has done: the destination as it will be after a flush, the records written, whether something is
/// still buffered.
pub ghost struct St { pub sink: Sink, pub n: int, pub dirty: bool }
pub struct Writer<'a> { pub w: &'a mut dyn io::Write, pub st: Ghost<St> }
impl<'a> Writer<'a> {
    #[verifier::external_body]
    pub fn from_writer(wtr: &'a mut dyn io::Write) -> (r: Writer<'a>)
        ensures r.st@.sink == old(wtr).vp_sink(), r.st@.n == 0, !r.st@.dirty, final(r.w).vp_sink() == final(wtr).vp_sink()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize<R: VpRecord>(&mut self, rec: R) -> (r: Result<()>)
        ensures final(final(self).w).vp_sink() == final(old(self).w).vp_sink(),
            final(self).st@.n == old(self).st@.n + 1, final(self).st@.dirty,
            wrote(old(self).st@.sink, final(self).st@.sink, entry(rec.vp_rec(), old(self).st@.n == 0), r is Ok),
            r is Err ==> final(self).w.vp_sink() == final(self).st@.sink,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: io::Result<()>)
        ensures final(final(self).w).vp_sink() == final(old(self).w).vp_sink(),
            final(self).st@.n == old(self).st@.n, r is Ok ==> !final(self).st@.dirty,
            wrote(old(self).st@.sink, final(self).st@.sink, Seq::empty(), r is Ok),
            r is Err ==> final(self).w.vp_sink() == final(self).st@.sink,
    { unimplemented!() }
    /// `drop`: what is still buffered is written, but a failure goes unnoticed.
    #[verifier::external_body]
    pub fn vp_close(self)
        ensures
            final(self.w).vp_sink().dest == self.st@.sink.dest,
            self.st@.sink.bad ==> final(self.w).vp_sink().bad,
            self.st@.sink.owed ==> final(self.w).vp_sink().owed,
            !self.st@.dirty ==> final(self.w).vp_sink() == self.st@.sink,
    { unimplemented!() }
}
} // verus!
}
