// Stand-ins for the parts of std that the code names and Verus has no specification for (TRUSTED contracts).
pub mod vp_std {
pub mod slice {
    pub use core::slice::Iter;
}
pub mod iter {
use vstd::prelude::*;
use crate::vp::*;
verus! {
#[verifier::external_body]
pub fn once<T>(x: T) -> (r: VpIter<T>) ensures r@ == seq![x] { unimplemented!() }
#[verifier::external_body]
pub fn empty<T>() -> (r: VpIter<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
} // verus!
}
pub mod str {
use vstd::prelude::*;
verus! {
/// std::str::FromStr.
pub trait FromStr: Sized { type Err; fn from_str(s: &str) -> Result<Self, Self::Err>; }
} // verus!
}
pub mod io {
use vstd::prelude::*;
use crate::vp_text::*;
verus! {
#[verifier::external_body]
pub struct Error { p: core::marker::PhantomData<u8> }
pub type Result<T> = core::result::Result<T, Error>;
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other }
impl Error { #[verifier::external_body] pub fn kind(&self) -> ErrorKind { unimplemented!() } }
/// "The destination has received exactly this text" (ghost fact, established by a successful flush).
pub uninterp spec fn reached(dest: int, text: Seq<char>) -> bool;
/// What is known of a destination: everything it accepted so far, whether some write failed (sticky), whether every
/// failed write is still owed, so that a flush must fail (sticky), and which destination it is.
pub ghost struct Sink { pub out: Seq<char>, pub bad: bool, pub owed: bool, pub dest: int }
/// std::io::Write.  A failed write of one character (other than a newline) found a full buffer that could not be
/// written; the buffer stays full, so that flushing fails too.
pub trait Write {
    spec fn vp_sink(&self) -> Sink;
    fn vp_write_str(&mut self, s: String) -> (r: Result<()>)
        ensures wrote(old(self).vp_sink(), final(self).vp_sink(), s@, r is Ok),
            r is Err && s@.len() == 1 && s@[0] != '\n' ==> final(self).vp_sink().owed;
    fn flush(&mut self) -> (r: Result<()>)
        ensures final(self).vp_sink() == old(self).vp_sink(),
            r is Ok ==> !final(self).vp_sink().owed && reached(final(self).vp_sink().dest, final(self).vp_sink().out);
}
/// One or more writes took a destination from `a` to `b`, appending `text` unless one of them failed; a failure is
/// reported, or owed.
pub open spec fn wrote(a: Sink, b: Sink, text: Seq<char>, ok: bool) -> bool {
    &&& b.dest == a.dest
    &&& a.bad ==> b.bad
    &&& a.owed ==> b.owed
    &&& !ok ==> b.bad
    &&& ok && (a.bad ==> a.owed) ==> (b.bad ==> b.owed)
    &&& !b.bad ==> b.out =~= a.out + text
}
/// Destinations that buffer: what they accept reaches the underlying destination when a flush succeeds (TRUSTED).
pub open spec fn stdout_dest() -> int { 1 }
pub uninterp spec fn file_dest(path: Seq<char>) -> int;
#[verifier::external_body]
pub struct Stdout { p: core::marker::PhantomData<u8> }
#[verifier::external_body]
pub fn stdout() -> (r: Stdout) ensures r.vp_sink() == (Sink { out: Seq::empty(), bad: false, owed: false, dest: stdout_dest() }) { unimplemented!() }
pub uninterp spec fn w_sink<W>(w: W) -> Sink;
impl Write for Stdout {
    open spec fn vp_sink(&self) -> Sink { w_sink(*self) }
    #[verifier::external_body] fn vp_write_str(&mut self, s: String) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
}
impl Write for crate::vp_std::fs::File {
    open spec fn vp_sink(&self) -> Sink { w_sink(*self) }
    #[verifier::external_body] fn vp_write_str(&mut self, s: String) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct BufWriter<W> { p: core::marker::PhantomData<W> }
impl<W: Write> BufWriter<W> {
    #[verifier::external_body]
    pub fn new(w: W) -> (r: BufWriter<W>) ensures r.vp_sink() == w.vp_sink() { unimplemented!() }
}
impl<W: Write> Write for BufWriter<W> {
    open spec fn vp_sink(&self) -> Sink { w_sink(*self) }
    #[verifier::external_body] fn vp_write_str(&mut self, s: String) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
}
/// std::io::Read.
pub trait Read {
    spec fn vp_rest(&self) -> Seq<u8>;
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>)
        ensures r is Ok ==> final(buf)@ == old(buf)@ + old(self).vp_rest();
}
} // verus!
}
pub mod fmt {
use vstd::prelude::*;
use crate::vp_text::*;
verus! {
#[verifier::external_body]
pub struct Error { p: core::marker::PhantomData<u8> }
pub type Result = core::result::Result<(), Error>;
#[verifier::external_body]
pub struct Formatter { p: core::marker::PhantomData<u8> }
impl Formatter {
    pub uninterp spec fn vp_out(&self) -> Seq<char>;
    /// The destination refused something (sticky).
    pub uninterp spec fn vp_bad(&self) -> bool;
    #[verifier::external_body]
    pub fn vp_write_str(&mut self, s: String) -> (r: Result) ensures formatted(*old(self), *final(self), s@, r is Ok) { unimplemented!() }
}
/// Formatting appended `text`, or failed because the destination refused it.
pub open spec fn formatted(a: Formatter, b: Formatter, text: Seq<char>, ok: bool) -> bool {
    &&& a.vp_bad() ==> b.vp_bad()
    &&& !ok ==> b.vp_bad()
    &&& ok ==> b.vp_bad() == a.vp_bad() && b.vp_out() =~= a.vp_out() + text
}
/// std::fmt::Display: `{}` gives `disp`.
pub trait Display: VpDisplay {
    fn fmt(&self, f: &mut Formatter) -> (r: Result)
        requires self.fmt_ok(),
        ensures formatted(*old(f), *final(f), self.disp(), r is Ok);
}
} // verus!
}
pub mod fs {
use vstd::prelude::*;
use crate::vp_std::path::Path;
verus! {
/// What reading the file of this name yields.
pub uninterp spec fn file_content(path: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub struct File { p: core::marker::PhantomData<u8> }
pub uninterp spec fn file_rest(f: File) -> Seq<u8>;
impl File {
    #[verifier::external_body]
    pub fn open(path: &Path) -> (r: crate::vp_std::io::Result<File>) ensures r is Ok ==> file_rest(r->Ok_0) == file_content(path@) { unimplemented!() }
}
impl File {
    #[verifier::external_body]
    pub fn create(path: &Path) -> (r: crate::vp_std::io::Result<File>)
        ensures r is Ok ==> crate::vp_std::io::w_sink(r->Ok_0) == (crate::vp_std::io::Sink { out: Seq::empty(), bad: false, owed: false, dest: crate::vp_std::io::file_dest(path@) }) { unimplemented!() }
}
impl crate::vp_std::io::Read for File {
    open spec fn vp_rest(&self) -> Seq<u8> { file_rest(*self) }
    #[verifier::external_body]
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: crate::vp_std::io::Result<usize>) { unimplemented!() }
}
} // verus!
}
pub mod ffi {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub struct OsStr { p: core::marker::PhantomData<u8> }
impl OsStr {
    /// Its text, if it is text.
    pub uninterp spec fn vp_text(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>)
        ensures r is Some <==> self.vp_text() is Some, r is Some ==> r->Some_0@ == self.vp_text()->Some_0 { unimplemented!() }
}
} // verus!
}
pub mod process {
use vstd::prelude::*;
verus! {
/// Something was written to the error stream.
pub uninterp spec fn said() -> bool;
#[verifier::external_body]
pub fn vp_eprintln() ensures said() { unimplemented!() }
/// Ends the process; here only a failure ends it early, and not silently.
#[verifier::external_body]
pub fn exit(code: i32) -> ! requires code != 0, said() { unimplemented!() }
} // verus!
}
pub mod path {
use vstd::prelude::*;
verus! {
/// A path is its text.
#[verifier::external_body]
pub struct Path { p: core::marker::PhantomData<u8> }
/// The extension of the last component (std's definition).
pub uninterp spec fn ext_text(path: Seq<char>) -> Option<Seq<char>>;
impl Path {
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&crate::vp_std::ffi::OsStr>)
        ensures (match r { Some(e) => e.vp_text(), None => None }) == ext_text(self@) { unimplemented!() }
}
/// What `as_ref` of a path-like value is.
pub trait VpPathLike { spec fn vp_path(&self) -> Seq<char>; }
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub struct PathBuf { pub p: Path }
impl View for PathBuf { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.p@ } }
impl core::ops::Deref for PathBuf { type Target = Path; fn deref(&self) -> (r: &Path) ensures *r == self.p { &self.p } }
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() } }
impl Default for PathBuf { #[verifier::external_body] fn default() -> (r: PathBuf) ensures r@ == Seq::<char>::empty() { unimplemented!() } }
impl From<String> for PathBuf { #[verifier::external_body] fn from(s: String) -> (r: PathBuf) ensures r@ == s@ { unimplemented!() } }
impl<'a> From<&'a str> for PathBuf { #[verifier::external_body] fn from(s: &'a str) -> (r: PathBuf) ensures r@ == s@ { unimplemented!() } }
} // verus!
}
}
