## Reading, mode selection, format selection, dispatch, writing (P18, P22).
@def emit
@include vp.rs
@include vp_text.rs
@include vp_std.rs
@include anyhow.rs
@include stub_ir.rs
@include run_stub.rs
@include vp_asref.rs
@use opt.spec
@module twiggy_parser parser/parser.rs
@drop `trait Parse`
@external parse_wasm
@external parse_other
@pre
use vstd::prelude::*;
use crate::vp::*;
use crate::vp_text::*;
use crate::vp_std::fs::file_content;
use crate::vp_std::path::ext_text;
use crate::vp_asref::AsRef;
/// What each front end makes of the bytes (its own unit says more).
pub uninterp spec fn wasm_result(data: Seq<u8>) -> crate::anyhow::Result<ir::Items>;
pub uninterp spec fn other_result(data: Seq<u8>) -> crate::anyhow::Result<ir::Items>;
/// A file is wasm exactly if it is named .wasm or starts with the magic number.
pub open spec fn looks_wasm(ext: Option<Seq<char>>, data: Seq<u8>) -> bool {
    ext == Some("wasm"@) || (data.len() >= 4 && data[0] == 0 && data[1] == 0x61 && data[2] == 0x73 && data[3] == 0x6d)
}
pub open spec fn selected(ext: Option<Seq<char>>, mode: traits::ParseMode, data: Seq<u8>) -> crate::anyhow::Result<ir::Items> {
    match mode {
        traits::ParseMode::Wasm => wasm_result(data),
        traits::ParseMode::Dwarf => other_result(data),
        traits::ParseMode::Auto => if looks_wasm(ext, data) { wasm_result(data) } else { other_result(data) },
    }
}
pub open spec fn ext_of(e: Option<&OsStr>) -> Option<Seq<char>> { match e { Some(x) => x.vp_text(), None => None } }
@fn read_and_parse ret=r
    ensures r is Ok ==> r == selected(ext_text(path.vp_ref()@), mode, file_content(path.vp_ref()@))
@fn parse_auto ret=r
    ensures r == selected(ext_of(extension), traits::ParseMode::Auto, data@)
@fn sniff_wasm ret=r
    ensures r == looks_wasm(ext_of(extension), data@)
@closure sniff_wasm 0
|&OsStr| -> (t: Option<&str>)
    ensures t is Some <==> $0.vp_text() is Some, t is Some ==> t->Some_0@ == $0.vp_text()->Some_0
@entry sniff_wasm
    proof { assert(WASM_MAGIC_NUMBER@ =~= seq![0u8, 0x61, 0x73, 0x6d]);
        if data@.len() >= 4 { let h = data@.subrange(0, 4); assert(h =~= seq![data@[0], data@[1], data@[2], data@[3]]); assert(h == seq![0u8, 0x61, 0x73, 0x6d] <==> (h[0] == 0 && h[1] == 0x61 && h[2] == 0x73 && h[3] == 0x6d)) by { if h[0] == 0 && h[1] == 0x61 && h[2] == 0x73 && h[3] == 0x6d { assert(h =~= seq![0u8, 0x61, 0x73, 0x6d]); } } }
        reveal_strlit("wasm"); assert forall|s: &str| #[trigger] s@ == "wasm"@ implies s == "wasm" by { axiom_str_ext(s, "wasm"); } }
@fn parse ret=r
    ensures r == wasm_result(data@)
@fn parse_fallback ret=r
    ensures r == wasm_result(data@)
@fn parse_wasm ret=r
    ensures r == wasm_result(data@)
@fn parse_other ret=r
    ensures r == other_result(data@)
@module twiggy twiggy/twiggy.rs
@pre
use vstd::prelude::*;
use crate::vp::*;
use crate::vp_text::*;
use crate::twiggy_ir as ir;
use crate::twiggy_parser::selected;
use crate::vp_std::fs::file_content;
use crate::vp_std::path::ext_text;
use crate::vp_std::io::reached;
/// What parsing the file of this name in this mode yields.
pub open spec fn parsed(path: Seq<char>, mode: crate::twiggy_traits::ParseMode) -> crate::anyhow::Result<ir::Items> { selected(ext_text(path), mode, file_content(path)) }
/// `data` is what the chosen analysis made of the chosen input.
pub open spec fn analysed(opts: opt::Options, data: &dyn crate::twiggy_traits::Emit) -> bool {
    match opts {
        opt::Options::Top(o) => parsed(o.shown().input, o.shown().parse_mode) is Ok && analyze::is_top(parsed(o.shown().input, o.shown().parse_mode)->Ok_0, o, data),
        opt::Options::Dominators(o) => parsed(o.shown().input, o.shown().parse_mode) is Ok && analyze::is_dominators(parsed(o.shown().input, o.shown().parse_mode)->Ok_0, o, data),
        opt::Options::Paths(o) => parsed(o.shown().input, o.shown().parse_mode) is Ok && analyze::is_paths(parsed(o.shown().input, o.shown().parse_mode)->Ok_0, o, data),
        opt::Options::Monos(o) => parsed(o.shown().input, o.shown().parse_mode) is Ok && analyze::is_monos(parsed(o.shown().input, o.shown().parse_mode)->Ok_0, o, data),
        opt::Options::Garbage(o) => parsed(o.shown().input, o.shown().parse_mode) is Ok && analyze::is_garbage(parsed(o.shown().input, o.shown().parse_mode)->Ok_0, o, data),
        opt::Options::Diff(o) => parsed(o.shown().input, o.shown().parse_mode) is Ok && parsed(o.shown().new_input, o.shown().parse_mode) is Ok
            && analyze::is_diff(parsed(o.shown().input, o.shown().parse_mode)->Ok_0, parsed(o.shown().new_input, o.shown().parse_mode)->Ok_0, o, data),
    }
}
pub open spec fn wanted_dest(opts: opt::Options) -> int { opt::dest_of(opts_dest(opts)) }
pub open spec fn opts_dest(opts: opt::Options) -> opt::OutputDestination {
    match opts { opt::Options::Top(o) => o.shown().output_destination, opt::Options::Dominators(o) => o.shown().output_destination, opt::Options::Paths(o) => o.shown().output_destination,
        opt::Options::Monos(o) => o.shown().output_destination, opt::Options::Diff(o) => o.shown().output_destination, opt::Options::Garbage(o) => o.shown().output_destination }
}
pub open spec fn opts_format(opts: opt::Options) -> crate::twiggy_traits::OutputFormat {
    match opts { opt::Options::Top(o) => o.shown().output_format, opt::Options::Dominators(o) => o.shown().output_format, opt::Options::Paths(o) => o.shown().output_format,
        opt::Options::Monos(o) => o.shown().output_format, opt::Options::Diff(o) => o.shown().output_format, opt::Options::Garbage(o) => o.shown().output_format }
}
/// The requested report of the requested analysis of the requested input has reached the requested destination.
pub open spec fn done(opts: opt::Options) -> bool {
    exists|data: Box<dyn crate::twiggy_traits::Emit>, items: ir::Items| analysed(opts, &*data) && #[trigger] data.vp_ok(items)
        && reached(wanted_dest(opts), crate::twiggy_traits::report(&*data, items, opts_format(opts)))
}
/// StructOpt's derived parser (TRUSTED).
impl opt::Options { #[verifier::external_body] pub fn from_args() -> opt::Options { unimplemented!() } }
@fn run ret=r
    ensures r is Ok ==> done(*opts)
@fn main
    ensures exists|o: opt::Options| done(o)
