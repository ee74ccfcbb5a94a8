## Input mode and output format selection (traits/traits.rs).
@module twiggy_traits traits/traits.rs
@drop `trait Analyze`
@pre
use vstd::prelude::*;
use crate::vp::*;
pub open spec fn mode_named(s: Seq<char>) -> Option<ParseMode> {
    if s == "wasm"@ { Some(ParseMode::Wasm) } else if s == "dwarf"@ { Some(ParseMode::Dwarf) } else if s == "auto"@ { Some(ParseMode::Auto) } else { None }
}
pub open spec fn format_named(s: Seq<char>) -> Option<OutputFormat> {
    if s == "text"@ { Some(OutputFormat::Text) } else if s == "json"@ { Some(OutputFormat::Json) } else if s == "csv"@ { Some(OutputFormat::Csv) } else { None }
}
pub proof fn lemma_names_differ()
    ensures "wasm"@ != "dwarf"@, "wasm"@ != "auto"@, "dwarf"@ != "auto"@, "text"@ != "json"@, "text"@ != "csv"@, "json"@ != "csv"@
{
    reveal_strlit("wasm"); reveal_strlit("dwarf"); reveal_strlit("auto"); reveal_strlit("text"); reveal_strlit("json"); reveal_strlit("csv");
    assert("wasm"@[0] != "auto"@[0]); assert("wasm"@[0] != "dwarf"@[0]); assert("auto"@[0] != "dwarf"@[0]); 
    assert("text"@[0] != "json"@[0]); assert("text"@[0] != "csv"@[0]); assert("json"@[0] != "csv"@[0]);
}
@fn `Default for ParseMode::default` ret=r
    ensures r is Auto
@fn `Default for OutputFormat::default` ret=r
    ensures r is Text
@fn `FromStr for ParseMode::from_str` ret=r
    ensures match r { Ok(m) => mode_named(s@) == Some(m), Err(_) => mode_named(s@) is None }
@entry `FromStr for ParseMode::from_str`
    proof { lemma_names_differ(); axiom_str_ext(s, "wasm"); axiom_str_ext(s, "dwarf"); axiom_str_ext(s, "auto"); }
@fn `FromStr for OutputFormat::from_str` ret=r
    ensures match r { Ok(m) => format_named(s@) == Some(m), Err(_) => format_named(s@) is None }
@entry `FromStr for OutputFormat::from_str`
    proof { lemma_names_differ(); axiom_str_ext(s, "text"); axiom_str_ext(s, "json"); axiom_str_ext(s, "csv"); }
@ifdef emit
@inject Emit
    /// These results belong to these items.
    spec fn vp_ok(&self, items: ir::Items) -> bool;
    /// The three reports.
    spec fn vp_text(&self, items: ir::Items) -> Seq<char>;
    spec fn vp_json(&self, items: ir::Items) -> Seq<char>;
    spec fn vp_csv(&self, items: ir::Items) -> Seq<char>;
@fn Emit::emit ret=r
        requires self.vp_ok(*items),
        ensures io::wrote(old(destination).vp_sink(), final(destination).vp_sink(), match format { OutputFormat::Text => self.vp_text(*items), OutputFormat::Json => self.vp_json(*items), OutputFormat::Csv => self.vp_csv(*items) }, r is Ok)
@fn Emit::emit_text ret=r
        requires self.vp_ok(*items),
        ensures io::wrote(old(destination).vp_sink(), final(destination).vp_sink(), self.vp_text(*items), r is Ok)
@fn Emit::emit_json ret=r
        requires self.vp_ok(*items),
        ensures io::wrote(old(destination).vp_sink(), final(destination).vp_sink(), self.vp_json(*items), r is Ok)
@fn Emit::emit_csv ret=r
        requires self.vp_ok(*items),
        ensures io::wrote(old(destination).vp_sink(), final(destination).vp_sink(), self.vp_csv(*items), r is Ok)
@post
/// The report in the requested format.
pub open spec fn report<E: Emit + ?Sized>(e: &E, items: ir::Items, format: OutputFormat) -> Seq<char> {
    match format { OutputFormat::Text => e.vp_text(items), OutputFormat::Json => e.vp_json(items), OutputFormat::Csv => e.vp_csv(items) }
}
@endif
@ifndef emit
@drop `trait Emit`
@drop `use twiggy_ir as ir`
@endif
