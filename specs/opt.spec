## Options (P15).
@include vp.rs
@include vp_text.rs
@include vp_std.rs
@include anyhow.rs
@use traits.spec
@module twiggy_opt opt/opt.rs
@opt box=crate::vp_std::io::Write
@pre
use vstd::prelude::*;
use crate::vp::*;
use crate::vp_text::*;
/// What a user of `Top` can observe: one component per option.
pub ghost struct TopView { pub max_items: u32, pub retaining_paths: bool, pub retained: bool, pub input: Seq<char>, pub parse_mode: traits::ParseMode, pub output_destination: OutputDestination, pub output_format: traits::OutputFormat }
impl Top { pub open spec fn shown(&self) -> TopView { TopView { max_items: self.max_items, retaining_paths: self.retaining_paths, retained: self.retained, input: self.input@, parse_mode: self.parse_mode, output_destination: self.output_destination, output_format: self.output_format } }
    pub open spec fn is_default(&self) -> bool { let v = self.shown(); v.max_items == 4294967295 && !v.retaining_paths && !v.retained && v.input.len() == 0 && v.parse_mode is Auto && v.output_destination is Stdout && v.output_format is Text }
}
/// What a user of `Dominators` can observe: one component per option.
pub ghost struct DominatorsView { pub max_depth: u32, pub max_rows: u32, pub using_regexps: bool, pub items: Seq<String>, pub input: Seq<char>, pub parse_mode: traits::ParseMode, pub output_destination: OutputDestination, pub output_format: traits::OutputFormat }
impl Dominators { pub open spec fn shown(&self) -> DominatorsView { DominatorsView { max_depth: (match self.max_depth { Some(d) => d, None => u32::MAX }), max_rows: (match self.max_rows { Some(d) => d, None => u32::MAX }), using_regexps: self.using_regexps, items: self.items@, input: self.input@, parse_mode: self.parse_mode, output_destination: self.output_destination, output_format: self.output_format } }
    pub open spec fn is_default(&self) -> bool { let v = self.shown(); v.max_depth == 4294967295 && v.max_rows == 4294967295 && !v.using_regexps && v.items.len() == 0 && v.input.len() == 0 && v.parse_mode is Auto && v.output_destination is Stdout && v.output_format is Text }
}
/// What a user of `Paths` can observe: one component per option.
pub ghost struct PathsView { pub max_depth: u32, pub max_paths: u32, pub descending: bool, pub using_regexps: bool, pub functions: Seq<String>, pub input: Seq<char>, pub parse_mode: traits::ParseMode, pub output_destination: OutputDestination, pub output_format: traits::OutputFormat }
impl Paths { pub open spec fn shown(&self) -> PathsView { PathsView { max_depth: self.max_depth, max_paths: self.max_paths, descending: self.descending, using_regexps: self.using_regexps, functions: self.functions@, input: self.input@, parse_mode: self.parse_mode, output_destination: self.output_destination, output_format: self.output_format } }
    pub open spec fn is_default(&self) -> bool { let v = self.shown(); v.max_depth == 10 && v.max_paths == 10 && !v.descending && !v.using_regexps && v.functions.len() == 0 && v.input.len() == 0 && v.parse_mode is Auto && v.output_destination is Stdout && v.output_format is Text }
}
/// What a user of `Monos` can observe: one component per option.
pub ghost struct MonosView { pub only_generics: bool, pub max_generics: u32, pub max_monos: u32, pub using_regexps: bool, pub functions: Seq<String>, pub input: Seq<char>, pub parse_mode: traits::ParseMode, pub output_destination: OutputDestination, pub output_format: traits::OutputFormat }
impl Monos { pub open spec fn shown(&self) -> MonosView { MonosView { only_generics: self.only_generics, max_generics: (if self.all_generics_and_monos || self.all_generics { u32::MAX } else { self.max_generics }), max_monos: (if self.all_generics_and_monos || self.all_monos { u32::MAX } else { self.max_monos }), using_regexps: self.using_regexps, functions: self.functions@, input: self.input@, parse_mode: self.parse_mode, output_destination: self.output_destination, output_format: self.output_format } }
    pub open spec fn is_default(&self) -> bool { let v = self.shown(); !v.only_generics && v.max_generics == 10 && v.max_monos == 10 && !v.using_regexps && v.functions.len() == 0 && v.input.len() == 0 && v.parse_mode is Auto && v.output_destination is Stdout && v.output_format is Text }
}
/// What a user of `Diff` can observe: one component per option.
pub ghost struct DiffView { pub max_items: u32, pub using_regexps: bool, pub items: Seq<String>, pub input: Seq<char>, pub new_input: Seq<char>, pub parse_mode: traits::ParseMode, pub output_destination: OutputDestination, pub output_format: traits::OutputFormat }
impl Diff { pub open spec fn shown(&self) -> DiffView { DiffView { max_items: (if self.all_items { u32::MAX } else { self.max_items }), using_regexps: self.using_regexps, items: self.items@, input: self.old_input@, new_input: self.new_input@, parse_mode: self.parse_mode, output_destination: self.output_destination, output_format: self.output_format } }
    pub open spec fn is_default(&self) -> bool { let v = self.shown(); v.max_items == 20 && !v.using_regexps && v.items.len() == 0 && v.input.len() == 0 && v.new_input.len() == 0 && v.parse_mode is Auto && v.output_destination is Stdout && v.output_format is Text }
}
/// What a user of `Garbage` can observe: one component per option.
pub ghost struct GarbageView { pub max_items: u32, pub show_data_segments: bool, pub input: Seq<char>, pub parse_mode: traits::ParseMode, pub output_destination: OutputDestination, pub output_format: traits::OutputFormat }
impl Garbage { pub open spec fn shown(&self) -> GarbageView { GarbageView { max_items: (if self.all_items { u32::MAX } else { self.max_items }), show_data_segments: self.show_data_segments, input: self.input@, parse_mode: self.parse_mode, output_destination: self.output_destination, output_format: self.output_format } }
    pub open spec fn is_default(&self) -> bool { let v = self.shown(); v.max_items == 10 && !v.show_data_segments && v.input.len() == 0 && v.parse_mode is Auto && v.output_destination is Stdout && v.output_format is Text }
}
/// Where the output goes.
pub open spec fn dest_of(d: OutputDestination) -> int { match d { OutputDestination::Stdout => io::stdout_dest(), OutputDestination::Path(p) => io::file_dest(p@) } }
impl Default for Dominators {
    /// The derived `Default` (every field its type's default); `@derives` checks that it is derived.
    #[verifier::external_body]
    fn default() -> (r: Dominators) ensures r.is_default() { unimplemented!() }
}
proof fn lemma_dec_10() ensures dec(10) =~= "10"@ { reveal_strlit("10"); reveal_with_fuel(dec, 2); assert(dec(1) =~= seq!['1']); assert(dec(10) =~= seq!['1', '0']); }
proof fn lemma_dec_20() ensures dec(20) =~= "20"@ { reveal_strlit("20"); reveal_with_fuel(dec, 2); assert(dec(2) =~= seq!['2']); assert(dec(20) =~= seq!['2', '0']); }
proof fn lemma_dec_4294967295() ensures dec(4294967295) =~= "4294967295"@ { reveal_strlit("4294967295"); reveal_with_fuel(dec, 2); assert(dec(4) =~= seq!['4']); assert(dec(42) =~= seq!['4', '2']); assert(dec(429) =~= seq!['4', '2', '9']); assert(dec(4294) =~= seq!['4', '2', '9', '4']); assert(dec(42949) =~= seq!['4', '2', '9', '4', '9']); assert(dec(429496) =~= seq!['4', '2', '9', '4', '9', '6']); assert(dec(4294967) =~= seq!['4', '2', '9', '4', '9', '6', '7']); assert(dec(42949672) =~= seq!['4', '2', '9', '4', '9', '6', '7', '2']); assert(dec(429496729) =~= seq!['4', '2', '9', '4', '9', '6', '7', '2', '9']); assert(dec(4294967295) =~= seq!['4', '2', '9', '4', '9', '6', '7', '2', '9', '5']); }
/// The documented names of the command line options of `Top`.
pub proof fn theorem_cli_names_top()
    ensures cli_Top_parse_mode_long() =~= "mode"@,
        cli_Top_output_destination_short() =~= "o"@,
        cli_Top_output_format_short() =~= "f"@,
        cli_Top_output_format_long() =~= "format"@,
        cli_Top_max_items_short() =~= "n"@,
        cli_Top_retaining_paths_short() =~= "r"@,
        cli_Top_retaining_paths_long() =~= "retaining-paths"@,
        cli_Top_retained_long() =~= "retained"@
{ reveal_strlit("-"); reveal_strlit("4294967295"); reveal_strlit("auto"); reveal_strlit("f"); reveal_strlit("format"); reveal_strlit("mode"); reveal_strlit("n"); reveal_strlit("o"); reveal_strlit("r"); reveal_strlit("retained"); reveal_strlit("retaining-paths"); reveal_strlit("text"); }
/// The command line defaults of `Top` are the documented ones (the values `Top::default()` holds).
pub proof fn theorem_cli_defaults_top()
    ensures crate::twiggy_traits::mode_named(cli_Top_parse_mode_default_value()) == Some(traits::ParseMode::Auto),
        cli_Top_output_destination_default_value() =~= "-"@,
        crate::twiggy_traits::format_named(cli_Top_output_format_default_value()) == Some(traits::OutputFormat::Text),
        cli_Top_max_items_default_value() =~= dec(4294967295)
{ reveal_strlit("-"); reveal_strlit("4294967295"); reveal_strlit("auto"); reveal_strlit("f"); reveal_strlit("format"); reveal_strlit("mode"); reveal_strlit("n"); reveal_strlit("o"); reveal_strlit("r"); reveal_strlit("retained"); reveal_strlit("retaining-paths"); reveal_strlit("text"); crate::twiggy_traits::lemma_names_differ(); lemma_dec_4294967295(); }
/// The documented names of the command line options of `Dominators`.
pub proof fn theorem_cli_names_dominators()
    ensures cli_Dominators_parse_mode_long() =~= "mode"@,
        cli_Dominators_output_destination_short() =~= "o"@,
        cli_Dominators_output_format_short() =~= "f"@,
        cli_Dominators_output_format_long() =~= "format"@,
        cli_Dominators_max_depth_short() =~= "d"@,
        cli_Dominators_max_rows_short() =~= "r"@,
        cli_Dominators_using_regexps_long() =~= "regex"@
{ reveal_strlit("-"); reveal_strlit("auto"); reveal_strlit("d"); reveal_strlit("f"); reveal_strlit("format"); reveal_strlit("mode"); reveal_strlit("o"); reveal_strlit("r"); reveal_strlit("regex"); reveal_strlit("text"); }
/// The command line defaults of `Dominators` are the documented ones (the values `Dominators::default()` holds).
pub proof fn theorem_cli_defaults_dominators()
    ensures crate::twiggy_traits::mode_named(cli_Dominators_parse_mode_default_value()) == Some(traits::ParseMode::Auto),
        cli_Dominators_output_destination_default_value() =~= "-"@,
        crate::twiggy_traits::format_named(cli_Dominators_output_format_default_value()) == Some(traits::OutputFormat::Text)
{ reveal_strlit("-"); reveal_strlit("auto"); reveal_strlit("d"); reveal_strlit("f"); reveal_strlit("format"); reveal_strlit("mode"); reveal_strlit("o"); reveal_strlit("r"); reveal_strlit("regex"); reveal_strlit("text"); crate::twiggy_traits::lemma_names_differ();  }
/// The documented names of the command line options of `Paths`.
pub proof fn theorem_cli_names_paths()
    ensures cli_Paths_parse_mode_long() =~= "mode"@,
        cli_Paths_output_destination_short() =~= "o"@,
        cli_Paths_output_format_short() =~= "f"@,
        cli_Paths_output_format_long() =~= "format"@,
        cli_Paths_max_depth_short() =~= "d"@,
        cli_Paths_max_paths_short() =~= "r"@,
        cli_Paths_descending_long() =~= "descending"@,
        cli_Paths_using_regexps_long() =~= "regex"@
{ reveal_strlit("-"); reveal_strlit("10"); reveal_strlit("auto"); reveal_strlit("d"); reveal_strlit("descending"); reveal_strlit("f"); reveal_strlit("format"); reveal_strlit("mode"); reveal_strlit("o"); reveal_strlit("r"); reveal_strlit("regex"); reveal_strlit("text"); }
/// The command line defaults of `Paths` are the documented ones (the values `Paths::default()` holds).
pub proof fn theorem_cli_defaults_paths()
    ensures crate::twiggy_traits::mode_named(cli_Paths_parse_mode_default_value()) == Some(traits::ParseMode::Auto),
        cli_Paths_output_destination_default_value() =~= "-"@,
        crate::twiggy_traits::format_named(cli_Paths_output_format_default_value()) == Some(traits::OutputFormat::Text),
        cli_Paths_max_depth_default_value() =~= dec(10),
        cli_Paths_max_paths_default_value() =~= dec(10)
{ reveal_strlit("-"); reveal_strlit("10"); reveal_strlit("auto"); reveal_strlit("d"); reveal_strlit("descending"); reveal_strlit("f"); reveal_strlit("format"); reveal_strlit("mode"); reveal_strlit("o"); reveal_strlit("r"); reveal_strlit("regex"); reveal_strlit("text"); crate::twiggy_traits::lemma_names_differ(); lemma_dec_10(); }
/// The documented names of the command line options of `Monos`.
pub proof fn theorem_cli_names_monos()
    ensures cli_Monos_parse_mode_short() =~= "d"@,
        cli_Monos_parse_mode_long() =~= "mode"@,
        cli_Monos_output_destination_short() =~= "o"@,
        cli_Monos_output_format_short() =~= "f"@,
        cli_Monos_output_format_long() =~= "format"@,
        cli_Monos_only_generics_short() =~= "g"@,
        cli_Monos_only_generics_long() =~= "only-generics"@,
        cli_Monos_max_generics_short() =~= "m"@,
        cli_Monos_max_generics_long() =~= "max-generics"@,
        cli_Monos_max_monos_short() =~= "n"@,
        cli_Monos_max_monos_long() =~= "max-monos"@,
        cli_Monos_all_generics_and_monos_short() =~= "a"@,
        cli_Monos_all_generics_and_monos_long() =~= "all"@,
        cli_Monos_all_generics_long() =~= "all-generics"@,
        cli_Monos_all_monos_long() =~= "all-monos"@,
        cli_Monos_using_regexps_long() =~= "regex"@
{ reveal_strlit("-"); reveal_strlit("10"); reveal_strlit("a"); reveal_strlit("all"); reveal_strlit("all-generics"); reveal_strlit("all-monos"); reveal_strlit("auto"); reveal_strlit("d"); reveal_strlit("f"); reveal_strlit("format"); reveal_strlit("g"); reveal_strlit("m"); reveal_strlit("max-generics"); reveal_strlit("max-monos"); reveal_strlit("mode"); reveal_strlit("n"); reveal_strlit("o"); reveal_strlit("only-generics"); reveal_strlit("regex"); reveal_strlit("text"); }
/// The command line defaults of `Monos` are the documented ones (the values `Monos::default()` holds).
pub proof fn theorem_cli_defaults_monos()
    ensures crate::twiggy_traits::mode_named(cli_Monos_parse_mode_default_value()) == Some(traits::ParseMode::Auto),
        cli_Monos_output_destination_default_value() =~= "-"@,
        crate::twiggy_traits::format_named(cli_Monos_output_format_default_value()) == Some(traits::OutputFormat::Text),
        cli_Monos_max_generics_default_value() =~= dec(10),
        cli_Monos_max_monos_default_value() =~= dec(10)
{ reveal_strlit("-"); reveal_strlit("10"); reveal_strlit("a"); reveal_strlit("all"); reveal_strlit("all-generics"); reveal_strlit("all-monos"); reveal_strlit("auto"); reveal_strlit("d"); reveal_strlit("f"); reveal_strlit("format"); reveal_strlit("g"); reveal_strlit("m"); reveal_strlit("max-generics"); reveal_strlit("max-monos"); reveal_strlit("mode"); reveal_strlit("n"); reveal_strlit("o"); reveal_strlit("only-generics"); reveal_strlit("regex"); reveal_strlit("text"); crate::twiggy_traits::lemma_names_differ(); lemma_dec_10(); }
/// The documented names of the command line options of `Diff`.
pub proof fn theorem_cli_names_diff()
    ensures cli_Diff_parse_mode_long() =~= "mode"@,
        cli_Diff_output_destination_short() =~= "o"@,
        cli_Diff_output_format_short() =~= "f"@,
        cli_Diff_output_format_long() =~= "format"@,
        cli_Diff_max_items_short() =~= "n"@,
        cli_Diff_using_regexps_long() =~= "regex"@,
        cli_Diff_all_items_short() =~= "a"@,
        cli_Diff_all_items_long() =~= "all"@
{ reveal_strlit("-"); reveal_strlit("20"); reveal_strlit("a"); reveal_strlit("all"); reveal_strlit("auto"); reveal_strlit("f"); reveal_strlit("format"); reveal_strlit("mode"); reveal_strlit("n"); reveal_strlit("o"); reveal_strlit("regex"); reveal_strlit("text"); }
/// The command line defaults of `Diff` are the documented ones (the values `Diff::default()` holds).
pub proof fn theorem_cli_defaults_diff()
    ensures crate::twiggy_traits::mode_named(cli_Diff_parse_mode_default_value()) == Some(traits::ParseMode::Auto),
        cli_Diff_output_destination_default_value() =~= "-"@,
        crate::twiggy_traits::format_named(cli_Diff_output_format_default_value()) == Some(traits::OutputFormat::Text),
        cli_Diff_max_items_default_value() =~= dec(20)
{ reveal_strlit("-"); reveal_strlit("20"); reveal_strlit("a"); reveal_strlit("all"); reveal_strlit("auto"); reveal_strlit("f"); reveal_strlit("format"); reveal_strlit("mode"); reveal_strlit("n"); reveal_strlit("o"); reveal_strlit("regex"); reveal_strlit("text"); crate::twiggy_traits::lemma_names_differ(); lemma_dec_20(); }
/// The documented names of the command line options of `Garbage`.
pub proof fn theorem_cli_names_garbage()
    ensures cli_Garbage_parse_mode_long() =~= "mode"@,
        cli_Garbage_output_destination_short() =~= "o"@,
        cli_Garbage_output_format_short() =~= "f"@,
        cli_Garbage_output_format_long() =~= "format"@,
        cli_Garbage_max_items_short() =~= "n"@,
        cli_Garbage_all_items_short() =~= "a"@,
        cli_Garbage_all_items_long() =~= "all"@,
        cli_Garbage_show_data_segments_long() =~= "show-data-segments"@
{ reveal_strlit("-"); reveal_strlit("10"); reveal_strlit("a"); reveal_strlit("all"); reveal_strlit("auto"); reveal_strlit("f"); reveal_strlit("format"); reveal_strlit("mode"); reveal_strlit("n"); reveal_strlit("o"); reveal_strlit("show-data-segments"); reveal_strlit("text"); }
/// The command line defaults of `Garbage` are the documented ones (the values `Garbage::default()` holds).
pub proof fn theorem_cli_defaults_garbage()
    ensures crate::twiggy_traits::mode_named(cli_Garbage_parse_mode_default_value()) == Some(traits::ParseMode::Auto),
        cli_Garbage_output_destination_default_value() =~= "-"@,
        crate::twiggy_traits::format_named(cli_Garbage_output_format_default_value()) == Some(traits::OutputFormat::Text),
        cli_Garbage_max_items_default_value() =~= dec(10)
{ reveal_strlit("-"); reveal_strlit("10"); reveal_strlit("a"); reveal_strlit("all"); reveal_strlit("auto"); reveal_strlit("f"); reveal_strlit("format"); reveal_strlit("mode"); reveal_strlit("n"); reveal_strlit("o"); reveal_strlit("show-data-segments"); reveal_strlit("text"); crate::twiggy_traits::lemma_names_differ(); lemma_dec_10(); }
@fn `CommonCliOptions for Top::input` ret=r
    ensures r@ == self.shown().input
@fn `CommonCliOptions for Top::parse_mode` ret=r
    ensures r == self.shown().parse_mode
@fn `CommonCliOptions for Top::output_destination` ret=r
    ensures *r == self.shown().output_destination
@fn `CommonCliOptions for Top::output_format` ret=r
    ensures r == self.shown().output_format
@fn `CommonCliOptions for Dominators::input` ret=r
    ensures r@ == self.shown().input
@fn `CommonCliOptions for Dominators::parse_mode` ret=r
    ensures r == self.shown().parse_mode
@fn `CommonCliOptions for Dominators::output_destination` ret=r
    ensures *r == self.shown().output_destination
@fn `CommonCliOptions for Dominators::output_format` ret=r
    ensures r == self.shown().output_format
@fn `CommonCliOptions for Paths::input` ret=r
    ensures r@ == self.shown().input
@fn `CommonCliOptions for Paths::parse_mode` ret=r
    ensures r == self.shown().parse_mode
@fn `CommonCliOptions for Paths::output_destination` ret=r
    ensures *r == self.shown().output_destination
@fn `CommonCliOptions for Paths::output_format` ret=r
    ensures r == self.shown().output_format
@fn `CommonCliOptions for Monos::input` ret=r
    ensures r@ == self.shown().input
@fn `CommonCliOptions for Monos::parse_mode` ret=r
    ensures r == self.shown().parse_mode
@fn `CommonCliOptions for Monos::output_destination` ret=r
    ensures *r == self.shown().output_destination
@fn `CommonCliOptions for Monos::output_format` ret=r
    ensures r == self.shown().output_format
@fn `CommonCliOptions for Diff::input` ret=r
    ensures r@ == self.shown().input
@fn `CommonCliOptions for Diff::parse_mode` ret=r
    ensures r == self.shown().parse_mode
@fn `CommonCliOptions for Diff::output_destination` ret=r
    ensures *r == self.shown().output_destination
@fn `CommonCliOptions for Diff::output_format` ret=r
    ensures r == self.shown().output_format
@fn `Diff::new_input` ret=r
    ensures r@ == self.shown().new_input
@fn `CommonCliOptions for Garbage::input` ret=r
    ensures r@ == self.shown().input
@fn `CommonCliOptions for Garbage::parse_mode` ret=r
    ensures r == self.shown().parse_mode
@fn `CommonCliOptions for Garbage::output_destination` ret=r
    ensures *r == self.shown().output_destination
@fn `CommonCliOptions for Garbage::output_format` ret=r
    ensures r == self.shown().output_format
@fn `CommonCliOptions for Options::input` ret=r
    ensures r@ == match *self { Options::Top(o) => o.shown().input, Options::Dominators(o) => o.shown().input, Options::Paths(o) => o.shown().input, Options::Monos(o) => o.shown().input, Options::Diff(o) => o.shown().input, Options::Garbage(o) => o.shown().input }
@fn `CommonCliOptions for Options::parse_mode` ret=r
    ensures r == match *self { Options::Top(o) => o.shown().parse_mode, Options::Dominators(o) => o.shown().parse_mode, Options::Paths(o) => o.shown().parse_mode, Options::Monos(o) => o.shown().parse_mode, Options::Diff(o) => o.shown().parse_mode, Options::Garbage(o) => o.shown().parse_mode }
@fn `CommonCliOptions for Options::output_destination` ret=r
    ensures *r == match *self { Options::Top(o) => o.shown().output_destination, Options::Dominators(o) => o.shown().output_destination, Options::Paths(o) => o.shown().output_destination, Options::Monos(o) => o.shown().output_destination, Options::Diff(o) => o.shown().output_destination, Options::Garbage(o) => o.shown().output_destination }
@fn `CommonCliOptions for Options::output_format` ret=r
    ensures r == match *self { Options::Top(o) => o.shown().output_format, Options::Dominators(o) => o.shown().output_format, Options::Paths(o) => o.shown().output_format, Options::Monos(o) => o.shown().output_format, Options::Diff(o) => o.shown().output_format, Options::Garbage(o) => o.shown().output_format }
@fn `Default for OutputDestination::default` ret=r
    ensures r is Stdout
@fn `FromStr for OutputDestination::from_str` ret=r
    ensures r is Ok, s@ == "-"@ ==> r->Ok_0 is Stdout, s@ != "-"@ ==> (r->Ok_0 is Path && r->Ok_0->Path_0@ == s@)
@fn OutputDestination::open ret=r
    ensures r is Ok ==> r->Ok_0.vp_sink() == (io::Sink { out: Seq::empty(), bad: false, owed: false, dest: dest_of(*self) })
@entry `FromStr for OutputDestination::from_str`
    proof { axiom_str_ext(s, "-"); }
@module twiggy_opt opt/definitions.rs
@derives Dominators Clone,Debug,Default
@fn `Default for Top::default` ret=r
    ensures r.is_default()
@fn `Top::new` ret=r
    ensures r.is_default()
@fn `Top::max_items` ret=r
    ensures r == self.shown().max_items
@fn `Top::retaining_paths` ret=r
    ensures r == self.shown().retaining_paths
@fn `Top::retained` ret=r
    ensures r == self.shown().retained
@fn `Top::set_max_items`
    ensures final(self).shown() == (TopView { max_items: n, ..old(self).shown() })
@fn `Top::set_retaining_paths`
    ensures final(self).shown() == (TopView { retaining_paths: do_it, ..old(self).shown() })
@fn `Top::set_retained`
    ensures final(self).shown() == (TopView { retained: do_it, ..old(self).shown() })
@fn `Dominators::new` ret=r
    ensures r.is_default()
@fn `Dominators::max_depth` ret=r
    ensures r == self.shown().max_depth
@fn `Dominators::max_rows` ret=r
    ensures r == self.shown().max_rows
@fn `Dominators::using_regexps` ret=r
    ensures r == self.shown().using_regexps
@fn `Dominators::items` ret=r
    ensures r@ == self.shown().items
@fn `Dominators::set_max_depth`
    ensures final(self).shown() == (DominatorsView { max_depth: max_depth, ..old(self).shown() })
@fn `Dominators::set_max_rows`
    ensures final(self).shown() == (DominatorsView { max_rows: max_rows, ..old(self).shown() })
@fn `Dominators::set_using_regexps`
    ensures final(self).shown() == (DominatorsView { using_regexps: using_regexps, ..old(self).shown() })
@fn `Default for Paths::default` ret=r
    ensures r.is_default()
@fn `Paths::new` ret=r
    ensures r.is_default()
@fn `Paths::max_depth` ret=r
    ensures r == self.shown().max_depth
@fn `Paths::max_paths` ret=r
    ensures r == self.shown().max_paths
@fn `Paths::descending` ret=r
    ensures r == self.shown().descending
@fn `Paths::using_regexps` ret=r
    ensures r == self.shown().using_regexps
@fn `Paths::functions` ret=r
    ensures r@ == self.shown().functions
@fn `Paths::set_max_depth`
    ensures final(self).shown() == (PathsView { max_depth: max_depth, ..old(self).shown() })
@fn `Paths::set_max_paths`
    ensures final(self).shown() == (PathsView { max_paths: max_paths, ..old(self).shown() })
@fn `Paths::set_descending`
    ensures final(self).shown() == (PathsView { descending: descending, ..old(self).shown() })
@fn `Paths::set_using_regexps`
    ensures final(self).shown() == (PathsView { using_regexps: using_regexps, ..old(self).shown() })
@fn `Paths::add_function`
    ensures final(self).shown() == (PathsView { functions: old(self).shown().functions.push(function), ..old(self).shown() })
@fn `Default for Monos::default` ret=r
    ensures r.is_default()
@fn `Monos::new` ret=r
    ensures r.is_default()
@fn `Monos::only_generics` ret=r
    ensures r == self.shown().only_generics
@fn `Monos::max_generics` ret=r
    ensures r == self.shown().max_generics
@fn `Monos::max_monos` ret=r
    ensures r == self.shown().max_monos
@fn `Monos::using_regexps` ret=r
    ensures r == self.shown().using_regexps
@fn `Monos::functions` ret=r
    ensures r@ == self.shown().functions
@fn `Monos::set_only_generics`
    ensures final(self).shown() == (MonosView { only_generics: do_it, ..old(self).shown() })
@fn `Monos::set_max_generics`
    ensures final(self).shown() == (MonosView { max_generics: max, ..old(self).shown() })
@fn `Monos::set_max_monos`
    ensures final(self).shown() == (MonosView { max_monos: max, ..old(self).shown() })
@fn `Default for Diff::default` ret=r
    ensures r.is_default()
@fn `Diff::max_items` ret=r
    ensures r == self.shown().max_items
@fn `Diff::using_regexps` ret=r
    ensures r == self.shown().using_regexps
@fn `Diff::items` ret=r
    ensures r@ == self.shown().items
@fn `Diff::set_max_items`
    ensures final(self).shown() == (DiffView { max_items: n, ..old(self).shown() })
@fn `Diff::set_using_regexps`
    ensures final(self).shown() == (DiffView { using_regexps: using_regexps, ..old(self).shown() })
@fn `Default for Garbage::default` ret=r
    ensures r.is_default()
@fn `Garbage::new` ret=r
    ensures r.is_default()
@fn `Garbage::max_items` ret=r
    ensures r == self.shown().max_items
@fn `Garbage::show_data_segments` ret=r
    ensures r == self.shown().show_data_segments
@fn `Garbage::set_max_items`
    ensures final(self).shown() == (GarbageView { max_items: max, ..old(self).shown() })
