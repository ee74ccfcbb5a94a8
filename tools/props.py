"""Which functions and lemmas decide which property."""

UNITS = {}

IR_BUILD = ["ItemsBuilder::new", "ItemsBuilder::add_item", "ItemsBuilder::add_root", "ItemsBuilder::add_edge", "ItemsBuilder::size_added", "ItemsBuilder::finish"]
IR_READ = ["Index for Items::index", "Items::iter", "Items::neighbors", "Items::size", "Items::meta_root", "Iterator for Neighbors::next", "Iterator for Iter::next",
           "Item::new", "Item::id", "Item::size", "Item::kind", "Id::root"]
IR_ID = ["Id::section", "Id::entry", "Id::root", "Id::serializable"]
IR_DOM = ["Items::compute_dominators", "Items::immediate_dominators", "Items::compute_dominator_tree", "Items::dominator_tree",
          "Visitable for Items::visit_map", "Visitable for Items::reset_map", "IntoNeighbors for &Items::neighbors", "NodeCount for Items::node_count"]
IR_PRED = ["Items::compute_predecessors", "Items::predecessors", "Iterator for Predecessors::next"]
IR_RET = ["Items::compute_retained_sizes", "Items::compute_retained_sizes::recursive_retained_size", "Items::retained_size"]

STD = ["std collections, iterators, Option and String behave as contracted in specs/vp.rs and specs/vp_std.rs",
       "Id's derived Eq, Ord and Hash compare the two numbers in order (specs/ir_ord.rs)"]

TEXT = ["str and String methods, string formatting and number formatting behave as contracted in specs/vp_text.rs"]
IR_NAMES = ["Code::new", "Code::demangled", "Code::monomorphization_of", "Code::demangle", "Code::extract_generic_function", "Item::name", "Item::monomorphization_of", "Item::new"]
TECH = "contracts on the real code, discharged by Verus/Z3 on every run"

OUT = ["crate csv writes records as contracted in specs/csv.rs", "std::io::Write behaves as contracted in specs/vp_std.rs", "drop is modelled as a call where the scope ends"]
FMTS = ["JsonPrimitive for &str::json_primitive", "JsonPrimitive for f64::json_primitive", "JsonPrimitive for u32::json_primitive", "array", "object",
        "Drop for Array::drop", "Array::comma", "Array::object", "Array::array", "Array::elem", "Drop for Object::drop", "Object::comma_and_name", "Object::object", "Object::array", "Object::field",
        "Table::with_header", "Table::add_row", "Display for Table::fmt"]

SECTIONS = ["NameSectionReader", "CustomSectionReader", "TypeSectionReader", "ImportSectionReader", "TableSectionReader", "MemorySectionReader", "GlobalSectionReader", "ExportSectionReader", "StartSection", "ElementSectionReader", "DataSectionReader"]
PAIR = "Parse for (FunctionSection<'a>,CodeSection<'a>)::"
WASM_ITEMS = ["Parse for %s::parse_items" % s for s in SECTIONS] + [PAIR + "parse_items", "Parse for ModuleReader::parse_items", "iterate_with_size", "iterate_with_size::read_entry"]
WASM_EDGES = ["Parse for %s::parse_edges" % s for s in SECTIONS] + [PAIR + "parse_edges", "Parse for ModuleReader::parse_edges", "lookup"]
WASM_MORE = ["ModuleReader::new", "ModuleReader::current_position", "ModuleReader::eof", "ModuleReader::read", "ModuleReader::new_code_section", "parse_names_section", "count_imported_functions", "get_section_name", "get_code_section_name", "ty2str"]
WASM_TOP = ["parse_wasm", "parse_fallback", "parse"]
WASMPARSER = ["crate wasmparser 0.80.2 as contracted in specs/wasmparser.rs: what it reads is a function of the bytes, payloads follow one another without gaps and lie inside the file, entries lie inside their section and take at least one byte",
              "files are smaller than 2^32 bytes (sizes are 32-bit throughout)"]

GIMLI = ["crate gimli 0.27 and fallible_iterator as contracted in specs/gimli.rs: units, entries, attributes and ranges are functions of the file; ranges that end before they begin are gimli's errors; a unit has fewer than 2^32-1 entries",
         "object_parse::parse and load_section hand gimli the file's debug sections and an ItemsBuilder without entries of such units (not under contract)"]
DWARF = ["parse_items", "parse_edges", "item_name", "DieLocationAttributes::try_from", "DieLocationAttributes::entity_size", "DieLocationAttributes::contiguous_entity_size",
         "DieLocationAttributes::noncontiguous_entity_size", "DieLocationAttributes::dw_at_low_pc", "DieLocationAttributes::dw_at_ranges"]
# Every report's emitters, relied on where a property speaks of all reports.
EMITTERS = {
    "top": ["Emit for Top::emit_text", "Emit for Top::emit_json", "Emit for Top::emit_csv"],
    "garbage": ["Emit for Garbage::emit_text", "Emit for Garbage::emit_json", "Emit for Garbage::emit_csv"],
    "diff": ["Emit for Diff::emit_text", "Emit for Diff::emit_json", "Emit for Diff::emit_csv"],
    "dominators": ["add_text_item", "add_json_item", "add_csv_item", "Emit for DominatorTree::emit_text", "Emit for DominatorTree::emit_json", "Emit for DominatorTree::emit_csv"],
    "monos": ["Emit for Monos::emit_text", "Emit for Monos::emit_json", "Emit for Monos::emit_json::process_entry", "Emit for Monos::emit_csv"],
    "paths": ["Emit for Paths::emit_text", "Emit for Paths::emit_json", "emit_json_helpers::process_entry", "Emit for Paths::emit_csv", "emit_csv_helpers::process_entry"],
}


def emitters(*formats):
    return {u: dict(own=[], deps=[k for k in ks if not k.split("::")[-1].startswith("emit_") or k.split("::")[-1] in formats]) for u, ks in EMITTERS.items()}


PROPS = {
    "P02": dict(
        level="proof", harness="P02",
        units={"ir": dict(own=IR_BUILD + IR_READ + ["From<Code> for ItemKind::from", "From<Data> for ItemKind::from", "From<DebugInfo> for ItemKind::from", "From<Misc> for ItemKind::from", "Item::name", "Items::get_item_by_name", "ItemKind::is_data"])},
        assumptions=STD + TEXT,
        technique="contracts on the real code, discharged by Verus/Z3 on every run",
        note="Proved for all sequences of builder calls, over trusted contracts for std collections and strings.",
        theorems=["ItemsBuilder::finish", "Items::neighbors", "Items::iter", "lemma_item_seq"]),
    "P04": dict(
        level="proof", harness="P04",
        units={"ir": dict(own=IR_PRED, deps=IR_BUILD + IR_READ)},
        assumptions=STD,
        technique="contracts on the real code, discharged by Verus/Z3 on every run",
        note="Proved for all graphs, over trusted contracts for std collections.",
        theorems=["Items::compute_predecessors", "Items::predecessors"]),
    "P05": dict(
        level="proof", harness="P05",
        units={"ir": dict(own=IR_DOM, deps=IR_BUILD + IR_READ)},
        assumptions=STD + ["petgraph's simple_fast computes immediate dominators of the graph it is shown (specs/petgraph.rs); that the graph it is shown is the item graph is proved"],
        technique="contracts on the real code, discharged by Verus/Z3 on every run",
        note="Proved for all graphs, over trusted contracts for std collections and for petgraph's dominator algorithm.",
        theorems=["Items::compute_dominators", "Items::compute_dominator_tree"]),
    "P06": dict(
        level="proof", harness="P06",
        units={"ir": dict(own=IR_RET, deps=IR_DOM + IR_BUILD + IR_READ)},
        assumptions=STD + ["petgraph's simple_fast (specs/petgraph.rs)", "sizes of all items add up to less than 2^32 (a precondition, established by P01 for parsed files)"],
        technique="contracts on the real code, discharged by Verus/Z3 on every run",
        note="Proved for all graphs whose sizes fit 32 bits, over trusted contracts for std collections and petgraph's dominator algorithm.",
        theorems=["Items::compute_retained_sizes", "theorem_retained_is_own_plus_children", "theorem_root_retains_reachable", "theorem_unreachable_retains_itself"]),
    "P16": dict(
        level="proof", harness="P16",
        units={"id": dict(own=IR_ID + ["vp_theorem_kinds_are_disjoint", "theorem_serialization_is_ordered", "(derives)"])},
        assumptions=["Id's derived Eq and Ord compare the two numbers in order (specs/ir_ord.rs); that they are derived is checked", "usize is 64 bits wide", "a failed assertion in this unit is the rejection the property asks for (execution does not continue)"],
        technique="contracts on the real code, discharged by Verus/Z3 on every run",
        note="Proved for all identifiers and all arguments; assertions are modelled as rejection in this unit.",
        theorems=["Id::serializable", "Id::section", "Id::entry", "Id::root", "theorem_serialization_is_ordered", "vp_theorem_kinds_are_disjoint"]),
    "P20": dict(
        level="proof", harness="P20",
        units={"ir": dict(own=IR_NAMES)},
        assumptions=TEXT + ["rustc_demangle and cpp_demangle are total functions from symbol to text (specs/demangle.rs)"],
        technique=TECH,
        note="Proved for all names, over trusted contracts for str methods and the two demangler crates.",
        theorems=["Code::extract_generic_function", "Code::demangle", "Item::name", "lemma_generic"]),
    "P15": dict(
        level="proof", harness="P15",
        units={"opt": dict(own="all")},
        assumptions=TEXT + ["Dominators' derived Default gives every field its type's default; that it is derived is checked",
                            "structopt turns the declared names and default texts into field values as its documentation says; the declarations themselves are under contract (theorem_cli_*)",
                            "the default of ParseMode and OutputFormat and the meaning of their names are proved in unit run (P18)"],
        technique=TECH,
        note="Proved for every accessor, setter, constructor and command-line declaration; the argument parser itself (structopt) is trusted.",
        theorems=["Monos::set_max_generics", "Monos::set_max_monos", "theorem_cli_names_*", "theorem_cli_defaults_*"]),
    "P18": dict(
        level="proof", harness="P18",
        units={"sel": dict(own="all"),
               "run": dict(own=["read_and_parse", "parse_auto", "sniff_wasm", "parse", "parse_fallback"])},
        assumptions=TEXT + ["std::fs, std::path::Path::extension and OsStr::to_str behave as contracted in specs/vp_std.rs"],
        technique=TECH,
        note="Proved for all names, contents, modes and formats; reading the file and splitting its name are std's, trusted.",
        theorems=["FromStr for ParseMode::from_str", "FromStr for OutputFormat::from_str", "Emit::emit", "read_and_parse", "sniff_wasm"]),
    "P22": dict(
        level="proof", harness="P22", needs_bin=True,
        units={"run": dict(own=["main", "run", "read_and_parse"]), "opt": dict(own=["OutputDestination::open"]),
               "fmts": dict(own=[], deps=FMTS), **emitters("emit_text", "emit_json", "emit_csv")},
        assumptions=["std::fs and std::io behave as contracted in specs/vp_std.rs; in particular a successful flush means that everything accepted before has reached the destination, and a failed one-character write leaves a full buffer behind so that the flush fails too",
                     "each analysis returns data that belongs to its items (twiggy_analyze in specs/run_stub.rs)"],
        technique=TECH,
        note="Proved for run and main over the contract of Emit (an emitter that returns Ok has handed over the whole report, or left the failure to the flush), which every emitter is proved to meet; std's buffering is trusted.",
        theorems=["run", "main", "read_and_parse", "OutputDestination::open"]),
    "P12": dict(
        level="proof", harness="P12",
        units={"fmts": dict(own=["JsonPrimitive::json_primitive", "JsonPrimitive for &str::json_primitive", "JsonPrimitive for f64::json_primitive", "JsonPrimitive for u32::json_primitive", "array", "object",
                                 "Drop for Array::drop", "Array::comma", "Array::object", "Array::array", "Array::elem", "Drop for Object::drop", "Object::comma_and_name", "Object::object", "Object::array", "Object::field",
                                 "theorem_strings_decode", "theorem_render_is_json"]), **emitters("emit_json")},
        assumptions=TEXT + ["Display of a finite f64 is a JSON number", "std::io::Write behaves as contracted in specs/vp_std.rs"],
        technique=TECH,
        note="Proved for the JSON writer, for all names, values and nestings, including an RFC 8259 decoder that gives every name back, and for the six emitters that use it (each writes the rendering of a value); drop is modelled as a call where the scope ends.",
        theorems=["theorem_strings_decode", "theorem_render_is_json", "JsonPrimitive for &str::json_primitive"]),
    "P13": dict(
        level="proof", harness="P13",
        units={"fmts": dict(own=["Table::with_header", "Table::add_row", "Display for Table::fmt"])},
        assumptions=TEXT + ["std::fmt::Formatter passes text through unless its destination fails (specs/vp_std.rs)"],
        technique=TECH,
        note="Proved for all tables.",
        theorems=["Display for Table::fmt", "lemma_width"]),
    "P07": dict(
        level="proof", harness="P07",
        units={"garbage": dict(own=["garbage", "get_unreachable_items", "Emit for Garbage::emit_text", "Emit for Garbage::emit_json", "Emit for Garbage::emit_csv", "(derives)"]),
               "ir": dict(own=[], deps=IR_READ + ["IntoNeighbors for &Items::neighbors"]), "fmts": dict(own=[], deps=FMTS), "opt": dict(own=[], deps=["Garbage::max_items", "Garbage::show_data_segments"])},
        assumptions=STD + TEXT + OUT + ["petgraph's Dfs visits exactly what can be reached in the graph it is shown (specs/petgraph.rs)", "there are at most 2^31-1 items (rows are counted in an i32)", "the items are as ItemsBuilder::finish leaves them (P02)"],
        technique=TECH,
        note="Proved for all graphs, options and formats: the report's text, JSON and CSV are given exactly as functions of the unreachable items.",
        theorems=["garbage", "get_unreachable_items", "Emit for Garbage::emit_text", "Emit for Garbage::emit_json", "Emit for Garbage::emit_csv"]),
    "P08": dict(
        level="proof", harness="P08",
        units={"top": dict(own=["top", "Emit for Top::emit_text", "Emit for Top::emit_text::process_item", "Emit for Top::emit_text::summarize_rows", "Emit for Top::emit_json", "Emit for Top::emit_csv", "(derives)"]),
               "ir": dict(own=[], deps=IR_READ + IR_RET), "fmts": dict(own=[], deps=FMTS), "opt": dict(own=[], deps=["Top::max_items", "Top::retained", "Top::retaining_paths"])},
        assumptions=STD + TEXT + OUT + ["there are at most 2^32-1 items", "the items are as ItemsBuilder::finish leaves them (P02)"],
        technique=TECH,
        note="Proved for all graphs, options and formats: the report's text, JSON and CSV are given exactly as functions of the ranked items.",
        theorems=["top", "Emit for Top::emit_text", "Emit for Top::emit_json", "Emit for Top::emit_csv"]),
    "P10": dict(
        level="proof", harness="P10",
        units={"diff": dict(own=["diff", "diff::get_names_and_sizes", "Ord for DiffEntry::cmp", "PartialOrd for DiffEntry::partial_cmp", "Serialize for DiffEntry::serialize", "Emit for Diff::emit_text", "Emit for Diff::emit_json", "Emit for Diff::emit_csv", "theorem_json_delta", "(derives)"]),
               "ir": dict(own=[], deps=IR_READ), "fmts": dict(own=[], deps=FMTS), "opt": dict(own=[], deps=["Diff::max_items", "Diff::items", "Diff::using_regexps"])},
        assumptions=STD + TEXT + OUT + ["std HashMap and HashSet behave as contracted in specs/vp_hash.rs (iteration order unknown)", "crate regex decides matches as contracted in specs/regex.rs", "crate serde serializes a struct's fields as contracted in specs/serde.rs",
            "the two files together have at most 2^31-1 items", "the items are as ItemsBuilder::finish leaves them (P02)"],
        technique=TECH,
        note="Proved for all pairs of item graphs, options and formats: the rows are exactly the selected names whose size differs, ordered, and the two summary rows are exact.",
        theorems=["diff", "Emit for Diff::emit_text", "Emit for Diff::emit_json", "Emit for Diff::emit_csv"]),
    "P14": dict(
        level="proof", harness="P14",
        units={"dominators": dict(own=["dominators", "summarize_unreachable_items", "Emit for DominatorTree::emit_text::recursive_add_rows", "Emit for DominatorTree::emit_text", "Emit for DominatorTree::emit_json::recursive_add_children", "Emit for DominatorTree::emit_json",
                                      "Emit for DominatorTree::emit_csv::recursive_add_children", "Emit for DominatorTree::emit_csv", "add_text_item", "add_json_item", "add_csv_item", "(derives)"]),
               "garbage": dict(own=[], deps=["get_unreachable_items"]),
               "ir": dict(own=[], deps=IR_READ + IR_DOM + IR_PRED + IR_RET + ["Items::get_item_by_name", "Item::name"]), "fmts": dict(own=[], deps=FMTS), "id": dict(own=[], deps=["Id::serializable"]),
               "opt": dict(own=[], deps=["Dominators::items", "Dominators::max_depth", "Dominators::max_rows", "Dominators::using_regexps"])},
        assumptions=STD + TEXT + OUT + ["crate regex decides matches as contracted in specs/regex.rs", "petgraph as in P05 and P07", "there are at most 2^31-1 items", "the items are as ItemsBuilder::finish leaves them (P02)"],
        technique=TECH,
        note="Proved for all graphs, options and formats: the report's text, JSON and CSV are given exactly as functions of the dominator tree, the retained sizes and the requested items.",
        theorems=["dominators", "Emit for DominatorTree::emit_text", "Emit for DominatorTree::emit_json", "Emit for DominatorTree::emit_csv"]),
    "P09": dict(
        level="proof", harness="P09",
        units={"paths": dict(own=["paths", "get_starting_positions", "create_entry", "Emit for Paths::emit_text", "emit_text_helpers::process_entry", "emit_text_helpers::get_indented_name", "Emit for Paths::emit_json", "emit_json_helpers::process_entry", "Emit for Paths::emit_csv", "emit_csv_helpers::process_entry", "emit_csv_helpers::get_path", "theorem_steps", "(derives)"]),
               "ir": dict(own=[], deps=IR_READ + IR_PRED + ["Items::get_item_by_name", "Item::name"]), "fmts": dict(own=[], deps=FMTS),
               "opt": dict(own=[], deps=["Paths::functions", "Paths::max_depth", "Paths::max_paths", "Paths::descending", "Paths::using_regexps"])},
        assumptions=STD + TEXT + OUT + ["crate regex decides matches as contracted in specs/regex.rs", "the items are as ItemsBuilder::finish leaves them (P02)", "`.map(..).collect()` with a closure that captures `&mut seen` runs once per element in order: the weaver writes it as a loop"],
        technique=TECH,
        note="Proved for all graphs, options and formats: the entries are exactly the trees of simple paths from the selected starting items along the edges (reversed when ascending), and the text, JSON and CSV are given exactly, with the depth and width limits.",
        theorems=["paths", "create_entry", "get_starting_positions", "Emit for Paths::emit_text", "Emit for Paths::emit_json", "Emit for Paths::emit_csv"]),
    "P11": dict(
        level="proof", harness="P11",
        units={"monos": dict(own=["monos", "collect_monomorphizations", "process_monomorphizations", "calculate_total_and_bloat", "summarize_entries", "summarize_insts", "add_stats", "Ord for MonosEntry::cmp", "PartialOrd for MonosEntry::partial_cmp",
                                  "Emit for Monos::emit_text", "Emit for Monos::emit_text::process_entry", "Emit for Monos::emit_json", "Emit for Monos::emit_json::process_entry", "Emit for Monos::emit_csv", "(derives)"]),
               "ir": dict(own=[], deps=IR_READ + ["Item::monomorphization_of", "Item::name"]), "fmts": dict(own=[], deps=FMTS),
               "opt": dict(own=[], deps=["Monos::only_generics", "Monos::max_generics", "Monos::max_monos", "Monos::using_regexps", "Monos::functions"])},
        assumptions=STD + TEXT + OUT + ["std BTreeMap behaves as contracted in specs/vp_tree.rs", "std compares vectors of pairs lexicographically", "crate regex decides matches as contracted in specs/regex.rs", "there are at most 2^31-1 items", "the items are as ItemsBuilder::finish leaves them (P02)"],
        technique=TECH,
        note="Proved for all item graphs, options and formats: every wanted generic is reported once with exactly its instantiations, totals, bloat, order and summary rows, and the text, JSON and CSV are given exactly.",
        theorems=["monos", "Emit for Monos::emit_text", "Emit for Monos::emit_json", "Emit for Monos::emit_csv"]),
    "P21": dict(
        level="proof", harness="P21", needs_bin=True,
        units={"top": dict(own=["theorem_deterministic"], deps=["top", "Emit for Top::emit_text", "Emit for Top::emit_json", "Emit for Top::emit_csv"]),
               "garbage": dict(own=["theorem_deterministic"], deps=["garbage", "get_unreachable_items", "Emit for Garbage::emit_text", "Emit for Garbage::emit_json", "Emit for Garbage::emit_csv"]),
               "diff": dict(own=["theorem_deterministic"], deps=["diff", "diff::get_names_and_sizes", "Ord for DiffEntry::cmp", "Emit for Diff::emit_text", "Emit for Diff::emit_json", "Emit for Diff::emit_csv"]),
               "dominators": dict(own=["theorem_deterministic"], deps=["dominators", "summarize_unreachable_items", "Emit for DominatorTree::emit_text", "Emit for DominatorTree::emit_json", "Emit for DominatorTree::emit_csv"]),
               "monos": dict(own=["theorem_deterministic"], deps=["monos", "collect_monomorphizations", "process_monomorphizations", "add_stats", "Ord for MonosEntry::cmp", "Emit for Monos::emit_text", "Emit for Monos::emit_json", "Emit for Monos::emit_csv"]),
               "paths": dict(own=["theorem_deterministic"], deps=["paths", "get_starting_positions", "create_entry", "Emit for Paths::emit_text", "emit_text_helpers::process_entry", "emit_text_helpers::get_indented_name", "Emit for Paths::emit_json", "emit_json_helpers::process_entry", "Emit for Paths::emit_csv", "emit_csv_helpers::process_entry", "emit_csv_helpers::get_path"]),
               "fmts": dict(own=[], deps=FMTS), "ir": dict(own=[], deps=IR_READ + IR_DOM + IR_RET + IR_PRED)},
        assumptions=STD + TEXT + OUT + ["std HashMap and HashSet iterate in an unknown order (specs/vp_hash.rs)", "crate regex as contracted in specs/regex.rs", "petgraph as in P05 and P07", "that parsing the same bytes twice gives the same items is covered by the bounded harness only"],
        technique=TECH,
        note="Proved for top, garbage, diff, dominators, monos and paths: any two reports that satisfy the analysis' contract for the same items and options have the same text, JSON and CSV (hash order is left arbitrary in the contracts). The parser and whole runs: bounded harness (repeated runs of the real binary and library).",
        theorems=["theorem_deterministic"]),
    "P23": dict(
        level="proof", harness="P23",
        units={"top": dict(own=["theorem_percent"], deps=["Emit for Top::emit_text", "Emit for Top::emit_text::process_item", "Emit for Top::emit_text::summarize_rows", "Emit for Top::emit_json", "Emit for Top::emit_csv"]),
               "garbage": dict(own=["theorem_percent"], deps=["Emit for Garbage::emit_text", "Emit for Garbage::emit_json", "Emit for Garbage::emit_csv"]),
               "dominators": dict(own=["theorem_percent", "theorem_percent_unreachable"], deps=["dominators", "summarize_unreachable_items", "add_text_item", "add_json_item", "add_csv_item", "Emit for DominatorTree::emit_text", "Emit for DominatorTree::emit_json", "Emit for DominatorTree::emit_csv"]),
               "monos": dict(own=["theorem_percent"], deps=["Emit for Monos::emit_text", "Emit for Monos::emit_text::process_entry", "Emit for Monos::emit_json", "Emit for Monos::emit_json::process_entry", "Emit for Monos::emit_csv"]),
               "paths": dict(own=["theorem_percent"], deps=["Emit for Paths::emit_text", "emit_text_helpers::process_entry", "emit_text_helpers::get_indented_name", "Emit for Paths::emit_json", "emit_json_helpers::process_entry", "Emit for Paths::emit_csv", "emit_csv_helpers::process_entry", "emit_csv_helpers::get_path"]),
               "fmts": dict(own=[], deps=FMTS), "ir": dict(own=[], deps=IR_READ)},
        assumptions=STD + TEXT + OUT + ["floating point division, multiplication, conversion and printing are the uninterpreted functions fdiv, fmul, f64_of, fp2, fdisp: size / total * 100 is computed in this order", "the total size is not zero in JSON and CSV reports"],
        technique=TECH,
        note="Proved for top, garbage, dominators, monos and paths in all formats: the emitters' contracts give every row, and in every row the share is percent(size, total).",
        theorems=["theorem_percent"]),
    "P01": dict(
        level="proof", harness="P01",
        units={"parser": dict(own=WASM_ITEMS + ["parse_wasm"], deps=WASM_MORE + WASM_TOP + WASM_EDGES),
               "ir": dict(own=["ItemsBuilder::size_added", "ItemsBuilder::add_item", "ItemsBuilder::add_root"], deps=IR_BUILD + IR_READ)},
        assumptions=STD + TEXT + WASMPARSER,
        technique=TECH,
        note="Proved for every file shorter than 2^32 bytes that parse_wasm accepts: the items are the entries of each section with the bytes each takes, one item for each function, and one item for each section with the rest, and their sizes add up to the file's length, which is the total. Trusted: wasmparser's readers.",
        theorems=["Parse for ModuleReader::parse_items", "parse_wasm"]),
    "P03": dict(
        level="proof", harness="P03",
        units={"parser": dict(own=WASM_EDGES + ["parse_wasm"], deps=WASM_MORE + WASM_TOP + WASM_ITEMS),
               "ir": dict(own=["ItemsBuilder::add_edge"], deps=IR_BUILD + IR_READ)},
        assumptions=STD + TEXT + WASMPARSER,
        technique=TECH,
        note="Proved for every file parse_wasm accepts: between items other than the meta root there is an edge exactly when module_edge says so (exports, start, active element segments, types, calls, globals; loads are P24), with index spaces built in the order of the file, imports before the module's own functions. Trusted: wasmparser's readers.",
        theorems=["Parse for ModuleReader::parse_edges", "parse_wasm"]),
    "P17": dict(
        level="proof", harness="P17",
        units={"parser": dict(own=WASM_ITEMS + WASM_EDGES + WASM_MORE + WASM_TOP, deps=[]),
               "dwarf": dict(own=DWARF),
               "ir": dict(own=IR_BUILD + ["ItemsBuilder::link_data", "ItemsBuilder::get_data"], deps=IR_NAMES)},
        assumptions=STD + TEXT + WASMPARSER + GIMLI + ["wasmparser, gimli, object and the demanglers do not panic and terminate (object 0.17.0 does panic: see known-findings.txt)", "memory is not exhausted"],
        technique=TECH,
        note="Proved for parse_wasm on every byte string shorter than 2^32 bytes: no overflow, no failed assertion, no unreachable!/panic! reached, no out-of-range index, every loop terminates. The walk over units, entries and ranges in DWARF mode is proved likewise; opening the object file (object_parse::parse) is not under contract.",
        theorems=["parse_wasm", "Parse for ModuleReader::parse_items", "Parse for ModuleReader::parse_edges"]),
    "P24": dict(
        level="proof", harness="P24",
        units={"parser": dict(own=["Parse for DataSectionReader::parse_items", PAIR + "parse_edges", "Parse for ModuleReader::parse_items"], deps=WASM_MORE + WASM_TOP + WASM_ITEMS + WASM_EDGES),
               "ir": dict(own=["ItemsBuilder::link_data", "ItemsBuilder::get_data"], deps=IR_BUILD)},
        assumptions=STD + TEXT + WASMPARSER,
        technique=TECH,
        note="Proved: each active segment with a constant offset is recorded with its address and length; a load right after an i32.const looks up value (as unsigned) plus offset; the function gets an edge to the segment data_at gives and to no other. data_at is what the code does, which is less than the statement asks for (known finding: only loads of the first byte of a segment are found); the statement for loads at a segment's start and the absence of any other edge but the recorded one are decided.",
        theorems=["ItemsBuilder::get_data", "ItemsBuilder::link_data"]),
    "P19": dict(
        level="proof", harness="P19",
        units={"dwarf": dict(own=DWARF), "ir": dict(own=[], deps=["ItemsBuilder::add_item", "ItemsBuilder::size_added", "Id::entry", "Item::new", "Code::new"])},
        assumptions=STD + TEXT + GIMLI,
        technique=TECH,
        note="Proved over gimli's contract: for every unit and every entry below its root, a function with code of its own becomes one item whose size is high minus low, the given length or the sum of its ranges, with its name; everything else is skipped, and attributes that make no sense end in an error. Finding the sections in the object file (object_parse::parse, load_section) is outside the proof.",
        theorems=["DieLocationAttributes::entity_size", "parse_items", "item_name"]),
}
