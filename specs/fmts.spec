## Output formats (P12, P13).
@include vp.rs
@include vp_text.rs
@include vp_std.rs
@include vp_asref.rs
@part table.spec
@part json.spec
