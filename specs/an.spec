## What the analyses share.
@include vp.rs
@include vp_text.rs
@include demangle.rs
@include vp_std.rs
@include vp_more.rs
@include anyhow.rs
@include csv.rs
@include vp_asref.rs
@include report.rs
@include ir_alias.rs
@def emit
@use ir.spec
@use opt.spec
@use table.spec
@use json.spec
