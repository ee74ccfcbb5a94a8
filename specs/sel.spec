## Names of modes and formats, and the format dispatch (P18).
@def emit
@include vp.rs
@include vp_text.rs
@include vp_std.rs
@include anyhow.rs
@include stub_ir.rs
@part traits.spec
