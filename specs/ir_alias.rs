// Crate twiggy_ir is the module `ir`; twiggy_opt and twiggy_traits likewise.
pub mod twiggy_ir { pub use crate::ir::*; }
