//! Runs a verification harness of the debugger natively, with the real dependencies (see driver.rs).
pub use y86_dbg::SimOption;
mod verif { include!(env!("Y86_VERIF_RS")); }
use verif::HARNESSES;
include!("../../native/src/driver.rs");
