//! Runs a verification harness natively, with the real dependencies (see driver.rs).
use y86_sim::architectures::verif::HARNESSES;
include!("driver.rs");
