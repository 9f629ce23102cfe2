//! Offline stand-in for cairo-vm 0.6.0: a small Cairo VM with the API the prover calls.
//! Segmented memory, operand deduction, output and range-check builtins, relocation.
pub mod cairo_run;
pub mod felt;
pub mod hint_processor;
pub mod serde;
pub mod types;
pub mod vm;
