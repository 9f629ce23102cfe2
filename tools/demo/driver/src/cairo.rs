#![allow(dead_code, unused_imports)]
//! Cairo runs for the demonstrations.
pub use lambdaworks_stark::cairo::air::*;
pub use lambdaworks_stark::cairo::cairo_layout::CairoLayout;
pub use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
pub use lambdaworks_stark::cairo::execution_trace::*;
pub use lambdaworks_stark::cairo::register_states::*;
pub use lambdaworks_stark::cairo::runner::run::*;
use super::common::*;

/// A program as the virtual machine reads it.
pub fn json(words: &[u64], builtins: &[&str]) -> Vec<u8> {
    let data: Vec<String> = words.iter().map(|w| format!("{w:#x}")).collect();
    serde_json::to_vec(&serde_json::json!({
        "data": data, "builtins": builtins, "hints": {},
        "identifiers": {"__main__.main": {"pc": 0}},
    }))
    .unwrap()
}

/// Runs it and prepares what the prover needs.
pub fn args(words: &[u64], builtins: &[&str]) -> (TraceTable<F>, PublicInputs) {
    generate_prover_args(&json(words, builtins), &CairoVersion::V0, &None).expect("the program runs")
}

/// [ap] = x; ap++
pub const PUSH: u64 = 0x480680017fff8000;
/// [ap] = [ap - 2] + [ap - 1]; ap++
pub const ADD: u64 = 0x48307fff7ffe8000;
pub const RET: u64 = 0x208b7fff7fff7ffe;
