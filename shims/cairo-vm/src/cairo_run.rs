use crate::hint_processor::HintProcessor;
use crate::types::program::Program;
use crate::vm::errors::cairo_run_errors::CairoRunError;
use crate::vm::runners::cairo_runner::CairoRunner;
use crate::vm::vm_core::VirtualMachine;

#[derive(Debug)]
pub struct EncodeTraceError(pub usize, pub String);
impl std::fmt::Display for EncodeTraceError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Failed to encode trace at position {}: {}", self.0, self.1)
    }
}
impl std::error::Error for EncodeTraceError {}

pub struct CairoRunConfig<'a> {
    pub entrypoint: &'a str,
    pub trace_enabled: bool,
    pub relocate_mem: bool,
    pub layout: &'a str,
    pub proof_mode: bool,
    pub secure_run: Option<bool>,
}

impl<'a> Default for CairoRunConfig<'a> {
    fn default() -> Self {
        CairoRunConfig {
            entrypoint: "main",
            trace_enabled: false,
            relocate_mem: false,
            layout: "plain",
            proof_mode: false,
            secure_run: None,
        }
    }
}

pub fn cairo_run(
    program_content: &[u8],
    cfg: &CairoRunConfig,
    hint_executor: &mut dyn HintProcessor,
) -> Result<(CairoRunner, VirtualMachine), CairoRunError> {
    let program = Program::from_bytes(program_content, Some(cfg.entrypoint))?;
    let mut runner = CairoRunner::new(&program, cfg.layout, cfg.proof_mode)?;
    let mut vm = VirtualMachine::new(cfg.trace_enabled);
    let end = runner.initialize(&mut vm)?;
    runner.run_until_pc(end, &mut vm, hint_executor)?;
    runner.read_return_values(&mut vm)?;
    runner.relocate(&mut vm, cfg.relocate_mem)?;
    Ok((runner, vm))
}
