pub mod errors {
    pub mod vm_errors {
        #[derive(Debug)]
        pub enum VirtualMachineError {
            Other(String),
        }
        impl std::fmt::Display for VirtualMachineError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{self:?}")
            }
        }
        impl std::error::Error for VirtualMachineError {}
    }
    pub mod trace_errors {
        #[derive(Debug)]
        pub enum TraceError {
            TraceNotEnabled,
            TraceNotRelocated,
        }
        impl std::fmt::Display for TraceError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{self:?}")
            }
        }
        impl std::error::Error for TraceError {}
    }
    pub mod runner_errors {
        #[derive(Debug)]
        pub enum RunnerError {
            NoBuiltin(String),
            NoRangeCheckBuiltin,
            Other(String),
        }
        impl std::fmt::Display for RunnerError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{self:?}")
            }
        }
        impl std::error::Error for RunnerError {}
    }
    pub mod cairo_run_errors {
        use super::{
            runner_errors::RunnerError, trace_errors::TraceError, vm_errors::VirtualMachineError,
        };
        use crate::types::errors::program_errors::ProgramError;
        #[derive(Debug)]
        pub enum CairoRunError {
            Program(ProgramError),
            Runner(RunnerError),
            Trace(TraceError),
            VirtualMachine(VirtualMachineError),
        }
        impl std::fmt::Display for CairoRunError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{self:?}")
            }
        }
        impl std::error::Error for CairoRunError {}
        impl From<ProgramError> for CairoRunError {
            fn from(e: ProgramError) -> Self {
                Self::Program(e)
            }
        }
        impl From<RunnerError> for CairoRunError {
            fn from(e: RunnerError) -> Self {
                Self::Runner(e)
            }
        }
        impl From<TraceError> for CairoRunError {
            fn from(e: TraceError) -> Self {
                Self::Trace(e)
            }
        }
        impl From<VirtualMachineError> for CairoRunError {
            fn from(e: VirtualMachineError) -> Self {
                Self::VirtualMachine(e)
            }
        }
    }
}

pub mod trace {
    pub mod trace_entry {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct TraceEntry {
            pub pc: usize,
            pub ap: usize,
            pub fp: usize,
        }
    }
}

pub mod runners {
    pub mod builtin_runner {
        use crate::serde::deserialize_program::BuiltinName;
        use crate::types::relocatable::MaybeRelocatable;
        #[derive(Clone, Debug)]
        pub struct BuiltinRunner {
            pub(crate) kind: BuiltinName,
            pub(crate) base: usize,
            pub(crate) stop_ptr: Option<usize>,
        }
        impl BuiltinRunner {
            pub fn name(&self) -> &'static str {
                self.kind.name()
            }
            pub fn initial_stack(&self) -> Vec<MaybeRelocatable> {
                vec![(self.base as isize, 0).into()]
            }
            pub fn base(&self) -> usize {
                self.base
            }
            pub fn get_memory_segment_addresses(&self) -> (usize, Option<usize>) {
                (self.base, self.stop_ptr)
            }
        }
    }
    pub mod cairo_runner {
        use super::builtin_runner::BuiltinRunner;
        use crate::felt::Felt252;
        use crate::hint_processor::HintProcessor;
        use crate::serde::deserialize_program::BuiltinName;
        use crate::types::program::Program;
        use crate::types::relocatable::{MaybeRelocatable, Relocatable};
        use crate::vm::errors::{
            runner_errors::RunnerError, trace_errors::TraceError, vm_errors::VirtualMachineError,
        };
        use crate::vm::trace::trace_entry::TraceEntry;
        use crate::vm::vm_core::VirtualMachine;

        /// Steps after which a run is given up.
        fn step_limit() -> usize {
            let own = std::env::var("VERIF_VM_STEPS").ok().and_then(|s| s.parse().ok());
            own.unwrap_or(1 << 22)
        }

        #[derive(Clone, Debug)]
        pub enum CairoArg {
            Single(MaybeRelocatable),
            Array(Vec<MaybeRelocatable>),
        }
        impl From<MaybeRelocatable> for CairoArg {
            fn from(m: MaybeRelocatable) -> Self {
                CairoArg::Single(m)
            }
        }
        impl From<Vec<MaybeRelocatable>> for CairoArg {
            fn from(m: Vec<MaybeRelocatable>) -> Self {
                CairoArg::Array(m)
            }
        }

        #[derive(Default, Clone, Debug)]
        pub struct RunResources {}

        #[derive(Debug)]
        pub struct CairoRunner {
            program: Program,
            layout: String,
            pub program_base: Option<Relocatable>,
            execution_base: Option<Relocatable>,
            pub relocated_memory: Vec<Option<Felt252>>,
        }

        fn layout_has(layout: &str, b: BuiltinName) -> bool {
            use BuiltinName::*;
            match layout {
                "plain" => false,
                "small" | "dex" => matches!(b, output | pedersen | range_check | ecdsa),
                _ => true,
            }
        }

        impl CairoRunner {
            pub fn new(
                program: &Program,
                layout: &str,
                _proof_mode: bool,
            ) -> Result<CairoRunner, RunnerError> {
                const LAYOUTS: [&str; 8] = [
                    "plain",
                    "small",
                    "dex",
                    "recursive",
                    "starknet",
                    "starknet_with_keccak",
                    "recursive_large_output",
                    "all_cairo",
                ];
                if !LAYOUTS.contains(&layout) && layout != "all_solidity" && layout != "dynamic" {
                    return Err(RunnerError::Other(format!("invalid layout {layout}")));
                }
                Ok(CairoRunner {
                    program: program.clone(),
                    layout: layout.to_string(),
                    program_base: None,
                    execution_base: None,
                    relocated_memory: vec![],
                })
            }
            pub fn get_program(&self) -> &Program {
                &self.program
            }
            pub fn get_program_builtins(&self) -> &Vec<BuiltinName> {
                &self.program.builtins
            }

            fn init_segments(&mut self, vm: &mut VirtualMachine) -> Result<(), RunnerError> {
                self.program_base = Some(vm.add_memory_segment());
                self.execution_base = Some(vm.add_memory_segment());
                for b in self.program.builtins.clone() {
                    if !matches!(b, BuiltinName::output | BuiltinName::range_check) {
                        return Err(RunnerError::NoBuiltin(format!(
                            "{} is not modelled",
                            b.name()
                        )));
                    }
                    let base = vm.add_memory_segment().segment_index as usize;
                    vm.builtins.push(BuiltinRunner {
                        kind: b,
                        base,
                        stop_ptr: None,
                    });
                }
                Ok(())
            }

            fn load(
                &self,
                vm: &mut VirtualMachine,
                entry: usize,
                mut stack: Vec<MaybeRelocatable>,
                return_fp: MaybeRelocatable,
            ) -> Result<Relocatable, VirtualMachineError> {
                let end = vm.add_memory_segment();
                stack.push(return_fp);
                stack.push(end.into());
                let pb = self.program_base.unwrap();
                let eb = self.execution_base.unwrap();
                vm.load(pb, &self.program.data)?;
                vm.load(eb, &stack)?;
                vm.pc = pb.shift(entry as i64)?;
                vm.ap = eb.shift(stack.len() as i64)?;
                vm.fp = vm.ap;
                Ok(end)
            }

            pub(crate) fn initialize(
                &mut self,
                vm: &mut VirtualMachine,
            ) -> Result<Relocatable, crate::vm::errors::cairo_run_errors::CairoRunError>
            {
                for b in &self.program.builtins {
                    if !layout_has(&self.layout, *b) {
                        return Err(RunnerError::NoBuiltin(b.name().to_string()).into());
                    }
                }
                self.init_segments(vm)?;
                let stack = vm.builtins.iter().flat_map(|b| b.initial_stack()).collect();
                let return_fp = vm.add_memory_segment();
                let entry = self.program.main.unwrap_or(0);
                Ok(self.load(vm, entry, stack, return_fp.into())?)
            }

            pub fn initialize_function_runner_cairo_1(
                &mut self,
                vm: &mut VirtualMachine,
                program_builtins: &[BuiltinName],
            ) -> Result<(), RunnerError> {
                self.program.builtins = program_builtins.to_vec();
                self.init_segments(vm)
            }

            #[allow(clippy::too_many_arguments)]
            pub fn run_from_entrypoint(
                &mut self,
                entrypoint: usize,
                args: &[&CairoArg],
                _resources: &mut RunResources,
                _verify_secure: bool,
                _program_segment_size: Option<usize>,
                vm: &mut VirtualMachine,
                hints: &mut dyn HintProcessor,
            ) -> Result<(), VirtualMachineError> {
                let mut stack = vec![];
                for a in args {
                    match a {
                        CairoArg::Single(m) => stack.push(m.clone()),
                        CairoArg::Array(v) => {
                            let base = vm.add_memory_segment();
                            vm.load(base, v)?;
                            stack.push(base.into());
                        }
                    }
                }
                let end = self.load(vm, entrypoint, stack, MaybeRelocatable::from(0))?;
                self.run_until_pc(end, vm, hints)
            }

            pub fn run_until_pc(
                &mut self,
                end: Relocatable,
                vm: &mut VirtualMachine,
                hints: &mut dyn HintProcessor,
            ) -> Result<(), VirtualMachineError> {
                for _ in 0..step_limit() {
                    if vm.pc == end {
                        // every cell of an input builtin must be there
                        let holes = |b: &BuiltinRunner| {
                            b.kind == BuiltinName::range_check
                                && vm.memory[b.base].iter().any(|c| c.is_none())
                        };
                        if vm.builtins.iter().any(holes) {
                            return Err(VirtualMachineError::Other("missing memory cells".into()));
                        }
                        return Ok(());
                    }
                    let pc = vm.pc.offset;
                    if vm.pc.segment_index == 0 {
                        for code in self.program.hints.get(&pc).cloned().unwrap_or_default() {
                            hints.run_code(&code, vm)?;
                        }
                        hints.run(pc, vm)?;
                    }
                    vm.step()?;
                }
                Err(VirtualMachineError::Other("step limit".into()))
            }

            pub(crate) fn read_return_values(
                &self,
                vm: &mut VirtualMachine,
            ) -> Result<(), RunnerError> {
                let mut p = vm.ap;
                for i in (0..vm.builtins.len()).rev() {
                    let err = || RunnerError::Other("missing builtin return pointer".into());
                    p = p.shift(-1).map_err(|_| err())?;
                    match vm.get(p) {
                        Some(MaybeRelocatable::RelocatableValue(r))
                            if r.segment_index as usize == vm.builtins[i].base
                                && r.offset == vm.segment_len(vm.builtins[i].base) =>
                        {
                            vm.builtins[i].stop_ptr = Some(r.offset)
                        }
                        _ => return Err(err()),
                    }
                }
                Ok(())
            }

            pub fn relocate(
                &mut self,
                vm: &mut VirtualMachine,
                relocate_mem: bool,
            ) -> Result<(), TraceError> {
                let mut bases = vec![];
                let mut next = 1usize;
                for s in &vm.memory {
                    bases.push(next);
                    next += s.len();
                }
                let addr = |r: &Relocatable| bases[r.segment_index as usize] + r.offset;
                if relocate_mem {
                    let mut out = vec![None];
                    for s in &vm.memory {
                        for c in s {
                            out.push(c.as_ref().map(|c| match c {
                                MaybeRelocatable::Int(f) => f.clone(),
                                MaybeRelocatable::RelocatableValue(r) => Felt252::from(addr(r)),
                            }));
                        }
                    }
                    self.relocated_memory = out;
                }
                if let Some(t) = &vm.trace {
                    vm.relocated_trace = Some(
                        t.iter()
                            .map(|(pc, ap, fp)| TraceEntry {
                                pc: addr(pc),
                                ap: addr(ap),
                                fp: addr(fp),
                            })
                            .collect(),
                    );
                }
                Ok(())
            }
        }
    }
}

pub mod vm_core {
    use super::errors::{
        runner_errors::RunnerError, trace_errors::TraceError,
        vm_errors::VirtualMachineError as E,
    };
    use super::runners::builtin_runner::BuiltinRunner;
    use super::trace::trace_entry::TraceEntry;
    use crate::serde::deserialize_program::BuiltinName;
    use crate::types::relocatable::{MaybeRelocatable as M, Relocatable};

    #[derive(Debug)]
    pub struct VirtualMachine {
        pub(crate) memory: Vec<Vec<Option<M>>>,
        pub(crate) builtins: Vec<BuiltinRunner>,
        pub(crate) pc: Relocatable,
        pub(crate) ap: Relocatable,
        pub(crate) fp: Relocatable,
        pub(crate) trace: Option<Vec<(Relocatable, Relocatable, Relocatable)>>,
        pub(crate) relocated_trace: Option<Vec<TraceEntry>>,
    }

    fn e(m: &str) -> E {
        E::Other(m.to_string())
    }

    impl VirtualMachine {
        pub fn new(trace_enabled: bool) -> Self {
            let z = Relocatable {
                segment_index: 0,
                offset: 0,
            };
            VirtualMachine {
                memory: vec![],
                builtins: vec![],
                pc: z,
                ap: z,
                fp: z,
                trace: trace_enabled.then(Vec::new),
                relocated_trace: None,
            }
        }
        pub fn add_memory_segment(&mut self) -> Relocatable {
            self.memory.push(vec![]);
            Relocatable {
                segment_index: self.memory.len() as isize - 1,
                offset: 0,
            }
        }
        pub fn get_builtin_runners(&self) -> &Vec<BuiltinRunner> {
            &self.builtins
        }
        pub fn get_range_check_builtin(&self) -> Result<&BuiltinRunner, RunnerError> {
            self.builtins
                .iter()
                .find(|b| b.kind == BuiltinName::range_check)
                .ok_or(RunnerError::NoRangeCheckBuiltin)
        }
        pub fn get_segment_size(&self, i: usize) -> Option<usize> {
            self.memory.get(i).map(|s| s.len())
        }
        pub fn get_segment_used_size(&self, i: usize) -> Option<usize> {
            self.get_segment_size(i)
        }
        pub(crate) fn segment_len(&self, i: usize) -> usize {
            self.memory[i].len()
        }
        pub fn get_relocated_trace(&self) -> Result<&Vec<TraceEntry>, TraceError> {
            self.relocated_trace
                .as_ref()
                .ok_or(TraceError::TraceNotRelocated)
        }
        pub fn load_data(&mut self, ptr: Relocatable, data: &[M]) -> Result<Relocatable, E> {
            self.load(ptr, data)
        }
        pub(crate) fn load(&mut self, ptr: Relocatable, data: &[M]) -> Result<Relocatable, E> {
            for (i, d) in data.iter().enumerate() {
                self.insert((ptr + i)?, d.clone())?;
            }
            ptr + data.len()
        }
        pub(crate) fn get(&self, a: Relocatable) -> Option<M> {
            self.memory
                .get(a.segment_index as usize)?
                .get(a.offset)?
                .clone()
        }
        pub(crate) fn insert(&mut self, a: Relocatable, v: M) -> Result<(), E> {
            let rc = self
                .builtins
                .iter()
                .any(|b| b.kind == BuiltinName::range_check && b.base as isize == a.segment_index);
            if rc && !matches!(&v, M::Int(f) if f.bits_at_most(128)) {
                return Err(e("range check out of bounds"));
            }
            if a.offset > 1 << 24 {
                return Err(e("offset too large"));
            }
            let s = self
                .memory
                .get_mut(a.segment_index as usize)
                .ok_or(e("no such segment"))?;
            if s.len() <= a.offset {
                s.resize(a.offset + 1, None);
            }
            match &s[a.offset] {
                Some(old) if *old != v => Err(e("inconsistent memory")),
                _ => {
                    s[a.offset] = Some(v);
                    Ok(())
                }
            }
        }

        pub(crate) fn step(&mut self) -> Result<(), E> {
            let inst = match self.get(self.pc) {
                Some(M::Int(f)) => f.to_u64().ok_or(e("instruction too wide"))?,
                _ => return Err(e("no instruction")),
            };
            if inst >> 63 != 0 {
                return Err(e("high bit set"));
            }
            let off = |k: u32| ((inst >> k) & 0xffff) as i64 - 0x8000;
            let (o_dst, o_op0, o_op1) = (off(0), off(16), off(32));
            let fl = inst >> 48;
            let (dst_fp, op0_fp) = (fl & 1, (fl >> 1) & 1);
            let op1_src = (fl >> 2) & 7;
            let res_logic = (fl >> 5) & 3;
            let pc_update = (fl >> 7) & 7;
            let ap_update = (fl >> 10) & 3;
            let opcode = (fl >> 12) & 7;
            if !matches!(op1_src, 0 | 1 | 2 | 4)
                || res_logic > 2
                || !matches!(pc_update, 0 | 1 | 2 | 4)
                || ap_update > 2
                || !matches!(opcode, 0 | 1 | 2 | 4)
                // undefined behaviour
                || opcode == 1 && ap_update != 0
                || pc_update == 4 && (res_logic != 0 || opcode != 0)
                || op1_src == 1 && o_op1 != 1
            {
                return Err(e("invalid instruction"));
            }
            let base = |f: u64| if f == 1 { self.fp } else { self.ap };
            let dst_addr = base(dst_fp).shift(o_dst)?;
            let op0_addr = base(op0_fp).shift(o_op0)?;
            let mut dst = self.get(dst_addr);
            let mut op0 = self.get(op0_addr);
            let op1_addr = match op1_src {
                0 => match &op0 {
                    Some(M::RelocatableValue(r)) => r.shift(o_op1)?,
                    _ => return Err(e("op0 is no pointer")),
                },
                1 => self.pc.shift(o_op1)?,
                2 => self.fp.shift(o_op1)?,
                _ => self.ap.shift(o_op1)?,
            };
            let mut op1 = self.get(op1_addr);
            let size = if op1_src == 1 { 2 } else { 1 };
            let next_pc = self.pc.shift(size)?;

            // deduction
            if opcode == 1 {
                let ret: M = next_pc.into();
                self.insert(op0_addr, ret.clone())?;
                op0 = Some(ret);
                let fpv: M = self.fp.into();
                self.insert(dst_addr, fpv.clone())?;
                dst = Some(fpv);
                if op1.is_none() {
                    op1 = self.get(op1_addr);
                }
            }
            if opcode == 4 {
                match (&dst, &op0, &op1, res_logic) {
                    (Some(d), _, None, 0) => op1 = Some(d.clone()),
                    (Some(d), Some(a), None, 1) => op1 = Some(d.sub(a)?),
                    (Some(d), None, Some(b), 1) => op0 = Some(d.sub(b)?),
                    (Some(d), Some(a), None, 2) => op1 = Some(d.div(a)?),
                    (Some(d), None, Some(b), 2) => op0 = Some(d.div(b)?),
                    _ => {}
                }
            }
            // Like cairo-vm, every operand must be known or deducible, even unused ones.
            let op0_v = op0.ok_or(e("unknown op0"))?;
            let op1_v = op1.ok_or(e("unknown op1"))?;
            let res = if pc_update == 4 {
                None
            } else {
                Some(match res_logic {
                    0 => op1_v.clone(),
                    1 => op0_v.add(&op1_v)?,
                    _ => op0_v.mul(&op1_v)?,
                })
            };
            if opcode == 4 && dst.is_none() {
                dst = res.clone();
            }
            let dst = dst.ok_or(e("unknown dst"))?;
            if opcode == 4 && res.as_ref() != Some(&dst) {
                return Err(e("assert_eq failed"));
            }
            if let Some(t) = self.trace.as_mut() {
                t.push((self.pc, self.ap, self.fp));
            }
            self.insert(dst_addr, dst.clone())?;
            self.insert(op0_addr, op0_v)?;
            self.insert(op1_addr, op1_v.clone())?;

            let ptr = |m: &M| match m {
                M::RelocatableValue(r) => Ok(*r),
                _ => Err(e("expected a pointer")),
            };
            let small = |m: &M| match m {
                M::Int(f) => f.to_i64().ok_or(e("jump too far")),
                _ => Err(e("expected an integer")),
            };
            let new_pc = match pc_update {
                0 => next_pc,
                1 => ptr(res.as_ref().unwrap())?,
                2 => self.pc.shift(small(res.as_ref().unwrap())?)?,
                _ if dst.is_zero_int() => next_pc,
                _ => self.pc.shift(small(&op1_v)?)?,
            };
            let new_ap = match (opcode, ap_update) {
                (1, _) => self.ap.shift(2)?,
                (_, 0) => self.ap,
                (_, 1) => match res.as_ref().ok_or(e("ap += unconstrained"))? {
                    M::Int(f) => self.ap.shift(f.to_i64().ok_or(e("ap"))?)?,
                    _ => return Err(e("ap += pointer")),
                },
                _ => self.ap.shift(1)?,
            };
            let new_fp = match opcode {
                1 => self.ap.shift(2)?,
                2 => match &dst {
                    M::RelocatableValue(r) => *r,
                    M::Int(f) => Relocatable {
                        offset: f.to_u64().ok_or(e("fp"))? as usize,
                        ..self.fp
                    },
                },
                _ => self.fp,
            };
            self.pc = new_pc;
            self.ap = new_ap;
            self.fp = new_fp;
            Ok(())
        }
    }
}
