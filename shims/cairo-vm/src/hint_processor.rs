use crate::felt::Felt252;
use crate::types::relocatable::MaybeRelocatable;
use crate::vm::errors::vm_errors::VirtualMachineError as E;
use crate::vm::vm_core::VirtualMachine;

pub trait HintProcessor {
    /// Runs the Cairo 1 hints of this pc, if any.
    fn run(&mut self, pc: usize, vm: &mut VirtualMachine) -> Result<(), E>;
    /// Runs one Cairo 0 hint.
    fn run_code(&mut self, code: &str, vm: &mut VirtualMachine) -> Result<(), E>;
}

pub mod builtin_hint_processor {
    pub mod builtin_hint_processor_definition {
        use super::super::*;
        pub struct BuiltinHintProcessor(());
        impl BuiltinHintProcessor {
            pub fn new_empty() -> Self {
                BuiltinHintProcessor(())
            }
        }
        impl HintProcessor for BuiltinHintProcessor {
            fn run(&mut self, _: usize, _: &mut VirtualMachine) -> Result<(), E> {
                Ok(())
            }
            fn run_code(&mut self, code: &str, vm: &mut VirtualMachine) -> Result<(), E> {
                let c = code.trim();
                if c == "memory[ap] = segments.add()" {
                    let s = vm.add_memory_segment();
                    let ap = vm.ap;
                    return vm.insert(ap, s.into());
                }
                // memory[ap] = <decimal>: free input of a program
                if let Some(n) = c.strip_prefix("memory[ap] = ").and_then(|n| n.parse::<u64>().ok())
                {
                    let ap = vm.ap;
                    return vm.insert(ap, Felt252::from(n).into());
                }
                Err(E::Other(format!("unknown hint: {c}")))
            }
        }
    }
}

pub mod cairo_1_hint_processor {
    pub mod hint_processor {
        use super::super::*;
        use serde_json::Value;
        use std::collections::BTreeMap;

        pub struct Cairo1HintProcessor {
            hints: BTreeMap<usize, Vec<Value>>,
        }

        impl Cairo1HintProcessor {
            pub fn new(hints: &[(usize, Vec<Value>)]) -> Self {
                Cairo1HintProcessor {
                    hints: hints.iter().cloned().collect(),
                }
            }
        }

        fn cell(v: &Value, vm: &VirtualMachine) -> Result<crate::types::relocatable::Relocatable, E> {
            let off = v["offset"].as_i64().ok_or(E::Other("hint cell".into()))?;
            match v["register"].as_str() {
                Some("AP") => vm.ap.shift(off),
                Some("FP") => vm.fp.shift(off),
                _ => Err(E::Other("hint register".into())),
            }
        }
        fn operand(v: &Value, vm: &VirtualMachine) -> Result<Felt252, E> {
            if let Some(s) = v["Immediate"].as_str() {
                return Felt252::from_hex(s).ok_or(E::Other("hint immediate".into()));
            }
            match vm.get(cell(&v["Deref"], vm)?) {
                Some(MaybeRelocatable::Int(f)) => Ok(f),
                _ => Err(E::Other("hint operand".into())),
            }
        }

        impl HintProcessor for Cairo1HintProcessor {
            fn run(&mut self, pc: usize, vm: &mut VirtualMachine) -> Result<(), E> {
                for h in self.hints.get(&pc).cloned().unwrap_or_default() {
                    if let Some(a) = h.get("AllocSegment") {
                        let s = vm.add_memory_segment();
                        let dst = cell(&a["dst"], vm)?;
                        vm.insert(dst, s.into())?;
                        continue;
                    }
                    let (a, or_eq) = if let Some(a) = h.get("TestLessThanOrEqual") {
                        (a, true)
                    } else if let Some(a) = h.get("TestLessThan") {
                        (a, false)
                    } else {
                        return Err(E::Other(format!("unknown hint: {h}")));
                    };
                    let l = operand(&a["lhs"], vm)?.to_be_bytes();
                    let r = operand(&a["rhs"], vm)?.to_be_bytes();
                    let b = l < r || (or_eq && l == r);
                    let dst = cell(&a["dst"], vm)?;
                    vm.insert(dst, Felt252::from(b as u64).into())?;
                }
                Ok(())
            }
            fn run_code(&mut self, code: &str, _: &mut VirtualMachine) -> Result<(), E> {
                Err(E::Other(format!("unknown hint: {code}")))
            }
        }
    }
}
