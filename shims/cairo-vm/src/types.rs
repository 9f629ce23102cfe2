pub mod relocatable {
    use crate::felt::Felt252;
    use crate::vm::errors::vm_errors::VirtualMachineError;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Relocatable {
        pub segment_index: isize,
        pub offset: usize,
    }

    impl std::ops::Add<usize> for Relocatable {
        type Output = Result<Relocatable, VirtualMachineError>;
        fn add(self, rhs: usize) -> Self::Output {
            Ok(Relocatable {
                segment_index: self.segment_index,
                offset: self
                    .offset
                    .checked_add(rhs)
                    .ok_or(VirtualMachineError::Other("offset overflow".into()))?,
            })
        }
    }

    impl Relocatable {
        pub fn shift(self, d: i64) -> Result<Relocatable, VirtualMachineError> {
            let offset = (self.offset as i64)
                .checked_add(d)
                .filter(|o| *o >= 0)
                .ok_or(VirtualMachineError::Other("offset out of range".into()))?;
            Ok(Relocatable {
                offset: offset as usize,
                ..self
            })
        }
    }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum MaybeRelocatable {
        RelocatableValue(Relocatable),
        Int(Felt252),
    }

    impl From<Relocatable> for MaybeRelocatable {
        fn from(r: Relocatable) -> Self {
            MaybeRelocatable::RelocatableValue(r)
        }
    }
    impl From<&Relocatable> for MaybeRelocatable {
        fn from(r: &Relocatable) -> Self {
            MaybeRelocatable::RelocatableValue(*r)
        }
    }
    impl From<Felt252> for MaybeRelocatable {
        fn from(f: Felt252) -> Self {
            MaybeRelocatable::Int(f)
        }
    }
    impl From<&Felt252> for MaybeRelocatable {
        fn from(f: &Felt252) -> Self {
            MaybeRelocatable::Int(f.clone())
        }
    }
    impl From<usize> for MaybeRelocatable {
        fn from(v: usize) -> Self {
            MaybeRelocatable::Int(Felt252::from(v))
        }
    }
    impl From<(isize, usize)> for MaybeRelocatable {
        fn from((segment_index, offset): (isize, usize)) -> Self {
            MaybeRelocatable::RelocatableValue(Relocatable {
                segment_index,
                offset,
            })
        }
    }

    type R = Result<MaybeRelocatable, VirtualMachineError>;
    fn bad(op: &str) -> VirtualMachineError {
        VirtualMachineError::Other(format!("invalid operands for {op}"))
    }
    impl MaybeRelocatable {
        pub fn add(&self, o: &Self) -> R {
            use MaybeRelocatable::*;
            match (self, o) {
                (Int(a), Int(b)) => Ok(Int(Felt252(&a.0 + &b.0))),
                (RelocatableValue(r), Int(a)) | (Int(a), RelocatableValue(r)) => {
                    Ok(r.shift(a.to_i64().ok_or_else(|| bad("add"))?)?.into())
                }
                _ => Err(bad("add")),
            }
        }
        pub fn sub(&self, o: &Self) -> R {
            use MaybeRelocatable::*;
            match (self, o) {
                (Int(a), Int(b)) => Ok(Int(Felt252(&a.0 - &b.0))),
                (RelocatableValue(r), Int(a)) => {
                    Ok(r.shift(-a.to_i64().ok_or_else(|| bad("sub"))?)?.into())
                }
                (RelocatableValue(a), RelocatableValue(b))
                    if a.segment_index == b.segment_index =>
                {
                    let d = a.offset as i64 - b.offset as i64;
                    let f = Felt252::from(d.unsigned_abs());
                    Ok(Int(if d < 0 { Felt252(-&f.0) } else { f }))
                }
                _ => Err(bad("sub")),
            }
        }
        pub fn mul(&self, o: &Self) -> R {
            use MaybeRelocatable::*;
            match (self, o) {
                (Int(a), Int(b)) => Ok(Int(Felt252(&a.0 * &b.0))),
                _ => Err(bad("mul")),
            }
        }
        pub fn div(&self, o: &Self) -> R {
            use MaybeRelocatable::*;
            match (self, o) {
                (Int(a), Int(b)) if !b.is_zero() => Ok(Int(Felt252(&a.0 * &b.0.inv()))),
                _ => Err(bad("div")),
            }
        }
        pub fn is_zero_int(&self) -> bool {
            matches!(self, MaybeRelocatable::Int(f) if f.is_zero())
        }
    }
}

pub mod errors {
    pub mod program_errors {
        #[derive(Debug)]
        pub enum ProgramError {
            Parse(String),
            EntrypointNotFound(String),
        }
        impl std::fmt::Display for ProgramError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{self:?}")
            }
        }
        impl std::error::Error for ProgramError {}
    }
}

pub mod program {
    use super::errors::program_errors::ProgramError;
    use crate::felt::Felt252;
    use crate::serde::deserialize_program::BuiltinName;
    use crate::types::relocatable::MaybeRelocatable;
    use cairo_lang_starknet::casm_contract_class::CasmContractClass;
    use std::collections::BTreeMap;

    #[derive(Clone, Debug)]
    pub struct Program {
        pub(crate) data: Vec<MaybeRelocatable>,
        pub(crate) builtins: Vec<BuiltinName>,
        pub(crate) main: Option<usize>,
        /// Cairo 0 hints: code strings by pc.
        pub(crate) hints: BTreeMap<usize, Vec<String>>,
    }

    impl Program {
        pub fn data_len(&self) -> usize {
            self.data.len()
        }
        pub fn iter_data(&self) -> impl Iterator<Item = &MaybeRelocatable> {
            self.data.iter()
        }
        pub fn from_bytes(bytes: &[u8], entrypoint: Option<&str>) -> Result<Self, ProgramError> {
            let err = |m: &str| ProgramError::Parse(m.to_string());
            let v: serde_json::Value =
                serde_json::from_slice(bytes).map_err(|e| ProgramError::Parse(e.to_string()))?;
            let data = v["data"]
                .as_array()
                .ok_or_else(|| err("data"))?
                .iter()
                .map(|x| x.as_str().and_then(Felt252::from_hex).map(Into::into))
                .collect::<Option<Vec<_>>>()
                .ok_or_else(|| err("data word"))?;
            let builtins = match v["builtins"].as_array() {
                None => vec![],
                Some(a) => a
                    .iter()
                    .map(|x| x.as_str().and_then(BuiltinName::parse))
                    .collect::<Option<Vec<_>>>()
                    .ok_or_else(|| err("builtin"))?,
            };
            let mut hints: BTreeMap<usize, Vec<String>> = BTreeMap::new();
            if let Some(o) = v["hints"].as_object() {
                for (pc, l) in o {
                    let pc = pc.parse().map_err(|_| err("hint pc"))?;
                    for h in l.as_array().ok_or_else(|| err("hints"))? {
                        hints
                            .entry(pc)
                            .or_default()
                            .push(h["code"].as_str().unwrap_or_default().to_string());
                    }
                }
            }
            let main = match entrypoint {
                None => None,
                Some(name) => Some(
                    v["identifiers"][format!("__main__.{name}")]["pc"]
                        .as_u64()
                        .ok_or_else(|| ProgramError::EntrypointNotFound(name.to_string()))?
                        as usize,
                ),
            };
            Ok(Program {
                data,
                builtins,
                main,
                hints,
            })
        }
    }

    impl TryFrom<CasmContractClass> for Program {
        type Error = ProgramError;
        fn try_from(c: CasmContractClass) -> Result<Self, ProgramError> {
            let data = c
                .bytecode
                .iter()
                .map(|s| Felt252::from_hex(s).map(Into::into))
                .collect::<Option<Vec<_>>>()
                .ok_or_else(|| ProgramError::Parse("bytecode".into()))?;
            Ok(Program {
                data,
                builtins: vec![],
                main: None,
                hints: BTreeMap::new(),
            })
        }
    }
}
