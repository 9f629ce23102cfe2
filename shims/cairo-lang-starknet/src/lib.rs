//! Offline stand-in for the parts of cairo-lang-starknet the prover uses.
pub mod casm_contract_class {
    #[derive(serde::Deserialize, Clone, Debug)]
    pub struct CasmContractClass {
        #[serde(default)]
        pub prime: String,
        #[serde(default)]
        pub compiler_version: String,
        pub bytecode: Vec<String>,
        pub hints: Vec<(usize, Vec<serde_json::Value>)>,
        #[serde(default)]
        pub entry_points_by_type: serde_json::Value,
    }
}
