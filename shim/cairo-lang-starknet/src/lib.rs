//! Environment model: a type only.
pub mod casm_contract_class {
    #[derive(Clone, Debug, serde::Deserialize)]
    pub struct CasmContractClass {
        #[serde(default, skip)]
        pub hints: Vec<(usize, Vec<()>)>,
    }
}
