//! Environment model of cairo-vm 0.6: the virtual machine is outside the code under test, so a
//! run's outcome (relocated trace and memory, segment sizes, builtin addresses) is whatever the
//! harness installs with `env::set`.
#![allow(clippy::all)]
pub mod env {
    use super::*;
    use crate::felt::Felt252;
    use crate::vm::trace::trace_entry::TraceEntry;
    #[cfg(not(ll))]
    use std::cell::RefCell;

    #[derive(Clone, Debug, Default)]
    pub struct Outcome {
        pub fail: bool,
        pub trace: Option<Vec<TraceEntry>>,
        pub memory: Vec<Option<Felt252>>,
        pub data_len: usize,
        pub segment_sizes: Vec<Option<usize>>,
        /// (segment index, stop offset) of the range-check builtin
        pub range_check: Option<(usize, Option<usize>)>,
    }
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct Seen {
        /// programs run to their end
        pub runs: usize,
        pub program: Vec<u8>,
        pub entrypoint: String,
        pub layout: String,
        pub trace_enabled: bool,
        pub relocate_mem: bool,
        pub proof_mode: bool,
        pub cairo1: bool,
    }
    /// (a plain static under the executor of tools/ll, which has a single thread)
    #[cfg(ll)]
    mod cell {
        pub struct Cell<T>(core::cell::UnsafeCell<T>);
        unsafe impl<T> Sync for Cell<T> {}
        impl<T> Cell<T> {
            pub const fn new(t: T) -> Self {
                Cell(core::cell::UnsafeCell::new(t))
            }
            pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
                f(unsafe { &mut *self.0.get() })
            }
        }
        pub static OUTCOME: Cell<Option<super::Outcome>> = Cell::new(None);
        pub static SEEN: Cell<Option<super::Seen>> = Cell::new(None);
    }
    #[cfg(not(ll))]
    mod cell {
        use super::RefCell;
        pub struct Cell<T: 'static>(&'static std::thread::LocalKey<RefCell<T>>);
        impl<T> Cell<T> {
            pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
                self.0.with(|x| f(&mut x.borrow_mut()))
            }
        }
        thread_local! {
            static O: RefCell<Option<super::Outcome>> = RefCell::new(None);
            static S: RefCell<Option<super::Seen>> = RefCell::new(None);
        }
        pub static OUTCOME: Cell<Option<super::Outcome>> = Cell(&O);
        pub static SEEN: Cell<Option<super::Seen>> = Cell(&S);
    }
    pub fn set(o: Outcome) {
        cell::SEEN.with(|s| *s = None);
        cell::OUTCOME.with(|x| *x = Some(o));
    }
    pub fn get() -> Outcome {
        cell::OUTCOME.with(|x| x.clone()).expect("no outcome installed for the virtual machine")
    }
    pub fn is_set() -> bool {
        cell::OUTCOME.with(|x| x.is_some())
    }
    pub fn see(f: impl FnOnce(&mut Seen)) {
        cell::SEEN.with(|x| f(x.get_or_insert_with(Seen::default)))
    }
    /// What the machine was asked for since `set`.
    pub fn seen() -> Seen {
        cell::SEEN.with(|x| x.clone()).unwrap_or_default()
    }
    #[allow(dead_code)]
    type _T = vm::vm_core::VirtualMachine;
}
pub mod felt {
    /// 32 little-endian bytes.
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
    pub struct Felt252(pub [u8; 32]);
    impl Felt252 {
        pub fn to_le_bytes(&self) -> [u8; 32] {
            self.0
        }
        pub fn to_be_bytes(&self) -> [u8; 32] {
            let mut b = self.0;
            b.reverse();
            b
        }
        pub fn to_bytes_le(&self) -> Vec<u8> {
            self.0.to_vec()
        }
    }
    impl From<u64> for Felt252 {
        fn from(x: u64) -> Self {
            let mut b = [0; 32];
            b[..8].copy_from_slice(&x.to_le_bytes());
            Felt252(b)
        }
    }
}
macro_rules! err {
    ($n:ident) => {
        #[derive(Debug)]
        pub struct $n;
        impl core::fmt::Display for $n {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                f.write_str(stringify!($n))
            }
        }
        impl std::error::Error for $n {}
    };
}
pub mod cairo_run {
    use crate::env::{self, Seen};
    use crate::vm::errors::cairo_run_errors::CairoRunError;
    use crate::vm::runners::cairo_runner::CairoRunner;
    use crate::vm::vm_core::VirtualMachine;
    err!(EncodeTraceError);
    #[derive(Clone)]
    pub struct CairoRunConfig<'a> {
        pub entrypoint: &'a str,
        pub trace_enabled: bool,
        pub relocate_mem: bool,
        pub layout: &'a str,
        pub proof_mode: bool,
        pub secure_run: Option<bool>,
    }
    impl<'a> Default for CairoRunConfig<'a> {
        fn default() -> Self {
            CairoRunConfig {
                entrypoint: "main",
                trace_enabled: false,
                relocate_mem: false,
                layout: "plain",
                proof_mode: false,
                secure_run: None,
            }
        }
    }
    pub fn cairo_run<H>(
        program_content: &[u8],
        config: &CairoRunConfig,
        _hint_executor: &mut H,
    ) -> Result<(CairoRunner, VirtualMachine), CairoRunError> {
        env::see(|s| {
            *s = Seen {
                runs: s.runs + 1,
                program: program_content.to_vec(),
                entrypoint: config.entrypoint.to_string(),
                layout: config.layout.to_string(),
                trace_enabled: config.trace_enabled,
                relocate_mem: config.relocate_mem,
                proof_mode: config.proof_mode,
                cairo1: false,
            }
        });
        if !env::is_set() {
            return Err(CairoRunError);
        }
        let mut o = env::get();
        if o.fail {
            return Err(CairoRunError);
        }
        if !config.trace_enabled {
            o.trace = None;
        }
        if !config.relocate_mem {
            o.memory = vec![];
        }
        Ok((CairoRunner::of(&o), VirtualMachine { outcome: o, added: 0, traced: true }))
    }
}
pub mod hint_processor {
    pub mod builtin_hint_processor {
        pub mod builtin_hint_processor_definition {
            pub struct BuiltinHintProcessor;
            impl BuiltinHintProcessor {
                pub fn new_empty() -> Self {
                    BuiltinHintProcessor
                }
            }
        }
    }
    pub mod cairo_1_hint_processor {
        pub mod hint_processor {
            pub struct Cairo1HintProcessor;
            impl Cairo1HintProcessor {
                pub fn new(_hints: &[(usize, Vec<()>)]) -> Self {
                    Cairo1HintProcessor
                }
            }
        }
    }
}
pub mod serde {
    pub mod deserialize_program {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[allow(non_camel_case_types)]
        pub enum BuiltinName {
            output,
            range_check,
            pedersen,
            ecdsa,
            keccak,
            bitwise,
            ec_op,
            poseidon,
            segment_arena,
        }
        impl BuiltinName {
            pub fn name(&self) -> &'static str {
                match self {
                    BuiltinName::output => "output_builtin",
                    BuiltinName::range_check => "range_check_builtin",
                    _ => "other_builtin",
                }
            }
        }
    }
}
pub mod types {
    pub mod program {
        use cairo_lang_starknet::casm_contract_class::CasmContractClass;
        #[derive(Clone, Debug)]
        pub struct Program {
            pub data_len: usize,
        }
        impl Program {
            pub fn data_len(&self) -> usize {
                self.data_len
            }
        }
        impl TryFrom<CasmContractClass> for Program {
            type Error = crate::vm::errors::cairo_run_errors::CairoRunError;
            fn try_from(_: CasmContractClass) -> Result<Self, Self::Error> {
                Ok(Program { data_len: crate::env::get().data_len })
            }
        }
    }
    pub mod relocatable {
        use crate::felt::Felt252;
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct Relocatable {
            pub segment_index: isize,
            pub offset: usize,
        }
        impl core::ops::Add<usize> for Relocatable {
            type Output = Result<Relocatable, crate::vm::errors::cairo_run_errors::CairoRunError>;
            fn add(self, o: usize) -> Self::Output {
                Ok(Relocatable { segment_index: self.segment_index, offset: self.offset + o })
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum MaybeRelocatable {
            RelocatableValue(Relocatable),
            Int(Felt252),
        }
        impl From<Relocatable> for MaybeRelocatable {
            fn from(r: Relocatable) -> Self {
                MaybeRelocatable::RelocatableValue(r)
            }
        }
        impl From<usize> for MaybeRelocatable {
            fn from(r: usize) -> Self {
                MaybeRelocatable::Int(Felt252::from(r as u64))
            }
        }
    }
}
pub mod vm {
    pub mod errors {
        pub mod cairo_run_errors {
            err!(CairoRunError);
        }
        pub mod trace_errors {
            err!(TraceError);
        }
        pub mod vm_errors {
            err!(VirtualMachineError);
        }
    }
    pub mod trace {
        pub mod trace_entry {
            #[derive(Clone, Debug, PartialEq, Eq)]
            pub struct TraceEntry {
                pub pc: usize,
                pub ap: usize,
                pub fp: usize,
            }
        }
    }
    pub mod runners {
        pub mod builtin_runner {
            use crate::types::relocatable::{MaybeRelocatable, Relocatable};
            #[derive(Clone, Debug)]
            pub struct RangeCheckBuiltinRunner {
                pub base: usize,
                pub stop: Option<usize>,
            }
            impl RangeCheckBuiltinRunner {
                pub fn get_memory_segment_addresses(&self) -> (usize, Option<usize>) {
                    (self.base, self.stop)
                }
                pub fn name(&self) -> &'static str {
                    "range_check_builtin"
                }
                pub fn initial_stack(&self) -> Vec<MaybeRelocatable> {
                    vec![Relocatable { segment_index: self.base as isize, offset: 0 }.into()]
                }
            }
        }
        pub mod cairo_runner {
            use crate::env::Outcome;
            use crate::felt::Felt252;
            use crate::serde::deserialize_program::BuiltinName;
            use crate::types::program::Program;
            use crate::types::relocatable::{MaybeRelocatable, Relocatable};
            use crate::vm::errors::cairo_run_errors::CairoRunError;
            use crate::vm::vm_core::VirtualMachine;
            #[derive(Clone, Debug)]
            pub enum CairoArg {
                Single(MaybeRelocatable),
            }
            impl From<MaybeRelocatable> for CairoArg {
                fn from(m: MaybeRelocatable) -> Self {
                    CairoArg::Single(m)
                }
            }
            #[derive(Clone, Debug, Default)]
            pub struct RunResources;
            #[derive(Clone, Debug)]
            pub struct CairoRunner {
                pub relocated_memory: Vec<Option<Felt252>>,
                pub program_base: Option<Relocatable>,
                program: Program,
                builtins: Vec<BuiltinName>,
            }
            impl CairoRunner {
                pub(crate) fn of(o: &Outcome) -> Self {
                    CairoRunner {
                        relocated_memory: o.memory.clone(),
                        program_base: Some(Relocatable { segment_index: 0, offset: 0 }),
                        program: Program { data_len: o.data_len },
                        builtins: vec![BuiltinName::range_check],
                    }
                }
                pub fn new(_p: &Program, layout: &str, proof_mode: bool) -> Result<Self, CairoRunError> {
                    crate::env::see(|s| {
                        s.layout = layout.to_string();
                        s.proof_mode = proof_mode;
                        s.cairo1 = true;
                    });
                    let mut r = CairoRunner::of(&crate::env::get());
                    r.relocated_memory = vec![];
                    Ok(r)
                }
                pub fn get_program(&self) -> &Program {
                    &self.program
                }
                pub fn get_program_builtins(&self) -> &Vec<BuiltinName> {
                    &self.builtins
                }
                pub fn initialize_function_runner_cairo_1(
                    &mut self,
                    _vm: &mut VirtualMachine,
                    _b: &[BuiltinName],
                ) -> Result<(), CairoRunError> {
                    Ok(())
                }
                #[allow(clippy::too_many_arguments)]
                pub fn run_from_entrypoint<H>(
                    &mut self,
                    _entrypoint: usize,
                    _args: &[&CairoArg],
                    _run_resources: &mut RunResources,
                    _verify_secure: bool,
                    _program_segment_size: Option<usize>,
                    vm: &mut VirtualMachine,
                    _hint_processor: &mut H,
                ) -> Result<(), CairoRunError> {
                    let o = crate::env::get();
                    if o.fail {
                        return Err(CairoRunError);
                    }
                    crate::env::see(|s| s.runs += 1);
                    vm.outcome = Outcome { trace: if vm.traced { o.trace } else { None }, ..o };
                    Ok(())
                }
                pub fn relocate(&mut self, _vm: &mut VirtualMachine, relocate_mem: bool) -> Result<(), CairoRunError> {
                    crate::env::see(|s| s.relocate_mem = relocate_mem);
                    if relocate_mem {
                        self.relocated_memory = crate::env::get().memory;
                    }
                    Ok(())
                }
            }
        }
    }
    pub mod vm_core {
        use super::errors::{trace_errors::TraceError, vm_errors::VirtualMachineError};
        use super::runners::builtin_runner::RangeCheckBuiltinRunner;
        use super::trace::trace_entry::TraceEntry;
        use crate::env::Outcome;
        use crate::types::relocatable::{MaybeRelocatable, Relocatable};
        #[derive(Clone, Debug)]
        pub struct VirtualMachine {
            pub(crate) outcome: Outcome,
            pub(crate) added: isize,
            pub(crate) traced: bool,
        }
        impl VirtualMachine {
            pub fn new(trace_enabled: bool) -> Self {
                crate::env::see(|s| s.trace_enabled = trace_enabled);
                VirtualMachine { outcome: Outcome::default(), added: 0, traced: trace_enabled }
            }
            pub fn add_memory_segment(&mut self) -> Relocatable {
                self.added += 1;
                Relocatable { segment_index: self.added, offset: 0 }
            }
            pub fn load_data(&mut self, ptr: Relocatable, data: &Vec<MaybeRelocatable>) -> Result<Relocatable, VirtualMachineError> {
                Ok(Relocatable { segment_index: ptr.segment_index, offset: ptr.offset + data.len() })
            }
            pub fn get_builtin_runners(&self) -> Vec<RangeCheckBuiltinRunner> {
                self.get_range_check_builtin().cloned_vec()
            }
            pub fn get_relocated_trace(&self) -> Result<&Vec<TraceEntry>, TraceError> {
                self.outcome.trace.as_ref().ok_or(TraceError)
            }
            pub fn get_range_check_builtin(&self) -> Result<RangeCheckBuiltinRunner, VirtualMachineError> {
                match &self.outcome.range_check {
                    Some((base, stop)) => Ok(RangeCheckBuiltinRunner { base: *base, stop: *stop }),
                    None => Err(VirtualMachineError),
                }
            }
            pub fn get_segment_size(&self, index: usize) -> Option<usize> {
                self.outcome.segment_sizes.get(index).cloned().flatten()
            }
            pub fn get_segment_used_size(&self, index: usize) -> Option<usize> {
                self.get_segment_size(index)
            }
        }
        trait ClonedVec {
            fn cloned_vec(self) -> Vec<RangeCheckBuiltinRunner>;
        }
        impl ClonedVec for Result<RangeCheckBuiltinRunner, VirtualMachineError> {
            fn cloned_vec(self) -> Vec<RangeCheckBuiltinRunner> {
                self.into_iter().collect()
            }
        }
    }
}
