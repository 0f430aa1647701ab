#![allow(static_mut_refs, clippy::missing_safety_doc, invalid_runtime_symbol_definitions, function_casts_as_integer)]
pub mod ctx;
pub mod fs;
pub mod mem;
pub mod interpose;
pub mod net;
pub mod prng;
pub mod raw;
pub mod run;
pub mod sched;
pub mod shm;
pub mod oracle;
pub mod procs;
