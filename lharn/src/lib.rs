//! Harnesses of the symbolic executor (`lsym`). Compiled twice: to LLVM IR, where every `lsym_*`
//! call is interpreted and the bytes are symbolic, and natively (`lrun`), where the bytes come from
//! a counterexample or a self-test. Only the public interface of the crate is used.
#![allow(dead_code)]
pub mod api;
pub mod c06;
pub mod c07;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c16;
#[cfg(feature = "bindings")]
pub mod c17;
#[cfg(feature = "bindings")]
pub mod c18;
