//! The runtime library of /repo, as compiled programs link it.
#![no_std]
pub use tribute_runtime::*;
