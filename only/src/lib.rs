//! Nothing but the library, with the features asked for.
#![no_std]
#[cfg(feature = "lib")]
pub use libsecp256k1::*;
#[cfg(feature = "core")]
pub use libsecp256k1_core as core_only;
