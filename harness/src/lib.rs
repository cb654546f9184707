#![allow(clippy::all)]
#![allow(static_mut_refs, unknown_lints, dead_code, unused_macros, unused_imports)]
// every feature is a set of entries; a check builds those its property needs
#[cfg(feature = "algebra")]
pub mod algebra;
#[cfg(feature = "arena")]
pub mod arena;
#[cfg(any(feature = "bp", feature = "layout"))]
pub mod bp;
#[cfg(feature = "drops")]
pub mod drops;
#[cfg(feature = "layout")]
pub mod layout;
#[cfg(feature = "lists")]
pub mod lists;
#[cfg(feature = "lsm")]
pub mod lsm;
#[cfg(any(feature = "maps", feature = "algebra"))]
pub mod maps;
pub mod model;
#[cfg(feature = "radix")]
pub mod radix;
pub mod rng;
#[cfg(feature = "stack")]
pub mod stack;
pub mod sx;
/// The code under test links against this even when no entry uses it.
#[cfg(not(feature = "lsm"))]
#[no_mangle]
pub extern "C" fn vh_bloom() -> bool { false }

