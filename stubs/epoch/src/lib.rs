#![allow(warnings)]
mod atomic;
mod guard;
pub use atomic::{Atomic, CompareAndSetError, CompareAndSetOrdering, Owned, Shared};
pub use guard::{default_handle, is_pinned, pin, unprotected, Collector, Guard, Handle};
