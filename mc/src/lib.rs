#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
#![allow(clippy::missing_safety_doc)]
pub mod check;
pub mod env;
pub mod pki;
pub mod points;
pub mod refc;
pub mod sched;
pub mod sut;
pub mod tls;

/// What the checks use (without the libc symbols in env)
pub mod prelude {
    pub use crate::check::*;
    pub use crate::env::{
        enqueue, enqueue_error, lk, mix, seed_rng, set_clock, set_clock_ns, set_vfile, last_accepted, set_vfile_shared, spin, virtual_listener, virtual_stream, with_rng, Fault, FileOp, Io,
        Pipe, Rng, Step, VFile, VSock, EACCES, EAGAIN, ECONNRESET, EINTR, ENOSPC, EPIPE,
    };
    pub use crate::pki::*;
    pub use crate::points;
    pub use crate::refc::*;
    pub use crate::sched::*;
    pub use crate::sut::*;
    pub use crate::tls::*;
}
