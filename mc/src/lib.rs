//! An explicit-state explorer: it enumerates every case of finite, stated spaces, runs the real code
//! on each one, and has a monitor compare what the code did with a reference model.
//!
//! Nothing in this library knows about the code under test; the binaries do.

pub mod case;
pub mod engine;
pub mod geo;
pub mod shapes;
