//! The harnesses: each is an entry point the symbolic executor runs, and the
//! replay program runs natively.  They use only the public interface of the
//! crate under test.
pub mod gram;
pub mod pat;
pub mod spec;
pub mod sym;
#[macro_use]
mod run;
mod props;

pub use props::TABLE;
pub use run::Info;
