//! Shared machinery of the bounded-exhaustive checks: shape enumeration, the reference model,
//! drop-tracked values, node types under test and the run/replay/evidence driver.
pub mod model;
pub mod nodes;
#[macro_use]
pub mod ctx;
pub mod pipe;
pub mod runner;
pub mod track;
#[macro_use]
pub mod sources;

pub use model::*;
pub use nodes::*;
pub use ctx::*;
pub use pipe::*;
pub use runner::*;
pub use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
pub use track::{Obs, V};
pub use tree_iterators_rs;
