//! Runtime for compiled grammars: observes the real parser through its public API and compares
//! what it sees with the reference model.
pub mod alloc;
pub mod api;
pub mod shape;
pub mod walk;
pub use model::watch;
pub mod runner;
pub use api::*;
pub use runner::main;
pub use shape::Shape;
pub use walk::Walk;
pub use {model, pest2, pest3, pest3_core};
