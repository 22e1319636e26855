//! Independent reference model of pest3's documented semantics: grammar AST, renderer, generator
//! of random well-formed grammars, reference PEG interpreter, input generator, reference parser of
//! the grammar language. Depends on nothing from /repo.
pub mod ast;
pub mod ggen;
pub mod inputs;
pub mod interp;
pub mod render;
pub mod rng;
pub mod syntax;
pub mod watch;
pub mod report;
pub mod expect;
