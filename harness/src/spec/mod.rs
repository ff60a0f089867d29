//! Reference models, written from the documented behaviour and independent of the code under
//! test: nothing in here calls into `dune` except the conversions in `expr`.
pub mod builtins;
pub mod data;
pub mod eval;
pub mod expr;
pub mod files;
pub mod lex;
pub mod parse;
pub mod term;
