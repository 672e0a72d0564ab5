//! The template language of generated programs: tree, printer, reference interpreter, generator.
//!
//! The interpreter works on the generator's tree only. It never sees what askama parsed.
pub mod asm;
pub mod ast;
pub mod gen;
pub mod interp;
pub mod print;

pub use ast::*;
