#[macro_use]
pub mod vs;
pub mod model;
pub mod xml;
pub mod names;
pub mod nodes;
pub mod num;
pub mod strings;
pub mod seqs;
pub mod casts;
pub mod maps;
pub mod syntax;
pub mod funcs;
pub mod types;
pub mod api;
