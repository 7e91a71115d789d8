#![allow(dead_code, unused)]
mod parser_generator; mod rx; mod grammar; mod rng; mod shipped; mod lookup;
#[cfg(feature = "flex")] mod flex_file;
#[cfg(feature = "flex")] mod lexer_generator;
fn main() { parser_generator::verif_gencheck::main(); }
