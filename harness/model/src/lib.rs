//! Reference model and exploration engine.  Depends on nothing from /repo.
pub mod engine;
pub mod generate;
pub mod jsonr;
pub mod rx;
pub mod schema;
pub mod tree;
pub mod xmlr;
