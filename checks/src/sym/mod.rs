//! Symbolic execution engine: hash-consed terms, decisions, programmable random oracle.
pub mod digest;
pub mod engine;
pub mod explore;
pub mod field;
pub mod group;
pub mod ops;
pub mod pairing;
pub mod q;
pub mod solver;
