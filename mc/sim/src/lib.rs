//! the simulated chain and the contract registry
pub mod chain;
pub mod codes;
