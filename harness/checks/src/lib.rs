//! Shared generators and oracles for the check binaries.
pub mod lin;
pub mod prog;
pub mod util;
pub mod arm;
pub mod carry;
