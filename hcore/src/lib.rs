#![allow(dead_code)]
pub mod ctl;
pub mod lin;
pub mod ops;
pub mod report;
pub use ctl::*;
pub use lin::*;
pub use ops::*;
pub use report::*;
pub use vsched::Rng;
