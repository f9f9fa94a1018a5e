#![allow(warnings)]
include!(concat!(env!("VERIF_GEN"), "/good.rs"));
fn main() {}
