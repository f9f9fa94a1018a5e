#![allow(warnings)]
include!(concat!(env!("VERIF_GEN"), "/bad.rs"));
fn main() {}
