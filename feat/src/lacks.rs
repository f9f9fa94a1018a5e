// Programs which need features not enabled
#![allow(dead_code, unused_imports)]
include!(concat!(env!("VERIF_GEN"), "/lacks.rs"));
fn main() {}
