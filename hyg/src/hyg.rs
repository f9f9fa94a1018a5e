// The same structs in scopes where names mean different things: see gen/ghyg.py
#![allow(dead_code, unused)]
include!(concat!(env!("VERIF_GEN"), "/hyg.rs"));
