#![allow(unused)]
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
include!(concat!(env!("VERIF_GEN"), "/gvis_ext.rs"));

fn main() {
    let args: BTreeMap<String, String> =
        std::env::args().skip(1).filter_map(|a| a.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect();
    let prop = args.get("prop").map(|s| s.as_str()).unwrap_or("N01");
    let mut o = vis::probe::Out::default();
    vis::probe_inside(&mut o);
    probe_outside(&mut o);
    let structs: BTreeMap<&str, &str> = vis::STRUCTS.iter().copied().collect();
    let mut counts: BTreeMap<&str, u64> = BTreeMap::new();
    let mut bad: Vec<(String, String)> = vec![];
    let mut distinct = HashSet::<u64>::new();
    let mut samples: Vec<String> = vec![];
    for r in &o.0 {
        let own = r.ty.trim_end_matches("Builder");
        let src = structs[own];
        // Names are checked from within the module, visibility is checked for methods which exist from everywhere
        let mine = match prop {
            "N01" => r.loc == "same" && !r.what.starts_with("attributes"),
            "A01" => r.loc == "same" && (r.what.starts_with("attributes") || r.what.starts_with('@')),
            _ => r.what != "none" && r.what != "@none" && !r.what.starts_with("attributes"),
        };
        if !mine {
            continue;
        }
        *counts.entry("runs").or_default() += 1;
        *counts.entry(if r.expected { "expected" } else { "not_expected" }).or_default() += 1;
        if r.loc != "same" {
            *counts.entry("from_outside_of_module").or_default() += 1;
        }
        if r.loc == "ext" {
            *counts.entry("from_another_crate").or_default() += 1;
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (src, r.loc, r.name).hash(&mut h);
        distinct.insert(h.finish());
        if r.present() != r.expected && bad.len() < 20 {
            let what = r.what.trim_start_matches('@');
            let sig = format!("{prop} {}", if what == "none" { "unexpected name" } else { what });
            bad.push((
                sig,
                format!(
                    "{}::{} ({}) as seen from '{}' is {}, it must {}. Resolved to {}. The struct:\n{src}",
                    r.ty,
                    r.name,
                    r.what,
                    r.loc,
                    if r.present() { "there" } else { "not accessible" },
                    if r.expected { "be accessible" } else { "not be" },
                    r.observed
                ),
            ));
        }
        if samples.len() < 5 && r.expected && distinct.len() % 97 == 0 {
            samples.push(format!("{}::{} ({}) from '{}': accessible={} expected={}", r.ty, r.name, r.what, r.loc, r.present(), r.expected));
        }
    }
    counts.insert("struct_configurations", structs.len() as u64);
    if let Some(p) = args.get("out") {
        let b: Vec<u8> = distinct.iter().flat_map(|h| h.to_ne_bytes()).collect();
        let _ = std::fs::write(p, b);
    }
    let js = serde_json::json!({"counts": counts, "distinct": distinct.len(), "samples": samples, "bad": bad, "notes": Vec::<String>::new()});
    println!("TALLY {js}");
}
