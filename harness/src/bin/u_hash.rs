#![allow(dead_code, unused_imports, unused_variables)]
use anothertls::crypto::CipherSuite;
use anothertls::hash::{sha_x, HashType, Sha256, Sha384, TranscriptHash};

include!("../inc/common.rs");

fn lh(h: &str) -> HashType {
    if h == "sha384" {
        HashType::SHA384
    } else {
        HashType::SHA256
    }
}
fn boxed<T: TranscriptHash + 'static>() -> Box<dyn TranscriptHash> {
    Box::new(<T as TranscriptHash>::new())
}
fn new_hash(h: &str, via: &str) -> Box<dyn TranscriptHash> {
    match (h, via) {
        ("sha384", "suite") => CipherSuite::new(0x1302).unwrap().get_tshash().unwrap(),
        ("sha384", _) => boxed::<Sha384>(),
        (_, "suite") => CipherSuite::new(0x1303).unwrap().get_tshash().unwrap(),
        _ => boxed::<Sha256>(),
    }
}

// ------------------------------------------------------------------ P01
fn fam_hash(seed: u64) -> Step<'static> {
    let mut objs: Vec<Box<dyn TranscriptHash>> = vec![];
    Box::new(move |s, ev| match s.s("op") {
        "new" => {
            objs.push(new_hash(s.s("h"), s.s("via")));
            ev.push(obj! {"t"=>"new","h"=>s.s("h"),"o"=>objs.len()});
        }
        "upd" => {
            let d = content(seed, s.get("c"));
            objs[s.n("o") as usize - 1].update(&d);
            ev.push(obj! {"t"=>"upd","o"=>s.n("o"),"c"=>s.get("c").clone()});
        }
        "clone" => {
            let c = TranscriptHash::clone(&*objs[s.n("o") as usize - 1]);
            objs.push(c);
            ev.push(obj! {"t"=>"clone","o"=>s.n("o")});
        }
        "read" => {
            let o = &objs[s.n("o") as usize - 1];
            let typ = if o.get_type() == HashType::SHA384 { "sha384" } else { "sha256" };
            let d = content(seed, s.get("c"));
            ev.push(obj! {"t"=>"read","o"=>s.n("o"),"c"=>s.get("c").clone(),"typ"=>typ,"v"=>hex(&o.finalize()),"ref"=>hex(&rh(s.s("h")).h(&d))});
        }
        "one" => {
            let d = content(seed, s.get("c"));
            ev.push(obj! {"t"=>"one","h"=>s.s("h"),"c"=>s.get("c").clone(),"v"=>hex(&sha_x(lh(s.s("h")), &d)),"ref"=>hex(&rh(s.s("h")).h(&d))});
        }
        x => panic!("harness: op {x}"),
    })
}

fn family(seed: u64, dir: &str) -> Step<'static> {
    fam_hash(seed)
}
