#![allow(dead_code, unused_imports, unused_variables)]
use anothertls::crypto::ellipticcurve::{math, Curve, Point, PrivateKey, PublicKey};
use anothertls::hash::{HashType, Sha256, Sha384, TranscriptHash};
use anothertls::net::extensions::{KeyShareEntry, NamedGroup};
use anothertls::net::key_schedule::KeySchedule;

use anothertls::crypto::CipherSuite;

include!("../inc/common.rs");

fn boxed<T: TranscriptHash + 'static>() -> Box<dyn TranscriptHash> {
    Box::new(<T as TranscriptHash>::new())
}
fn new_hash(h: &str, via: &str) -> Box<dyn TranscriptHash> {
    match (h, via) {
        ("sha384", "suite") => CipherSuite::new(0x1302).unwrap().get_tshash().unwrap(),
        ("sha384", _) => boxed::<Sha384>(),
        (_, "suite") => CipherSuite::new(0x1303).unwrap().get_tshash().unwrap(),
        _ => boxed::<Sha256>(),
    }
}


// ------------------------------------------------------------------ P04
const LOW: [&str; 7] = [
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0100000000000000000000000000000000000000000000000000000000000000",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
    "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
];
fn hs_secret(h: Hash, hello: &[u8], shared: &[u8]) -> Vec<u8> {
    let z = vec![0; h.len()];
    let early = hkdf_extract(h, &z, &z);
    let d = expand_label(h, &early, "derived", &h.h(b""), h.len());
    let hs = hkdf_extract(h, &d, shared);
    expand_label(h, &hs, "c hs traffic", hello, h.len())
}
/// canonical number of a public value: high bit ignored, reduced modulo p
fn canon_u(b: &[u8]) -> String {
    let mut x = b.to_vec();
    x[31] &= 0x7f;
    x.reverse();
    let f = u_hex("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed");
    let mut u = u_from_be(&x);
    if u_cmp(&u, &f) != std::cmp::Ordering::Less {
        u = u_sub(&u, &f).0;
    }
    hex(&u_to_be(&u))
}
fn fam_dh(seed: u64) -> Step<'static> {
    let mut keys: Vec<(Vec<u8>, Vec<u8>)> = vec![]; // scalar, reference public value
    let curve = Curve::curve25519();
    let lib = move |curve: &Curve, k: &[u8], u: &[u8]| -> Vec<u8> {
        let r = math::multiply(&Point::new(ib(u), IBig::from(0)), ib(k), curve);
        unhex(&ib_hex(&r.x))
    };
    Box::new(move |s, ev| match s.s("op") {
        "key" => {
            let i = s.n("i");
            let mut k = pat(seed, 100 + i, 0, 32);
            match s.s("kind") {
                "zero" => k = vec![0; 32],
                "ones" => k = vec![0xff; 32],
                "lead0" => k[0] = 0,
                "lead00" => {
                    k[0] = 0;
                    k[1] = 0;
                    k[2] = 0
                }
                "trail0" => k[31] = 0,
                "low" => k = vec![0; 31].into_iter().chain([7u8]).collect(),
                // public value with a zero byte at one end of its encoding
                "pub0" | "pubz" => {
                    let mut r = Rng::new(seed ^ i as u64);
                    for _ in 0..5000 {
                        k = r.bytes(32);
                        let q = x25519_base(&k);
                        if q[if s.s("kind") == "pub0" { 0 } else { 31 }] == 0 {
                            break;
                        }
                    }
                }
                _ => {}
            }
            let q = x25519_base(&k).to_vec();
            let l = {
                let r = math::multiply(&curve.g, ib(&k), &curve);
                unhex(&ib_hex(&r.x))
            };
            ev.push(obj! {"t"=>"key","v"=>hex(&l),"ref"=>hex(&q)});
            keys.push((k, q));
        }
        "dh" => {
            let (k, own) = keys[s.n("o") as usize - 1].clone();
            let p = s.get("peer");
            let i = p.n("i") as usize;
            let mut low = false;
            let mut u = match p.s("kind") {
                "pub" => keys[i - 1].1.clone(),
                "low" => {
                    low = true;
                    unhex(LOW[i % LOW.len()])
                }
                // u + p for the small u which have two encodings
                "noncanon" => {
                    let v = [2u8, 3, 9, 16, 18][i % 5];
                    let mut b = vec![0xff; 32];
                    b[0] = 0xedu8.wrapping_add(v);
                    b[31] = 0x7f;
                    b
                }
                "small" => {
                    let mut b = vec![0; 32];
                    b[0] = [2u8, 3, 9, 16, 18][i % 5];
                    b
                }
                _ => pat(seed, 300 + i as i64, 0, 32),
            };
            match p.s("mod") {
                "hi" => u[31] |= 0x80,
                "lead0" => u[0] = 0,
                "lead00" => {
                    u[0] = 0;
                    u[1] = 0
                }
                "trail0" => u[31] = 0,
                "len" => {
                    let n = p.n("n") as usize;
                    u.resize(n, 0);
                }
                _ => {}
            }
            let shared = if u.len() == 32 { x25519(&k, &u).to_vec() } else { vec![] };
            let mut e = obj! {"t"=>"dh","o"=>s.n("o"),"peer"=>p.clone(),"own"=>canon_u(&own),"u"=>if u.len() == 32 { canon_u(&u) } else { "none".into() },"low"=>low,"via"=>s.s("via"),"h"=>s.s("h"),"s"=>hex(&shared)};
            let h = s.s("h");
            let (v, r) = if s.s("via") == "raw" {
                (hex(&lib(&curve, &k, &u)), hex(&shared))
            } else {
                let mut t = new_hash(h, "");
                let c = pat(seed, 7, 0, 50);
                t.update(&c);
                let pk = PrivateKey::new(Curve::curve25519(), ib(&k));
                let v = match KeySchedule::from_handshake(&*t, &pk, &KeyShareEntry::new(NamedGroup::X25519, u.clone())) {
                    Ok(ks) => hex(&ks.client_handshake_traffic_secret.pseudo_random_key),
                    Err(_) => "err".into(),
                };
                (v, if shared.is_empty() { "none".into() } else { hex(&hs_secret(rh(h), &rh(h).h(&c), &shared)) })
            };
            e.set("v", J::from(v));
            e.set("ref", J::from(r));
            ev.push(e);
        }
        x => panic!("harness: op {x}"),
    })
}

fn family(seed: u64, dir: &str) -> Step<'static> {
    fam_dh(seed)
}
