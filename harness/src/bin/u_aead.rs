#![allow(dead_code, unused_imports, unused_variables)]
use anothertls::crypto::CipherSuite;

include!("../inc/common.rs");

// ------------------------------------------------------------------ P02
struct Sealed {
    s: u16,
    k: Vec<u8>,
    n: Vec<u8>,
    a: Vec<u8>,
    ct: Vec<u8>,
    tag: Vec<u8>,
}
fn fam_aead(seed: u64) -> Step<'static> {
    let mut objs: Vec<Sealed> = vec![];
    Box::new(move |s, ev| match s.s("op") {
        "seal" => {
            let su = s.n("s") as u16;
            let suite = Suite::from_u16(su).unwrap();
            let (k, n) = (pat(seed, s.n("k"), 0, suite.key_len()), pat(seed, s.n("n"), 0, 12));
            let (a, p) = (content(seed, s.get("a")), content(seed, s.get("p")));
            let (ct, tag) = if s.s("by") == "lib" {
                match CipherSuite::new(su).unwrap().get_cipher().unwrap().encrypt(&k, &n, &p, &a) {
                    Ok((c, t)) => (c, t.to_vec()),
                    Err(_) => (vec![], vec![]),
                }
            } else {
                let (c, t) = suite.seal(&k, &n, &a, &p);
                (c, t.to_vec())
            };
            ev.push(obj! {"t"=>"seal","by"=>s.s("by"),"s"=>s.n("s"),"k"=>fp(&k),"n"=>fp(&n),"a"=>fp(&a),"p"=>fp(&p),"pl"=>p.len(),"ct"=>fp(&ct),"cl"=>ct.len(),"tag"=>fp(&tag)});
            objs.push(Sealed { s: su, k, n, a, ct, tag });
        }
        "open" => {
            let o = &objs[s.n("o") as usize - 1];
            let (mut su, mut k, mut n, mut a, mut ct, mut tag) = (o.s, o.k.clone(), o.n.clone(), o.a.clone(), o.ct.clone(), o.tag.clone());
            let i = s.n("i") as usize;
            let other = |f: fn(&Sealed) -> &Vec<u8>| f(&objs[(s.n("i") as usize - 1).min(objs.len() - 1)]).clone();
            match s.s("mut") {
                "none" => {}
                "key" => flip(&mut k, i),
                "nonce" => flip(&mut n, i),
                "aad" => flip(&mut a, i),
                "aadtrunc" => {
                    a.pop();
                }
                "aadext" => a.push(0),
                "ct" => flip(&mut ct, i),
                "cttrunc" => ct.truncate(ct.len().saturating_sub(i)),
                "ctext" => ct.extend(vec![0; i]),
                "tag" => flip(&mut tag, i),
                "tagtrunc" => tag.truncate(i),
                "tagext" => tag.extend(vec![0; i]),
                "tagzero" => tag = vec![0; 16],
                "tagof" => tag = other(|x| &x.tag),
                "ctof" => ct = other(|x| &x.ct),
                "aadof" => a = other(|x| &x.a),
                "nonceof" => n = other(|x| &x.n),
                // boundary between associated data and ciphertext moved
                "shift" => {
                    if !ct.is_empty() {
                        a.push(ct.remove(0));
                    }
                }
                "suite" => su = if su == 0x1302 { 0x1303 } else if su == 0x1303 { 0x1302 } else { su },
                x => panic!("harness: mut {x}"),
            }
            let r = if s.s("by") == "lib" {
                CipherSuite::new(su).unwrap().get_cipher().unwrap().decrypt(&k, &n, &ct, &a, &tag).ok()
            } else {
                Suite::from_u16(su).unwrap().open(&k, &n, &a, &ct, &tag)
            };
            ev.push(obj! {"t"=>"open","by"=>s.s("by"),"mut"=>s.s("mut"),"s"=>su,"k"=>fp(&k),"n"=>fp(&n),"a"=>fp(&a),"ct"=>fp(&ct),"tag"=>fp(&tag),
                "o"=>s.n("o"),"res"=>match r { Some(p) => fp(&p), None => "err".into() }});
        }
        x => panic!("harness: op {x}"),
    })
}

fn family(seed: u64, dir: &str) -> Step<'static> {
    fam_aead(seed)
}
