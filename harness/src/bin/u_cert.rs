#![allow(dead_code, unused_imports, unused_variables)]
use anothertls::net::handshake::Certificate;

include!("../inc/common.rs");

// ------------------------------------------------------------------ X02
fn fam_cert(seed: u64) -> Step<'static> {
    let mut rng = Rng::new(seed ^ 0xc3);
    let ca: Vec<(U, Certificate)> = (0..2)
        .map(|_| {
            let d = rng.scalar();
            let der = CertSpec::simple("CA", "CA", "200101000000Z", "400101000000Z", &p256().pubkey(&d)).sign_with(&d, &mut rng);
            (d, Certificate::from_raw_x509(der).unwrap_or_else(|_| Certificate { raw: vec![], x509: None }))
        })
        .collect();
    let mut objs: Vec<Vec<u8>> = vec![];
    let text = |seed: u64, n: usize, i: usize| -> String {
        let a = b"abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ.0123456789";
        pat(seed, 60 + i as i64, 0, n).iter().map(|b| a[*b as usize % a.len()] as char).collect()
    };
    Box::new(move |s, ev| match s.s("op") {
        "make" => {
            let q = p256().pubkey(&rng.scalar());
            let mut c = CertSpec::simple("x", "x", s.s("nb"), s.s("na"), &q);
            let names = |l: &[J], base: usize| -> Vec<(String, String)> {
                l.iter().enumerate().map(|(i, a)| (a.s("a").to_string(), text(seed, a.n("n") as usize, base + i))).collect()
            };
            c.issuer = names(s.a("issuer"), 0);
            c.subject = names(s.a("subject"), 20);
            c.version = if s.n("version") < 0 { None } else { Some(s.n("version") as u8) };
            c.serial = {
                let mut v = pat(seed, 90, 0, s.n("serial") as usize);
                if !v.is_empty() {
                    v[0] |= 1;
                    if s.b("high") {
                        v[0] |= 0x80;
                    }
                }
                v
            };
            if s.n("ext") > 0 {
                c.ext = Some(seq(&[&seq(&[&tlv(6, &[0x55, 0x1d, 0x0e]), &tlv(4, &pat(seed, 91, 0, s.n("ext") as usize))])]));
            }
            c.str_tag = s.n_or("tag", 12) as u8;
            c.k_len = s.n("klen") as usize;
            match s.s("pub") {
                "short" => c.pubkey.truncate(40),
                "compressed" => {
                    c.pubkey.truncate(33);
                    c.pubkey[0] = 2
                }
                _ => {}
            }
            let mut n = 0;
            let der = loop {
                let der = c.sign_with(&ca[s.n("ca") as usize].0, &mut rng);
                // signature components of the requested sizes
                let want = s.n_or("sig", 0) as usize;
                let (r, sv) = {
                    let tbs = c.tbs();
                    let off = der.len() - 0;
                    let _ = (tbs, off);
                    last_sig(&der)
                };
                n += 1;
                if want == 0 || r < 32 && want == 1 || sv < 32 && want == 2 || n > 600 {
                    break der;
                }
            };
            ev.push(obj! {"t"=>"make","b"=>ints(&der),"ca"=>s.n("ca")});
            objs.push(der);
        }
        "parse" => {
            let mut d = objs[s.n("o") as usize - 1].clone();
            let m = s.get("mut");
            let n = d.len();
            let pos = |x: usize| (m.n("pos").rem_euclid(x.max(1) as i64)) as usize;
            match m.s("op") {
                "xor" => d[pos(n)] ^= m.n("val") as u8,
                "set" => d[pos(n)] = m.n("val") as u8,
                "trunc" => d.truncate(pos(n)),
                "add" => d.extend(vec![m.n("val") as u8; 1 + m.n("n") as usize]),
                "ins" => d.insert(pos(n), m.n("val") as u8),
                "del" => {
                    d.remove(pos(n));
                }
                _ => {}
            }
            let name = |n: &anothertls::utils::x509::Name| {
                J::Arr(ATTRS.iter().filter_map(|a| n.get(a.0).ok().map(|v| obj! {"a"=>a.0,"v"=>ints(v.as_bytes())})).collect())
            };
            let mut e = obj! {"t"=>"parse","b"=>ints(&d),"mut"=>if m.s("op").is_empty() { "none" } else { m.s("op") }};
            let c = match Certificate::from_raw_x509(d.clone()) {
                Err(_) => {
                    e.set("ok", J::Bool(false));
                    ev.push(e);
                    return;
                }
                Ok(c) => c,
            };
            e.set("ok", J::Bool(true));
            e.set("by", J::Arr(ca.iter().map(|k| J::Bool(k.1.has_signed(&c).is_ok())).collect()));
            let x = c.x509.as_ref().unwrap();
            let t = &x.tbs_certificate;
            e.set("issuer", name(&t.issuer));
            e.set("subject", name(&t.subject));
            e.set("serial", ints(&ib_be(&t.serial_number).unwrap_or_default()));
            e.set("spki", ints(t.subject_public_key_info.subject_public_key.as_slice()));
            e.set("point", match x.get_public_key() {
                None => J::Arr(vec![]),
                Some(p) => ints(&[unhex(&ib_hex(&p.point.x)), unhex(&ib_hex(&p.point.y))].concat()),
            });
            e.set("sig", match &x.signature {
                None => J::Arr(vec![]),
                Some(g) => J::Arr(vec![ints(&ib_be(&g.r).unwrap_or_default()), ints(&ib_be(&g.s).unwrap_or_default())]),
            });
            let nows: Vec<J> = s.a("nows").to_vec();
            e.set("valid", J::Arr(nows.iter().map(|w| J::Bool(at(w.n("d") * 86400 + w.n("s"), || t.validity.is_valid()))).collect()));
            e.set("nows", J::Arr(nows));
            ev.push(e);
        }
        x => panic!("harness: op {x}"),
    })
}
/// lengths of r and s without sign byte in a certificate with minimal signature encoding
fn last_sig(der: &[u8]) -> (usize, usize) {
    // search the last SEQUENCE which ends the certificate
    for i in (0..der.len().saturating_sub(6)).rev() {
        if der[i] == 0x30 {
            if let Ok((r, s)) = sig_strict(&der[i..]) {
                let l = |u: &U| 32 - u_to_be(u).iter().take_while(|x| **x == 0).count();
                return (l(&r), l(&s));
            }
        }
    }
    (32, 32)
}

fn family(seed: u64, dir: &str) -> Step<'static> {
    fam_cert(seed)
}
