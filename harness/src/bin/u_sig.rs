#![allow(dead_code, unused_imports, unused_variables)]
use anothertls::crypto::ellipticcurve::{Curve, Ecdsa, Point, PrivateKey, PublicKey, Signature};

include!("../inc/common.rs");

// ------------------------------------------------------------------ P03
struct SigKey {
    d: Option<U>,
    q: (U, U),
}
struct Sig {
    r: Vec<u8>,
    s: Vec<u8>,
}
fn less(a: &U, b: &U) -> bool {
    u_cmp(a, b) == std::cmp::Ordering::Less
}
fn fam_sig(seed: u64) -> Step<'static> {
    let mut keys: Vec<SigKey> = vec![];
    let mut sigs: Vec<(Sig, Vec<u8>)> = vec![]; // value, digest
    let c = p256();
    let n = c.n.m;
    let mut rng = Rng::new(seed ^ 0x51c);
    let zred = move |z: &[u8]| hex(&u_to_be(&p256().n.red(&u_from_be(z))));
    // s up to negation
    let canon_s = move |s: &U| {
        if less(s, &n) && !u_zero(s) {
            let m = u_sub(&n, s).0;
            if less(&m, s) {
                return hex(&u_to_be(&m));
            }
        }
        hex(&u_to_be(s))
    };
    let digest = move |s: &J, seed: u64| -> Vec<u8> {
        match s.s("z") {
            "zero" => vec![0; 32],
            "ones" => vec![0xff; 32],
            "n" => u_to_be(&n).to_vec(),
            "n1" => u_to_be(&u_sub(&n, &[1, 0, 0, 0]).0).to_vec(),
            "one" => u_to_be(&[1, 0, 0, 0]).to_vec(),
            "short" => {
                let mut z = pat(seed, 20 + s.n("zi"), 0, 32);
                z[0] = 0;
                z[1] = 0;
                z
            }
            _ => pat(seed, 20 + s.n("zi"), 0, 32),
        }
    };
    Box::new(move |s, ev| match s.s("op") {
        "key" => {
            let d = match s.s("kind") {
                "one" => [1, 0, 0, 0],
                "two" => [2, 0, 0, 0],
                "nm1" => u_sub(&n, &[1, 0, 0, 0]).0,
                "short" => {
                    let mut b = u_to_be(&rng.scalar());
                    b[0] = 0;
                    b[1] = 0;
                    u_from_be(&b)
                }
                // coordinates with leading zero bytes
                "x0" | "y0" => {
                    let mut d = rng.scalar();
                    for _ in 0..3000 {
                        let q = c.pubkey(&d);
                        let v = if s.s("kind") == "x0" { q.0 } else { q.1 };
                        if v[3] >> 56 == 0 {
                            break;
                        }
                        d = rng.scalar();
                    }
                    d
                }
                _ => rng.scalar(),
            };
            let q = c.pubkey(&d);
            let l = PrivateKey::new(Curve::secp256r1(), ib(&u_to_be(&d))).get_public_key();
            ev.push(obj! {"t"=>"key","v"=>ib_hex(&l.point.x) + &ib_hex(&l.point.y),"ref"=>hex(&u_to_be(&q.0)) + &hex(&u_to_be(&q.1))});
            keys.push(SigKey { d: Some(d), q });
        }
        "sign" => {
            let o = s.n("o") as usize;
            let z0 = digest(s, seed);
            let (mut z, kk) = (z0.clone(), &keys[o - 1]);
            let d = kk.d.unwrap_or([1, 0, 0, 0]);
            let (r, sv) = match s.s("by") {
                "lib" => {
                    let g = Ecdsa::urandom().sign(&PrivateKey::new(Curve::secp256r1(), ib(&u_to_be(&d))), &z).unwrap();
                    (ib_be(&g.r).unwrap_or_default(), ib_be(&g.s).unwrap_or_default())
                }
                kind => {
                    let mut out = None;
                    for _ in 0..4000 {
                        let k = rng.scalar();
                        if kind == "rd" {
                            // u1*G = u2*Q: the final addition is a doubling
                            let r = c.n.red(&c.mul(&k, &c.gx, &c.gy).unwrap().0);
                            z = u_to_be(&c.n.mul(&r, &d)).to_vec();
                        }
                        if kind == "shorts" {
                            z[31] = z[31].wrapping_add(1);
                            if z.iter().all(|b| *b == 0) {
                                continue; // a zero digest cannot tell a key from its negative
                            }
                        }
                        if let Some((r, sv)) = c.sign(&d, &z, &k) {
                            let ok = match kind {
                                "shortr" => r[3] >> 56 == 0,
                                "shorts" => sv[3] >> 56 == 0,
                                "highr" => r[3] >> 63 == 1,
                                "lowr" => r[3] >> 63 == 0,
                                _ => true,
                            };
                            if ok {
                                out = Some((r, sv));
                                break;
                            }
                        }
                    }
                    let (r, sv) = out.unwrap();
                    (u_to_be(&r).to_vec(), u_to_be(&sv).to_vec())
                }
            };
            let pad = |v: Vec<u8>| {
                let mut o = vec![0; 32usize.saturating_sub(v.len())];
                o.extend(v);
                o
            };
            let (r, sv) = (pad(r), pad(sv));
            let ok = r.len() == 32 && sv.len() == 32 && c.verify(&kk.q.0, &kk.q.1, &z, &u_from_be(&r), &u_from_be(&sv));
            ev.push(obj! {"t"=>"sign","by"=>s.s("by"),"o"=>o,"q"=>hex(&u_to_be(&kk.q.0)) + &hex(&u_to_be(&kk.q.1)),"z"=>zred(&z),"r"=>hex(&r),"s"=>canon_s(&u_from_be(&sv)),"ref"=>ok});
            sigs.push((Sig { r, s: sv }, z));
        }
        // a valid signature under a key whose private part nobody knows: R has x >= n
        "wrap" | "nowrap" | "inf" => {
            let z = digest(s, seed);
            let sv = rng.scalar();
            let nn = &c.n;
            let zz = nn.red(&u_from_be(&z));
            let (r, q) = if s.s("op") == "inf" {
                // u1*G + u2*Q is the point at infinity
                let d = rng.scalar();
                let q = c.pubkey(&d);
                let r = nn.sub(&[0, 0, 0, 0], &nn.mul(&zz, &nn.inv(&d)));
                let w = nn.inv(&sv);
                let (u1, u2) = (nn.mul(&zz, &w), nn.mul(&r, &w));
                if c.add_aff(&c.mul(&u1, &c.gx, &c.gy), &c.mul(&u2, &q.0, &q.1)).is_some() {
                    panic!("harness: not the point at infinity");
                }
                (r, q)
            } else {
                // p - n is about 2^126.07; x in [n, p)
                let mut x = u_add(&n, &[rng.u64(), rng.u64() >> 2, 0, 0]).0;
                let pt = loop {
                    if let Some(p) = c.lift_x(&x) {
                        break p;
                    }
                    x = u_add(&x, &[1, 0, 0, 0]).0;
                };
                let r = nn.red(&x);
                // Q = (s/r) * (R - (z/s) G)
                let w = nn.inv(&sv);
                let u1 = nn.mul(&zz, &w);
                let t = c.mul(&u1, &c.gx, &c.gy).map(|p| c.neg(&p));
                let t = c.add_aff(&Some(pt), &t).unwrap();
                let q = c.mul(&nn.mul(&sv, &nn.inv(&r)), &t.0, &t.1).unwrap();
                (r, q)
            };
            let ok = c.verify(&q.0, &q.1, &z, &r, &sv);
            ev.push(obj! {"t"=>"sign","by"=>s.s("op"),"o"=>keys.len() + 1,"q"=>hex(&u_to_be(&q.0)) + &hex(&u_to_be(&q.1)),"z"=>zred(&z),"r"=>hex(&u_to_be(&r)),"s"=>canon_s(&sv),"ref"=>ok});
            keys.push(SigKey { d: None, q });
            sigs.push((Sig { r: u_to_be(&r).to_vec(), s: u_to_be(&sv).to_vec() }, z));
        }
        "verify" => {
            let (g, z0) = &sigs[s.n("g") as usize - 1];
            let (mut r, mut sv, mut z) = (ib(&g.r), ib(&g.s), z0.clone());
            let mut q = keys[s.n("o") as usize - 1].q;
            let ni = ib(&u_to_be(&n));
            let i = s.n("i") as usize;
            let p = &c.p;
            match s.s("mut") {
                "none" => {}
                "negs" => sv = &ni - &sv,
                "negr" => r = &ni - &r,
                "r0" => r = IBig::from(0),
                "s0" => sv = IBig::from(0),
                "rn" => r = ni.clone(),
                "sn" => sv = ni.clone(),
                "rpn" => r += &ni,
                "spn" => sv += &ni,
                "rmn" => r -= &ni,
                "smn" => sv -= &ni,
                "both0" => {
                    r = IBig::from(0);
                    sv = IBig::from(0)
                }
                "bothn" => {
                    r = ni.clone();
                    sv = ni.clone()
                }
                "one" => {
                    r = IBig::from(1);
                    sv = IBig::from(1)
                }
                "swap" => std::mem::swap(&mut r, &mut sv),
                "rbit" => r = ib(&{
                    let mut b = g.r.clone();
                    flip(&mut b, i);
                    b
                }),
                "sbit" => sv = ib(&{
                    let mut b = g.s.clone();
                    flip(&mut b, i);
                    b
                }),
                "zbit" => flip(&mut z, i),
                "zplusn" => {
                    // the same digest modulo n
                    let (y, c) = u_add(&u_from_be(&z), &n);
                    if !c {
                        z = u_to_be(&y).to_vec();
                    }
                }
                "z0" => z = vec![0; 32],
                "qneg" => q = c.neg(&q),
                "qx" => q.0 = p.add(&q.0, &[1, 0, 0, 0]),
                "qy" => q.1 = p.add(&q.1, &[1, 0, 0, 0]),
                "qbit" => {
                    let mut b = u_to_be(&q.1);
                    flip(&mut b, i);
                    q.1 = u_from_be(&b);
                }
                "qxbit" => {
                    let mut b = u_to_be(&q.0);
                    flip(&mut b, i);
                    q.0 = u_from_be(&b);
                }
                "q0" => q = ([0; 4], [0; 4]),
                "qy0" => q.1 = [0; 4],
                "qp" => {
                    // the same point with a coordinate that is not reduced, if it fits
                    let (x, c) = u_add(&q.0, &p.m);
                    if !c {
                        q.0 = x;
                    } else {
                        q.1 = u_add(&q.1, &p.m).0;
                    }
                }
                "qswap" => std::mem::swap(&mut q.0, &mut q.1),
                // Q = G and its negative
                "qg" => q = (c.gx, c.gy),
                x => panic!("harness: mut {x}"),
            }
            // also through the encoding
            let mut sg = Signature::new(sv.clone(), r.clone());
            let mut der = "no".to_string();
            let pos = |x: &IBig| *x > IBig::from(0);
            if s.b("der") && pos(&r) && pos(&sv) {
                let d = sg.to_der();
                der = match Signature::from_der(&d) {
                    Ok((x, k)) if k == d.len() => {
                        let same = x.r == r && x.s == sv;
                        sg = x;
                        if same { "same" } else { "differs" }.to_string()
                    }
                    Ok(_) => "length".into(),
                    Err(_) => "refused".into(),
                };
            }
            let pk = PublicKey::new(Point::new(ib(&u_to_be(&q.0)), ib(&u_to_be(&q.1))), Curve::secp256r1());
            let res = Ecdsa::verify(pk, &sg, &z);
            // value of the signature for the specification
            let txt = |x: &IBig| match ib_be(x) {
                None => "negative".to_string(),
                Some(b) if b.len() > 32 => format!("big{}", hex(&b)),
                Some(_) => ib_hex(x),
            };
            let cs = match ib_be(&sv) {
                Some(b) if b.len() <= 32 => canon_s(&u_from_be(&b)),
                _ => txt(&sv),
            };
            let refres = match (ib_be(&r), ib_be(&sv)) {
                (Some(a), Some(b)) if a.len() <= 32 && b.len() <= 32 => c.verify(&q.0, &q.1, &z, &u_from_be(&a), &u_from_be(&b)),
                _ => false,
            };
            ev.push(obj! {"t"=>"verify","mut"=>s.s("mut"),"q"=>hex(&u_to_be(&q.0)) + &hex(&u_to_be(&q.1)),"z"=>zred(&z),"r"=>txt(&r),"s"=>cs,"der"=>der,"res"=>res,"ref"=>refres,
                "o"=>s.n("o"),"g"=>s.n("g")});
        }
        // values made for known u1, u2, with r off by one bit ("near"), or for a
        // point that is not on the curve ("off"; the formulas do not use b)
        // or with r another value that has to do with the points ("rel")
        "near" | "off" | "rel" => {
            let nn = &c.n;
            let (u1, u2, d) = (rng.scalar(), rng.scalar(), rng.scalar());
            let mut q = c.pubkey(&d);
            if s.s("op") == "off" {
                match s.s("what") {
                    "y" => q.1 = c.p.red(&rng.scalar()),
                    "x" => q.0 = c.p.red(&rng.scalar()),
                    "y0" => q.1 = [0; 4],
                    "x0" => q.0 = [0; 4],
                    "y1" => q.1 = c.p.add(&q.1, &[1, 0, 0, 0]),
                    "small" => q = ([2, 0, 0, 0], [3, 0, 0, 0]),
                    _ => q = (c.p.red(&rng.scalar()), c.p.red(&rng.scalar())),
                }
            }
            if let Some(pt) = c.add_aff(&c.mul(&u1, &c.gx, &c.gy), &c.mul(&u2, &q.0, &q.1)) {
                let mut b = u_to_be(&nn.red(&pt.0));
                if s.s("op") == "near" {
                    flip(&mut b, s.n("i") as usize);
                }
                if s.s("op") == "rel" {
                    let (a, bq) = (c.mul(&u1, &c.gx, &c.gy).unwrap(), c.mul(&u2, &q.0, &q.1).unwrap());
                    let x = nn.red(&pt.0);
                    let one = [1, 0, 0, 0];
                    let zero = [0; 4];
                    let half = |mut b: [u8; 32], lo: bool| {
                        for i in 0..16 {
                            b[if lo { i } else { 16 + i }] = 0;
                        }
                        u_from_be(&b)
                    };
                    b = u_to_be(&match s.s("what") {
                        "y" => pt.1,
                        "negy" => c.p.sub(&zero, &pt.1),
                        "px" => c.p.sub(&zero, &pt.0),
                        "nx" => nn.sub(&zero, &x),
                        "g" => a.0,
                        "gy" => a.1,
                        "q" => bq.0,
                        "qy" => bq.1,
                        "diff" => c.add_aff(&Some(a), &Some(c.neg(&bq))).unwrap().0,
                        "gq" => c.add_aff(&Some((c.gx, c.gy)), &Some(bq)).unwrap().0,
                        "gq1" => c.add_aff(&Some(a), &Some(q)).unwrap().0,
                        "dbl" => c.add_aff(&Some(pt), &Some(pt)).unwrap().0,
                        "swapu" => c.add_aff(&c.mul(&u2, &c.gx, &c.gy), &c.mul(&u1, &q.0, &q.1)).unwrap().0,
                        "x2" => nn.add(&x, &x),
                        "xp1" => nn.add(&x, &one),
                        "xm1" => nn.sub(&x, &one),
                        "inv" => nn.inv(&x),
                        "rev" => {
                            b.reverse();
                            u_from_be(&b)
                        }
                        "lo" => half(b, true),
                        "hi" => half(b, false),
                        "words" => {
                            let w = u_from_be(&b);
                            [w[3], w[2], w[1], w[0]]
                        }
                        "not" => {
                            for v in b.iter_mut() {
                                *v ^= 0xff;
                            }
                            u_from_be(&b)
                        }
                        "keyx" => q.0,
                        "keyy" => q.1,
                        "basex" => c.gx,
                        "u1" => u1,
                        "u2" => u2,
                        w => panic!("harness: rel {w}"),
                    });
                }
                let r = nn.red(&u_from_be(&b));
                let sv = nn.mul(&r, &nn.inv(&u2));
                let z = u_to_be(&nn.mul(&u1, &sv)).to_vec();
                let pk = PublicKey::new(Point::new(ib(&u_to_be(&q.0)), ib(&u_to_be(&q.1))), Curve::secp256r1());
                let res = Ecdsa::verify(pk, &Signature::new(ib(&u_to_be(&sv)), ib(&u_to_be(&r))), &z);
                let refres = c.verify(&q.0, &q.1, &z, &r, &sv);
                ev.push(obj! {"t"=>"verify","mut"=>s.s("op"),"q"=>hex(&u_to_be(&q.0)) + &hex(&u_to_be(&q.1)),"z"=>zred(&z),"r"=>hex(&u_to_be(&r)),"s"=>canon_s(&sv),"der"=>"no","res"=>res,"ref"=>refres,"o"=>0,"g"=>0});
            }
        }
        // encoding of arbitrary values
        "enc" => {
            let mk = |k: &J| -> Vec<u8> {
                let (len, kind) = (k.n("len") as usize, k.s("kind"));
                let mut v = pat(seed, 50 + k.n("i"), 0, len);
                if kind == "ones" {
                    v = vec![0xff; len];
                }
                if !v.is_empty() {
                    match kind {
                        "high" => v[0] |= 0x80,
                        "low" => v[0] = (v[0] & 0x7f) | 1,
                        "pow" => {
                            v = vec![0; len];
                            v[0] = 0x80
                        }
                        _ => v[0] |= 1,
                    }
                }
                v
            };
            let (r, sv) = (mk(s.get("r")), mk(s.get("s")));
            let g = Signature::new(ib(&sv), ib(&r));
            let d = g.to_der();
            let back = match Signature::from_der(&d) {
                Ok((x, k)) => obj! {"ok"=>x.r == ib(&r) && x.s == ib(&sv),"n"=>k},
                Err(_) => obj! {"ok"=>false,"n"=>0},
            };
            ev.push(obj! {"t"=>"enc","r"=>ints(&r),"s"=>ints(&sv),"der"=>ints(&d),"back"=>back});
        }
        "dec" => {
            let d = bytes_of(s.get("b"));
            let (ok, r, sv, k) = match Signature::from_der(&d) {
                Ok((x, k)) => (true, ib_be(&x.r).unwrap_or_default(), ib_be(&x.s).unwrap_or_default(), k),
                Err(_) => (false, vec![], vec![], 0),
            };
            let strip = |v: Vec<u8>| {
                let k = v.iter().take_while(|x| **x == 0).count();
                ints(&v[k..])
            };
            ev.push(obj! {"t"=>"dec","b"=>ints(&d),"ok"=>ok,"r"=>strip(r),"s"=>strip(sv),"n"=>k});
        }
        x => panic!("harness: op {x}"),
    })
}

fn family(seed: u64, dir: &str) -> Step<'static> {
    fam_sig(seed)
}
