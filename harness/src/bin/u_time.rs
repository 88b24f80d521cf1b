#![allow(dead_code, unused_imports, unused_variables)]
use anothertls::net::handshake::Certificate;
use anothertls::utils::x509::X509;

include!("../inc/common.rs");

// Parsers and builders (part of unit.rs).

fn dummy_cert(nb: &[u8], na: &[u8], seed: u64) -> Vec<u8> {
    let mut c = CertSpec::simple("t", "t", "", "", &p256().pubkey(&[5, 0, 0, 0]));
    c.serial = vec![1 + (seed % 100) as u8];
    // times as raw bytes
    let raw = |v: &[u8]| v.to_vec();
    let t = seq(&[&tlv(0x17, &raw(nb)), &tlv(0x17, &raw(na))]);
    c.not_before.clear();
    c.not_after.clear();
    let empty = seq(&[&tlv(0x17, b""), &tlv(0x17, b"")]);
    let tbs = c.tbs();
    // replace the validity of the (minimal length) encoding
    let (mut p, l) = if tbs[1] < 128 { (2, tbs[1] as usize) } else { (2 + (tbs[1] & 0x7f) as usize, 0) };
    let _ = l;
    let start = p;
    let at = loop {
        if tbs[p..].starts_with(&empty) {
            break p;
        }
        p += 1;
    };
    let body = [&tbs[start..at], &t, &tbs[at + empty.len()..]].concat();
    c.assemble(&tlv(0x30, &body), &sig_der(&[7, 0, 0, 0], &[9, 0, 0, 0]))
}
fn fam_time(seed: u64) -> Step<'static> {
    Box::new(move |s, ev| {
        let (nb, na) = (bytes_of(s.get("nb")), bytes_of(s.get("na")));
        let der = dummy_cert(&nb, &na, seed);
        let now = s.n("d") * 86400 + s.n("s");
        let res = match X509::from_raw(&der) {
            Err(_) => "refused",
            Ok(x) => {
                if at(now, || x.tbs_certificate.validity.is_valid()) {
                    "accept"
                } else {
                    "expired"
                }
            }
        };
        // the same certificate in a Certificate message
        let l = der.len();
        let mut m = vec![0, 0, ((l + 5) >> 8) as u8, (l + 5) as u8, 0, (l >> 8) as u8, l as u8];
        m.extend(&der);
        m.extend([0, 0]);
        let hello = match at(now, || Certificate::from_hello(&m)) {
            Ok(_) => "accept",
            Err(_) => "refused",
        };
        ev.push(obj! {"hello"=>hello,"t"=>"valid","nb"=>s.get("nb").clone(),"na"=>s.get("na").clone(),"d"=>s.n("d"),"s"=>s.n("s"),"res"=>res});
    })
}

fn family(seed: u64, dir: &str) -> Step<'static> {
    fam_time(seed)
}
