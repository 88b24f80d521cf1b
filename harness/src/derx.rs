//! DER / X.509 / PEM construction (independent of the library).
use crate::refcrypto::*;

pub fn len_min(n: usize) -> Vec<u8> {
    if n < 128 {
        vec![n as u8]
    } else {
        let mut b: Vec<u8> = (n as u64).to_be_bytes().to_vec();
        while b[0] == 0 {
            b.remove(0);
        }
        let mut o = vec![0x80 | b.len() as u8];
        o.extend(b);
        o
    }
}
/// length in long form with exactly `k` length bytes (0 = minimal)
pub fn len_k(n: usize, k: usize) -> Vec<u8> {
    if k == 0 {
        return len_min(n);
    }
    let b = (n as u64).to_be_bytes();
    let mut o = vec![0x80 | k as u8];
    if k > 8 {
        o.extend(vec![0; k - 8]);
        o.extend_from_slice(&b);
    } else {
        o.extend_from_slice(&b[8 - k..]);
    }
    o
}
pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    tlv_k(tag, body, 0)
}
pub fn tlv_k(tag: u8, body: &[u8], k: usize) -> Vec<u8> {
    let mut o = vec![tag];
    o.extend(len_k(body.len(), k));
    o.extend_from_slice(body);
    o
}
pub fn seq(parts: &[&[u8]]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
pub fn int_be(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    while v.len() > 1 && v[0] == 0 {
        v.remove(0);
    }
    if v.is_empty() {
        v.push(0)
    }
    if v[0] & 0x80 != 0 {
        v.insert(0, 0);
    }
    tlv(2, &v)
}
pub fn sig_der(r: &U, s: &U) -> Vec<u8> {
    seq(&[&int_be(&u_to_be(r)), &int_be(&u_to_be(s))])
}
/// Strict DER decode of an ECDSA signature; returns the error text otherwise.
pub fn sig_strict(d: &[u8]) -> Result<(U, U), String> {
    let e = |s: &str| Err(s.to_string());
    if d.len() < 2 || d[0] != 0x30 {
        return e("no sequence");
    }
    if d[1] as usize != d.len() - 2 || d[1] >= 0x80 {
        return e("sequence length");
    }
    let mut p = 2;
    let mut out = vec![];
    for _ in 0..2 {
        if p + 2 > d.len() || d[p] != 2 {
            return e("no integer");
        }
        let l = d[p + 1] as usize;
        if l == 0 || l >= 0x80 || p + 2 + l > d.len() {
            return e("integer length");
        }
        let b = &d[p + 2..p + 2 + l];
        if b[0] & 0x80 != 0 {
            return e("negative integer");
        }
        if l > 1 && b[0] == 0 && b[1] & 0x80 == 0 {
            return e("integer not minimal");
        }
        let b = if b[0] == 0 { &b[1..] } else { b };
        if b.len() > 32 {
            return e("integer too big");
        }
        let mut w = [0u8; 32];
        w[32 - b.len()..].copy_from_slice(b);
        out.push(u_from_be(&w));
        p += 2 + l;
    }
    if p != d.len() {
        return e("trailing bytes");
    }
    Ok((out[0], out[1]))
}

pub const OID_EC: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 0x02, 0x01];
pub const OID_P256: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07];
pub const OID_ECDSA256: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x02];
pub const OID_ECDSA384: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x03];
pub const ATTRS: &[(&str, &[u8])] = &[
    ("countryName", &[0x55, 4, 6]),
    ("stateOrProvinceName", &[0x55, 4, 8]),
    ("localityName", &[0x55, 4, 7]),
    ("organizationName", &[0x55, 4, 10]),
    ("organizationalUnitName", &[0x55, 4, 11]),
    ("commonName", &[0x55, 4, 3]),
    ("emailAddress", &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 1]),
];
pub fn attr_oid(name: &str) -> &'static [u8] {
    ATTRS.iter().find(|a| a.0 == name).map(|a| a.1).unwrap_or(&[0x55, 4, 3])
}
#[derive(Clone, Debug)]
pub struct CertSpec {
    pub version: Option<u8>,
    pub serial: Vec<u8>,
    pub issuer: Vec<(String, String)>,
    pub subject: Vec<(String, String)>,
    pub not_before: String,
    pub not_after: String,
    pub pubkey: Vec<u8>, // raw point bytes (04|x|y)
    pub ext: Option<Vec<u8>>, // content of [3]
    pub sig_oid: Vec<u8>,
    pub str_tag: u8,
    pub k_len: usize, // forced number of length bytes in outer structures (0 = minimal)
}
pub fn point_bytes(q: &(U, U)) -> Vec<u8> {
    let mut v = vec![4];
    v.extend(u_to_be(&q.0));
    v.extend(u_to_be(&q.1));
    v
}
pub fn rdn(attrs: &[(String, String)], tag: u8) -> Vec<u8> {
    let mut o = vec![];
    for (k, v) in attrs {
        let t = if k == "countryName" {
            0x13
        } else if k == "emailAddress" {
            0x16
        } else {
            tag
        };
        o.extend(tlv(0x31, &seq(&[&tlv(6, attr_oid(k)), &tlv(t, v.as_bytes())])));
    }
    tlv(0x30, &o)
}
impl CertSpec {
    pub fn simple(cn: &str, issuer: &str, nb: &str, na: &str, q: &(U, U)) -> CertSpec {
        let nm = |c: &str| {
            vec![
                ("countryName".to_string(), "DE".to_string()),
                ("organizationName".to_string(), "Verif".to_string()),
                ("commonName".to_string(), c.to_string()),
            ]
        };
        CertSpec {
            version: Some(2),
            serial: vec![0x11, 0x22, 0x33],
            issuer: nm(issuer),
            subject: nm(cn),
            not_before: nb.into(),
            not_after: na.into(),
            pubkey: point_bytes(q),
            ext: None,
            sig_oid: OID_ECDSA256.to_vec(),
            str_tag: 0x0c,
            k_len: 0,
        }
    }
    pub fn tbs(&self) -> Vec<u8> {
        let mut b = vec![];
        if let Some(v) = self.version {
            b.extend(tlv(0xa0, &tlv(2, &[v])));
        }
        b.extend(int_be(&self.serial));
        b.extend(seq(&[&tlv(6, &self.sig_oid)]));
        b.extend(rdn(&self.issuer, self.str_tag));
        b.extend(seq(&[&tlv(0x17, self.not_before.as_bytes()), &tlv(0x17, self.not_after.as_bytes())]));
        b.extend(rdn(&self.subject, self.str_tag));
        let mut bs = vec![0];
        bs.extend_from_slice(&self.pubkey);
        b.extend(seq(&[&seq(&[&tlv(6, OID_EC), &tlv(6, OID_P256)]), &tlv(3, &bs)]));
        if let Some(e) = &self.ext {
            b.extend(tlv(0xa3, e));
        }
        tlv_k(0x30, &b, self.k_len)
    }
    pub fn sign_with(&self, d: &U, rng: &mut Rng) -> Vec<u8> {
        let tbs = self.tbs();
        let (r, s) = ecdsa_sign(d, &tbs, rng);
        self.assemble(&tbs, &sig_der(&r, &s))
    }
    pub fn assemble(&self, tbs: &[u8], sig: &[u8]) -> Vec<u8> {
        let mut bs = vec![0];
        bs.extend_from_slice(sig);
        let body = [tbs.to_vec(), seq(&[&tlv(6, &self.sig_oid)]), tlv(3, &bs)].concat();
        tlv_k(0x30, &body, self.k_len)
    }
}
pub fn ecdsa_sign(d: &U, msg: &[u8], rng: &mut Rng) -> (U, U) {
    loop {
        let k = rng.scalar();
        if let Some(x) = p256().sign(d, &sha256(msg), &k) {
            return x;
        }
    }
}
const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(d: &[u8]) -> String {
    let mut o = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
pub fn pem(title: &str, d: &[u8], width: usize, eol: &str) -> String {
    let e = b64(d);
    let mut o = format!("-----BEGIN {}-----{}", title, eol);
    for c in e.as_bytes().chunks(width.max(1)) {
        o.push_str(std::str::from_utf8(c).unwrap());
        o.push_str(eol);
    }
    o.push_str(&format!("-----END {}-----{}", title, eol));
    o
}
/// SEC1 EC private key
pub fn ec_key_der(d: &U, with_pub: bool) -> Vec<u8> {
    let q = p256().pubkey(d);
    let mut b = vec![];
    b.extend(tlv(2, &[1]));
    b.extend(tlv(4, &u_to_be(d)));
    b.extend(tlv(0xa0, &tlv(6, OID_P256)));
    if with_pub {
        let mut bs = vec![0];
        bs.extend(point_bytes(&q));
        b.extend(tlv(0xa1, &tlv(3, &bs)));
    }
    tlv(0x30, &b)
}
/// days since 1970-01-01 of a civil date (Howard Hinnant's algorithm)
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = if y >= 0 { y } else { y - 399 } / 400;
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
pub fn civil_from_days(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = if z >= 0 { z } else { z - 146096 } / 146097;
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (if m <= 2 { y + 1 } else { y }, m, d)
}
pub fn utc_string(ts: i64) -> String {
    let (d, s) = (ts.div_euclid(86400), ts.rem_euclid(86400));
    let (y, m, dd) = civil_from_days(d);
    format!("{:02}{:02}{:02}{:02}{:02}{:02}Z", y % 100, m, dd, s / 3600, s / 60 % 60, s % 60)
}
