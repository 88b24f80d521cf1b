//! Reference TLS 1.3 messages, key schedule and record protection (independent of the library).
use crate::refcrypto::*;

pub fn u16b(n: usize) -> [u8; 2] {
    [(n >> 8) as u8, n as u8]
}
pub fn u24b(n: usize) -> [u8; 3] {
    [(n >> 16) as u8, (n >> 8) as u8, n as u8]
}
pub fn v8(b: &[u8]) -> Vec<u8> {
    [&[b.len() as u8][..], b].concat()
}
pub fn v16(b: &[u8]) -> Vec<u8> {
    [&u16b(b.len())[..], b].concat()
}
pub fn v24(b: &[u8]) -> Vec<u8> {
    [&u24b(b.len())[..], b].concat()
}
pub fn hs_msg(t: u8, body: &[u8]) -> Vec<u8> {
    [&[t][..], &v24(body)].concat()
}
pub fn hs_type(m: &str) -> u8 {
    match m {
        "ch" => 1,
        "sh" => 2,
        "nst" => 4,
        "eoed" => 5,
        "ee" => 8,
        "cert" => 11,
        "cr" => 13,
        "cv" => 15,
        "fin" => 20,
        "ku" => 24,
        "mh" => 254,
        _ => 99,
    }
}
pub fn hs_name(t: u8) -> &'static str {
    match t {
        1 => "ch",
        2 => "sh",
        4 => "nst",
        5 => "eoed",
        8 => "ee",
        11 => "cert",
        13 => "cr",
        15 => "cv",
        20 => "fin",
        24 => "ku",
        254 => "mh",
        _ => "unk",
    }
}
pub fn plain_record(ty: u8, body: &[u8]) -> Vec<u8> {
    [&[ty, 3, 3][..], &v16(body)].concat()
}
pub fn ext(t: u16, body: &[u8]) -> Vec<u8> {
    [&t.to_be_bytes()[..], &v16(body)].concat()
}

/// Record protection state of one direction and one key
#[derive(Clone, Debug)]
pub struct RecKey {
    pub suite: Suite,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub seq: u64,
    pub secret: Vec<u8>,
}
impl RecKey {
    pub fn new(suite: Suite, secret: &[u8]) -> RecKey {
        RecKey {
            suite,
            key: expand_label(suite.hash(), secret, "key", b"", suite.key_len()),
            iv: expand_label(suite.hash(), secret, "iv", b"", 12),
            seq: 0,
            secret: secret.to_vec(),
        }
    }
    pub fn nonce(&self, seq: u64) -> Vec<u8> {
        let mut n = self.iv.clone();
        for (i, b) in seq.to_be_bytes().iter().enumerate() {
            n[4 + i] ^= b;
        }
        n
    }
    pub fn seal_at(&self, seq: u64, ty: u8, body: &[u8], pad: usize) -> Vec<u8> {
        let mut pt = body.to_vec();
        pt.push(ty);
        pt.extend(vec![0; pad]);
        let hdr = [&[23u8, 3, 3][..], &u16b(pt.len() + 16)].concat();
        let (ct, tag) = self.suite.seal(&self.key, &self.nonce(seq), &hdr, &pt);
        [hdr, ct, tag.to_vec()].concat()
    }
    pub fn seal(&mut self, ty: u8, body: &[u8], pad: usize) -> Vec<u8> {
        let r = self.seal_at(self.seq, ty, body, pad);
        self.seq = self.seq.wrapping_add(1);
        r
    }
    /// returns the whole inner plaintext (content, type, zeros)
    pub fn open_at(&self, seq: u64, rec: &[u8]) -> Option<Vec<u8>> {
        if rec.len() < 5 + 16 {
            return None;
        }
        let (ct, tag) = rec[5..].split_at(rec.len() - 5 - 16);
        self.suite.open(&self.key, &self.nonce(seq), &rec[..5], ct, tag)
    }
}
/// (inner type, content) of an inner plaintext
pub fn split_inner(p: &[u8]) -> Option<(u8, Vec<u8>)> {
    let i = p.iter().rposition(|&b| b != 0)?;
    Some((p[i], p[..i].to_vec()))
}
#[derive(Clone, Debug)]
pub struct Sched {
    pub suite: Suite,
    pub c_hs: Vec<u8>,
    pub s_hs: Vec<u8>,
    pub master: Vec<u8>,
}
impl Sched {
    pub fn new(suite: Suite, shared: &[u8], hello_transcript: &[u8]) -> Sched {
        let h = suite.hash();
        let z = vec![0u8; h.len()];
        let early = hkdf_extract(h, &z, &z);
        let d = expand_label(h, &early, "derived", &h.h(b""), h.len());
        let hs = hkdf_extract(h, &d, shared);
        let th = h.h(hello_transcript);
        let c_hs = expand_label(h, &hs, "c hs traffic", &th, h.len());
        let s_hs = expand_label(h, &hs, "s hs traffic", &th, h.len());
        let d = expand_label(h, &hs, "derived", &h.h(b""), h.len());
        let master = hkdf_extract(h, &d, &z);
        Sched { suite, c_hs, s_hs, master }
    }
    pub fn app(&self, transcript: &[u8]) -> (Vec<u8>, Vec<u8>) {
        let h = self.suite.hash();
        let th = h.h(transcript);
        (
            expand_label(h, &self.master, "c ap traffic", &th, h.len()),
            expand_label(h, &self.master, "s ap traffic", &th, h.len()),
        )
    }
    pub fn finished(&self, secret: &[u8], transcript: &[u8]) -> Vec<u8> {
        let h = self.suite.hash();
        let fk = expand_label(h, secret, "finished", b"", h.len());
        hmac(h, &fk, &h.h(transcript))
    }
}
pub fn cv_content(h: Hash, label: &str, transcript: &[u8]) -> Vec<u8> {
    let mut c = vec![0x20u8; 64];
    c.extend_from_slice(format!("TLS 1.3, {} CertificateVerify", label).as_bytes());
    c.push(0);
    c.extend(h.h(transcript));
    c
}
/// strict cursor
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, p: 0 }
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.p + n > self.b.len() {
            return Err("short".into());
        }
        self.p += n;
        Ok(&self.b[self.p - n..self.p])
    }
    pub fn u8(&mut self) -> Result<usize, String> {
        Ok(self.take(1)?[0] as usize)
    }
    pub fn u16(&mut self) -> Result<usize, String> {
        let b = self.take(2)?;
        Ok((b[0] as usize) << 8 | b[1] as usize)
    }
    pub fn u24(&mut self) -> Result<usize, String> {
        let b = self.take(3)?;
        Ok((b[0] as usize) << 16 | (b[1] as usize) << 8 | b[2] as usize)
    }
    pub fn v8(&mut self) -> Result<&'a [u8], String> {
        let n = self.u8()?;
        self.take(n)
    }
    pub fn v16(&mut self) -> Result<&'a [u8], String> {
        let n = self.u16()?;
        self.take(n)
    }
    pub fn v24(&mut self) -> Result<&'a [u8], String> {
        let n = self.u24()?;
        self.take(n)
    }
    pub fn end(&self) -> bool {
        self.p == self.b.len()
    }
    pub fn done(&self) -> Result<(), String> {
        if self.end() {
            Ok(())
        } else {
            Err("trailing bytes".into())
        }
    }
}
pub fn parse_exts(b: &[u8]) -> Result<Vec<(u16, Vec<u8>)>, String> {
    let mut c = Cur::new(b);
    let mut o: Vec<(u16, Vec<u8>)> = vec![];
    while !c.end() {
        let t = c.u16()? as u16;
        let body = c.v16()?.to_vec();
        if o.iter().any(|e| e.0 == t) {
            return Err("duplicate extension".into());
        }
        o.push((t, body));
    }
    Ok(o)
}
#[derive(Clone, Debug, Default)]
pub struct Hello {
    pub random: Vec<u8>,
    pub sid: Vec<u8>,
    pub suites: Vec<u16>,
    pub exts: Vec<(u16, Vec<u8>)>,
}
impl Hello {
    pub fn ext(&self, t: u16) -> Option<&[u8]> {
        self.exts.iter().find(|e| e.0 == t).map(|e| &e.1[..])
    }
}
pub fn parse_sh(body: &[u8]) -> Result<Hello, String> {
    let mut c = Cur::new(body);
    if c.u16()? != 0x0303 {
        return Err("legacy version".into());
    }
    let random = c.take(32)?.to_vec();
    let sid = c.v8()?.to_vec();
    let suite = c.u16()? as u16;
    if c.u8()? != 0 {
        return Err("compression".into());
    }
    let exts = parse_exts(c.v16()?)?;
    c.done()?;
    Ok(Hello { random, sid, suites: vec![suite], exts })
}
pub fn parse_ch(body: &[u8]) -> Result<Hello, String> {
    let mut c = Cur::new(body);
    if c.u16()? != 0x0303 {
        return Err("legacy version".into());
    }
    let random = c.take(32)?.to_vec();
    let sid = c.v8()?.to_vec();
    if sid.len() > 32 {
        return Err("session id".into());
    }
    let s = c.v16()?;
    if s.len() % 2 != 0 || s.is_empty() {
        return Err("suites".into());
    }
    let suites = s.chunks(2).map(|x| (x[0] as u16) << 8 | x[1] as u16).collect();
    if c.v8()? != [0] {
        return Err("compression".into());
    }
    let exts = parse_exts(c.v16()?)?;
    c.done()?;
    Ok(Hello { random, sid, suites, exts })
}
/// key share entries of a client hello extension
pub fn parse_shares(b: &[u8]) -> Result<Vec<(u16, Vec<u8>)>, String> {
    let mut c = Cur::new(b);
    let l = c.v16()?;
    c.done()?;
    let mut c = Cur::new(l);
    let mut o = vec![];
    while !c.end() {
        let g = c.u16()? as u16;
        o.push((g, c.v16()?.to_vec()));
    }
    Ok(o)
}
pub fn group_id(g: &str) -> u16 {
    match g {
        "p256" => 0x17,
        "p384" => 0x18,
        "p521" => 0x19,
        "x448" => 0x1e,
        "ffdhe" => 0x100,
        "grease" => 0x2a2a,
        "kyber" => 0x11ec,
        _ => 0x1d,
    }
}
pub fn error_code(name: &str) -> i64 {
    match name {
        "CloseNotify" => 0,
        "UnexpectedMessage" => 10,
        "BadRecordMac" => 20,
        "RecordOverflow" => 22,
        "HandshakeFailure" => 40,
        "BadCertificate" => 42,
        "UnsupportedCertificate" => 43,
        "CertificateRevoked" => 44,
        "CertificateExpired" => 45,
        "CertificateUnknown" => 46,
        "IllegalParameter" => 47,
        "UnknownCa" => 48,
        "AccessDenied" => 49,
        "DecodeError" => 50,
        "DecryptError" => 51,
        "ProtocolVersion" => 70,
        "InsufficientSecurity" => 71,
        "InternalError" => 80,
        "MissingExtension" => 109,
        "UnsupportedExtension" => 110,
        "UnrecognizedName" => 112,
        "CertificateRequired" => 116,
        _ => -1,
    }
}
/// stream pattern: byte at offset `o`
pub fn pat(seed: u64, dir: u64, o: u64) -> u8 {
    let mut z = (o >> 3).wrapping_add(seed.wrapping_mul(2).wrapping_add(dir).wrapping_mul(0x9E3779B97F4A7C15));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^= z >> 31;
    (z >> (8 * (o & 7))) as u8
}
pub fn pats(seed: u64, dir: u64, o: u64, n: usize) -> Vec<u8> {
    (0..n as u64).map(|i| pat(seed, dir, o + i)).collect()
}
