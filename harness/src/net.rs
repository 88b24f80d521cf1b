//! Socket helpers, scratch material (keys, certificates, files).
use crate::derx::*;
use crate::refcrypto::*;
use std::collections::HashMap;
use std::net::SocketAddr;
use std::os::unix::io::RawFd;
use std::path::PathBuf;
use std::time::{SystemTime, UNIX_EPOCH};

extern "C" {
    fn getpeername(fd: i32, addr: *mut u8, len: *mut u32) -> i32;
    fn getsockname(fd: i32, addr: *mut u8, len: *mut u32) -> i32;
    fn ioctl(fd: i32, req: u64, arg: *mut i32) -> i32;
}
const FIONREAD: u64 = 0x541B;
fn port_of(fd: RawFd, peer: bool) -> Option<(u16, u32)> {
    let mut a = [0u8; 64];
    let mut l = 64u32;
    let r = unsafe {
        if peer {
            getpeername(fd, a.as_mut_ptr(), &mut l)
        } else {
            getsockname(fd, a.as_mut_ptr(), &mut l)
        }
    };
    if r != 0 || a[0] != 2 {
        return None;
    }
    Some(((a[2] as u16) << 8 | a[3] as u16, u32::from_be_bytes([a[4], a[5], a[6], a[7]])))
}
/// The file descriptor of this process that is the other end of a loopback connection.
pub fn find_other_end(local: &SocketAddr, remote: &SocketAddr) -> Option<RawFd> {
    let d = std::fs::read_dir("/proc/self/fd").ok()?;
    for e in d.flatten() {
        if let Ok(fd) = e.file_name().to_string_lossy().parse::<i32>() {
            if let (Some(p), Some(l)) = (port_of(fd, true), port_of(fd, false)) {
                if p.0 == local.port() && l.0 == remote.port() {
                    return Some(fd);
                }
            }
        }
    }
    None
}
pub fn unread(fd: RawFd) -> Option<usize> {
    let mut n = 0i32;
    if unsafe { ioctl(fd, FIONREAD, &mut n) } != 0 {
        return None;
    }
    Some(n as usize)
}
pub fn is_other_end(fd: RawFd, local: &SocketAddr, remote: &SocketAddr) -> bool {
    matches!((port_of(fd, true), port_of(fd, false)), (Some(p), Some(l)) if p.0 == local.port() && l.0 == remote.port())
}
// ------------------------------------------------------------------ signals
static THREADS: std::sync::Mutex<Vec<(usize, usize)>> = std::sync::Mutex::new(vec![]);
extern "C" fn on_signal(_: i32) {}
/// The calling thread runs the library on the connection `id` from now on (or no more).
pub fn interruptible(id: usize, yes: bool) {
    extern "C" {
        fn pthread_self() -> usize;
        fn signal(n: i32, h: extern "C" fn(i32)) -> usize;
        fn siginterrupt(n: i32, f: i32) -> i32;
    }
    static ONCE: std::sync::Once = std::sync::Once::new();
    // system calls of the thread return with EINTR
    ONCE.call_once(|| unsafe {
        signal(10, on_signal);
        siginterrupt(10, 1);
    });
    let mut t = THREADS.lock().unwrap();
    t.retain(|x| x.0 != id);
    if yes {
        t.push((id, unsafe { pthread_self() }));
    }
}
pub fn interrupt(id: usize) {
    extern "C" {
        fn pthread_kill(t: usize, n: i32) -> i32;
    }
    // (the lock keeps the thread from ending)
    let t = THREADS.lock().unwrap();
    if let Some(x) = t.iter().find(|x| x.0 == id) {
        unsafe { pthread_kill(x.1, 10) };
    }
}
/// Ends a TCP connection with a reset.
pub fn reset(fd: RawFd) {
    extern "C" {
        fn connect(fd: i32, addr: *const u8, len: u32) -> i32;
    }
    let a = [0u8; 16]; // AF_UNSPEC
    unsafe { connect(fd, a.as_ptr(), 16) };
}
pub fn now() -> i64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() as i64
}

pub struct Material {
    pub dir: PathBuf,
    pub certs: HashMap<String, (Vec<u8>, U)>,
}
/// extensions as certificate authorities write them
fn usual_extensions(filler: usize) -> Vec<u8> {
    let ext = |oid: &[u8], critical: bool, v: &[u8]| {
        let mut b = tlv(6, oid);
        if critical {
            b.extend(tlv(1, &[0xff]));
        }
        b.extend(tlv(4, v));
        tlv(0x30, &b)
    };
    let mut o = vec![];
    o.extend(ext(&[0x55, 0x1d, 0x13], true, &seq(&[])));
    o.extend(ext(&[0x55, 0x1d, 0x0f], true, &tlv(3, &[7, 0x80])));
    o.extend(ext(&[0x55, 0x1d, 0x11], false, &seq(&[&tlv(0x82, b"host.example")])));
    o.extend(ext(&[0x55, 0x1d, 0x0e], false, &tlv(4, &[0x5a; 20])));
    if filler > 0 {
        o.extend(ext(&[0x2b, 6, 1, 4, 1, 0x82, 0x37], false, &tlv(4, &vec![0x5a; filler])));
    }
    tlv(0x30, &o)
}

/// Certificates that differ only in style or in their validity period:
/// "ok*" are valid now, "exp*" are not valid any more, "not*" not yet.
fn variants(base: &CertSpec, t: i64) -> Vec<(String, CertSpec, usize)> {
    let style = |s: &str, mut c: CertSpec| -> CertSpec {
        match s {
            "ext" => c.ext = Some(usual_extensions(0)),
            "extbig" => c.ext = Some(usual_extensions(1500)),
            "print" => c.str_tag = 0x13,
            "names" => {
                for k in ["stateOrProvinceName", "localityName", "organizationalUnitName"] {
                    let at = c.subject.len() - 1;
                    c.subject.insert(at, (k.to_string(), "Some where".to_string()));
                }
            }
            _ => (),
        }
        c
    };
    let day = 86400;
    let s = |x: i64| utc_string(t + x);
    let mut periods = vec![
        ("ok", s(-3600), s(3600)),
        ("oklong", "700101000000Z".to_string(), "491231235959Z".to_string()),
        ("exp1m", s(-day), s(-60)),
        ("exp1h", s(-day * 400), s(-3600)),
        ("exp1y", s(-day * 800), s(-day * 366)),
        ("exp99", "980101000000Z".to_string(), "991231235959Z".to_string()),
        ("exp70", "700101000000Z".to_string(), "700101000001Z".to_string()),
        ("exp60", "500101000000Z".to_string(), "691231235959Z".to_string()),
        ("not1h", s(3600), s(day)),
        ("not1y", s(day * 366), s(day * 800)),
        ("not49", "490101000000Z".to_string(), "491231235959Z".to_string()),
        ("notexp", s(day), s(-day)),
    ];
    let mut o = vec![];
    for (i, st) in ["plain", "ext", "extbig", "print", "names"].iter().enumerate() {
        for (j, (n, b, a)) in periods.drain(..).collect::<Vec<_>>().into_iter().enumerate() {
            // every period in two styles at least, every style with every kind
            if i < 2 || (i + j) % 4 == 0 || j == 0 {
                let mut c = base.clone();
                c.not_before = b.clone();
                c.not_after = a.clone();
                o.push((format!("{}_{}", n, st), style(st, c), 1));
            }
            periods.push((n, b, a));
        }
    }
    o
}

/// Lengths of the certificates that are made to measure.
const SIZES: [usize; 22] =
    [505, 506, 507, 508, 509, 510, 511, 512, 513, 763, 765, 767, 1024, 16366, 16370, 16371, 16372, 16375, 16384, 32755, 32759, 65000];
/// A certificate like `spec` with exactly `len` bytes.
fn exact(spec: &CertSpec, len: usize, key: &U, rng: &mut Rng) -> Vec<u8> {
    let with = |n: usize| Some(seq(&[&seq(&[&tlv(6, &[0x55, 0x1d, 0x0e]), &tlv(4, &vec![0x5au8; n])])]));
    let mut n = 1;
    for round in 0..200 {
        let mut c = spec.clone();
        c.ext = with(n);
        let der = c.sign_with(key, rng);
        if der.len() == len {
            return der;
        }
        // a few bytes off: the signature has not always the same length
        let off = len as i64 - der.len() as i64;
        if round < 4 || off.abs() > 4 || round % 8 == 7 {
            n = (n as i64 + off).max(0) as usize;
        }
    }
    panic!("no certificate of {len} bytes");
}
impl Material {
    pub fn path(&self, n: &str) -> String {
        self.dir.join(n).to_string_lossy().to_string()
    }
    pub fn der(&self, n: &str) -> &[u8] {
        &self.certs[n].0
    }
    pub fn key(&self, n: &str) -> &U {
        &self.certs[n].1
    }
    fn put(&mut self, n: &str, der: Vec<u8>, d: U) {
        std::fs::write(self.dir.join(format!("{}.pem", n)), pem("CERTIFICATE", &der, 64, "\n")).unwrap();
        std::fs::write(self.dir.join(format!("{}.key", n)), pem("EC PRIVATE KEY", &ec_key_der(&d, true), 64, "\n")).unwrap();
        self.certs.insert(n.to_string(), (der, d));
    }
    pub fn new(dir: PathBuf, seed: u64) -> Material {
        std::fs::create_dir_all(&dir).unwrap();
        let mut m = Material { dir, certs: HashMap::new() };
        let mut rng = Rng::new(seed ^ 0xce27);
        let t = now();
        let (nb, na) = (utc_string(t - 86400), utc_string(t + 86400 * 30));
        let (eb, ea) = (utc_string(t - 86400 * 3), utc_string(t - 86400));
        let (fb, fa) = (utc_string(t + 86400), utc_string(t + 86400 * 3));
        let p = p256();
        let keys: Vec<U> = (0..8).map(|_| rng.scalar()).collect();
        let filler = |n: usize| Some(seq(&[&seq(&[&tlv(6, &[0x55, 0x1d, 0x0e]), &tlv(4, &vec![0x5au8; n])])]));
        // server certificates (self-signed)
        let q = p.pubkey(&keys[0]);
        for (n, b, a, f) in [
            ("s_ok", &nb, &na, 0usize),
            ("s_expired", &eb, &ea, 0),
            ("s_notyet", &fb, &fa, 0),
            ("s_big", &nb, &na, 3000),
            ("s_huge", &nb, &na, 14000),
            ("s_giant", &nb, &na, 30000),
            ("s_colossal", &nb, &na, 70000),
        ] {
            let mut c = CertSpec::simple("server.example", "server.example", b, a, &q);
            if f > 0 {
                c.ext = filler(f);
            } else {
                c.ext = filler(40);
            }
            let der = c.sign_with(&keys[0], &mut rng);
            m.put(n, der, keys[0]);
        }
        for (n, c, _) in variants(&CertSpec::simple("server.example", "server.example", &nb, &na, &q), t) {
            let der = c.sign_with(&keys[0], &mut rng);
            m.put(&format!("s_{}", n), der, keys[0]);
        }
        // server certificates with an exact number of bytes
        for n in SIZES {
            let c = CertSpec::simple("server.example", "server.example", &nb, &na, &q);
            let der = exact(&c, n, &keys[0], &mut rng);
            m.put(&format!("s_n{n}"), der, keys[0]);
        }
        // small server certificate (short names, no extensions)
        let mut c = CertSpec::simple("s", "s", &nb, &na, &q);
        c.issuer = vec![("commonName".into(), "s".into())];
        c.subject = c.issuer.clone();
        let der = c.sign_with(&keys[0], &mut rng);
        m.put("s_small", der, keys[0]);
        // another server identity (for stale signatures)
        let q5 = p.pubkey(&keys[5]);
        let der = CertSpec::simple("other.example", "other.example", &nb, &na, &q5).sign_with(&keys[5], &mut rng);
        m.put("s_other", der, keys[5]);
        // CA and client certificates
        let qca = p.pubkey(&keys[1]);
        let der = CertSpec::simple("Verif CA", "Verif CA", &nb, &na, &qca).sign_with(&keys[1], &mut rng);
        m.put("ca", der, keys[1]);
        let qoca = p.pubkey(&keys[2]);
        let der = CertSpec::simple("Verif CA", "Verif CA", &nb, &na, &qoca).sign_with(&keys[2], &mut rng);
        m.put("ca2", der, keys[2]);
        let qc = p.pubkey(&keys[3]);
        let mk = |cn: &str, b: &str, a: &str| CertSpec::simple(cn, "Verif CA", b, a, &qc);
        for n in SIZES {
            let der = exact(&mk("client", &nb, &na), n, &keys[1], &mut rng);
            m.put(&format!("c_n{n}"), der, keys[3]);
        }
        let mut add = |m: &mut Material, n: &str, c: CertSpec, by: usize| {
            let der = c.sign_with(&keys[by], &mut rng);
            m.put(n, der, keys[3]);
        };
        let mut ok = mk("client", &nb, &na);
        ok.ext = filler(30);
        add(&mut m, "c_ok", ok.clone(), 1);
        let mut big = ok.clone();
        big.ext = filler(2500);
        add(&mut m, "c_big", big, 1);
        let mut huge = ok.clone();
        huge.ext = filler(15000);
        add(&mut m, "c_huge", huge, 1);
        for (n, size) in [("c_giant", 30000), ("c_colossal", 70000)] {
            let mut c = ok.clone();
            c.ext = filler(size);
            add(&mut m, n, c, 1);
        }
        let mut small = mk("c", &nb, &na);
        small.issuer = vec![("commonName".into(), "Verif CA".into())];
        small.subject = vec![("commonName".into(), "c".into())];
        add(&mut m, "c_small", small, 1);
        add(&mut m, "c_noext", mk("client", &nb, &na), 1);
        add(&mut m, "c_expired", mk("client", &eb, &ea), 1);
        add(&mut m, "c_notyet", mk("client", &fb, &fa), 1);
        for (n, c, by) in variants(&mk("client", &nb, &na), t) {
            add(&mut m, &format!("c_{}", n), c, by);
        }
        add(&mut m, "c_deny", mk("denied", &nb, &na), 1);
        add(&mut m, "c_samename", mk("client", &nb, &na), 2);
        add(&mut m, "c_self", mk("client", &nb, &na), 3);
        let mut oth = mk("client", &nb, &na);
        oth.issuer = vec![("commonName".into(), "Somebody".into())];
        add(&mut m, "c_badca", oth, 2);
        // altered certificates
        let mut bad = m.der("c_ok").to_vec();
        let pos = bad.windows(3).position(|w| w == [0x11, 0x22, 0x33]).unwrap();
        bad[pos + 2] ^= 1; // serial number
        m.put("c_tbsflip", bad, keys[3]);
        let mut bad = m.der("c_ok").to_vec();
        let pos = bad.windows(6).position(|w| w == b"client").unwrap();
        bad[pos] = b'k';
        m.put("c_nameflip", bad, keys[3]);
        // certificate with attacker's key but signature bytes of the genuine one
        let q4 = p.pubkey(&keys[4]);
        let mut bad = m.der("c_ok").to_vec();
        let pk = point_bytes(&qc);
        let pos = bad.windows(65).position(|w| w == &pk[..]).unwrap();
        bad[pos..pos + 65].copy_from_slice(&point_bytes(&q4));
        m.put("c_keyswap", bad, keys[4]);
        let mut bad = m.der("c_ok").to_vec();
        let n = bad.len();
        bad[n - 5] ^= 4;
        m.put("c_sigflip", bad, keys[3]);
        // last byte of the to-be-signed part (inside the extension filler)
        let mut bad = m.der("c_ok").to_vec();
        let pos = bad.windows(4).rposition(|w| w == [0x5a, 0x5a, 0x5a, 0x5a]).unwrap();
        bad[pos + 3] ^= 1;
        m.put("c_endflip", bad, keys[3]);
        // attacker's CA certificate presented as a client certificate
        let der = m.der("ca2").to_vec();
        m.put("c_ca2", der, keys[2]);
        let der = m.der("ca").to_vec();
        m.put("c_ca", der, keys[3]); // the CA's own certificate, but not its key
        // unsigned elements added around the signed part
        let split = |der: &[u8]| -> Vec<Vec<u8>> {
            // children of the outer SEQUENCE
            let hdr = if der[1] < 0x80 { 2 } else { 2 + (der[1] & 0x7f) as usize };
            let mut o = vec![];
            let mut p = hdr;
            while p < der.len() {
                let (l, h) = if der[p + 1] < 0x80 {
                    (der[p + 1] as usize, 2)
                } else {
                    let n = (der[p + 1] & 0x7f) as usize;
                    (der[p + 2..p + 2 + n].iter().fold(0usize, |a, b| a << 8 | *b as usize), 2 + n)
                };
                o.push(der[p..p + h + l].to_vec());
                p += h + l;
            }
            o
        };
        let times = seq(&[&tlv(0x17, nb.as_bytes()), &tlv(0x17, na.as_bytes())]);
        let name = rdn(&[("commonName".into(), "client".into())], 0x0c);
        let spki4 = {
            let c = CertSpec::simple("client", "Verif CA", &nb, &na, &q4);
            let t = c.tbs();
            let k = point_bytes(&q4);
            let at = t.windows(65).position(|w| w == &k[..]).unwrap();
            // SEQUENCE { SEQUENCE { oid, oid }, BIT STRING } ends with the key
            let spki_len = 91;
            t[at + 65 - spki_len..at + 65].to_vec()
        };
        let bs4 = tlv(3, &[vec![0], point_bytes(&q4)].concat());
        let parts = |n: &str, m: &Material| split(m.der(n));
        let e = parts("c_expired", &m);
        m.put("x_exp_tail", seq(&[&e[0], &e[1], &e[2], &times]), keys[3]);
        let alg = split(&e[1]);
        m.put("x_exp_alg", seq(&[&e[0], &seq(&[&alg[0], &times]), &e[2]]), keys[3]);
        m.put("x_exp_head", seq(&[&times, &e[0], &e[1], &e[2]]), keys[3]);
        m.put("x_exp_mid", seq(&[&e[0], &times, &e[1], &e[2]]), keys[3]);
        let d = parts("c_deny", &m);
        m.put("x_deny_tail", seq(&[&d[0], &d[1], &d[2], &name]), keys[3]);
        m.put("x_deny_alg", seq(&[&d[0], &seq(&[&split(&d[1])[0], &name]), &d[2]]), keys[3]);
        let o = parts("c_ok", &m);
        m.put("x_key_tail", seq(&[&o[0], &o[1], &o[2], &spki4]), keys[4]);
        m.put("x_key_bits", seq(&[&o[0], &o[1], &o[2], &bs4]), keys[4]);
        m.put("x_key_alg", seq(&[&o[0], &seq(&[&split(&o[1])[0], &spki4]), &o[2]]), keys[4]);
        m.put("x_key_bits_alg", seq(&[&o[0], &seq(&[&split(&o[1])[0], &bs4]), &o[2]]), keys[4]);
        m.put("x_key_mid", seq(&[&o[0], &spki4, &o[1], &o[2]]), keys[4]);
        // genuine certificate behind an attacker's own to-be-signed part and vice versa
        let mut own = CertSpec::simple("client", "Verif CA", &nb, &na, &q4);
        own.ext = filler(30);
        let own_tbs = own.tbs();
        m.put("x_two_tbs", seq(&[&own_tbs, &o[0], &o[1], &o[2]]), keys[4]);
        m.put("x_tbs_two", seq(&[&o[0], &own_tbs, &o[1], &o[2]]), keys[4]);
        m.put("x_tbs_last", seq(&[&o[0], &o[1], &o[2], &own_tbs]), keys[4]);
        m.put("x_der_tail", [m.der("c_ok").to_vec(), own.sign_with(&keys[4], &mut rng)].concat(), keys[4]);
        m.put("x_der_head", [own.sign_with(&keys[4], &mut rng), m.der("c_ok").to_vec()].concat(), keys[4]);
        // signature by the client's own key over a certificate that names the CA
        m.put("x_own", own.sign_with(&keys[4], &mut rng), keys[4]);
        m.put("stranger", m.der("s_other").to_vec(), keys[6]);
        m
    }
}
