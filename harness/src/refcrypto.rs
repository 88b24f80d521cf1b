//! Independent reference implementations of every primitive the library uses.
//! Written from the standards (FIPS 180-4, RFC 2104/5869, FIPS 197, SP 800-38D, RFC 8439, RFC 7748, FIPS 186-4).
//! Shares no code with the library under test.

// ---------------------------------------------------------------- SHA-2
fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut c = 2u64;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}
// floor of frac(p^(1/k)) * 2^64 computed with integer arithmetic (k = 2 or 3)
fn frac_root(p: u64, k: u32) -> u64 {
    // find largest x (u128) with x^k <= p * 2^(64k); the low 64 bits are the fraction
    // x < 2^(64+5); use big multiplication by limbs
    let (mut lo, mut hi) = (0u128, 1u128 << 70);
    let target = {
        // p << 64k as limbs base 2^32
        let mut t = vec![0u64; (2 * k) as usize];
        t.push(p);
        t
    };
    while lo + 1 < hi {
        let mid = lo + (hi - lo) / 2;
        let limbs = |x: u128| -> Vec<u64> { (0..4).map(|i| ((x >> (32 * i)) & 0xffff_ffff) as u64).collect() };
        let mulv = |a: &[u64], b: &[u64]| -> Vec<u64> {
            let mut r = vec![0u64; a.len() + b.len()];
            for i in 0..a.len() {
                let mut c = 0u64;
                for j in 0..b.len() {
                    let t = r[i + j] + a[i] * b[j] + c;
                    r[i + j] = t & 0xffff_ffff;
                    c = t >> 32;
                }
                r[i + b.len()] += c;
            }
            r
        };
        let m = limbs(mid);
        let mut pw = m.clone();
        for _ in 1..k {
            pw = mulv(&pw, &m);
        }
        let n = pw.len().max(target.len());
        let g = |v: &Vec<u64>, i: usize| -> u64 { if i < v.len() { v[i] } else { 0 } };
        let mut le = true;
        for i in (0..n).rev() {
            if g(&pw, i) != g(&target, i) {
                le = g(&pw, i) < g(&target, i);
                break;
            }
        }
        if le {
            lo = mid
        } else {
            hi = mid
        }
    }
    lo as u64
}
struct ShaConst {
    k64: Vec<u64>,
    h256: [u32; 8],
    h384: [u64; 8],
}
fn sha_const() -> &'static ShaConst {
    use std::sync::OnceLock;
    static C: OnceLock<ShaConst> = OnceLock::new();
    C.get_or_init(|| {
        let pr = primes(80);
        let k64: Vec<u64> = pr.iter().map(|p| frac_root(*p, 3)).collect();
        let mut h256 = [0u32; 8];
        let mut h384 = [0u64; 8];
        for i in 0..8 {
            h256[i] = (frac_root(pr[i], 2) >> 32) as u32;
            h384[i] = frac_root(pr[8 + i], 2);
        }
        ShaConst { k64, h256, h384 }
    })
}
pub fn sha256(msg: &[u8]) -> Vec<u8> {
    let c = sha_const();
    let mut h = c.h256;
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
    for b in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut s = h;
        for i in 0..64 {
            let e1 = s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25);
            let chv = (s[4] & s[5]) ^ (!s[4] & s[6]);
            let t1 = s[7]
                .wrapping_add(e1)
                .wrapping_add(chv)
                .wrapping_add((c.k64[i] >> 32) as u32)
                .wrapping_add(w[i]);
            let e0 = s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22);
            let mj = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
            let t2 = e0.wrapping_add(mj);
            s = [t1.wrapping_add(t2), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}
pub fn sha384(msg: &[u8]) -> Vec<u8> {
    let c = sha_const();
    let mut h = c.h384;
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 128 != 112 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u128) * 8).to_be_bytes());
    for b in m.chunks(128) {
        let mut w = [0u64; 80];
        for i in 0..16 {
            w[i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut s = h;
        for i in 0..80 {
            let e1 = s[4].rotate_right(14) ^ s[4].rotate_right(18) ^ s[4].rotate_right(41);
            let chv = (s[4] & s[5]) ^ (!s[4] & s[6]);
            let t1 = s[7].wrapping_add(e1).wrapping_add(chv).wrapping_add(c.k64[i]).wrapping_add(w[i]);
            let e0 = s[0].rotate_right(28) ^ s[0].rotate_right(34) ^ s[0].rotate_right(39);
            let mj = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
            let t2 = e0.wrapping_add(mj);
            s = [t1.wrapping_add(t2), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    h[..6].iter().flat_map(|x| x.to_be_bytes()).collect()
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hash {
    S256,
    S384,
}
impl Hash {
    pub fn len(self) -> usize {
        match self {
            Hash::S256 => 32,
            Hash::S384 => 48,
        }
    }
    pub fn block(self) -> usize {
        match self {
            Hash::S256 => 64,
            Hash::S384 => 128,
        }
    }
    pub fn h(self, m: &[u8]) -> Vec<u8> {
        match self {
            Hash::S256 => sha256(m),
            Hash::S384 => sha384(m),
        }
    }
}
pub fn hmac(h: Hash, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > h.block() { h.h(key) } else { key.to_vec() };
    k.resize(h.block(), 0);
    let mut i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    i.extend_from_slice(msg);
    let mut o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    o.extend(h.h(&i));
    h.h(&o)
}
pub fn hkdf_extract(h: Hash, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
    hmac(h, salt, ikm)
}
pub fn hkdf_expand(h: Hash, prk: &[u8], info: &[u8], len: usize) -> Option<Vec<u8>> {
    if len > 255 * h.len() {
        return None;
    }
    let mut t: Vec<u8> = vec![];
    let mut okm = vec![];
    let mut n = 1u32;
    while okm.len() < len {
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(n as u8);
        t = hmac(h, prk, &m);
        okm.extend_from_slice(&t);
        n += 1;
    }
    okm.truncate(len);
    Some(okm)
}
pub fn expand_label(h: Hash, secret: &[u8], label: &str, ctx: &[u8], len: usize) -> Vec<u8> {
    let mut info = vec![(len >> 8) as u8, len as u8, (6 + label.len()) as u8];
    info.extend_from_slice(b"tls13 ");
    info.extend_from_slice(label.as_bytes());
    info.push(ctx.len() as u8);
    info.extend_from_slice(ctx);
    hkdf_expand(h, secret, &info, len).unwrap()
}

// ---------------------------------------------------------------- AES-GCM
fn sbox() -> &'static [u8; 256] {
    use std::sync::OnceLock;
    static S: OnceLock<[u8; 256]> = OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0u8; 256];
        for x in 0..256u32 {
            // inverse by brute force in GF(2^8)
            let mut inv = 0u8;
            if x != 0 {
                for y in 1..256u32 {
                    if gf8(x as u8, y as u8) == 1 {
                        inv = y as u8;
                        break;
                    }
                }
            }
            let b = inv;
            s[x as usize] = b ^ b.rotate_left(1) ^ b.rotate_left(2) ^ b.rotate_left(3) ^ b.rotate_left(4) ^ 0x63;
        }
        s
    })
}
fn gf8(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        let hi = a & 0x80;
        a <<= 1;
        if hi != 0 {
            a ^= 0x1b;
        }
        b >>= 1;
    }
    r
}
pub struct Aes {
    rk: Vec<[u8; 16]>,
    t: Vec<[u8; 4]>, // mixcolumn * sbox
}
impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let s = sbox();
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [s[t[1] as usize] ^ rcon, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rcon = gf8(rcon, 2);
            } else if nk > 6 && i % nk == 4 {
                t = [s[t[0] as usize], s[t[1] as usize], s[t[2] as usize], s[t[3] as usize]];
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        let rk = w
            .chunks(4)
            .map(|c| {
                let mut a = [0u8; 16];
                for i in 0..4 {
                    a[4 * i..4 * i + 4].copy_from_slice(&c[i]);
                }
                a
            })
            .collect();
        let t = (0..256)
            .map(|x| {
                let v = s[x];
                [gf8(v, 2), v, v, gf8(v, 3)]
            })
            .collect();
        Aes { rk, t }
    }
    pub fn enc(&self, b: [u8; 16]) -> [u8; 16] {
        let s = sbox();
        let mut x = b;
        for i in 0..16 {
            x[i] ^= self.rk[0][i];
        }
        let nr = self.rk.len() - 1;
        for r in 1..=nr {
            let mut y = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    let v = x[4 * ((c + row) % 4) + row];
                    if r == nr {
                        y[4 * c + row] = s[v as usize];
                    } else {
                        let t = self.t[v as usize];
                        for k in 0..4 {
                            // column contribution of element in row `row` to output row k
                            y[4 * c + k] ^= t[(k + 4 - row) % 4];
                        }
                    }
                }
            }
            for i in 0..16 {
                y[i] ^= self.rk[r][i];
            }
            x = y;
        }
        x
    }
}
fn ghash_mul(x: u128, y: u128) -> u128 {
    let mut z = 0u128;
    let mut v = y;
    for i in 0..128 {
        if (x >> (127 - i)) & 1 == 1 {
            z ^= v;
        }
        let lsb = v & 1;
        v >>= 1;
        if lsb == 1 {
            v ^= 0xe1u128 << 120;
        }
    }
    z
}
fn gcm_tag_ctr(key: &[u8], nonce: &[u8], aad: &[u8], data: &[u8], enc: bool) -> (Vec<u8>, [u8; 16]) {
    let aes = Aes::new(key);
    let h = u128::from_be_bytes(aes.enc([0; 16]));
    let mut j0 = [0u8; 16];
    j0[..12].copy_from_slice(nonce);
    j0[15] = 1;
    let mut out = Vec::with_capacity(data.len());
    let mut ctr = 2u32;
    for ch in data.chunks(16) {
        let mut c = j0;
        c[12..].copy_from_slice(&ctr.to_be_bytes());
        ctr = ctr.wrapping_add(1);
        let ks = aes.enc(c);
        out.extend(ch.iter().zip(ks.iter()).map(|(a, b)| a ^ b));
    }
    let ct: &[u8] = if enc { &out } else { data };
    let mut y = 0u128;
    let mut absorb = |d: &[u8]| {
        for ch in d.chunks(16) {
            let mut b = [0u8; 16];
            b[..ch.len()].copy_from_slice(ch);
            y = ghash_mul(y ^ u128::from_be_bytes(b), h);
        }
    };
    absorb(aad);
    absorb(ct);
    let mut l = [0u8; 16];
    l[..8].copy_from_slice(&((aad.len() as u64) * 8).to_be_bytes());
    l[8..].copy_from_slice(&((ct.len() as u64) * 8).to_be_bytes());
    absorb(&l);
    let t = y ^ u128::from_be_bytes(aes.enc(j0));
    (out, t.to_be_bytes())
}

// ---------------------------------------------------------------- ChaCha20-Poly1305
fn chacha_block(key: &[u8], ctr: u32, nonce: &[u8]) -> [u8; 64] {
    let mut s = [0u32; 16];
    let c = b"expand 32-byte k";
    for i in 0..4 {
        s[i] = u32::from_le_bytes(c[4 * i..4 * i + 4].try_into().unwrap());
    }
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap());
    }
    s[12] = ctr;
    for i in 0..3 {
        s[13 + i] = u32::from_le_bytes(nonce[4 * i..4 * i + 4].try_into().unwrap());
    }
    let mut x = s;
    fn q(x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(16);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(12);
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(8);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(7);
    }
    for _ in 0..10 {
        for i in 0..4 {
            q(&mut x, i, 4 + i, 8 + i, 12 + i);
        }
        for i in 0..4 {
            q(&mut x, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
        }
    }
    let mut o = [0u8; 64];
    for i in 0..16 {
        o[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes());
    }
    o
}
pub fn poly1305(key: &[u8], msg: &[u8]) -> [u8; 16] {
    // limbs of 26 bits
    let ld = |b: &[u8], i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as u64;
    let r = [
        ld(key, 0) & 0x3ffffff,
        (ld(key, 3) >> 2) & 0x3ffff03,
        (ld(key, 6) >> 4) & 0x3ffc0ff,
        (ld(key, 9) >> 6) & 0x3f03fff,
        (ld(key, 12) >> 8) & 0x00fffff,
    ];
    let mut h = [0u64; 5];
    for ch in msg.chunks(16) {
        let mut b = [0u8; 17];
        b[..ch.len()].copy_from_slice(ch);
        b[ch.len()] = 1;
        h[0] += ld(&b, 0) & 0x3ffffff;
        h[1] += (ld(&b, 3) >> 2) & 0x3ffffff;
        h[2] += (ld(&b, 6) >> 4) & 0x3ffffff;
        h[3] += (ld(&b, 9) >> 6) & 0x3ffffff;
        h[4] += (ld(&b, 12) >> 8) | ((b[16] as u64) << 24);
        let mut d = [0u64; 5];
        for i in 0..5 {
            for j in 0..5 {
                let f = if i + j >= 5 { 5 } else { 1 };
                d[(i + j) % 5] += h[i] * r[j] * f;
            }
        }
        let mut c = 0;
        for i in 0..5 {
            d[i] += c;
            c = d[i] >> 26;
            h[i] = d[i] & 0x3ffffff;
        }
        h[0] += c * 5;
        h[1] += h[0] >> 26;
        h[0] &= 0x3ffffff;
    }
    // full reduction via Python-style big arithmetic on u64 x 3 limbs
    for _ in 0..2 {
        let mut c = 0;
        for i in 0..5 {
            h[i] += c;
            c = h[i] >> 26;
            h[i] &= 0x3ffffff;
        }
        h[0] += c * 5;
    }
    let mut g = [0u64; 5];
    let mut c = 5u64;
    for i in 0..5 {
        g[i] = h[i] + c;
        c = g[i] >> 26;
        g[i] &= 0x3ffffff;
    }
    let v = if c > 0 { g } else { h };
    let lo = (v[0] as u128) | ((v[1] as u128) << 26) | ((v[2] as u128) << 52) | ((v[3] as u128) << 78);
    let acc = lo.wrapping_add((v[4] as u128) << 104);
    let s = u128::from_le_bytes(key[16..32].try_into().unwrap());
    acc.wrapping_add(s).to_le_bytes()
}
fn chachapoly(key: &[u8], nonce: &[u8], aad: &[u8], data: &[u8], enc: bool) -> (Vec<u8>, [u8; 16]) {
    let mut out = Vec::with_capacity(data.len());
    for (i, ch) in data.chunks(64).enumerate() {
        let ks = chacha_block(key, 1 + i as u32, nonce);
        out.extend(ch.iter().zip(ks.iter()).map(|(a, b)| a ^ b));
    }
    let ct: &[u8] = if enc { &out } else { data };
    let mut m = aad.to_vec();
    while m.len() % 16 != 0 {
        m.push(0);
    }
    m.extend_from_slice(ct);
    while m.len() % 16 != 0 {
        m.push(0);
    }
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    let otk = chacha_block(key, 0, nonce);
    let t = poly1305(&otk[..32], &m);
    (out, t)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Suite {
    Aes128,
    Aes256,
    ChaCha,
}
impl Suite {
    pub fn from_u16(x: u16) -> Option<Suite> {
        match x {
            0x1301 => Some(Suite::Aes128),
            0x1302 => Some(Suite::Aes256),
            0x1303 => Some(Suite::ChaCha),
            _ => None,
        }
    }
    pub fn code(self) -> u16 {
        match self {
            Suite::Aes128 => 0x1301,
            Suite::Aes256 => 0x1302,
            Suite::ChaCha => 0x1303,
        }
    }
    pub fn hash(self) -> Hash {
        if self == Suite::Aes256 {
            Hash::S384
        } else {
            Hash::S256
        }
    }
    pub fn key_len(self) -> usize {
        if self == Suite::Aes128 {
            16
        } else {
            32
        }
    }
    pub fn seal(self, key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
        match self {
            Suite::ChaCha => chachapoly(key, nonce, aad, pt, true),
            _ => gcm_tag_ctr(key, nonce, aad, pt, true),
        }
    }
    pub fn open(self, key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
        let (pt, t) = match self {
            Suite::ChaCha => chachapoly(key, nonce, aad, ct, false),
            _ => gcm_tag_ctr(key, nonce, aad, ct, false),
        };
        if t[..] == tag[..] {
            Some(pt)
        } else {
            None
        }
    }
}

// ---------------------------------------------------------------- 256-bit modular arithmetic
pub type U = [u64; 4];
pub fn u_from_be(b: &[u8]) -> U {
    let mut x = [0u8; 32];
    let b = if b.len() > 32 { &b[b.len() - 32..] } else { b };
    x[32 - b.len()..].copy_from_slice(b);
    let mut r = [0; 4];
    for i in 0..4 {
        r[3 - i] = u64::from_be_bytes(x[8 * i..8 * i + 8].try_into().unwrap());
    }
    r
}
pub fn u_to_be(u: &U) -> [u8; 32] {
    let mut x = [0u8; 32];
    for i in 0..4 {
        x[8 * i..8 * i + 8].copy_from_slice(&u[3 - i].to_be_bytes());
    }
    x
}
pub fn u_hex(s: &str) -> U {
    u_from_be(&crate::json::unhex(s))
}
pub fn u_cmp(a: &U, b: &U) -> std::cmp::Ordering {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    std::cmp::Ordering::Equal
}
pub fn u_zero(a: &U) -> bool {
    a.iter().all(|x| *x == 0)
}
pub fn u_sub(a: &U, b: &U) -> (U, bool) {
    let mut r = [0; 4];
    let mut bw = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(bw as u64);
        r[i] = x;
        bw = b1 || b2;
    }
    (r, bw)
}
pub fn u_add(a: &U, b: &U) -> (U, bool) {
    let mut r = [0; 4];
    let mut c = false;
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_add(b[i]);
        let (x, c2) = x.overflowing_add(c as u64);
        r[i] = x;
        c = c1 || c2;
    }
    (r, c)
}
#[derive(Clone)]
pub struct Fp {
    pub m: U,
    r2: U,
    one: U,
    n0: u64,
}
impl Fp {
    pub fn new(m: U) -> Fp {
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv)));
        }
        let mut f = Fp { m, r2: [0; 4], one: [0; 4], n0: inv.wrapping_neg() };
        // 2^256 mod m and 2^512 mod m by doubling
        let mut x: U = [1, 0, 0, 0];
        for i in 0..512 {
            x = f.add(&x, &x);
            if i == 255 {
                f.one = x;
            }
        }
        f.r2 = x;
        f
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        let (s, c) = u_add(a, b);
        let (t, bw) = u_sub(&s, &self.m);
        if c || !bw {
            t
        } else {
            s
        }
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        let (s, bw) = u_sub(a, b);
        if bw {
            u_add(&s, &self.m).0
        } else {
            s
        }
    }
    pub fn mmul(&self, a: &U, b: &U) -> U {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let v = t[j] as u128 + (a[j] as u128) * (b[i] as u128) + c;
                t[j] = v as u64;
                c = v >> 64;
            }
            let v = t[4] as u128 + c;
            t[4] = v as u64;
            t[5] = (v >> 64) as u64;
            let q = t[0].wrapping_mul(self.n0);
            let mut c = (t[0] as u128 + (q as u128) * (self.m[0] as u128)) >> 64;
            for j in 1..4 {
                let v = t[j] as u128 + (q as u128) * (self.m[j] as u128) + c;
                t[j - 1] = v as u64;
                c = v >> 64;
            }
            let v = t[4] as u128 + c;
            t[3] = v as u64;
            t[4] = t[5] + (v >> 64) as u64;
        }
        let r: U = [t[0], t[1], t[2], t[3]];
        let (s, bw) = u_sub(&r, &self.m);
        if t[4] != 0 || !bw {
            s
        } else {
            r
        }
    }
    pub fn red(&self, a: &U) -> U {
        let mut a = *a;
        while u_cmp(&a, &self.m) != std::cmp::Ordering::Less {
            a = u_sub(&a, &self.m).0;
        }
        a
    }
    pub fn to(&self, a: &U) -> U {
        self.mmul(&self.red(a), &self.r2)
    }
    pub fn from(&self, a: &U) -> U {
        self.mmul(a, &[1, 0, 0, 0])
    }
    pub fn mul(&self, a: &U, b: &U) -> U {
        // plain-domain product
        self.from(&self.mmul(&self.to(a), &self.to(b)))
    }
    pub fn minv(&self, a: &U) -> U {
        // Montgomery-domain inverse by Fermat (modulus prime)
        let (e, _) = u_sub(&self.m, &[2, 0, 0, 0]);
        let mut r = self.one;
        for i in (0..256).rev() {
            r = self.mmul(&r, &r);
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                r = self.mmul(&r, a);
            }
        }
        r
    }
    pub fn inv(&self, a: &U) -> U {
        self.from(&self.minv(&self.to(a)))
    }
}

// ---------------------------------------------------------------- X25519
fn f25519() -> &'static Fp {
    use std::sync::OnceLock;
    static F: OnceLock<Fp> = OnceLock::new();
    F.get_or_init(|| Fp::new(u_hex("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed")))
}
pub fn x25519(scalar: &[u8], u: &[u8]) -> [u8; 32] {
    let f = f25519();
    let mut k: [u8; 32] = scalar.try_into().unwrap();
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    let mut ub: [u8; 32] = u.try_into().unwrap();
    ub[31] &= 127;
    ub.reverse();
    let x1 = f.to(&u_from_be(&ub));
    let a24 = f.to(&[121665, 0, 0, 0]);
    let (mut x2, mut z2, mut x3, mut z3) = (f.one, [0u64; 4], x1, f.one);
    let mut swap = 0;
    for t in (0..255).rev() {
        let kt = (k[t / 8] >> (t % 8)) & 1;
        swap ^= kt;
        if swap == 1 {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = kt;
        let a = f.add(&x2, &z2);
        let aa = f.mmul(&a, &a);
        let b = f.sub(&x2, &z2);
        let bb = f.mmul(&b, &b);
        let e = f.sub(&aa, &bb);
        let c = f.add(&x3, &z3);
        let d = f.sub(&x3, &z3);
        let da = f.mmul(&d, &a);
        let cb = f.mmul(&c, &b);
        let s = f.add(&da, &cb);
        x3 = f.mmul(&s, &s);
        let s = f.sub(&da, &cb);
        z3 = f.mmul(&x1, &f.mmul(&s, &s));
        x2 = f.mmul(&aa, &bb);
        z2 = f.mmul(&e, &f.add(&aa, &f.mmul(&a24, &e)));
    }
    if swap == 1 {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    let r = f.from(&f.mmul(&x2, &f.minv(&z2)));
    let mut o = u_to_be(&r);
    o.reverse();
    o
}
pub fn x25519_base(scalar: &[u8]) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[0] = 9;
    x25519(scalar, &b)
}

// ---------------------------------------------------------------- P-256 ECDSA
pub struct P256 {
    pub p: Fp,
    pub n: Fp,
    a: U,
    b: U,
    pub gx: U,
    pub gy: U,
}
pub fn p256() -> &'static P256 {
    use std::sync::OnceLock;
    static F: OnceLock<P256> = OnceLock::new();
    F.get_or_init(|| {
        let p = Fp::new(u_hex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"));
        let n = Fp::new(u_hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"));
        let a = p.to(&u_sub(&p.m, &[3, 0, 0, 0]).0);
        let b = p.to(&u_hex("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"));
        let gx = u_hex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296");
        let gy = u_hex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5");
        P256 { p, n, a, b, gx, gy }
    })
}
type Jac = Option<(U, U, U)>; // Montgomery domain, None = infinity
impl P256 {
    fn dbl(&self, q: &Jac) -> Jac {
        let f = &self.p;
        let (x, y, z) = (*q)?;
        if u_zero(&y) {
            return None;
        }
        let yy = f.mmul(&y, &y);
        let s = f.mmul(&x, &yy);
        let s = f.add(&f.add(&s, &s), &f.add(&s, &s));
        let zz = f.mmul(&z, &z);
        let xx = f.mmul(&x, &x);
        let m = f.add(&f.add(&f.add(&xx, &xx), &xx), &f.mmul(&self.a, &f.mmul(&zz, &zz)));
        let x3 = f.sub(&f.mmul(&m, &m), &f.add(&s, &s));
        let y4 = f.mmul(&yy, &yy);
        let y8 = f.add(&y4, &y4);
        let y8 = f.add(&y8, &y8);
        let y8 = f.add(&y8, &y8);
        let y3 = f.sub(&f.mmul(&m, &f.sub(&s, &x3)), &y8);
        let z3 = f.mmul(&y, &z);
        Some((x3, y3, f.add(&z3, &z3)))
    }
    fn addp(&self, p: &Jac, q: &Jac) -> Jac {
        let f = &self.p;
        let (x1, y1, z1) = match p {
            None => return *q,
            Some(v) => *v,
        };
        let (x2, y2, z2) = match q {
            None => return *p,
            Some(v) => *v,
        };
        let z1z1 = f.mmul(&z1, &z1);
        let z2z2 = f.mmul(&z2, &z2);
        let u1 = f.mmul(&x1, &z2z2);
        let u2 = f.mmul(&x2, &z1z1);
        let s1 = f.mmul(&y1, &f.mmul(&z2, &z2z2));
        let s2 = f.mmul(&y2, &f.mmul(&z1, &z1z1));
        if u1 == u2 {
            return if s1 == s2 { self.dbl(p) } else { None };
        }
        let h = f.sub(&u2, &u1);
        let r = f.sub(&s2, &s1);
        let hh = f.mmul(&h, &h);
        let hhh = f.mmul(&h, &hh);
        let v = f.mmul(&u1, &hh);
        let x3 = f.sub(&f.sub(&f.mmul(&r, &r), &hhh), &f.add(&v, &v));
        let y3 = f.sub(&f.mmul(&r, &f.sub(&v, &x3)), &f.mmul(&s1, &hhh));
        let z3 = f.mmul(&h, &f.mmul(&z1, &z2));
        Some((x3, y3, z3))
    }
    fn mulj(&self, k: &U, q: &Jac) -> Jac {
        let mut r: Jac = None;
        for i in (0..256).rev() {
            r = self.dbl(&r);
            if (k[i / 64] >> (i % 64)) & 1 == 1 {
                r = self.addp(&r, q);
            }
        }
        r
    }
    fn aff(&self, q: &Jac) -> Option<(U, U)> {
        let f = &self.p;
        let (x, y, z) = (*q)?;
        let zi = f.minv(&z);
        let zi2 = f.mmul(&zi, &zi);
        Some((f.from(&f.mmul(&x, &zi2)), f.from(&f.mmul(&y, &f.mmul(&zi, &zi2)))))
    }
    fn jac(&self, x: &U, y: &U) -> Jac {
        Some((self.p.to(x), self.p.to(y), self.p.one))
    }
    pub fn mul(&self, k: &U, x: &U, y: &U) -> Option<(U, U)> {
        self.aff(&self.mulj(k, &self.jac(x, y)))
    }
    pub fn pubkey(&self, d: &U) -> (U, U) {
        self.mul(d, &self.gx, &self.gy).unwrap()
    }
    /// sum of two affine points (None = infinity)
    pub fn add_aff(&self, a: &Option<(U, U)>, b: &Option<(U, U)>) -> Option<(U, U)> {
        let j = |q: &Option<(U, U)>| q.as_ref().and_then(|(x, y)| self.jac(x, y));
        self.aff(&self.addp(&j(a), &j(b)))
    }
    pub fn neg(&self, q: &(U, U)) -> (U, U) {
        (q.0, self.p.sub(&[0, 0, 0, 0], &q.1))
    }
    /// the points with this x coordinate, if any
    pub fn lift_x(&self, x: &U) -> Option<(U, U)> {
        let f = &self.p;
        let xm = f.to(x);
        let r = f.add(&f.add(&f.mmul(&xm, &f.mmul(&xm, &xm)), &f.mmul(&self.a, &xm)), &self.b);
        // p = 3 mod 4: sqrt is the power (p+1)/4
        let (mut e, _) = u_add(&f.m, &[1, 0, 0, 0]);
        for i in 0..4 {
            e[i] = (e[i] >> 2) | if i < 3 { e[i + 1] << 62 } else { 0 };
        }
        let mut y = f.one;
        for i in (0..256).rev() {
            y = f.mmul(&y, &y);
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                y = f.mmul(&y, &r);
            }
        }
        if f.mmul(&y, &y) == r {
            Some((*x, f.from(&y)))
        } else {
            None
        }
    }
    pub fn on_curve(&self, x: &U, y: &U) -> bool {
        let f = &self.p;
        if u_cmp(x, &f.m) != std::cmp::Ordering::Less || u_cmp(y, &f.m) != std::cmp::Ordering::Less {
            return false;
        }
        let (x, y) = (f.to(x), f.to(y));
        let l = f.mmul(&y, &y);
        let r = f.add(&f.add(&f.mmul(&x, &f.mmul(&x, &x)), &f.mmul(&self.a, &x)), &self.b);
        l == r
    }
    /// sign digest z with nonce k; None if r or s would be zero
    pub fn sign(&self, d: &U, z: &[u8], k: &U) -> Option<(U, U)> {
        let n = &self.n;
        let (x, _) = self.mul(k, &self.gx, &self.gy)?;
        let r = n.red(&x);
        let z = n.red(&u_from_be(&z[..32.min(z.len())]));
        let s = n.mul(&n.inv(k), &n.add(&z, &n.mul(&r, d)));
        if u_zero(&r) || u_zero(&s) {
            None
        } else {
            Some((r, s))
        }
    }
    pub fn verify(&self, qx: &U, qy: &U, z: &[u8], r: &U, s: &U) -> bool {
        let n = &self.n;
        let lt = |a: &U| u_cmp(a, &n.m) == std::cmp::Ordering::Less;
        if u_zero(r) || u_zero(s) || !lt(r) || !lt(s) || !self.on_curve(qx, qy) {
            return false;
        }
        let z = n.red(&u_from_be(&z[..32.min(z.len())]));
        let w = n.inv(s);
        let u1 = n.mul(&z, &w);
        let u2 = n.mul(r, &w);
        let p = self.addp(
            &self.mulj(&u1, &self.jac(&self.gx, &self.gy)),
            &self.mulj(&u2, &self.jac(qx, qy)),
        );
        match self.aff(&p) {
            None => false,
            Some((x, _)) => n.red(&x) == *r,
        }
    }
}

// ---------------------------------------------------------------- deterministic randomness
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn scalar(&mut self) -> U {
        loop {
            let u = u_from_be(&self.bytes(32));
            if !u_zero(&u) && u_cmp(&u, &p256().n.m) == std::cmp::Ordering::Less {
                return u;
            }
        }
    }
}
