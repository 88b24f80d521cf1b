use vharness::json::*;
use vharness::refcrypto::*;
// prints deterministic reference outputs; checked against openssl by tools/selftest.sh
fn main() {
    let mut rng = Rng::new(7);
    for n in [0usize, 1, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 1000] {
        let m = rng.bytes(n);
        println!("sha256 {} {}", hex(&m), hex(&sha256(&m)));
        println!("sha384 {} {}", hex(&m), hex(&sha384(&m)));
        for k in [1usize, 32, 64, 65, 100, 128, 129, 200] {
            let key = rng.bytes(k);
            println!("hmac256 {} {} {}", hex(&key), hex(&m), hex(&hmac(Hash::S256, &key, &m)));
            println!("hmac384 {} {} {}", hex(&key), hex(&m), hex(&hmac(Hash::S384, &key, &m)));
        }
    }
    for _ in 0..20 {
        let a = rng.bytes(32);
        let b = rng.bytes(32);
        println!("x25519 {} {} {}", hex(&a), hex(&x25519_base(&b)), hex(&x25519(&a, &x25519_base(&b))));
        let n = rng.below(200);
        let al = rng.below(40);
        for s in [Suite::Aes128, Suite::Aes256, Suite::ChaCha] {
            let (k, iv, aad, pt) = (rng.bytes(s.key_len()), rng.bytes(12), rng.bytes(al), rng.bytes(n));
            let (ct, t) = s.seal(&k, &iv, &aad, &pt);
            println!("aead{:x} {} {} {} {} {} {}", s.code(), hex(&k), hex(&iv), hex(&aad), hex(&pt), hex(&ct), hex(&t));
            assert_eq!(s.open(&k, &iv, &aad, &ct, &t), Some(pt));
        }
        let d = rng.scalar();
        let q = p256().pubkey(&d);
        let m = rng.bytes(40);
        let k = rng.scalar();
        let (r, s) = p256().sign(&d, &sha256(&m), &k).unwrap();
        assert!(p256().verify(&q.0, &q.1, &sha256(&m), &r, &s));
        assert!(!p256().verify(&q.0, &q.1, &sha256(&m[1..]), &r, &s));
        println!("ecdsa {} {} {} {}", hex(&u_to_be(&d)), hex(&u_to_be(&q.0)), hex(&u_to_be(&q.1)), hex(&m));
        println!("ecdsasig {}", hex(&vharness::derx::sig_der(&r, &s)));
    }
    for l in [0usize, 1, 31, 32, 33, 64, 255, 255 * 32] {
        let prk = rng.bytes(32);
        let info = rng.bytes(10);
        println!("hkdf {} {} {} {}", hex(&prk), hex(&info), l, hex(&hkdf_expand(Hash::S256, &prk, &info, l).unwrap()));
    }
}
