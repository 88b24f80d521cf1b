#![allow(dead_code, unused_imports, unused_variables)]
use anothertls::crypto::ellipticcurve::PrivateKey;
use anothertls::net::handshake::Certificate;
use anothertls::utils::base64;
use anothertls::utils::pem::get_pem_content_from_file;

include!("../inc/common.rs");

// ------------------------------------------------------------------ X03
fn fam_pem(_seed: u64, dir: String) -> Step<'static> {
    Box::new(move |s, ev| match s.s("op") {
        "load" => {
            let text = bytes_of(s.get("text"));
            let path = format!("{dir}/x.pem");
            std::fs::write(&path, &text).unwrap();
            let mut e = obj! {"t"=>"load","text"=>s.get("text").clone()};
            match get_pem_content_from_file(path.clone()) {
                None => e.set("ok", J::Bool(false)),
                Some(m) => {
                    e.set("ok", J::Bool(true));
                    let mut v: Vec<_> = m.into_iter().collect();
                    v.sort();
                    e.set("blocks", J::Arr(v.into_iter().map(|(t, b)| obj! {"t"=>ints(t.as_bytes()),"b"=>ints(&b)}).collect()));
                }
            }
            let opt = |x: Option<Vec<u8>>| match x {
                None => J::Arr(vec![]),
                Some(v) => J::Arr(vec![ints(&v)]),
            };
            e.set("cert", opt(Certificate::from_pem(path.clone()).map(|c| c.raw)));
            e.set("key", opt(PrivateKey::from_pem(path.clone()).map(|k| ib_be(&k.secret).unwrap_or_default())));
            std::fs::remove_file(&path).ok();
            ev.push(e);
        }
        "missing" => {
            let p = format!("{dir}/does-not-exist.pem");
            let none = get_pem_content_from_file(p.clone()).is_none() && Certificate::from_pem(p.clone()).is_none() && PrivateKey::from_pem(p).is_none();
            ev.push(obj! {"t"=>"missing","none"=>none});
        }
        "b64" => {
            let text = bytes_of(s.get("text"));
            let t = String::from_utf8(text).unwrap_or_default();
            let r = base64::decode(&t);
            ev.push(obj! {"t"=>"b64","text"=>ints(t.as_bytes()),"ok"=>r.is_some(),"b"=>ints(&r.unwrap_or_default())});
        }
        "enc" => {
            let b = bytes_of(s.get("b"));
            let t = base64::encode(&b);
            let back = base64::decode(&t);
            ev.push(obj! {"t"=>"enc","b"=>ints(&b),"text"=>ints(t.as_bytes()),"back"=>back == Some(b.clone())});
        }
        x => panic!("harness: op {x}"),
    })
}

fn family(seed: u64, dir: &str) -> Step<'static> {
    fam_pem(seed, dir.to_string())
}
