#![allow(dead_code, unused_imports, unused_variables)]
use anothertls::hash::hkdf::Hkdf;
use anothertls::hash::{HashType, Hmac};
use anothertls::net::key_schedule::get_hkdf_expand_label;

include!("../inc/common.rs");

fn lh(h: &str) -> HashType {
    if h == "sha384" {
        HashType::SHA384
    } else {
        HashType::SHA256
    }
}
// ------------------------------------------------------------------ P05
fn fam_hmac(seed: u64) -> Step<'static> {
    let mut objs: Vec<(Hmac<'static>, Vec<u8>)> = vec![];
    Box::new(move |s, ev| match s.s("op") {
        "hnew" => {
            let k = content(seed, s.get("k"));
            let kk: &'static [u8] = Box::leak(k.clone().into_boxed_slice());
            objs.push((Hmac::new(lh(s.s("h")), kk), k));
            ev.push(obj! {"t"=>"hnew","h"=>s.s("h"),"k"=>s.get("k").clone()});
        }
        "hupd" => {
            let d = content(seed, s.get("c"));
            objs[s.n("o") as usize - 1].0.update(&d);
            ev.push(obj! {"t"=>"hupd","o"=>s.n("o"),"c"=>s.get("c").clone()});
        }
        "hread" => {
            let (o, k) = &objs[s.n("o") as usize - 1];
            let d = content(seed, s.get("c"));
            ev.push(obj! {"t"=>"hread","o"=>s.n("o"),"c"=>s.get("c").clone(),"v"=>hex(&o.result()),"ref"=>hex(&hmac(rh(s.s("h")), k, &d))});
        }
        "extract" => {
            let (salt, ikm) = (content(seed, s.get("k")), content(seed, s.get("c")));
            let v = Hkdf::extract(lh(s.s("h")), &salt, &ikm);
            ev.push(obj! {"t"=>"extract","h"=>s.s("h"),"k"=>s.get("k").clone(),"c"=>s.get("c").clone(),"v"=>hex(&v.pseudo_random_key),"ref"=>hex(&hkdf_extract(rh(s.s("h")), &salt, &ikm))});
        }
        "expand" => {
            let (prk, info, n) = (content(seed, s.get("k")), content(seed, s.get("c")), s.n("n") as usize);
            let hl = rh(s.s("h")).len();
            let v = Hkdf::from_prk(lh(s.s("h")), prk.clone()).expand(&info, n);
            let blocks = |v: &[u8]| J::Arr(v.chunks_exact(hl).map(|b| J::from(hex(&b[..8]))).collect());
            let mut e = obj! {"t"=>"expand","h"=>s.s("h"),"k"=>s.get("k").clone(),"c"=>s.get("c").clone(),"n"=>n};
            e.set("some", J::Bool(v.is_some()));
            let v = v.unwrap_or_default();
            e.set("len", J::from(v.len()));
            e.set("v", J::from(fp(&v)));
            e.set("ref", J::from(fp(&hkdf_expand(rh(s.s("h")), &prk, &info, n.min(255 * hl)).unwrap())));
            e.set("blocks", blocks(&v));
            ev.push(e);
        }
        "label" => {
            let (prk, ctx, n) = (content(seed, s.get("k")), content(seed, s.get("c")), s.n("n") as usize);
            let l = s.s("label");
            let v = Hkdf::from_prk(lh(s.s("h")), prk.clone()).expand(&get_hkdf_expand_label(l.as_bytes(), &ctx, n), n).unwrap_or_default();
            ev.push(obj! {"t"=>"label","v"=>fp(&v),"ref"=>fp(&expand_label(rh(s.s("h")), &prk, l, &ctx, n))});
        }
        x => panic!("harness: op {x}"),
    })
}

fn family(seed: u64, dir: &str) -> Step<'static> {
    fam_hmac(seed)
}
