//! hs SCRIPTS.ndjson OUT.ndjson SCRATCH [threads] [seed]
//! Replays scripts (behaviours of the specification) against the library, records abstract traces.
use std::collections::HashMap;
use std::io::Write;
use std::net::{Shutdown, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
#[path = "../eut.rs"]
mod eut;
use eut::*;
use vharness::json::*;
use vharness::net::*;
use vharness::obj;
use vharness::puppet::*;
use vharness::refcrypto::*;
use vharness::tls::*;

struct Klog {
    path: Option<String>,
}
/// what an earlier program has left in the key log file
const EARLIER: &str = "# of an earlier session
SERVER_HANDSHAKE_TRAFFIC_SECRET 00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff 0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef
CLIENT_RANDOM 00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff 0123456789abcdef
";
/// key log lines: (label, client random, secret)
fn read_klog(p: &str) -> Vec<(String, Vec<u8>, Vec<u8>, bool)> {
    let t = std::fs::read(p).unwrap_or_default();
    let t = String::from_utf8_lossy(&t).to_string();
    let mut o = vec![];
    let ends = t.is_empty() || t.ends_with('\n');
    for (i, l) in t.lines().enumerate() {
        let f: Vec<&str> = l.split(' ').collect();
        let hexok = |s: &str| !s.is_empty() && s.len() % 2 == 0 && s.bytes().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(&c));
        let last = i + 1 == t.lines().count();
        if f.len() == 3 && hexok(f[1]) && hexok(f[2]) && (ends || !last) {
            o.push((f[0].to_string(), unhex(f[1]), unhex(f[2]), true));
        } else {
            o.push((l.to_string(), vec![], vec![], false));
        }
    }
    o
}
fn label(l: &str) -> &'static str {
    match l {
        "SERVER_HANDSHAKE_TRAFFIC_SECRET" => "shs",
        "CLIENT_HANDSHAKE_TRAFFIC_SECRET" => "chs",
        "SERVER_TRAFFIC_SECRET_0" => "sap",
        "CLIENT_TRAFFIC_SECRET_0" => "cap",
        _ => "?",
    }
}
fn klog_event(lines: &[(String, Vec<u8>, Vec<u8>, bool)], f: &Facts) -> J {
    let mut v = vec![];
    for l in lines {
        if !l.3 {
            v.push(J::from("bad"));
            continue;
        }
        let n = label(&l.0);
        let want = match n {
            "shs" => &f.s_hs,
            "chs" => &f.c_hs,
            "sap" => &f.s_ap,
            "cap" => &f.c_ap,
            _ => &f.cr_ctx,
        };
        if n == "?" || l.1 != f.client_random || *want != l.2 || want.is_empty() {
            v.push(J::Str(format!("bad-{n}")));
        } else {
            v.push(J::from(n));
        }
    }
    obj! {"t"=>"klog","v"=>J::Arr(v)}
}
/// signature nonce of a signature with known private key: k = (z + r d)/s mod n, up to sign
fn nonce_of(d: &U, z: &[u8], r: &U, s: &U) -> U {
    let n = &p256().n;
    let z = n.red(&u_from_be(&z[..32]));
    let rd = n.mul(r, d);
    let k = n.mul(&n.inv(s), &n.add(&z, &rd));
    let neg = u_sub(&n.m, &k).0;
    if u_cmp(&k, &neg) == std::cmp::Ordering::Less {
        k
    } else {
        neg
    }
}
fn observation(m: &Material, f: &Facts, role: &str, cfg: &J, c: usize) -> J {
    let mut o = obj! {"c"=>c};
    if role == "server" {
        o.set("random", J::Str(hex(&f.eut_random)));
        o.set("share", J::Str(hex(&f.eut_share)));
        o.set("ctx", J::Str(hex(&f.eut_ctx)));
    } else {
        o.set("random", J::Str(hex(&f.eut_random)));
        o.set("share", J::Str(hex(&f.eut_share)));
        o.set("sid", J::Str(hex(&f.eut_sid)));
    }
    if let Some((r, s, z)) = &f.sig {
        let name = if role == "server" { cfg.s("cert") } else { cfg.s("ccert") };
        let name = if name.is_empty() { "s_ok" } else { name };
        o.set("nonce", J::Str(hex(&u_to_be(&nonce_of(m.key(name), z, r, s)))));
        o.set("r", J::Str(hex(&u_to_be(r))));
    }
    o
}
fn end_event(o: &EutOut) -> J {
    obj! {"t"=>"end","res"=>o.res.as_str(),"err"=>o.err.as_str(),"code"=>error_code(&o.err),"panic"=>o.panic.as_str()}
}
fn split_at_hsres(log: Vec<J>) -> (J, Vec<J>) {
    let mut it = log.into_iter();
    let first = it.next().unwrap_or(J::Null);
    (first, it.collect())
}
/// one scripted connection; returns events and facts
#[allow(clippy::too_many_arguments)]
fn connection(m: &Material, run: &J, conn: &J, kind: &str, sconn: Option<Arc<anothertls::ServerConnection>>, addr: Option<std::net::SocketAddr>, cconf: Option<Arc<anothertls::net::client::ClientConfig>>, seed: u64, rng_seed: u64, foreign: Option<Facts>) -> (Vec<J>, Facts, EutOut) {
    let mut cfg = run.get("cfg").clone();
    if cfg.s("cert").is_empty() {
        cfg.set("cert", J::from("s_ok"));
    }
    let done = Arc::new(AtomicBool::new(false));
    let ops: Vec<J> = conn.a("ops").to_vec();
    let (sock, rx) = if kind == "server" {
        let rx = spawn(Kind::Server(sconn.unwrap()), ops, seed, 0, done.clone());
        let s = TcpStream::connect(addr.unwrap()).expect("connect");
        (s, rx)
    } else {
        let l = listener();
        let s = TcpStream::connect(l.local_addr().unwrap()).expect("connect");
        let rx = spawn(Kind::Client(s, cconf.unwrap()), ops, seed, 0, done.clone());
        (l.accept().expect("accept").0, rx)
    };
    let mut p = Puppet::new(m, sock, kind == "server", &cfg, rng_seed, conn.s("seg"), done);
    p.seed = seed;
    p.foreign = foreign;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        // the library may already write with the new numbers before the puppet
        // itself reaches its "jump" step: it has to know them from the start
        if let Some(j) = conn.a("steps").iter().find(|s| s.s("k") == "jump") {
            p.expect_jump(j.s("to"));
        }
        for s in conn.a("steps") {
            p.step(s);
        }
        p.finish();
    }));
    let mut ev = std::mem::take(&mut p.log);
    let facts = p.facts.clone();
    if r.is_err() {
        let msg = PANIC.with(|p| p.borrow().clone());
        ev.push(obj! {"t"=>"puppet-panic","msg"=>msg.as_str()});
    }
    let mut out = wait(rx, Duration::from_secs(6));
    p.sock.shutdown(Shutdown::Both).ok();
    let (h, app) = split_at_hsres(std::mem::take(&mut out.log));
    // verify function calls, in order, before the result
    for v in &out.vfn {
        ev.push(obj! {"t"=>"vfn","cn"=>v.as_str()});
    }
    let mut h = h;
    if out.res == "panic" {
        h.set("panic", J::Str(out.panic.clone()));
    }
    ev.push(h);
    ev.extend(app);
    if out.res == "panic" || out.res == "hang" {
        ev.push(end_event(&out));
    }
    (ev, facts, out)
}
fn scripted(m: &Material, run: &J, seed: u64, scratch: &str, idx: usize) -> J {
    let cfg = run.get("cfg");
    let role = run.s("role").to_string();
    let k = Klog { path: if cfg.b("keylog") { Some(format!("{scratch}/klog-{idx}.txt")) } else { None } };
    // the file may have entries of earlier sessions, which stay there
    let old = seed % 3 == 0;
    if let Some(p) = &k.path {
        std::fs::remove_file(p).ok();
        if old {
            std::fs::write(p, EARLIER).ok();
        }
    }
    let one = vec![obj! {"steps"=>run.get("steps").clone(),"ops"=>run.get("ops").clone(),"seg"=>run.get("seg").clone()}];
    let conns: Vec<J> = if run.has("conns") { run.a("conns").to_vec() } else { one };
    let mut sconn = None;
    let mut addr = None;
    let mut cconf = None;
    if role == "server" {
        let l = listener();
        addr = Some(l.local_addr().unwrap());
        sconn = Some(Arc::new(anothertls::ServerConnection::new(l, server_config(m, cfg, k.path.as_deref()))));
    } else {
        cconf = Some(Arc::new(client_config(m, cfg, k.path.as_deref())));
    }
    let mut evs: Vec<Vec<J>> = vec![];
    let mut facts: Vec<Facts> = vec![];
    if run.b("par") {
        std::thread::scope(|s| {
            let mut hs = vec![];
            for (c, conn) in conns.iter().enumerate() {
                let (sc, cc) = (sconn.clone(), cconf.clone());
                hs.push(s.spawn(move || connection(m, run, conn, if role_is_server(run) { "server" } else { "client" }, sc, addr, cc, seed, seed.wrapping_add(c as u64 * 7919), None)));
            }
            for h in hs {
                let (e, f, _) = h.join().expect("conn");
                evs.push(e);
                facts.push(f);
            }
        });
    } else {
        let mut prev = None;
        for (c, conn) in conns.iter().enumerate() {
            let (e, f, _) = connection(m, run, conn, &role, sconn.clone(), addr, cconf.clone(), seed.wrapping_add(c as u64 * 7919), seed.wrapping_add(c as u64 * 7919), prev.clone());
            if !f.verify_data.is_empty() || prev.is_none() {
                prev = Some(f.clone());
            }
            evs.push(e);
            facts.push(f);
        }
    }
    // key log: attribute lines to connections
    let mut kl: Vec<Vec<(String, Vec<u8>, Vec<u8>, bool)>> = vec![vec![]; conns.len()];
    let mut extra = 0;
    if let Some(p) = &k.path {
        if old && !std::fs::read(p).unwrap_or_default().starts_with(EARLIER.as_bytes()) {
            extra += 1000;
        }
        for l in read_klog(p).into_iter().skip(if old { EARLIER.lines().count() } else { 0 }) {
            match facts.iter().position(|f| l.3 && !f.client_random.is_empty() && f.client_random == l.1) {
                Some(c) => kl[c].push(l),
                None => extra += 1,
            }
        }
        std::fs::remove_file(p).ok();
    }
    if cfg.s("keylog") == "default" {
        for l in read_klog("keylog.txt") {
            match facts.iter().position(|f| l.3 && !f.client_random.is_empty() && f.client_random == l.1) {
                Some(c) => kl[c].push(l),
                None => extra += 1,
            }
        }
        std::fs::remove_file("keylog.txt").ok();
    }
    let stray = std::fs::read_dir(".").map(|d| d.count()).unwrap_or(0);
    let mut ev = vec![];
    let mut obs = vec![];
    for c in 0..conns.len() {
        ev.push(obj! {"t"=>"conn","c"=>c});
        ev.append(&mut evs[c]);
        let mut e = klog_event(&kl[c], &facts[c]);
        e.set("extra", J::Num(extra));
        e.set("stray", J::from(stray));
        ev.push(e);
        ev.push(obj! {"t"=>"fin"});
        obs.push(observation(m, &facts[c], &role, cfg, c));
    }
    let mut o = run.clone();
    if let J::Obj(v) = &mut o {
        v.retain(|(k, _)| !["steps", "ops", "conns"].contains(&k.as_str()));
    }
    o.set("ev", J::Arr(ev));
    o.set("obs", J::Arr(obs));
    o
}
fn role_is_server(run: &J) -> bool {
    run.s("role") == "server"
}
/// library client against library server through a relay that cuts the byte stream
fn pair(m: &Material, run: &J, seed: u64, scratch: &str, idx: usize) -> J {
    let cfg = run.get("cfg");
    let (ks, kc) = (format!("{scratch}/kp-s-{idx}.txt"), format!("{scratch}/kp-c-{idx}.txt"));
    for f in [&ks, &kc] {
        std::fs::remove_file(f).ok();
    }
    let l = listener();
    let saddr = l.local_addr().unwrap();
    let mut scfg = cfg.clone();
    scfg.set("sni", cfg.get("ssni").clone());
    let sconn = Arc::new(anothertls::ServerConnection::new(l, server_config(m, &scfg, Some(&ks))));
    let cconf = Arc::new(client_config(m, cfg, Some(&kc)));
    let relay = listener();
    let c = TcpStream::connect(relay.local_addr().unwrap()).expect("connect");
    let d1 = Arc::new(AtomicBool::new(false));
    let d2 = Arc::new(AtomicBool::new(false));
    let srx = spawn_until(Kind::Server(sconn), run.a("sops").to_vec(), seed, 0, d1.clone(), Some(d2.clone()));
    let crx = spawn_until(Kind::Client(c, cconf), run.a("cops").to_vec(), seed, 1, d2, Some(d1));
    let left = relay.accept().expect("accept").0;
    let right = TcpStream::connect(saddr).expect("connect");
    let cut = run.n("cut") as usize;
    let pump = |a: TcpStream, b: TcpStream, seed: u64| {
        std::thread::spawn(move || {
            use std::io::Read;
            let (mut a, mut b) = (a, b);
            b.set_nodelay(true).ok();
            let mut rng = Rng::new(seed);
            let mut buf = vec![0u8; 65536];
            let mut all = vec![];
            a.set_read_timeout(Some(Duration::from_secs(10))).ok();
            loop {
                let n = match a.read(&mut buf) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => n,
                };
                all.extend_from_slice(&buf[..n]);
                let mut p = 0;
                while p < n {
                    let k = if cut == 0 { n - p } else { (1 + rng.below(cut)).min(n - p) };
                    if b.write_all(&buf[p..p + k]).is_err() {
                        break;
                    }
                    p += k;
                    if cut > 0 {
                        std::thread::sleep(Duration::from_micros(150));
                    }
                }
            }
            b.shutdown(Shutdown::Write).ok();
            all
        })
    };
    let t1 = pump(left.try_clone().unwrap(), right.try_clone().unwrap(), seed ^ 1);
    let t2 = pump(right.try_clone().unwrap(), left.try_clone().unwrap(), seed ^ 2);
    let so = wait(srx, Duration::from_secs(25));
    let co = wait(crx, Duration::from_secs(25));
    left.shutdown(Shutdown::Both).ok();
    right.shutdown(Shutdown::Both).ok();
    let c2s = t1.join().unwrap_or_default();
    let s2c = t2.join().unwrap_or_default();
    let mut ev = vec![];
    for (w, o) in [("s", &so), ("c", &co)] {
        for e in &o.log {
            let mut e = e.clone();
            e.set("w", J::from(w));
            if e.s("t") == "hsres" && o.res == "panic" {
                e.set("panic", J::Str(o.panic.clone()));
            }
            ev.push(e);
        }
        for v in &o.vfn {
            ev.push(obj! {"t"=>"vfn","cn"=>v.as_str(),"w"=>w});
        }
    }
    let (lk_s, lk_c) = (read_klog(&ks), read_klog(&kc));
    let f = |l: &[(String, Vec<u8>, Vec<u8>, bool)]| {
        let mut m: Vec<(String, String, String)> = l.iter().map(|x| (label(&x.0).to_string(), hex(&x.1), hex(&x.2))).collect();
        m.sort();
        m
    };
    let same = f(&lk_s) == f(&lk_c) && lk_s.iter().chain(lk_c.iter()).all(|x| x.3);
    let rnd = lk_c.first().map(|x| x.1.clone()).unwrap_or_default();
    let onwire = c2s.len() > 43 && c2s[11..43] == rnd[..];
    ev.push(obj! {"t"=>"keys","same"=>same,"n"=>lk_s.len(),"rnd"=>onwire});
    // decrypt both directions with the logged secrets: exact record discipline
    let mut secs: HashMap<String, Vec<u8>> = HashMap::new();
    for x in &lk_s {
        secs.insert(label(&x.0).to_string(), x.2.clone());
    }
    let suite = sh_suite(&s2c);
    for (w, bytes, hs, ap) in [("s", &s2c, "shs", "sap"), ("c", &c2s, "chs", "cap")] {
        ev.push(records_summary(w, bytes, suite, secs.get(hs), secs.get(ap)));
    }
    for x in [&ks, &kc] {
        std::fs::remove_file(x).ok();
    }
    ev.push(obj! {"t"=>"fin"});
    let mut o = run.clone();
    if let J::Obj(v) = &mut o {
        v.retain(|(k, _)| !["sops", "cops"].contains(&k.as_str()));
    }
    o.set("ev", J::Arr(ev));
    o.set("obs", J::Arr(vec![]));
    o
}
fn sh_suite(b: &[u8]) -> Option<Suite> {
    if b.len() < 9 {
        return None;
    }
    let l = (b[3] as usize) << 8 | b[4] as usize;
    let h = parse_sh(b.get(9..5 + l)?).ok()?;
    Suite::from_u16(h.suites[0])
}
/// every protected record of one direction opens under hs/ap keys with consecutive sequence numbers
fn records_summary(w: &str, b: &[u8], suite: Option<Suite>, hs: Option<&Vec<u8>>, ap: Option<&Vec<u8>>) -> J {
    let (mut p, mut plain, mut nh, mut na, mut bad, mut big) = (0usize, 0, 0, 0, 0, 0);
    let mut kh = suite.and_then(|s| hs.map(|x| RecKey::new(s, x)));
    let mut ka = suite.and_then(|s| ap.map(|x| RecKey::new(s, x)));
    let mut prot = false;
    while p + 5 <= b.len() {
        let l = (b[p + 3] as usize) << 8 | b[p + 4] as usize;
        if p + 5 + l > b.len() {
            break;
        }
        let r = &b[p..p + 5 + l];
        p += 5 + l;
        if l > 16384 + 256 || r[1] != 3 {
            big += 1;
        }
        if r[0] != 23 {
            if prot && r[0] != 20 {
                bad += 1;
            }
            plain += 1;
            continue;
        }
        prot = true;
        let mut done = false;
        if na == 0 {
            if let Some(k) = kh.as_mut() {
                if let Some(_x) = k.open_at(k.seq, r) {
                    k.seq += 1;
                    nh += 1;
                    done = true;
                }
            }
        }
        if !done {
            if let Some(k) = ka.as_mut() {
                if let Some(x) = k.open_at(k.seq, r) {
                    k.seq += 1;
                    na += 1;
                    done = true;
                    if x.len() > 16385 {
                        big += 1;
                    }
                }
            }
        }
        if !done {
            bad += 1;
        }
    }
    obj! {"t"=>"recs","w"=>w,"plain"=>plain,"hs"=>nh,"ap"=>na,"bad"=>bad,"big"=>big,"rest"=>b.len()-p}
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let threads: usize = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(8);
    let seed: u64 = a.get(5).and_then(|x| x.parse().ok()).unwrap_or(1);
    let abs = |s: &str| std::path::absolute(s).unwrap().to_string_lossy().to_string();
    let (inp, outp, scratch) = (abs(&a[1]), abs(&a[2]), abs(&a[3]));
    std::fs::create_dir_all(format!("{scratch}/cwd")).unwrap();
    std::env::set_current_dir(format!("{scratch}/cwd")).unwrap();
    silence_panics();
    let m = Arc::new(Material::new(format!("{scratch}/mat").into(), seed));
    let text = std::fs::read_to_string(&inp).unwrap();
    let runs: Vec<J> = text.lines().filter(|l| !l.trim().is_empty()).map(|l| J::parse(l).expect("script")).collect();
    let n = runs.len();
    let runs = Arc::new(runs);
    let next = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(vec![String::new(); n]));
    // whatever is not done by then is left out
    let budget: u64 = std::env::var("HS_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(300);
    let hangs = Arc::new(AtomicUsize::new(0));
    let t_start = std::time::Instant::now();
    let hs: Vec<_> = (0..threads.max(1))
        .map(|w| {
            let (m, runs, next, out, scratch, hangs) = (m.clone(), runs.clone(), next.clone(), out.clone(), scratch.clone(), hangs.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= runs.len() || t_start.elapsed().as_secs() > budget || hangs.load(Ordering::SeqCst) > 20 {
                    return;
                }
                let r = &runs[i];
                let sd = (r.n_or("seed", 0) as u64).wrapping_add(seed.wrapping_mul(1_000_003)).wrapping_add(if r.has("seed") { 0 } else { i as u64 * 31 });
                std::fs::write(format!("{scratch}/at-{w}"), i.to_string()).ok();
                let t0 = std::time::Instant::now();
                let o = if r.s("role") == "pair" { pair(&m, r, sd, &scratch, i) } else { scripted(&m, r, sd, &scratch, i) };
                if std::env::var("HS_SLOW").is_ok() && t0.elapsed().as_millis() > 1000 {
                    eprintln!("slow: run {i} {} {:?}", r.s("id"), t0.elapsed());
                }
                let mut o = o;
                o.set("idx", J::from(i));
                o.set("ms", J::Num(t0.elapsed().as_millis() as i64));
                let text = o.dump();
                if text.contains("\"res\":\"hang\"") {
                    hangs.fetch_add(1, Ordering::SeqCst);
                }
                out.lock().unwrap()[i] = text;
            })
        })
        .collect();
    for h in hs {
        h.join().ok();
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&outp).unwrap());
    for l in out.lock().unwrap().iter().filter(|l| !l.is_empty()) {
        writeln!(f, "{l}").unwrap();
    }
    f.flush().unwrap();
    // leaked threads (hangs) must not keep the process alive
    std::process::exit(0);
}
