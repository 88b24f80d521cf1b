//! The puppet: a TLS 1.3 peer that follows a script and reports what it sees.
use crate::derx::*;
use crate::json::*;
use crate::net::*;
use crate::obj;
use crate::refcrypto::*;
use crate::tls::*;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::os::unix::io::{AsRawFd, RawFd};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const LIMIT: Duration = Duration::from_secs(20);

#[derive(Clone, Default)]
pub struct Facts {
    /// values for freshness and key log checks
    pub client_random: Vec<u8>,
    pub server_random: Vec<u8>,
    pub eut_share: Vec<u8>,
    pub eut_sid: Vec<u8>,
    /// what the library itself put on the wire
    pub eut_random: Vec<u8>,
    pub eut_ctx: Vec<u8>,
    pub cr_ctx: Vec<u8>,
    pub sig: Option<(U, U, Vec<u8>)>, // r, s, digest of the EUT's CertificateVerify
    pub c_hs: Vec<u8>,
    pub s_hs: Vec<u8>,
    pub c_ap: Vec<u8>,
    pub s_ap: Vec<u8>,
    pub verify_data: Vec<u8>,
    pub recs: Vec<Vec<u8>>,
    pub cv_sig: Vec<u8>,
}

/// "#300": a name of 300 bytes, "#300x": another one that differs in the last
/// byte, "#300y": in the first one
pub fn host_name(s: &str) -> String {
    match s.strip_prefix('#') {
        None => s.to_string(),
        Some(t) => {
            let n: usize = t.trim_end_matches(|c| c == 'x' || c == 'y').parse().unwrap();
            let mut o: Vec<u8> = (0..n).map(|i| if i % 40 == 39 { b'.' } else { b'a' + ((i * 7) % 23) as u8 }).collect();
            if t.ends_with('x') {
                o[n - 1] = b'z';
            }
            if t.ends_with('y') {
                o[0] = b'z';
            }
            String::from_utf8(o).unwrap()
        }
    }
}

pub struct Puppet<'a> {
    pub m: &'a Material,
    pub sock: TcpStream,
    pub is_client: bool,
    pub cfg: J,
    pub seed: u64,
    pub rng: Rng,
    pub log: Vec<J>,
    pub done: Arc<AtomicBool>,
    pub foreign: Option<Facts>,
    /// mutation of an inner structure (certificate, signature) of the next message
    inner_mut: Option<J>,
    /// something open-ended was sent: do not wait long for an answer
    hasty: bool,
    pub facts: Facts,
    seg: String,
    fd: Option<RawFd>,
    inb: Vec<u8>,
    eof: bool,
    dead: bool,
    out: Vec<u8>,
    join: Vec<u8>,
    join_lvl: i32,
    privk: [u8; 32],
    tr: Vec<u8>,
    tr_prev: Vec<u8>,
    tr_nocert: Vec<u8>,
    suite: Option<Suite>,
    sched: Option<Sched>,
    app: Option<(Vec<u8>, Vec<u8>)>,
    my_hs: Option<RecKey>,
    my_ap: Option<RecKey>,
    eut_hs: Option<RecKey>,
    eut_ap: Option<RecKey>,
    phase_w: i32,
    hsbuf: Vec<u8>,
    hslvl: i32,
    eut_fin: bool,
    ch: Hello,
    ch_seen: bool,
    sh_seen: bool,
    offered: Vec<u16>,
    sid_sent: Vec<u8>,
    eut_leaf: Vec<u8>,
    last_sent: Vec<u8>,
    first_sent: Vec<u8>,
    pub last_eut: Vec<u8>,
    woff: u64,
    roff: u64,
    my_cert_key: U,
    hold: bool,
    mid: String,
    hs_ty: u8,
    chain: String,
    jump: u64,
}

fn lvl_name(l: i32) -> &'static str {
    match l {
        0 => "plain",
        1 => "hs",
        2 => "ap",
        _ => "none",
    }
}

impl<'a> Puppet<'a> {
    pub fn new(m: &'a Material, sock: TcpStream, is_client: bool, cfg: &J, seed: u64, seg: &str, done: Arc<AtomicBool>) -> Puppet<'a> {
        sock.set_nodelay(true).ok();
        let mut rng = Rng::new(seed);
        let mut pk = [0u8; 32];
        pk.copy_from_slice(&rng.bytes(32));
        Puppet {
            m,
            sock,
            is_client,
            cfg: cfg.clone(),
            seed,
            rng,
            log: vec![],
            done,
            foreign: None,
            inner_mut: None,
            hasty: false,
            facts: Facts::default(),
            seg: if seg.is_empty() { "whole".into() } else { seg.into() },
            fd: None,
            inb: vec![],
            eof: false,
            dead: false,
            out: vec![],
            join: vec![],
            join_lvl: -1,
            privk: pk,
            tr: vec![],
            tr_prev: vec![],
            tr_nocert: vec![],
            suite: None,
            sched: None,
            app: None,
            my_hs: None,
            my_ap: None,
            eut_hs: None,
            eut_ap: None,
            phase_w: 0,
            hsbuf: vec![],
            hslvl: -1,
            eut_fin: false,
            ch: Hello::default(),
            ch_seen: false,
            sh_seen: false,
            offered: vec![],
            sid_sent: vec![],
            eut_leaf: vec![],
            last_sent: vec![],
            first_sent: vec![],
            last_eut: vec![],
            woff: 0,
            roff: 0,
            hold: false,
            mid: String::new(),
            hs_ty: 22,
            chain: String::new(),
            jump: 0,
            my_cert_key: [1, 0, 0, 0],
        }
    }
    // ------------------------------------------------------------ transport
    fn fill(&mut self, block: bool, until: Instant) -> bool {
        // read some bytes from the EUT; true if something changed
        if self.eof {
            return false;
        }
        let mut b = [0u8; 65536];
        if block {
            self.sock.set_nonblocking(false).ok();
            let left = until.saturating_duration_since(Instant::now()).max(Duration::from_millis(1));
            self.sock.set_read_timeout(Some(left)).ok();
        } else {
            self.sock.set_nonblocking(true).ok();
        }
        let r = self.sock.read(&mut b);
        self.sock.set_nonblocking(false).ok();
        match r {
            Ok(0) => {
                self.eof = true;
                true
            }
            Ok(n) => {
                self.inb.extend_from_slice(&b[..n]);
                if !self.hold {
                    self.parse();
                }
                true
            }
            Err(e) => match e.kind() {
                std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted => false,
                _ => {
                    self.eof = true;
                    true
                }
            },
        }
    }
    fn write_piece(&mut self, b: &[u8]) {
        if self.dead {
            return;
        }
        let mut off = 0;
        let t0 = Instant::now();
        while off < b.len() {
            self.sock.set_nonblocking(true).ok();
            let r = self.sock.write(&b[off..]);
            self.sock.set_nonblocking(false).ok();
            match r {
                Ok(n) => off += n,
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    if !self.fill(false, t0) {
                        std::thread::sleep(Duration::from_micros(200));
                    }
                    if t0.elapsed() > LIMIT {
                        self.dead = true;
                        return;
                    }
                }
                Err(_) => {
                    self.dead = true;
                    return;
                }
            }
        }
    }
    /// wait until the EUT has taken every byte out of its socket
    fn wait_taken(&mut self) {
        let t0 = Instant::now();
        let (l, r) = match (self.sock.local_addr(), self.sock.peer_addr()) {
            (Ok(l), Ok(r)) => (l, r),
            _ => return,
        };
        let mut spins = 0u32;
        loop {
            if self.dead || self.eof || self.done.load(Ordering::SeqCst) {
                return;
            }
            if self.fd.is_none() {
                self.fd = find_other_end(&l, &r);
            }
            if let Some(fd) = self.fd {
                if !is_other_end(fd, &l, &r) {
                    // closed (or not this connection any more)
                    self.fd = None;
                    if find_other_end(&l, &r).is_none() {
                        return;
                    }
                    continue;
                }
                if unread(fd) == Some(0) {
                    return;
                }
            }
            self.fill(false, t0);
            spins += 1;
            if spins < 50 {
                std::thread::yield_now();
            } else {
                std::thread::sleep(Duration::from_micros(60));
            }
            if t0.elapsed() > Duration::from_secs(5) {
                return;
            }
        }
    }
    fn flush_join(&mut self) {
        if self.join.is_empty() {
            return;
        }
        let b = std::mem::take(&mut self.join);
        let l = self.join_lvl;
        let r = self.protect(l, 22, &b, 0);
        self.push(r);
    }
    fn push(&mut self, rec: Vec<u8>) {
        self.out.extend(rec);
        if self.seg != "coal" {
            self.flush();
        }
    }
    pub fn flush(&mut self) {
        let b = std::mem::take(&mut self.out);
        if b.is_empty() {
            return;
        }
        // what the EUT answers is looked at after the step is recorded
        self.hold = true;
        let mut cuts: Vec<usize> = vec![];
        let s = self.seg.clone();
        if s == "byte" {
            cuts = (1..b.len()).collect();
        } else if let Some(n) = s.strip_prefix("cut") {
            let n: usize = n.parse().unwrap_or(7);
            cuts = (1..b.len()).filter(|i| i % n == 0).collect();
        } else if s == "hdr" {
            // cut inside and right after every record header
            let mut p = 0;
            while p + 5 <= b.len() {
                let l = (b[p + 3] as usize) << 8 | b[p + 4] as usize;
                cuts.push(p + 3);
                cuts.push(p + 5);
                p += 5 + l;
                cuts.push(p);
            }
        } else if s == "rand" || s == "sig" {
            let n = 1 + self.rng.below(6);
            for _ in 0..n {
                cuts.push(1 + self.rng.below(b.len()));
            }
        }
        cuts.retain(|&c| c > 0 && c < b.len());
        cuts.sort();
        cuts.dedup();
        cuts.push(b.len());
        let mut p = 0;
        for c in cuts {
            self.write_piece(&b[p..c]);
            self.wait_taken();
            if s == "sig" {
                // the library is interrupted where it waits for more
                for _ in 0..2 {
                    std::thread::sleep(Duration::from_micros(150));
                    interrupt(Arc::as_ptr(&self.done) as usize);
                }
            }
            p = c;
        }
    }
    fn pump_until<F: Fn(&Puppet) -> bool>(&mut self, f: F, idle: Duration) -> bool {
        self.flush_join();
        self.flush();
        self.release();
        let mut last = Instant::now();
        loop {
            if f(self) {
                return true;
            }
            if self.eof || last.elapsed() > idle {
                return f(self);
            }
            let until = last + idle;
            if self.fill(true, until) {
                last = Instant::now();
            }
        }
    }
    // ------------------------------------------------------------ reading
    fn parse(&mut self) {
        loop {
            if self.inb.len() < 5 {
                return;
            }
            let l = (self.inb[3] as usize) << 8 | self.inb[4] as usize;
            if self.inb.len() < 5 + l {
                return;
            }
            let rec: Vec<u8> = self.inb.drain(..5 + l).collect();
            self.record(&rec);
        }
    }
    fn record(&mut self, rec: &[u8]) {
        let ty = rec[0];
        let body = &rec[5..];
        let hdr_ok = (rec[1] == 3 && (rec[2] == 3 || (rec[2] == 1 && ty == 22))) && rec.len() - 5 <= 16384 + 256;
        self.facts.recs.push(rec.to_vec());
        if ty != 23 {
            let it = match ty {
                20 => "ccs",
                21 => "alert",
                22 => "hs",
                _ => "unk",
            };
            let ok = hdr_ok && (ty != 20 || body == [1]) && (ty == 20 || !body.is_empty()) && body.len() <= 16384;
            self.log.push(obj! {"t"=>"rec","o"=>ty as i64,"lvl"=>"plain","seq"=>0,"it"=>it,"len"=>body.len(),"ok"=>ok});
            match ty {
                21 => self.alert_out(0, body),
                22 => self.feed(0, body),
                _ => {}
            }
            return;
        }
        self.last_eut = rec.to_vec();
        let mut found = None;
        'o: for lvl in [2i32, 1] {
            let k = if lvl == 1 { &self.eut_hs } else { &self.eut_ap };
            if let Some(k) = k {
                if let Some(p) = k.open_at(k.seq, rec) {
                    found = Some((lvl, k.seq, p));
                    break 'o;
                }
            }
        }
        if found.is_none() {
            'p: for lvl in [2i32, 1] {
                let k = if lvl == 1 { &self.eut_hs } else { &self.eut_ap };
                if let Some(k) = k {
                    for s in (0..=k.seq.min(2000) + 20).chain([1u64 << 32, u64::MAX]).chain(self.jump..=self.jump.saturating_add(20)) {
                        if let Some(p) = k.open_at(s, rec) {
                            found = Some((lvl, s, p));
                            break 'p;
                        }
                    }
                }
            }
        }
        match found {
            None => {
                self.log.push(obj! {"t"=>"rec","o"=>23,"lvl"=>"none","seq"=>0,"it"=>"?","len"=>body.len(),"ok"=>hdr_ok});
            }
            Some((lvl, seq, p)) => {
                let k = if lvl == 1 { self.eut_hs.as_mut() } else { self.eut_ap.as_mut() };
                if let Some(k) = k {
                    k.seq = seq.wrapping_add(1);
                }
                let (it, c) = split_inner(&p).unwrap_or((0, vec![]));
                let n = match it {
                    20 => "ccs",
                    21 => "alert",
                    22 => "hs",
                    23 => "data",
                    _ => "unk",
                };
                let ok = hdr_ok && c.len() <= 16384 && p.len() <= 16385 && (it == 23 || !c.is_empty());
                self.log.push(obj! {"t"=>"rec","o"=>23,"lvl"=>lvl_name(lvl),"seq"=>self.seq_no(lvl, seq),"it"=>n,"len"=>c.len(),"ok"=>ok});
                match it {
                    21 => self.alert_out(lvl, &c),
                    22 => self.feed(lvl, &c),
                    23 => {
                        let exp = pats(self.seed, 1, self.roff, c.len());
                        let ok = exp == c;
                        self.log.push(obj! {"t"=>"dat","off"=>self.roff as i64,"len"=>c.len(),"ok"=>ok});
                        self.roff += c.len() as u64;
                    }
                    _ => {}
                }
            }
        }
    }
    /// the sequence numbers of both directions are going to jump
    pub fn expect_jump(&mut self, to: &str) {
        self.jump = jump_base(to);
    }
    /// sequence numbers after a jump are numbered from 1000000
    fn seq_no(&self, lvl: i32, seq: u64) -> i64 {
        if lvl == 2 && self.jump > 0 && seq >= self.jump {
            1000000 + (seq - self.jump) as i64
        } else {
            seq.min(999999) as i64
        }
    }
    fn alert_out(&mut self, lvl: i32, b: &[u8]) {
        let ok = b.len() == 2;
        self.log.push(obj! {"t"=>"alert","lvl"=>lvl_name(lvl),"level"=>b.get(0).copied().unwrap_or(0) as i64,"code"=>b.get(1).map(|x| *x as i64).unwrap_or(-1),"ok"=>ok});
    }
    fn feed(&mut self, lvl: i32, b: &[u8]) {
        self.hsbuf.extend_from_slice(b);
        self.hslvl = lvl;
        loop {
            if self.hsbuf.len() < 4 {
                return;
            }
            let l = (self.hsbuf[1] as usize) << 16 | (self.hsbuf[2] as usize) << 8 | self.hsbuf[3] as usize;
            if self.hsbuf.len() < 4 + l {
                return;
            }
            let raw: Vec<u8> = self.hsbuf.drain(..4 + l).collect();
            let name = hs_name(raw[0]);
            let mut ev = obj! {"t"=>"msg","m"=>name,"lvl"=>lvl_name(lvl)};
            let r = self.eut_msg(name, &raw, &mut ev);
            ev.set("ok", J::Bool(r.is_ok()));
            if let Err(e) = r {
                ev.set("why", J::Str(e));
            }
            self.log.push(ev);
        }
    }
    fn shared(&self, share: &[u8]) -> Vec<u8> {
        x25519(&self.privk, share).to_vec()
    }
    fn set_hs_keys(&mut self, suite: Suite, shared: &[u8]) {
        let s = Sched::new(suite, shared, &self.tr);
        self.facts.c_hs = s.c_hs.clone();
        self.facts.s_hs = s.s_hs.clone();
        let (c, v) = (RecKey::new(suite, &s.c_hs), RecKey::new(suite, &s.s_hs));
        if self.is_client {
            self.my_hs = Some(c);
            self.eut_hs = Some(v);
        } else {
            self.my_hs = Some(v);
            self.eut_hs = Some(c);
        }
        self.suite = Some(suite);
        self.sched = Some(s);
        self.phase_w = 1;
    }
    fn set_app_keys(&mut self) {
        let s = match &self.sched {
            Some(s) => s,
            None => return,
        };
        let (c, v) = s.app(&self.tr);
        let su = s.suite;
        self.facts.c_ap = c.clone();
        self.facts.s_ap = v.clone();
        self.app = Some((c.clone(), v.clone()));
        let (c, v) = (RecKey::new(su, &c), RecKey::new(su, &v));
        if self.is_client {
            self.my_ap = Some(c);
            self.eut_ap = Some(v);
        } else {
            self.my_ap = Some(v);
            self.eut_ap = Some(c);
        }
    }
    /// check one handshake message of the EUT against the reference
    fn eut_msg(&mut self, m: &str, raw: &[u8], ev: &mut J) -> Result<(), String> {
        let body = &raw[4..];
        let before = self.tr.clone();
        self.tr.extend_from_slice(raw);
        let err = |s: &str| Err(s.to_string());
        match m {
            "ch" => {
                self.tr = raw.to_vec();
                self.ch_seen = true;
                let h = parse_ch(body)?;
                self.facts.client_random = h.random.clone();
                self.facts.eut_random = h.random.clone();
                self.facts.eut_sid = h.sid.clone();
                self.offered = h.suites.clone();
                if let Some(k) = h.ext(0x33) {
                    self.facts.eut_share = k.get(6..).unwrap_or(&[]).to_vec();
                }
                let r = self.check_ch(&h);
                self.ch = h;
                r
            }
            "sh" => {
                self.sh_seen = true;
                let h = parse_sh(body)?;
                self.facts.server_random = h.random.clone();
                self.facts.eut_random = h.random.clone();
                let suite = h.suites[0];
                ev.set("suite", J::Num(suite as i64));
                let mut grp = 0;
                let mut share = vec![];
                if let Some(k) = h.ext(0x33) {
                    let mut c = Cur::new(k);
                    grp = c.u16()?;
                    share = c.v16()?.to_vec();
                    c.done()?;
                }
                ev.set("grp", J::Num(grp as i64));
                self.facts.eut_share = share.clone();
                ev.set("sid", J::Bool(h.sid == self.sid_sent));
                ev.set("ver", J::Bool(h.ext(0x2b) == Some(&[3, 4][..])));
                if !self.is_client {
                    return err("server hello from client");
                }
                if let Some(s) = Suite::from_u16(suite) {
                    if grp == 0x1d && share.len() == 32 {
                        let sh = self.shared(&share);
                        self.set_hs_keys(s, &sh);
                    }
                }
                if Suite::from_u16(suite).is_none() || !self.offered.contains(&suite) {
                    return err("suite not offered");
                }
                if grp != 0x1d || share.len() != 32 {
                    return err("key share");
                }
                if h.ext(0x2b) != Some(&[3, 4][..]) {
                    return err("version");
                }
                if h.sid != self.sid_sent {
                    return err("session id echo");
                }
                if h.exts.iter().any(|e| e.0 != 0x2b && e.0 != 0x33) {
                    return err("unexpected extension");
                }
                Ok(())
            }
            "ee" => {
                let mut c = Cur::new(body);
                let e = parse_exts(c.v16()?)?;
                c.done()?;
                if e.iter().any(|x| ![0u16, 10, 16].contains(&x.0)) {
                    return err("extension");
                }
                Ok(())
            }
            "cr" => {
                let mut c = Cur::new(body);
                let ctx = c.v8()?.to_vec();
                let e = parse_exts(c.v16()?)?;
                c.done()?;
                self.facts.cr_ctx = ctx.clone();
                self.facts.eut_ctx = ctx.clone();
                let sa = e.iter().find(|x| x.0 == 13).ok_or("no signature_algorithms")?;
                let mut c = Cur::new(&sa.1);
                let l = c.v16()?;
                c.done()?;
                if l.len() % 2 != 0 || !l.chunks(2).any(|x| x == [4, 3]) {
                    return err("signature_algorithms");
                }
                Ok(())
            }
            "cert" => {
                self.tr_nocert = before;
                let mut c = Cur::new(body);
                let ctx = c.v8()?;
                let list = c.v24()?;
                c.done()?;
                let want_ctx: &[u8] = if self.is_client { &[] } else { &self.facts.cr_ctx };
                if ctx != want_ctx {
                    return err("request context");
                }
                let mut c = Cur::new(list);
                let mut n = 0;
                while !c.end() {
                    let d = c.v24()?.to_vec();
                    let e = c.v16()?;
                    parse_exts(e)?;
                    if n == 0 {
                        self.eut_leaf = d;
                    }
                    n += 1;
                }
                ev.set("n", J::Num(n));
                let want = if self.is_client { self.cfg.s("cert").to_string() } else { self.cfg.s("ccert").to_string() };
                if want.is_empty() {
                    return if n == 0 { Ok(()) } else { err("certificate although none configured") };
                }
                if n == 0 {
                    return err("no certificate");
                }
                if self.eut_leaf != self.m.der(&want) {
                    return err("other certificate");
                }
                Ok(())
            }
            "cv" => {
                let mut c = Cur::new(body);
                let scheme = c.u16()?;
                let sig = c.v16()?.to_vec();
                c.done()?;
                if scheme != 0x0403 {
                    return err("scheme");
                }
                self.facts.cv_sig = sig.clone();
                let h = self.suite.ok_or("no suite")?.hash();
                let who = if self.is_client { "server" } else { "client" };
                let content = cv_content(h, who, &before);
                let (r, s) = sig_strict(&sig)?;
                self.facts.sig = Some((r, s, sha256(&content)));
                let name = if self.is_client { self.cfg.s("cert").to_string() } else { self.cfg.s("ccert").to_string() };
                if name.is_empty() {
                    return err("certificate verify without certificate");
                }
                let q = p256().pubkey(self.m.key(&name));
                if !p256().verify(&q.0, &q.1, &sha256(&content), &r, &s) {
                    return err("signature does not verify");
                }
                Ok(())
            }
            "fin" => {
                let s = self.sched.clone().ok_or("no keys")?;
                let sec = if self.is_client { &s.s_hs } else { &s.c_hs };
                let want = s.finished(sec, &before);
                self.eut_fin = true;
                if self.is_client {
                    self.set_app_keys();
                }
                if want != body {
                    return err("verify data");
                }
                Ok(())
            }
            _ => err("unexpected message type"),
        }
    }
    fn check_ch(&self, h: &Hello) -> Result<(), String> {
        let err = |s: &str| Err(s.to_string());
        if h.sid.len() != 32 {
            return err("session id");
        }
        for s in [0x1301u16, 0x1302, 0x1303] {
            if h.suites.iter().filter(|x| **x == s).count() != 1 {
                return err("suites");
            }
        }
        if h.suites.len() != 3 {
            return err("suites");
        }
        let v = h.ext(0x2b).ok_or("no supported_versions")?;
        if v != [2, 3, 4] {
            return err("supported_versions");
        }
        let ks = parse_shares(h.ext(0x33).ok_or("no key_share")?)?;
        if ks.len() != 1 || ks[0].0 != 0x1d || ks[0].1.len() != 32 {
            return err("key_share");
        }
        let sa = h.ext(13).ok_or("no signature_algorithms")?;
        let mut c = Cur::new(sa);
        let l = c.v16()?;
        c.done()?;
        if !l.chunks(2).any(|x| x == [4, 3]) {
            return err("signature_algorithms");
        }
        let g = h.ext(10).ok_or("no supported_groups")?;
        let mut c = Cur::new(g);
        let l = c.v16()?;
        c.done()?;
        if !l.chunks(2).any(|x| x == [0, 0x1d]) {
            return err("supported_groups");
        }
        let want = host_name(self.cfg.s("sni"));
        match h.ext(0) {
            None => {
                if !want.is_empty() {
                    return err("server name missing");
                }
            }
            Some(b) => {
                if want.is_empty() {
                    return err("server name although none configured");
                }
                let mut c = Cur::new(b);
                let l = c.v16()?;
                c.done()?;
                let mut c = Cur::new(l);
                if c.u8()? != 0 || c.v16()? != want.as_bytes() {
                    return err("server name differs");
                }
                c.done()?;
            }
        }
        Ok(())
    }
    // ------------------------------------------------------------ writing
    fn protect(&mut self, lvl: i32, ty: u8, b: &[u8], pad: usize) -> Vec<u8> {
        let r = match lvl {
            1 => self.my_hs.as_mut().unwrap().seal(ty, b, pad),
            2 => self.my_ap.as_mut().unwrap().seal(ty, b, pad),
            _ => plain_record(ty, b),
        };
        if lvl > 0 {
            let seq = if lvl == 2 { self.my_ap.as_ref() } else { self.my_hs.as_ref() }.map(|k| k.seq).unwrap_or(0);
            if seq == 1 {
                self.first_sent = r.clone();
            }
            self.last_sent = r.clone();
        }
        r
    }
    /// Produce the wire bytes of one record under protection variant `e`; None if impossible now.
    fn wire(&mut self, e: &str, ty: u8, b: &[u8], pad: usize) -> Option<Vec<u8>> {
        let lvl = self.phase_w;
        let have = |p: &Puppet, l: i32| (l == 1 && p.my_hs.is_some()) || (l == 2 && p.my_ap.is_some()) || l == 0;
        let cur = |p: &Puppet| if lvl == 2 { p.my_ap.clone() } else { p.my_hs.clone() };
        Some(match e {
            "" | "ok" => {
                if !have(self, lvl) {
                    return None;
                }
                self.protect(lvl, ty, b, pad)
            }
            "plain" => plain_record(ty, b),
            "hs" => {
                self.my_hs.as_ref()?;
                self.protect(1, ty, b, pad)
            }
            "ap" => {
                self.my_ap.as_ref()?;
                self.protect(2, ty, b, pad)
            }
            "badtag" | "tagzero" | "splice" | "badct" | "badver" | "badlen" | "skip" | "back" | "short" | "outer22" => {
                let mut k = cur(self)?;
                if e == "skip" {
                    k.seq = k.seq.wrapping_add(1 + self.rng.below(3) as u64);
                }
                if e == "back" {
                    if k.seq == 0 {
                        k.seq = 5;
                    }
                    k.seq -= 1;
                }
                let mut r = k.seal_at(k.seq, ty, b, pad);
                let n = r.len();
                match e {
                    "badtag" => {
                        let i = n - 1 - self.rng.below(16);
                        r[i] ^= 1 << self.rng.below(8);
                    }
                    "tagzero" => r[n - 16..].fill(0),
                    "splice" => {
                        let l = self.last_sent.len();
                        if l < 16 {
                            return None;
                        }
                        r[n - 16..].copy_from_slice(&self.last_sent[l - 16..]);
                    }
                    "badct" => {
                        let i = 5 + self.rng.below(n - 5 - 16);
                        r[i] ^= 1 << self.rng.below(8);
                    }
                    "badver" => r[2] = 1,
                    "badlen" => {
                        // one byte cut off, header adjusted
                        r.pop();
                        let l = r.len() - 5;
                        r[3] = (l >> 8) as u8;
                        r[4] = l as u8;
                    }
                    "short" => {
                        // shorter than a tag
                        let l = self.rng.below(16);
                        r.truncate(5 + l);
                        r[3] = 0;
                        r[4] = l as u8;
                    }
                    "outer22" => r[0] = 22,
                    _ => {}
                }
                r
            }
            "wrongkey" => {
                let mut k = cur(self)?;
                k.key[3] ^= 0x40;
                k.seal_at(k.seq, ty, b, pad)
            }
            "wrongiv" => {
                let mut k = cur(self)?;
                k.iv[2] ^= 0x10;
                k.seal_at(k.seq, ty, b, pad)
            }
            "eutkey" => {
                let k = if lvl == 2 { self.eut_ap.clone() } else { self.eut_hs.clone() }?;
                k.seal_at(cur(self)?.seq, ty, b, pad)
            }
            "replay" => {
                if self.last_sent.is_empty() {
                    return None;
                }
                self.last_sent.clone()
            }
            "first" => {
                if self.first_sent.is_empty() {
                    return None;
                }
                self.first_sent.clone()
            }
            "reflect" => {
                if self.last_eut.is_empty() {
                    return None;
                }
                self.last_eut.clone()
            }
            "cross" => {
                let f = self.foreign.as_ref()?;
                let su = self.suite?;
                let sec = match (self.is_client, lvl == 2) {
                    (true, false) => &f.c_hs,
                    (true, true) => &f.c_ap,
                    (false, false) => &f.s_hs,
                    (false, true) => &f.s_ap,
                };
                if sec.is_empty() {
                    return None;
                }
                let k = RecKey::new(su, sec);
                k.seal_at(cur(self)?.seq, ty, b, pad)
            }
            _ => return None,
        })
    }
    fn my_secret(&self) -> Option<Vec<u8>> {
        self.sched.as_ref().map(|s| if self.is_client { s.c_hs.clone() } else { s.s_hs.clone() })
    }
    fn eut_secret(&self) -> Option<Vec<u8>> {
        self.sched.as_ref().map(|s| if self.is_client { s.s_hs.clone() } else { s.c_hs.clone() })
    }
    fn share_bytes(&mut self, v: &str) -> Vec<u8> {
        let good = x25519_base(&self.privk).to_vec();
        match v {
            "zero" => vec![0; 32],
            "one" => {
                let mut a = vec![0; 32];
                a[0] = 1;
                a
            }
            "ord8" => unhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
            "pm1" => unhex("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
            "p" => unhex("edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
            "short" => good[..31].to_vec(),
            "long" => [good, vec![0]].concat(),
            "empty" => vec![],
            "len1" => vec![9],
            // non-canonical and high-bit encodings of a good share
            "highbit" => {
                let mut g = good;
                g[31] |= 0x80;
                g
            }
            _ => good,
        }
    }
    fn build(&mut self, st: &J) -> Option<Vec<u8>> {
        let m = st.s("m").to_string();
        let mut v = st.s("v").to_string();
        if v == "mut" {
            v = st.s("of").to_string();
        }
        self.hasty |= st.has("mut");
        let inner = st.has("mut") && !st.get("mut").s("in").is_empty();
        self.inner_mut = inner.then(|| st.get("mut").clone());
        let body = match m.as_str() {
            "ch" => self.build_ch(st),
            "sh" => self.build_sh(st),
            "ee" => match v.as_str() {
                "groups" => v16(&ext(10, &v16(&[0, 0x1d, 0, 0x17]))),
                "alpn" => v16(&ext(16, &v16(&v8(b"h2")))),
                "sniack" => v16(&ext(0, b"")),
                "unknown" => v16(&ext(0x2a2a, b"xyz")),
                "trail" => [v16(b""), vec![1]].concat(),
                "noblock" => vec![],
                _ => v16(b""),
            },
            "cr" => {
                let ctx: Vec<u8> = match v.as_str() {
                    "ctx" => self.rng.bytes(32),
                    "ctx1" => vec![7],
                    "ctx255" => self.rng.bytes(255),
                    _ => vec![],
                };
                let exts = match v.as_str() {
                    "noalg" => vec![],
                    "more" => [ext(13, &v16(&[4, 3, 8, 4, 8, 7])), ext(47, &v16(b"")), ext(0x2a2a, b"")].concat(),
                    "list" => ext(13, &v16(&[8, 4, 4, 3, 5, 3])),
                    "rsa" => ext(13, &v16(&[8, 4])),
                    _ => ext(13, &v16(&[4, 3])),
                };
                self.facts.cr_ctx = ctx.clone();
                match v.as_str() {
                    "trunc" => vec![32, 1, 2],
                    "empty" => vec![],
                    "badext" => [v8(&ctx), vec![0, 9, 0]].concat(),
                    _ => [v8(&ctx), v16(&exts)].concat(),
                }
            }
            "cert" => {
                let b = self.build_cert(&v);
                self.inner_mut = None;
                b
            }
            "cv" => {
                let b = self.build_cv(&v);
                self.inner_mut = None;
                b?
            }
            "fin" => {
                let sched = self.sched.clone()?;
                let sec = self.my_secret()?;
                let ok = sched.finished(&sec, &self.tr);
                match v.as_str() {
                    "bit" => {
                        let mut b = ok;
                        let i = self.rng.below(b.len());
                        b[i] ^= 1 << self.rng.below(8);
                        b
                    }
                    "first" => {
                        let mut b = ok;
                        b[0] ^= 0x80;
                        b
                    }
                    "last" => {
                        let mut b = ok;
                        let n = b.len();
                        b[n - 1] ^= 1;
                        b
                    }
                    // changes that a weak comparison (sums, folds, parts,
                    // any order) does not notice
                    "pair" => {
                        let mut b = ok;
                        let (i, x) = (self.rng.below(b.len() - 1), 1 << self.rng.below(8));
                        let j = i + 1 + self.rng.below(b.len() - 1 - i);
                        b[i] ^= x;
                        b[j] ^= x;
                        b
                    }
                    "swap2" => {
                        let mut b = ok;
                        let n = b.len();
                        let i = (0..n - 1).find(|i| b[*i] != b[*i + 1]).unwrap_or(0);
                        b.swap(i, i + 1);
                        b
                    }
                    "rev" => ok.into_iter().rev().collect(),
                    "rot" => [&ok[1..], &ok[..1]].concat(),
                    "carry" => {
                        let mut b = ok;
                        let i = (0..b.len() - 1).find(|i| b[*i] < 255 && b[*i + 1] > 0).unwrap_or(0);
                        b[i] = b[i].wrapping_add(1);
                        b[i + 1] = b[i + 1].wrapping_sub(1);
                        b
                    }
                    "tailbad" => [&ok[..12], &self.rng.bytes(ok.len() - 12)[..]].concat(),
                    "headbad" => [&self.rng.bytes(ok.len() - 12)[..], &ok[ok.len() - 12..]].concat(),
                    "random" => self.rng.bytes(ok.len()),
                    "not" => ok.iter().map(|x| !x).collect(),
                    "trunc" => ok[..ok.len() - 1].to_vec(),
                    "half" => ok[..ok.len() / 2].to_vec(),
                    "ext" => [ok, vec![0]].concat(),
                    "dbl" => [ok.clone(), ok].concat(),
                    "empty" => vec![],
                    "zero" => vec![0; ok.len()],
                    "peerkey" => sched.finished(&self.eut_secret()?, &self.tr),
                    "prevts" => sched.finished(&sec, &self.tr_prev),
                    "chonly" => sched.finished(&sec, &self.ch_bytes()),
                    "emptyts" => sched.finished(&sec, b""),
                    "nomac" => sched.suite.hash().h(&self.tr),
                    "rawmac" => hmac(sched.suite.hash(), &sec, &sched.suite.hash().h(&self.tr)),
                    "appkey" => {
                        let a = self.app.clone()?;
                        sched.finished(if self.is_client { &a.0 } else { &a.1 }, &self.tr)
                    }
                    "master" => sched.finished(&sched.master.clone(), &self.tr),
                    "stale" => {
                        let f = self.foreign.as_ref()?;
                        if f.verify_data.is_empty() {
                            return None;
                        }
                        f.verify_data.clone()
                    }
                    _ => ok,
                }
            }
            "nst" => [vec![0, 0, 0, 9, 1, 2, 3, 4], v8(&[0]), v16(b"ticket"), v16(b"")].concat(),
            "ku" => vec![0],
            "eoed" => vec![],
            "mh" => vec![0; 32],
            _ => vec![1, 2, 3],
        };
        let mut ty = hs_type(&m);
        if v == "ty" {
            ty = st.n("ty") as u8;
        }
        let mut raw = hs_msg(ty, &body);
        if v == "hlen+" {
            raw[3] = raw[3].wrapping_add(1);
        }
        if v == "hlen-" {
            raw[3] = raw[3].wrapping_sub(1);
        }
        if v == "hlenmax" {
            raw[1] = 0xff;
        }
        if st.has("mut") && !inner {
            raw = mutate(raw, st.get("mut"));
        }
        if m == "fin" {
            self.facts.verify_data = body.clone();
        }
        Some(raw)
    }
    fn ch_bytes(&self) -> Vec<u8> {
        // first handshake message of the transcript
        if self.tr.len() < 4 {
            return vec![];
        }
        let l = (self.tr[1] as usize) << 16 | (self.tr[2] as usize) << 8 | self.tr[3] as usize;
        self.tr[..(4 + l).min(self.tr.len())].to_vec()
    }
    fn build_ch(&mut self, st: &J) -> Vec<u8> {
        let v = st.s("v").to_string();
        let random = self.rng.bytes(32);
        let nsid = st.n_or("sid", 32) as usize;
        let sid = self.rng.bytes(nsid);
        let suites: Vec<u16> = if st.has("suites") { st.a("suites").iter().map(|x| x.as_n() as u16).collect() } else { vec![0x1301] };
        let mut sb = vec![];
        for s in &suites {
            sb.extend(s.to_be_bytes());
        }
        let shares: Vec<String> = if st.has("shares") { st.a("shares").iter().map(|x| x.as_str().to_string()).collect() } else { vec!["x25519".into()] };
        let mut kb = vec![];
        for g in &shares {
            let data = match g.as_str() {
                "p256" => {
                    let q = p256().pubkey(&[7, 0, 0, 0]);
                    point_bytes(&q)
                }
                "p384" => vec![4; 97],
                "x448" => vec![5; 56],
                "grease" => vec![0],
                "kyber" => vec![6; 1216],
                "p521" => vec![4; 133],
                "ffdhe" => vec![9; 256],
                "p256_empty" => vec![],
                x => {
                    let v = x.strip_prefix("x25519:").unwrap_or("");
                    let v = v.to_string();
                    self.share_bytes(&v)
                }
            };
            let id = group_id(g.split(|c| c == ':' || c == '_').next().unwrap());
            kb.extend(id.to_be_bytes());
            kb.extend(v16(&data));
        }
        let vers: Vec<u16> = if st.has("vers") { st.a("vers").iter().map(|x| x.as_n() as u16).collect() } else { vec![0x0304] };
        let mut vb = vec![];
        for x in &vers {
            vb.extend(x.to_be_bytes());
        }
        let mut exts: Vec<Vec<u8>> = vec![];
        let sni = host_name(st.s("sni"));
        if !sni.is_empty() && sni != "none" {
            exts.push(ext(0, &v16(&[vec![0], v16(sni.as_bytes())].concat())));
        }
        if v == "snidup" {
            exts.push(ext(0, &v16(&[vec![0], v16(host_name(st.s("sni2")).as_bytes())].concat())));
        }
        if v == "sniempty" {
            exts.push(ext(0, &v16(b"")));
        }
        if v == "snitype" {
            exts.push(ext(0, &v16(&[vec![1], v16(b"abc")].concat())));
        }
        exts.push(ext(10, &v16(&[0, 0x1d, 0, 0x17, 0, 0x18])));
        if st.has("sigs") {
            let sg: Vec<u8> = st.a("sigs").iter().flat_map(|x| (x.as_n() as u16).to_be_bytes()).collect();
            if !sg.is_empty() {
                exts.push(ext(13, &v16(&sg)));
            }
        } else {
            exts.push(ext(13, &v16(&[4, 3, 8, 4, 4, 1, 5, 3])));
        }
        if st.n("grease") > 0 {
            exts.insert(0, ext(0x3a3a, b""));
            exts.push(ext(0x23, b""));
            exts.push(ext(0x16, b""));
            exts.push(ext(0x17, b""));
            exts.push(ext(0x2d, &[1, 1]));
            exts.push(ext(0x10, &v16(&[v8(b"h2"), v8(b"http/1.1")].concat())));
            exts.push(ext(0x15, &vec![0; st.n("grease") as usize]));
        }
        if !vers.is_empty() {
            exts.push(ext(0x2b, &v8(&vb)));
        }
        if !shares.is_empty() && v != "ksempty" {
            exts.push(ext(0x33, &v16(&kb)));
        }
        if st.b("rev") {
            exts.reverse();
        }
        if st.n("rot") > 0 {
            let k = st.n("rot") as usize % exts.len();
            exts.rotate_left(k);
        }
        if v == "ksempty" {
            exts.push(ext(0x33, &v16(b"")));
        }
        // the same extension once more, with the same contents or others
        let again = match v.as_str() {
            "dupall" => exts.clone(),
            "dupvers" => vec![ext(0x2b, &v8(&[3, 3]))],
            "dupshare" => vec![ext(0x33, &v16(&[u16b(0x17).to_vec(), v16(&[4; 65])].concat()))],
            "dupsigs" => vec![ext(13, &v16(&[8, 4]))],
            "duplist" => vec![ext(0, &v16(&[vec![0], v16(b"a.example"), vec![0], v16(b"b.example")].concat()))],
            "odd" => vec![ext(0x2b, b""), ext(0x33, b""), ext(13, b""), ext(10, b"")],
            _ => vec![],
        };
        exts.extend(again);
        let mut comp = v8(&[0]);
        if v == "comp2" {
            comp = v8(&[1, 0]);
        }
        let mut legacy = [3u8, 3];
        if v == "legacy" {
            legacy = [3, 1];
        }
        self.offered = suites;
        self.sid_sent = sid.clone();
        if self.facts.client_random.is_empty() {
            self.facts.client_random = random.clone();
        }
        let eb = exts.concat();
        match v.as_str() {
            "extlen+" => [&legacy[..], &random, &v8(&sid), &v16(&sb), &comp, &u16b(eb.len() + 1), &eb].concat(),
            "extlen-" => [&legacy[..], &random, &v8(&sid), &v16(&sb), &comp, &u16b(eb.len() - 1), &eb].concat(),
            "noext" => [&legacy[..], &random, &v8(&sid), &v16(&sb), &comp].concat(),
            "oddsuites" => [&legacy[..], &random, &v8(&sid), &v16(&[&sb[..], &[1]].concat()), &comp, &v16(&eb)].concat(),
            "trail" => [&legacy[..], &random, &v8(&sid), &v16(&sb), &comp, &v16(&eb), &[0u8][..]].concat(),
            "tiny" => vec![3, 3],
            "empty" => vec![],
            _ => [&legacy[..], &random, &v8(&sid), &v16(&sb), &comp, &v16(&eb)].concat(),
        }
    }
    fn build_sh(&mut self, st: &J) -> Vec<u8> {
        let v = st.s("v").to_string();
        let mut random = self.rng.bytes(32);
        if v == "hrr" {
            random = unhex("cf21ad74e59a6111be1d8c021e65b891c2a211167abb8c5e079e09e2c8a8339c");
        }
        let suite = st.n_or("suite", 0x1301) as u16;
        let sid = match st.s("sid") {
            "diff" => self.rng.bytes(32),
            "bit" => {
                let mut s = self.ch.sid.clone();
                if s.is_empty() {
                    s = vec![1; 32];
                }
                let n = s.len();
                s[n - 1] ^= 1;
                s
            }
            x @ ("first" | "mid" | "last" | "swap") => {
                let mut s = self.ch.sid.clone();
                if s.len() < 2 {
                    s = vec![1; 32];
                }
                let n = s.len();
                match x {
                    "first" => s[0] ^= 0x80,
                    "mid" => s[n / 2] ^= 0x10,
                    "last" => s[n - 1] = s[n - 1].wrapping_add(1),
                    // the same bytes in another order
                    _ => {
                        let was = s.clone();
                        s.rotate_left(1);
                        if s == was {
                            s[0] ^= 1;
                        }
                    }
                }
                s
            }
            "long" => {
                let mut s = self.ch.sid.clone();
                s.push(0);
                s
            }
            "zero" => vec![0; self.ch.sid.len().max(1)],
            "empty" => vec![],
            "short" => self.ch.sid.get(..16).map(|x| x.to_vec()).unwrap_or_default(),
            _ => self.ch.sid.clone(),
        };
        // steer the shared secret where asked for
        let share = self.ch.ext(0x33).and_then(|b| parse_shares(b).ok()).and_then(|s| s.get(0).map(|x| x.1.clone())).unwrap_or_default();
        if share.len() == 32 {
            match st.s("steer") {
                "z0" => {
                    while self.shared(&share)[0] != 0 {
                        let b = self.rng.bytes(32);
                        self.privk.copy_from_slice(&b);
                    }
                }
                "z31" => {
                    while self.shared(&share)[31] != 0 {
                        let b = self.rng.bytes(32);
                        self.privk.copy_from_slice(&b);
                    }
                }
                "p0" => {
                    while x25519_base(&self.privk)[0] != 0 {
                        let b = self.rng.bytes(32);
                        self.privk.copy_from_slice(&b);
                    }
                }
                "p31" => {
                    while x25519_base(&self.privk)[31] != 0 {
                        let b = self.rng.bytes(32);
                        self.privk.copy_from_slice(&b);
                    }
                }
                _ => {}
            }
        }
        let grp = if st.has("grp") { st.s("grp").to_string() } else { "x25519".into() };
        let sv = st.s("share").to_string();
        let data = match grp.as_str() {
            "p256" => point_bytes(&p256().pubkey(&[7, 0, 0, 0])),
            "x448" => vec![5; 56],
            "grease" => vec![0],
            _ => self.share_bytes(&sv),
        };
        let ks = ext(0x33, &[&group_id(&grp).to_be_bytes()[..], &v16(&data)].concat());
        let sel = st.n_or("ver", 0x0304) as u16;
        let sve = ext(0x2b, &sel.to_be_bytes());
        let mut exts = vec![];
        if v != "novers" {
            exts.push(sve.clone());
        }
        if v != "noks" {
            exts.push(ks.clone());
        }
        if st.b("rev") {
            exts.reverse();
        }
        if v == "unkext" {
            exts.push(ext(0x2a2a, b"q"));
        }
        if v == "unkext0" {
            exts.insert(0, ext(0x2a2a, b""));
        }
        let old = ext(0x2b, &[3, 3]);
        let other = ext(0x33, &[&0x17u16.to_be_bytes()[..], &v16(&point_bytes(&p256().pubkey(&[7, 0, 0, 0])))].concat());
        let mine = ext(0x33, &[&0x1du16.to_be_bytes()[..], &v16(&self.rng.bytes(32))].concat());
        match v.as_str() {
            "dupver" => exts.push(old),
            "dupver0" => exts.insert(0, old),
            "dupks" => exts.push(other),
            "dupks0" => exts.insert(0, other),
            "dupkey" => exts.push(mine),
            "dupkey0" => exts.insert(0, mine),
            "dupall" => exts.extend(exts.clone()),
            _ => {}
        }
        let legacy = if v == "legacy" { [3u8, 2] } else { [3, 3] };
        self.facts.server_random = random.clone();
        let eb = exts.concat();
        // what a correct client derives from this hello
        if v == "trail" {
            return [&legacy[..], &random, &v8(&sid), &suite.to_be_bytes(), &[0], &v16(&eb), &[0u8][..]].concat();
        }
        if v == "comp" {
            return [&legacy[..], &random, &v8(&sid), &suite.to_be_bytes(), &[1], &v16(&eb)].concat();
        }
        [&legacy[..], &random, &v8(&sid), &suite.to_be_bytes(), &[0], &v16(&eb)].concat()
    }
    /// after a ServerHello of the puppet was put on the wire: derive keys
    fn after_sh(&mut self, st: &J) {
        let share = self.ch.ext(0x33).and_then(|b| parse_shares(b).ok()).and_then(|s| s.get(0).map(|x| x.1.clone())).unwrap_or_default();
        if share.len() != 32 {
            return;
        }
        let suite = Suite::from_u16(st.n_or("suite", 0x1301) as u16).unwrap_or(Suite::Aes128);
        let mut sh = self.shared(&share);
        if st.s("share") == "zero" {
            sh = vec![0; 32];
        }
        self.set_hs_keys(suite, &sh);
    }
    fn build_cert(&mut self, v: &str) -> Vec<u8> {
        let name = match v {
            "" | "ok" | "ty" | "ctxbad" | "ctxempty" | "ctxlong" | "chain2" | "trail" | "ext" | "ctxother" | "ctxpre" => {
                if self.is_client {
                    "c_ok"
                } else {
                    "s_ok"
                }
            }
            x => x,
        };
        let mut ctx: Vec<u8> = if self.is_client { self.facts.cr_ctx.clone() } else { vec![] };
        match v {
            "ctxbad" => {
                if ctx.is_empty() {
                    ctx = vec![1];
                } else {
                    let i = self.rng.below(ctx.len());
                    ctx[i] ^= 1 << self.rng.below(8);
                }
            }
            "ctxempty" => ctx = vec![],
            "ctxlong" => ctx.push(0),
            "ctxpre" => {
                ctx.pop();
            }
            "ctxother" => ctx = self.foreign.as_ref().map(|f| f.cr_ctx.clone()).filter(|c| !c.is_empty()).unwrap_or(vec![3; 32]),
            _ => {}
        }
        match v {
            "empty" => return [v8(&ctx), v24(b"")].concat(),
            "nothing" => return vec![],
            "ctxover" => return vec![200, 1, 2],
            "listover" => return [v8(&ctx), vec![0, 9, 9, 0, 0, 5, 1]].concat(),
            "list1" => return [v8(&ctx), v24(&[1])].concat(),
            "list2" => return [v8(&ctx), v24(&[0, 0])].concat(),
            "list3" => return [v8(&ctx), v24(&[0, 0, 1])].concat(),
            "list4" => return [v8(&ctx), v24(&[0, 0, 1, 0x30])].concat(),
            "noexts" => {
                let d = self.m.der(if self.is_client { "c_ok" } else { "s_ok" }).to_vec();
                return [v8(&ctx), v24(&v24(&d))].concat();
            }
            "extover" => {
                let d = self.m.der(if self.is_client { "c_ok" } else { "s_ok" }).to_vec();
                return [v8(&ctx), v24(&[v24(&d), vec![0, 9, 1]].concat())].concat();
            }
            "zerolen" => return [v8(&ctx), v24(&[v24(b""), v16(b"")].concat())].concat(),
            "garbage" => {
                let g = self.rng.bytes(200);
                return [v8(&ctx), v24(&[v24(&g), v16(b"")].concat())].concat();
            }
            "truncder" => {
                let d = self.m.der(if self.is_client { "c_ok" } else { "s_ok" });
                let n = d.len() / 2;
                return [v8(&ctx), v24(&[v24(&d[..n]), v16(b"")].concat())].concat();
            }
            _ => {}
        }
        if !self.m.certs.contains_key(name) {
            return [v8(&ctx), v24(b"")].concat();
        }
        let mut der = self.m.der(name).to_vec();
        self.my_cert_key = *self.m.key(name);
        if let Some(mu) = &self.inner_mut {
            der = mutate(der, mu);
        }
        let mut entry = [v24(&der), v16(b"")].concat();
        if v == "ext" {
            entry = [v24(&der), v16(&ext(5, &[1, 0, 0, 1, 0]))].concat();
        }
        if !self.chain.is_empty() && self.m.certs.contains_key(&self.chain) {
            let c = self.m.der(&self.chain);
            entry = [entry, v24(c), v16(b"")].concat();
        }
        if v == "chain2" {
            let ca = self.m.der(if self.is_client { "ca" } else { "s_other" });
            entry = [entry, v24(ca), v16(b"")].concat();
        }
        let mut o = [v8(&ctx), v24(&entry)].concat();
        if v == "trail" {
            o.push(0);
        }
        o
    }
    fn build_cv(&mut self, v: &str) -> Option<Vec<u8>> {
        let h = self.suite?.hash();
        let mut label = if self.is_client { "client" } else { "server" };
        let mut tr = self.tr.clone();
        let mut d = self.my_cert_key;
        match v {
            "peerlabel" => label = if self.is_client { "server" } else { "client" },
            "prevts" => tr = self.tr_prev.clone(),
            "chts" => tr = self.ch_bytes(),
            "emptyts" => tr = vec![],
            "otherkey" => d = *self.m.key("stranger"),
            _ => {}
        }
        let content = match v {
            "nolabel" => h.h(&tr),
            "plainhash" => [vec![0x20u8; 64], h.h(&tr)].concat(),
            "pad63" => cv_content(h, label, &tr)[1..].to_vec(),
            "notr" => {
                let c = cv_content(h, label, &tr);
                c[..c.len() - h.h(&tr).len()].to_vec()
            }
            "halftr" => {
                let c = cv_content(h, label, &tr);
                c[..c.len() - 16].to_vec()
            }
            _ => cv_content(h, label, &tr),
        };
        let (mut r, mut s) = ecdsa_sign(&d, &content, &mut self.rng);
        match v {
            "rbit" => r[0] ^= 1,
            "sbit" => s[0] ^= 1,
            "swap" => std::mem::swap(&mut r, &mut s),
            "zero" => {
                r = [0; 4];
                s = [0; 4];
            }
            "szero" => s = [0; 4],
            "r1" => r = [1, 0, 0, 0],
            "s1" => s = [1, 0, 0, 0],
            "rs1" => {
                r = [1, 0, 0, 0];
                s = [1, 0, 0, 0];
            }
            "rs" => s = r,
            "small" => {
                r = [1, 0, 0, 0];
                s = [2, 0, 0, 0];
            }
            "rs1023" => {
                r = [1023, 0, 0, 0];
                s = [1023, 0, 0, 0];
            }
            "rn" => {
                r = p256_n();
            }
            "sn" => {
                s = p256_n();
            }
            _ => {}
        }
        let mut der = sig_der(&r, &s);
        match v {
            "der0" => der = vec![],
            "dergarbage" => der = self.rng.bytes(70),
            "dertrunc" => {
                der.pop();
            }
            "dertrail" => der.push(0),
            // other encodings of integers, and other integers
            "bigr" | "rplusn" | "splusn" | "int70" | "int200" | "padint" | "longlen" | "three" | "oneint" | "noint" | "int0" | "octets" | "set" | "indef"
            | "ints4" => {
                let be = |x: &U| -> Vec<u8> { x.iter().rev().flat_map(|w| w.to_be_bytes()).collect() };
                let plus = |x: &U, y: &U| -> Vec<u8> {
                    let (mut o, mut c) = (vec![], 0u128);
                    for i in 0..4 {
                        c += x[i] as u128 + y[i] as u128;
                        o.push(c as u64);
                        c >>= 64;
                    }
                    [vec![c as u8], o.iter().rev().flat_map(|w| w.to_be_bytes()).collect()].concat()
                };
                let min = |b: Vec<u8>| -> Vec<u8> {
                    let mut b: Vec<u8> = b.into_iter().skip_while(|x| *x == 0).collect();
                    if b.is_empty() || b[0] >= 0x80 {
                        b.insert(0, 0);
                    }
                    b
                };
                let (mut a, mut b) = (min(be(&r)), min(be(&s)));
                match v {
                    "bigr" => a = [vec![1], be(&r)].concat(),
                    "rplusn" => a = min(plus(&r, &p256_n())),
                    "splusn" => b = min(plus(&s, &p256_n())),
                    "int70" => a = [vec![1; 38], be(&r)].concat(),
                    "int200" => {
                        a = [vec![1; 168], be(&r)].concat();
                        b = [vec![1; 168], be(&s)].concat();
                    }
                    "padint" => a = [vec![0; 5], be(&r)].concat(),
                    "int0" => b = vec![],
                    "ints4" => a = vec![0; 4],
                    _ => {}
                }
                let (x, y) = (tlv(2, &a), tlv(2, &b));
                der = match v {
                    "longlen" => [vec![0x30, 0x82, 0, (x.len() + y.len()) as u8], x, y].concat(),
                    "three" => tlv(0x30, &[x, y, tlv(2, &[1])].concat()),
                    "oneint" => tlv(0x30, &x),
                    "noint" => tlv(0x30, &[]),
                    "octets" => tlv(0x30, &[tlv(4, &a), y].concat()),
                    "set" => tlv(0x31, &[x, y].concat()),
                    "indef" => [vec![0x30, 0x80], x, y, vec![0, 0]].concat(),
                    _ => tlv(0x30, &[x, y].concat()),
                };
            }
            "stale" => {
                let f = self.foreign.as_ref()?;
                if f.cv_sig.is_empty() {
                    return None;
                }
                der = f.cv_sig.clone()
            }
            "reflect" => {
                if self.facts.cv_sig.is_empty() {
                    return None;
                }
                der = self.facts.cv_sig.clone()
            }
            _ => {}
        }
        if let Some(mu) = &self.inner_mut {
            der = mutate(der, mu);
        }
        let scheme: [u8; 2] = match v {
            "rsa" => [8, 4],
            "s384" => [5, 3],
            "s521" => [6, 3],
            "ed25519" => [8, 7],
            "s0" => [0, 0],
            _ => [4, 3],
        };
        Some(match v {
            "nothing" => vec![],
            "one" => vec![4],
            "schemeonly" => vec![4, 3],
            "lenover" => [&scheme[..], &u16b(der.len() + 1), &der].concat(),
            "lenunder" => [&scheme[..], &u16b(der.len() - 1), &der].concat(),
            "trail" => [&scheme[..], &v16(&der), &[0u8][..]].concat(),
            _ => [&scheme[..], &v16(&der)].concat(),
        })
    }
    fn need_keys(&mut self) {
        let idle = Duration::from_millis(if self.hasty { 300 } else { 4000 });
        if self.is_client {
            if !self.eut_fin && !self.eof && self.phase_w < 2 {
                self.pump_until(|p| p.eut_fin, idle);
            }
        } else if !self.ch_seen {
            self.pump_until(|p| p.ch_seen, idle);
        }
    }
    // ------------------------------------------------------------ script
    pub fn step(&mut self, st: &J) {
        self.step_inner(st);
        self.release();
    }
    fn release(&mut self) {
        self.hold = false;
        self.parse();
    }
    fn step_inner(&mut self, st: &J) {
        let k = st.s("k").to_string();
        let mut e = st.s("e").to_string();
        if (e == "hs" || e == "ap") && k != "ccs" {
            if !(self.is_client && !self.ch_seen) {
                self.need_keys();
            }
            if (e == "hs" && self.phase_w == 1) || (e == "ap" && self.phase_w == 2) {
                e = String::new(); // what an honest peer does
            }
        }
        let mut ev = st.clone();
        ev.set("t", J::from("in"));
        match k.as_str() {
            "hs" => {
                let m = st.s("m").to_string();
                let first = self.is_client && m == "ch" && !self.ch_seen;
                if !first {
                    self.need_keys();
                }
                if !self.is_client && !self.ch_seen {
                    return;
                }
                let lvl = self.phase_w;
                self.chain = st.s("chain").to_string();
                let raw = match self.build(st) {
                    Some(r) => r,
                    None => return,
                };
                // another message (or the beginning of one) packed behind this one
                let mut sent = raw.clone();
                match st.s("tail") {
                    "msg" => sent.extend(match m.as_str() {
                        "sh" => hs_msg(8, &[0, 0]),
                        "ch" => hs_msg(20, &[7; 32]),
                        _ => hs_msg(24, &[0]),
                    }),
                    // the message that is due next, which the peer counts as sent
                    "next" => sent.extend(hs_msg(8, &[0, 0])),
                    "part" => sent.extend([8u8, 0]),
                    "one" => sent.push(20),
                    _ => {}
                }
                let auth = e.is_empty() || e == "ok";
                let natural_plain = lvl == 0 && (auth || e == "plain");
                if auth || natural_plain {
                    if st.b("join") {
                        if !self.join.is_empty() && self.join_lvl != lvl {
                            self.flush_join();
                        }
                        self.join.extend_from_slice(&sent);
                        self.join_lvl = lvl;
                    } else if !self.join.is_empty() {
                        self.join.extend_from_slice(&sent);
                        if self.join_lvl != lvl {
                            return;
                        }
                        let f = st.n("frag") as usize;
                        let b = std::mem::take(&mut self.join);
                        self.mid = st.s("mid").to_string();
                        self.send_hs(lvl, &b, f, st.n("pad") as usize);
                        self.mid.clear();
                    } else {
                        self.mid = st.s("mid").to_string();
                        if st.has("ct") {
                            // the right message under another content type
                            self.hs_ty = st.n("ct") as u8;
                        }
                        self.send_hs(lvl, &sent, st.n("frag") as usize, st.n("pad") as usize);
                        self.hs_ty = 22;
                        self.mid.clear();
                    }
                    self.log.push(ev);
                    if lvl == 2 || st.b("nt") {
                        return; // not part of the transcript
                    }
                    self.tr_prev = self.tr.clone();
                    if m == "cert" {
                        self.tr_nocert = self.tr.clone();
                    }
                    if first {
                        self.tr = raw.clone();
                        self.ch_seen = true;
                    } else {
                        self.tr.extend_from_slice(&raw);
                    }
                    if m == "sh" && !self.is_client && lvl == 0 {
                        if st.s("v") != "noks" {
                            self.flush_join_if_needed(st);
                            self.after_sh(st);
                        }
                        if st.s("tail") == "next" {
                            self.tr.extend_from_slice(&hs_msg(8, &[0, 0]));
                        }
                    }
                    if m == "fin" && lvl == 1 {
                        if !self.is_client {
                            self.set_app_keys();
                        }
                        self.flush_join_if_needed(st);
                        if self.my_ap.is_some() && !st.b("join") {
                            self.phase_w = 2;
                        }
                    }
                } else {
                    self.flush_join();
                    // "clear": in the clear, and the peer counts it as sent
                    let how = if e == "clear" { "plain" } else { e.as_str() };
                    if let Some(w) = self.wire(how, 22, &raw, st.n("pad") as usize) {
                        self.push(w);
                        self.log.push(ev);
                        if e == "clear" && lvl == 1 {
                            self.tr_prev = self.tr.clone();
                            if m == "cert" {
                                self.tr_nocert = self.tr.clone();
                            }
                            self.tr.extend_from_slice(&raw);
                            if m == "fin" {
                                if !self.is_client {
                                    self.set_app_keys();
                                }
                                if self.my_ap.is_some() {
                                    self.phase_w = 2;
                                }
                            }
                        }
                        if m == "fin" && self.phase_w == 1 && self.my_ap.is_some() && e == "ap" {
                            self.phase_w = 1;
                        }
                    }
                }
            }
            "ccs" => {
                if !e.is_empty() && e != "plain" {
                    self.need_keys();
                }
                self.flush_join();
                let w = if e.is_empty() || e == "plain" { Some(plain_record(20, &[1])) } else { self.wire(&e, 20, &[1], 0) };
                if let Some(w) = w {
                    self.push(w);
                    self.log.push(ev);
                }
            }
            "alert" => {
                if e != "plain" {
                    if !(self.is_client && !self.ch_seen) {
                        self.need_keys();
                    }
                }
                self.flush_join();
                let b: Vec<u8> = match st.s("v") {
                    "short" => vec![2],
                    "empty" => vec![],
                    "long" => vec![2, st.n("code") as u8, 0],
                    _ => vec![st.n_or("level", 2) as u8, st.n("code") as u8],
                };
                if let Some(w) = self.wire(&e, 21, &b, st.n("pad") as usize) {
                    self.push(w);
                    self.log.push(ev);
                }
            }
            "data" => {
                if !(self.is_client && !self.ch_seen) {
                    self.need_keys();
                }
                self.flush_join();
                let n = st.n("n") as usize;
                let ok = e.is_empty() || e == "ok";
                let b = if ok { pats(self.seed, 0, self.woff, n) } else { self.rng.bytes(n) };
                if let Some(w) = self.wire(&e, 23, &b, st.n("pad") as usize) {
                    if ok && self.phase_w == 2 {
                        ev.set("off", J::Num(self.woff as i64));
                        self.woff += n as u64;
                    }
                    if st.b("drop") {
                        // sealed but never sent: a record lost on the way
                        ev.set("t", J::from("in"));
                    } else {
                        self.push(w);
                    }
                    self.log.push(ev);
                }
            }
            "swap" => {
                // two authentic data records delivered in the wrong order
                self.need_keys();
                self.flush_join();
                if self.phase_w == 2 {
                    let n = st.n("n") as usize;
                    let a = pats(self.seed, 0, self.woff, n);
                    let b = pats(self.seed, 0, self.woff + n as u64, n);
                    let (wa, wb) = (self.protect(2, 23, &a, 0), self.protect(2, 23, &b, 0));
                    self.push(wb);
                    self.push(wa);
                    self.woff += 2 * n as u64;
                    self.log.push(ev);
                }
            }
            "inner" => {
                // protected record with an unusual inner type
                self.need_keys();
                self.flush_join();
                let b = self.rng.bytes(st.n("n") as usize);
                if let Some(w) = self.wire(&e, st.n("ty") as u8, &b, st.n("pad") as usize) {
                    self.push(w);
                    self.log.push(ev);
                }
            }
            "raw" => {
                if !(self.is_client && !self.ch_seen) && st.b("late") {
                    self.need_keys();
                }
                self.flush_join();
                let b = if st.has("hex") { unhex(st.s("hex")) } else { let n = st.n("n") as usize; self.rng.bytes(n) };
                self.push(b);
                self.hasty = true;
                self.log.push(ev);
            }
            "rec" => {
                if !(self.is_client && !self.ch_seen) {
                    self.need_keys();
                }
                self.flush_join();
                let n = st.n("n") as usize;
                let b = if st.has("hex") { unhex(st.s("hex")) } else { self.rng.bytes(n) };
                self.push(plain_record(st.n("ty") as u8, &b));
                self.log.push(ev);
            }
            "await" => {
                let n = st.n("n") as u64;
                self.pump_until(|p| p.roff >= n, LIMIT);
            }
            "flight" => self.need_keys(),
            "jump" => {
                // continue at another sequence number, in both directions
                self.need_keys();
                self.flush_join();
                self.flush();
                self.jump = jump_base(st.s("to"));
                if let Some(k) = self.my_ap.as_mut() {
                    k.seq = self.jump;
                }
            }
            "close" => {
                self.flush_join();
                self.flush();
                self.sock.shutdown(Shutdown::Write).ok();
                self.dead = true;
                self.log.push(ev);
            }
            "rst" => {
                if !(self.is_client && !self.ch_seen) {
                    self.need_keys();
                }
                self.flush_join();
                self.flush();
                self.wait_taken();
                std::thread::sleep(Duration::from_millis(2));
                reset(self.sock.as_raw_fd());
                self.dead = true;
                self.eof = true;
                self.log.push(ev);
            }
            "cut" => {
                // first part of an (otherwise authentic) record, then the connection ends
                if !(self.is_client && !self.ch_seen) {
                    self.need_keys();
                }
                self.flush_join();
                let b = pats(self.seed, 0, self.woff, 40);
                let w = self.wire("ok", 23, &b, 0).unwrap_or(plain_record(22, &b));
                let n = (st.n("n") as usize).min(w.len() - 1);
                self.push(w[..n].to_vec());
                self.flush();
                self.sock.shutdown(Shutdown::Write).ok();
                self.dead = true;
                self.log.push(ev);
            }
            _ => {}
        }
    }
    fn flush_join_if_needed(&mut self, st: &J) {
        if !st.b("join") {
            // message already sent
        }
    }
    fn send_hs(&mut self, lvl: i32, b: &[u8], frag: usize, pad: usize) {
        if (lvl == 1 && self.my_hs.is_none()) || (lvl == 2 && self.my_ap.is_none()) {
            return;
        }
        let max = if frag == 0 { (16384 - pad.min(16000)) } else { frag };
        let chunks: Vec<Vec<u8>> = if b.is_empty() { vec![vec![]] } else { b.chunks(max).map(|c| c.to_vec()).collect() };
        for (i, c) in chunks.iter().enumerate() {
            let w = self.protect(lvl, self.hs_ty, c, pad);
            self.push(w);
            if i == 0 && chunks.len() > 1 {
                // something else between the fragments of a message
                let w = match self.mid.as_str() {
                    "ccs" => plain_record(20, &[1]),
                    "alert" => self.protect(lvl, 21, &[2, 40], 0),
                    "data" => self.protect(lvl, 23, &[1, 2, 3], 0),
                    "empty" => self.protect(lvl, 22, &[], 0),
                    _ => continue,
                };
                self.push(w);
            }
        }
    }
    pub fn finish(&mut self) {
        self.flush_join();
        self.flush();
        self.sock.shutdown(Shutdown::Write).ok();
        let t0 = Instant::now();
        self.release();
        while !self.eof && t0.elapsed() < LIMIT {
            self.fill(true, t0 + LIMIT);
        }
        if !self.inb.is_empty() {
            self.log.push(obj! {"t"=>"rec","o"=>self.inb[0] as i64,"lvl"=>"none","seq"=>0,"it"=>"partial","len"=>self.inb.len(),"ok"=>false});
        }
        if !self.hsbuf.is_empty() {
            self.log.push(obj! {"t"=>"msg","m"=>"partial","lvl"=>lvl_name(self.hslvl),"ok"=>false});
        }
    }
}
pub fn p256_n() -> U {
    u_hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551")
}
/// byte-level mutation of a handshake message
pub fn mutate(mut raw: Vec<u8>, mu: &J) -> Vec<u8> {
    let n = raw.len();
    let pos = if n == 0 { 0 } else { (mu.n("pos") as usize) % n };
    let val = mu.n("val") as u8;
    match mu.s("op") {
        "trunc" => raw.truncate(pos),
        "flip" => raw[pos] ^= if val == 0 { 1 } else { val },
        "set" => raw[pos] = val,
        "add" => raw[pos] = raw[pos].wrapping_add(val),
        "ins" => raw.insert(pos, val),
        "del" => {
            raw.remove(pos);
        }
        "dup" => {
            let t = raw[pos..].to_vec();
            raw.extend(t);
        }
        _ => {}
    }
    if mu.b("fix") && raw.len() >= 4 {
        let l = raw.len() - 4;
        raw[1..4].copy_from_slice(&u24b(l));
    }
    raw
}

/// sequence numbers worth a visit
pub fn jump_base(to: &str) -> u64 {
    match to {
        "u8" => 0xfe,
        "u16" => 0xfffe,
        "u24" => 0xff_fffe,
        "u31" => 0x7fff_fffe,
        "u32" => 0xffff_fffe,
        "u40" => 0xff_ffff_fffe,
        "u48" => 0xffff_ffff_fffe,
        "u56" => 0xff_ffff_ffff_fffe,
        "i64" => i64::MAX as u64 - 1,
        "end" => u64::MAX - 3,
        _ => 0x1234_5678_9abc_def0,
    }
}
