//! Running the library (the element under test) in a thread of its own.
use vharness::json::*;
use vharness::net::*;
use vharness::obj;
use vharness::tls::*;
use anothertls::net::alert::TlsError;
use anothertls::net::client::ClientConfig;
use anothertls::net::server::ServerConfig;
use anothertls::net::TlsStream;
use anothertls::rand::PRNG;
use anothertls::utils::x509::X509;
use anothertls::{ClientConfigBuilder, ClientConnection, ServerConfigBuilder, ServerConnection};
use std::cell::RefCell;
use std::net::{TcpListener, TcpStream};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::Arc;
use std::time::Duration;

thread_local! {
    /// certificates seen by the custom verify function in this thread
    pub static VFN: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
fn vfn_seen(c: &X509) -> String {
    let cn = c.tbs_certificate.subject.get("commonName").unwrap_or_default();
    VFN.with(|v| v.borrow_mut().push(cn.clone()));
    cn
}
pub fn vfn_yes(c: &X509) -> bool {
    vfn_seen(c);
    true
}
pub fn vfn_no(c: &X509) -> bool {
    vfn_seen(c);
    false
}
pub fn vfn_cn(c: &X509) -> bool {
    vfn_seen(c) != "denied"
}
// ------------------------------------------------------------------ a clock that stands still
thread_local! { static FROZEN: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
#[repr(C)]
pub struct Ts {
    s: i64,
    n: i64,
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
/// replaces libc's: with HS_CLOCK set, time stands still for the library's threads
#[no_mangle]
pub extern "C" fn clock_gettime(clk: i32, ts: *mut Ts) -> i32 {
    let t = FROZEN.try_with(|c| c.get()).unwrap_or(0);
    if t != 0 && (clk < 2 || clk > 3) {
        unsafe {
            (*ts).s = t;
            (*ts).n = 123_456_789;
        }
        return 0;
    }
    unsafe { syscall(228, clk as i64, ts) as i32 }
}
fn freeze() {
    if let Some(t) = std::env::var("HS_CLOCK").ok().and_then(|x| x.parse().ok()) {
        FROZEN.with(|c| c.set(t));
    }
}
pub fn silence_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
pub fn server_config(m: &Material, cfg: &J, klog: Option<&str>) -> ServerConfig {
    let cert = if cfg.s("cert").is_empty() { "s_ok" } else { cfg.s("cert") };
    let mut b = ServerConfigBuilder::new().add_cert_pem(m.path(&format!("{cert}.pem"))).add_privkey_pem(m.path(&format!("{cert}.key")));
    if cfg.b("auth") {
        let ca = if cfg.s("ca").is_empty() { "ca" } else { cfg.s("ca") };
        b = b.add_client_cert_ca(m.path(&format!("{ca}.pem")));
        match cfg.s("verify") {
            "yes" => b = b.set_client_cert_custom_verify_fn(vfn_yes),
            "no" => b = b.set_client_cert_custom_verify_fn(vfn_no),
            "cn" => b = b.set_client_cert_custom_verify_fn(vfn_cn),
            _ => {}
        }
    }
    if !cfg.s("sni").is_empty() {
        b = b.set_server_name(vharness::puppet::host_name(cfg.s("sni")));
    }
    if cfg.s("prng") == "simple" {
        b = b.set_prng(PRNG::Simple);
    }
    if let Some(k) = klog {
        b = b.set_keylog_path(k.to_string());
    } else if cfg.s("keylog") == "default" {
        b = b.enable_keylog();
    }
    b.build().expect("server config")
}
pub fn client_config(m: &Material, cfg: &J, klog: Option<&str>) -> ClientConfig {
    let mut b = ClientConfigBuilder::new();
    let c = cfg.s("ccert");
    if !c.is_empty() {
        b = b.add_client_cert_pem(m.path(&format!("{c}.pem"))).add_client_key_pem(m.path(&format!("{c}.key")));
    }
    if !cfg.s("sni").is_empty() {
        b = b.set_server_name(vharness::puppet::host_name(cfg.s("sni")));
    }
    if let Some(k) = klog {
        b = b.set_keylog_path(k.to_string());
    } else if cfg.s("keylog") == "default" {
        b = b.enable_keylog();
    }
    b.build().expect("client config")
}
pub fn err_name(e: &TlsError) -> String {
    format!("{e:?}")
}
/// application phase of the library side
fn app(stream: &mut TlsStream, ops: &[J], seed: u64, rdir: u64, log: &mut Vec<J>) {
    let (mut roff, mut woff) = (0u64, 0u64);
    let wdir = 1 - rdir;
    let read = |stream: &mut TlsStream, n: usize, roff: &mut u64, log: &mut Vec<J>| -> bool {
        let mut buf = vec![0xEEu8; n];
        match stream.tls_read(&mut buf) {
            Ok(k) => {
                let ok = k <= n && buf[..k.min(n)] == pats(seed, rdir, *roff, k.min(n))[..];
                log.push(obj! {"t"=>"eut","op"=>"r","n"=>n,"res"=>"ok","off"=>*roff as i64,"len"=>k,"ok"=>ok});
                *roff += k as u64;
                true
            }
            Err(e) => {
                log.push(obj! {"t"=>"eut","op"=>"r","n"=>n,"res"=>"err","err"=>err_name(&e).as_str(),"code"=>error_code(&err_name(&e)),"off"=>*roff as i64,"len"=>0,"ok"=>true});
                false
            }
        }
    };
    for o in ops {
        let n = o.n("n") as usize;
        match o.s("op") {
            "w" => {
                let b = pats(seed, wdir, woff, n);
                match stream.tls_write(&b) {
                    Ok(()) => {
                        log.push(obj! {"t"=>"eut","op"=>"w","n"=>n,"res"=>"ok","off"=>woff as i64,"len"=>n,"ok"=>true});
                        woff += n as u64;
                    }
                    Err(e) => {
                        log.push(obj! {"t"=>"eut","op"=>"w","n"=>n,"res"=>"err","err"=>err_name(&e).as_str(),"code"=>error_code(&err_name(&e)),"off"=>woff as i64,"len"=>0,"ok"=>true});
                    }
                }
            }
            "r" => {
                read(stream, n, &mut roff, log);
            }
            "rall" => {
                // read until `until` bytes arrived; one summary event
                let until = o.n("until") as u64;
                let start = roff;
                let mut tmp = vec![];
                let mut good = true;
                while roff < until {
                    tmp.clear();
                    if !read(stream, n, &mut roff, &mut tmp) {
                        break;
                    }
                    // (no bytes would mean the end of the stream)
                    good = good && tmp[0].b("ok") && (n == 0 || tmp[0].n("len") > 0);
                }
                let last_err = tmp.last().map(|e| e.s("res") == "err").unwrap_or(false);
                log.push(obj! {"t"=>"eut","op"=>"r","n"=>n,"res"=>"ok","off"=>start as i64,"len"=>(roff-start) as i64,"ok"=>good,"all"=>true});
                if last_err {
                    log.push(tmp.pop().unwrap());
                }
            }
            "seq" => {
                // verification hook: continue at another sequence number
                let base = vharness::puppet::jump_base(o.s("to"));
                #[cfg(not(verif_hooks))]
                let _ = base;
                #[cfg(verif_hooks)]
                if let Some(p) = stream.protection.as_mut() {
                    if let Some(k) = p.application_keys.as_mut() {
                        k.client.set_sequence_number(base);
                        k.server.set_sequence_number(base);
                    }
                }
                log.push(obj! {"t"=>"eut","op"=>"seq","n"=>0,"res"=>"ok","off"=>0,"len"=>0,"ok"=>true});
            }
            "rerr" => {
                // read until an error shows, then a few times more
                let mut errs = 0;
                let mut total = 0;
                while errs < o.n_or("max", 3) && total < 10000 {
                    total += 1;
                    if !read(stream, n, &mut roff, log) {
                        errs += 1;
                    }
                }
            }
            _ => {}
        }
    }
}
pub struct EutOut {
    pub res: String, // ok, err, panic
    pub err: String,
    pub log: Vec<J>,
    pub panic: String,
    pub vfn: Vec<String>,
}
pub enum Kind {
    Server(Arc<ServerConnection>),
    Client(TcpStream, Arc<ClientConfig>),
}
/// Start the library in a thread; the result arrives on the channel.
pub fn spawn(kind: Kind, ops: Vec<J>, seed: u64, rdir: u64, done: Arc<AtomicBool>) -> Receiver<EutOut> {
    spawn_until(kind, ops, seed, rdir, done, None)
}
/// The stream stays open until `other` is set: closing a socket with unread
/// data makes TCP discard what the other side has not read yet.
pub fn spawn_until(kind: Kind, ops: Vec<J>, seed: u64, rdir: u64, done: Arc<AtomicBool>, other: Option<Arc<AtomicBool>>) -> Receiver<EutOut> {
    let (tx, rx) = channel();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            VFN.with(|v| v.borrow_mut().clear());
            freeze();
            let me = Arc::as_ptr(&done) as usize;
            interruptible(me, true);
            let mut log = vec![];
            let r = catch_unwind(AssertUnwindSafe(|| {
                let res = match kind {
                    Kind::Server(c) => c.accept().map(|x| x.0),
                    Kind::Client(s, c) => ClientConnection::connect(s, &c),
                };
                match res {
                    Ok(mut s) => {
                        log.push(obj! {"t"=>"hsres","res"=>"ok","err"=>"","code"=>-1});
                        app(&mut s, &ops, seed, rdir, &mut log);
                        if let Some(o) = other {
                            done.store(true, Ordering::SeqCst);
                            for _ in 0..2000 {
                                if o.load(Ordering::SeqCst) {
                                    break;
                                }
                                std::thread::sleep(Duration::from_millis(2));
                            }
                        }
                        ("ok".to_string(), String::new())
                    }
                    Err(e) => {
                        let n = err_name(&e);
                        log.push(obj! {"t"=>"hsres","res"=>"err","err"=>n.as_str(),"code"=>error_code(&n)});
                        ("err".to_string(), n)
                    }
                }
            }));
            interruptible(me, false);
            let (res, err) = r.unwrap_or(("panic".to_string(), "panic".to_string()));
            if res == "panic" {
                log.push(obj! {"t"=>"hsres","res"=>"panic","err"=>"panic","code"=>-1});
            }
            done.store(true, Ordering::SeqCst);
            let panic = PANIC.with(|p| p.borrow().clone());
            let vfn = VFN.with(|v| v.borrow().clone());
            tx.send(EutOut { res, err, log, panic, vfn }).ok();
        })
        .unwrap();
    rx
}
pub fn wait(rx: Receiver<EutOut>, t: Duration) -> EutOut {
    match rx.recv_timeout(t) {
        Ok(o) => o,
        Err(RecvTimeoutError::Timeout) | Err(RecvTimeoutError::Disconnected) => EutOut {
            res: "hang".into(),
            err: "hang".into(),
            log: vec![obj! {"t"=>"hsres","res"=>"hang","err"=>"hang","code"=>-1}],
            panic: String::new(),
            vfn: vec![],
        },
    }
}
pub fn listener() -> TcpListener {
    TcpListener::bind("127.0.0.1:0").expect("bind")
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}
