// Driver shared by the unit binaries (include!d): replays operation sequences generated from the
// specification on single objects of the library, next to the reference implementations, and
// reports what both returned.  Every binary only uses the part of the library it is about.
use ibig::{IBig, UBig};
use std::cell::{Cell, RefCell};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use vharness::derx::*;
use vharness::json::*;
use vharness::obj;
use vharness::refcrypto::*;

// ------------------------------------------------------------------ clock under control
thread_local! { static CLOCK: Cell<Option<i64>> = const { Cell::new(None) }; }
#[repr(C)]
pub struct Ts {
    s: i64,
    n: i64,
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
/// replaces libc's for this process: the current time of a thread can be chosen
#[no_mangle]
pub extern "C" fn clock_gettime(clk: i32, ts: *mut Ts) -> i32 {
    if clk == 0 {
        if let Some(t) = CLOCK.try_with(|c| c.get()).ok().flatten() {
            unsafe {
                (*ts).s = t;
                (*ts).n = 999_000_000;
            }
            return 0;
        }
    }
    unsafe { syscall(228, clk as i64, ts) as i32 }
}
fn at<T>(t: i64, f: impl FnOnce() -> T) -> T {
    CLOCK.with(|c| c.set(Some(t)));
    let r = catch_unwind(AssertUnwindSafe(f));
    CLOCK.with(|c| c.set(None));
    match r {
        Ok(x) => x,
        Err(e) => std::panic::resume_unwind(e),
    }
}

// ------------------------------------------------------------------ data
/// byte i of pattern k
fn pat(seed: u64, k: i64, from: usize, n: usize) -> Vec<u8> {
    match k {
        0 => return vec![0; n],
        1 => return vec![0xff; n],
        _ => {}
    }
    let mut v = Vec::with_capacity(n);
    let mut blk = usize::MAX;
    let mut w = [0u8; 8];
    for i in from..from + n {
        if i / 8 != blk {
            blk = i / 8;
            w = Rng::new(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ (k as u64) << 40 ^ blk as u64).u64().to_le_bytes();
        }
        v.push(w[i % 8]);
    }
    v
}
/// content = list of [pattern, from, length]
fn content(seed: u64, c: &J) -> Vec<u8> {
    let mut v = vec![];
    for s in c.arr() {
        let s = s.arr();
        v.extend(pat(seed, s[0].as_n(), s[1].as_n() as usize, s[2].as_n() as usize));
    }
    v
}
fn fp(b: &[u8]) -> String {
    if b.len() <= 16 {
        format!("b{}", hex(b))
    } else {
        format!("f{}-{}", b.len(), &hex(&sha256(b))[..24])
    }
}
fn ints(b: &[u8]) -> J {
    J::Arr(b.iter().map(|x| J::Num(*x as i64)).collect())
}
fn bytes_of(j: &J) -> Vec<u8> {
    j.arr().iter().map(|x| x.as_n() as u8).collect()
}
fn ib(b: &[u8]) -> IBig {
    IBig::from(UBig::from_be_bytes(b))
}
fn ib_be(n: &IBig) -> Option<Vec<u8>> {
    UBig::try_from(n.clone()).ok().map(|u| u.to_be_bytes())
}
fn ib_hex(n: &IBig) -> String {
    match ib_be(n) {
        None => "negative".into(),
        Some(b) => {
            let mut v = vec![0; 32usize.saturating_sub(b.len())];
            v.extend(b);
            hex(&v)
        }
    }
}
fn rh(h: &str) -> Hash {
    if h == "sha384" {
        Hash::S384
    } else {
        Hash::S256
    }
}
type Step<'a> = Box<dyn FnMut(&J, &mut Vec<J>) + 'a>;

fn flip(v: &mut [u8], bit: usize) {
    if !v.is_empty() {
        let b = bit % (v.len() * 8);
        v[b / 8] ^= 1 << (b % 8);
    }
}
// ------------------------------------------------------------------ panics
thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
fn silence_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

// ------------------------------------------------------------------ runner
fn run(r: &J, seed: u64, dir: &str) -> J {
    let mut ev: Vec<J> = vec![];
    let mut f: Step = family(seed, dir);
    for s in r.a("steps") {
        let k = ev.len();
        let ok = catch_unwind(AssertUnwindSafe(|| f(s, &mut ev))).is_ok();
        if !ok {
            ev.truncate(k);
            let why = last_panic();
            if why.contains("harness: ") {
                eprintln!("{why}");
                std::process::exit(3);
            }
            ev.push(obj! {"t"=>"panic","op"=>s.s("op"),"why"=>why});
            break;
        }
    }
    let mut o = obj! {"id"=>r.s("id"),"fam"=>r.s("fam")};
    o.set("ev", J::Arr(ev));
    o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let threads: usize = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(8);
    let seed: u64 = a.get(5).and_then(|x| x.parse().ok()).unwrap_or(1);
    let abs = |s: &str| std::path::absolute(s).unwrap().to_string_lossy().to_string();
    let (inp, outp, scratch) = (abs(&a[1]), abs(&a[2]), abs(&a[3]));
    std::fs::create_dir_all(format!("{scratch}/cwd")).unwrap();
    std::env::set_current_dir(format!("{scratch}/cwd")).unwrap();
    silence_panics();
    let t = at(12345, || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs());
    assert_eq!(t, 12345, "the clock is not under control");
    let text = std::fs::read_to_string(&inp).unwrap();
    let runs: Vec<J> = text.lines().filter(|l| !l.trim().is_empty()).map(|l| J::parse(l).expect("script")).collect();
    let n = runs.len();
    let runs = Arc::new(runs);
    let next = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(vec![String::new(); n]));
    let budget: u64 = std::env::var("HS_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(300);
    let t0 = std::time::Instant::now();
    // a script that does not end counts as such; everything else goes on
    let limit = std::env::var("HS_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(90u64);
    let busy: Arc<Mutex<Vec<Option<(usize, std::time::Instant)>>>> = Arc::new(Mutex::new(vec![]));
    let start = |w: usize| {
        let (runs, next, out, scratch, busy) = (runs.clone(), next.clone(), out.clone(), scratch.clone(), busy.clone());
        busy.lock().unwrap().push(Some((usize::MAX, std::time::Instant::now())));
        std::thread::spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= runs.len() || t0.elapsed().as_secs() > budget {
                busy.lock().unwrap()[w] = None;
                return;
            }
            busy.lock().unwrap()[w] = Some((i, std::time::Instant::now()));
            std::fs::write(format!("{scratch}/at-{w}"), i.to_string()).ok();
            let r = &runs[i];
            let sd = (r.n_or("seed", 0) as u64).wrapping_add(seed.wrapping_mul(1_000_003));
            let dir = format!("{scratch}/w{w}");
            std::fs::create_dir_all(&dir).unwrap();
            let t1 = std::time::Instant::now();
            let mut o = run(r, sd, &dir);
            o.set("idx", J::from(i));
            o.set("ms", J::Num((t1.elapsed().as_millis() as i64).min(2999)));
            out.lock().unwrap()[i] = o.dump();
        });
    };
    let mut workers = threads.max(1);
    for w in 0..workers {
        start(w);
    }
    let mut hung = vec![];
    loop {
        std::thread::sleep(std::time::Duration::from_millis(10));
        let b = busy.lock().unwrap().clone();
        let mut open = 0;
        for x in b.iter().flatten() {
            if hung.contains(&x.0) {
                continue;
            }
            if x.0 != usize::MAX && x.1.elapsed().as_secs() > limit {
                hung.push(x.0);
                let r = &runs[x.0];
                out.lock().unwrap()[x.0] = obj! {"id"=>r.s("id"),"fam"=>r.s("fam"),"idx"=>x.0,"ms"=>2999,"ev"=>J::Arr(vec![obj!{"t"=>"hang"}])}.dump();
                if hung.len() <= 6 {
                    start(workers);
                    workers += 1;
                    open += 1;
                }
                continue;
            }
            open += 1;
        }
        if open == 0 {
            break;
        }
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&outp).unwrap());
    for l in out.lock().unwrap().iter().filter(|l| !l.is_empty()) {
        writeln!(f, "{l}").unwrap();
    }
    f.flush().unwrap();
    std::process::exit(0);
}
