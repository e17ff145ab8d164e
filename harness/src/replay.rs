//! Native replay of a solver counterexample: runs one harness entry against the real crate with
//! the recorded input. Exit codes: 0 clean, 3 failed check, 4 allocation above the limit,
//! 5 assumption not met, 101 panic (anything else: crash).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

static LIVE: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static MAX: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static RUN: AtomicUsize = AtomicUsize::new(0);

struct A;
fn took(n: u64) {
    if RUN.load(SeqCst) == 0 {
        return;
    }
    MAX.fetch_max(n, SeqCst);
    let lim = LIMIT.load(SeqCst);
    if n > lim {
        RUN.store(0, SeqCst);
        println!("REPLAY alloc {} bytes requested, limit {}", n, lim);
        std::process::exit(4);
    }
    let b = BYTES.fetch_add(n, SeqCst) + n;
    PEAK.fetch_max(b, SeqCst);
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        took(l.size() as u64);
        if RUN.load(SeqCst) == 1 {
            LIVE.fetch_add(1, SeqCst);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        took(l.size() as u64);
        if RUN.load(SeqCst) == 1 {
            LIVE.fetch_add(1, SeqCst);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if RUN.load(SeqCst) == 1 {
            LIVE.fetch_sub(1, SeqCst);
            BYTES.fetch_sub(l.size() as u64, SeqCst);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        took(n as u64);
        if RUN.load(SeqCst) == 1 {
            BYTES.fetch_sub(l.size() as u64, SeqCst);
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static G: A = A;

static INPUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static TRACE: AtomicU64 = AtomicU64::new(0);

fn trace(l: &[u8]) {
    let mut h = TRACE.load(SeqCst);
    for b in l {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    TRACE.store((h ^ 0xff).wrapping_mul(0x100000001b3), SeqCst);
}
static POS: Mutex<usize> = Mutex::new(0);
static PARAM: AtomicU64 = AtomicU64::new(0);

fn next() -> u8 {
    let mut p = POS.lock().unwrap();
    let r = INPUT.lock().unwrap().get(*p).copied().unwrap_or(0);
    *p += 1;
    r
}
#[no_mangle]
pub unsafe extern "C" fn vp_sym(p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = next();
    }
}
#[no_mangle]
pub extern "C" fn vp_choose(n: u64) -> u64 {
    next() as u64 % n
}
#[no_mangle]
pub extern "C" fn vp_assume(c: bool) {
    if !c {
        RUN.store(0, SeqCst);
        println!("REPLAY assumption not met");
        std::process::exit(5);
    }
}
unsafe fn label(l: *const u8, n: usize) -> &'static str {
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(l, n))
}
#[no_mangle]
pub unsafe extern "C" fn vp_check(c: bool, l: *const u8, n: usize) {
    trace(label(l, n).as_bytes());
    if !c {
        RUN.store(0, SeqCst);
        println!("REPLAY check failed: {}", label(l, n));
        std::process::exit(3);
    }
}
#[no_mangle]
pub unsafe extern "C" fn vp_cover(l: *const u8, n: usize) {
    trace(label(l, n).as_bytes());
}
#[no_mangle]
pub unsafe extern "C" fn vp_note(l: *const u8, n: usize) {
    let r = RUN.swap(0, SeqCst);
    println!("note {}", label(l, n));
    RUN.store(r, SeqCst);
}
#[no_mangle]
pub extern "C" fn vp_param() -> u64 {
    PARAM.load(SeqCst)
}
#[no_mangle]
pub extern "C" fn vp_alloc_limit(n: u64) {
    LIMIT.store(n, SeqCst)
}
#[no_mangle]
pub extern "C" fn vp_heap_live() -> u64 {
    LIVE.load(SeqCst)
}
#[no_mangle]
pub extern "C" fn vp_heap_peak() -> u64 {
    PEAK.load(SeqCst)
}
#[no_mangle]
pub extern "C" fn vp_heap_max() -> u64 {
    MAX.load(SeqCst)
}
#[no_mangle]
pub extern "C" fn vp_heap_reset() {
    PEAK.store(BYTES.load(SeqCst), SeqCst);
    MAX.store(0, SeqCst);
}
#[no_mangle]
pub extern "C" fn vp_concretize(x: u64) -> u64 {
    x
}
#[no_mangle]
pub extern "C" fn vp_out(x: u64) {
    let r = RUN.swap(0, SeqCst);
    println!("out {}", x);
    RUN.store(r, SeqCst);
}

fn run(entry: &str, param: &str, hex: &str) {
    let v: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    *INPUT.lock().unwrap() = v;
    *POS.lock().unwrap() = 0;
    PARAM.store(param.parse().unwrap(), SeqCst);
    let f = vph::entries().into_iter().find(|e| e.0 == entry).expect("entry").1;
    LIVE.store(0, SeqCst);
    BYTES.store(0, SeqCst);
    PEAK.store(0, SeqCst);
    MAX.store(0, SeqCst);
    LIMIT.store(u64::MAX, SeqCst);
    TRACE.store(0xcbf29ce484222325, SeqCst);
    RUN.store(1, SeqCst);
    vph::vp::free_values();
    f();
    RUN.store(0, SeqCst);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--batch" {
        // lines "entry param hex": print the trace hash of each
        for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
            let f: Vec<&str> = l.split(' ').collect();
            run(f[0], f[1], f[2]);
            println!("TRACE {:016x}", TRACE.load(SeqCst));
        }
        return;
    }
    run(&a[1], &a[2], &a[3]);
    println!("REPLAY clean");
}
