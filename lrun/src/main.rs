//! Runs one harness natively on the bytes of a counterexample or of a witness.
//! lrun FILE.json (from the checks) or lrun HARNESS INPUT-HEX ARG...
use std::alloc::{GlobalAlloc, Layout};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

#[path = "../../lharn/src/lib.rs"]
mod harness;
pub use harness::api;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn alarm(s: u32) -> u32;
    fn getenv(n: *const u8) -> *const u8;
}
const PAGE: usize = 4096;

/// memory of `n` bytes that ends at an inaccessible page
unsafe fn guarded(n: usize, align: usize) -> *mut u8 {
    let body = (n + align + PAGE - 1) / PAGE * PAGE;
    let p = mmap(std::ptr::null_mut(), body + PAGE, 3, 0x22, -1, 0);
    if p as isize == -1 {
        return std::ptr::null_mut();
    }
    mprotect(p.add(body), PAGE, 0);
    let e = p as usize + body - n;
    (e / align * align) as *mut u8
}
unsafe fn unguard(p: *mut u8, n: usize, align: usize) {
    let body = (n + align + PAGE - 1) / PAGE * PAGE;
    let start = (p as usize + n + PAGE - 1) / PAGE * PAGE - body;
    munmap(start as *mut u8, body + PAGE);
}

/// the ordinary allocator, for threads: the environment says so
unsafe fn plain() -> bool {
    static mut KNOWN: u8 = 0;
    if KNOWN == 0 {
        KNOWN = 1 + !getenv(b"LRUN_PLAIN\0".as_ptr()).is_null() as u8;
    }
    KNOWN == 2
}
struct Alloc;
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(SeqCst) {
            let lim = LIMIT.load(SeqCst);
            if l.size() > lim || TOTAL.fetch_add(l.size(), SeqCst) > lim.saturating_mul(4) {
                ON.store(false, SeqCst);
                LIMIT.store(usize::MAX, SeqCst);
                println!("REPRODUCED allocation of {} bytes, limit {lim}", l.size());
                std::process::exit(1);
            }
        }
        if plain() {
            return std::alloc::System.alloc(l);
        }
        guarded(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if plain() {
            return std::alloc::System.dealloc(p, l);
        }
        unguard(p, l.size(), l.align())
    }
}
#[global_allocator]
static A: Alloc = Alloc;

static mut INPUT: Vec<u8> = vec![];
static mut AT: usize = 0;
static mut REACHED: u64 = 0;
static mut BUFS: Vec<(usize, usize)> = vec![];
static mut EMIT: Vec<u64> = vec![];

fn report() {
    unsafe {
        #[allow(static_mut_refs)]
        let l: Vec<String> = EMIT.iter().map(|x| x.to_string()).collect();
        let r = REACHED;
        println!("END reached={r} emitted=[{}]", l.join(","));
    }
    let _ = std::io::stdout().flush();
}
#[no_mangle]
#[allow(static_mut_refs)]
unsafe extern "C" fn lsym_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = INPUT.get(AT).copied().unwrap_or(0);
        AT += 1;
    }
}
#[no_mangle]
unsafe extern "C" fn lsym_assume(c: bool) {
    if !c {
        println!("ASSUMPTION");
        std::process::exit(3);
    }
}
/// both at once; how they interleave is up to the machine
#[no_mangle]
unsafe extern "C" fn lsym_threads(f: extern "C" fn(), g: extern "C" fn(), _plan: *const u8, _n: usize) {
    let n = std::sync::Arc::new(AtomicUsize::new(0));
    let run = |f: extern "C" fn()| {
        let n = n.clone();
        std::thread::spawn(move || {
            n.fetch_add(1, SeqCst);
            while n.load(SeqCst) < 2 {
                std::hint::spin_loop();
            }
            f()
        })
    };
    let (a, b) = (run(f), run(g));
    if a.join().is_err() | b.join().is_err() {
        println!("REPRODUCED a thread panics");
        std::process::exit(1);
    }
}
#[no_mangle]
unsafe extern "C" fn lsym_same(p: *const u8, q: *const u8, n: usize) -> bool {
    (0..n).all(|i| *p.add(i) == *q.add(i))
}
#[no_mangle]
unsafe extern "C" fn lsym_check(c: bool, id: u32) {
    if !c {
        println!("REPRODUCED check {id} fails");
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }
}
#[no_mangle]
unsafe extern "C" fn lsym_reach(id: u32) {
    REACHED |= 1 << (id & 63);
}
#[no_mangle]
unsafe extern "C" fn lsym_alloc_limit(n: usize) {
    // the symbolic engine sees the same requests; a fault of the host's own allocations is not one
    TOTAL.store(0, SeqCst);
    LIMIT.store(n, SeqCst);
    ON.store(true, SeqCst);
}
#[no_mangle]
#[allow(static_mut_refs)]
unsafe extern "C" fn lsym_emit(v: u64) {
    let on = ON.swap(false, SeqCst);
    EMIT.push(v);
    ON.store(on, SeqCst);
}
#[no_mangle]
unsafe extern "C" fn lsym_conc(v: u64) -> u64 {
    v
}
fn pattern(i: usize) -> u8 {
    (i as u32).wrapping_mul(0x9e37_79b1).wrapping_add(0x7f4a_7c15) as u8 ^ 0xa7
}
#[no_mangle]
#[allow(static_mut_refs)]
unsafe extern "C" fn lsym_buf(n: usize) -> *mut u8 {
    let on = ON.swap(false, SeqCst);
    let p = guarded(n, if n == 4 { 4 } else { 1 });
    for i in 0..n {
        *p.add(i) = pattern(i);
    }
    BUFS.push((p as usize, n));
    ON.store(on, SeqCst);
    p
}
/// the symbolic engine knows what was written; here, what differs from the pattern (what was
/// written with the pattern's own value at the end goes unnoticed)
#[no_mangle]
#[allow(static_mut_refs)]
unsafe extern "C" fn lsym_written(p: *const u8) -> usize {
    let n = BUFS.iter().rev().find(|b| b.0 == p as usize).map_or(0, |b| b.1);
    let mut w = n;
    while w > 0 && *p.add(w - 1) == pattern(w - 1) {
        w -= 1;
    }
    w
}

fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

fn main() {
    use harness::*;
    let av: Vec<String> = std::env::args().collect();
    let (name, input, args): (String, Vec<u8>, Vec<usize>) = if av.len() == 2 {
        let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&av[1]).expect("file")).expect("json");
        (
            v["harness"].as_str().expect("harness").into(),
            unhex(v["input"].as_str().expect("input")),
            v["args"].as_array().expect("args").iter().map(|x| x.as_u64().expect("arg") as usize).collect(),
        )
    } else {
        (av[1].clone(), unhex(&av[2]), av[3..].iter().map(|x| x.parse().expect("arg")).collect())
    };
    let a = |i: usize| args.get(i).copied().unwrap_or(0);
    unsafe {
        INPUT = input;
        alarm(100);
    }
    // a counterexample of two threads: try again and again
    let stress = av.len() == 2 && name.ends_with("_threads");
    if name.ends_with("_threads") && std::env::var("LRUN_PLAIN").is_err() {
        use std::os::unix::process::CommandExt;
        panic!("{}", std::process::Command::new(&av[0]).args(&av[1..]).env("LRUN_PLAIN", "1").exec());
    }
    let t0 = std::time::Instant::now();
    loop {
        one(&name, &a);
        if !stress || t0.elapsed().as_secs() > 80 {
            break;
        }
        unsafe {
            AT = 0;
            #[allow(static_mut_refs)]
            EMIT.clear();
        }
    }
    report();
}

fn one(name: &str, a: &dyn Fn(usize) -> usize) {
    use harness::*;
    match name {
        "h_c06_read" => c06::h_c06_read(a(0), a(1)),
        "h_c06_header" => c06::h_c06_header(a(0), a(1)),
        "h_c06_open" => c06::h_c06_open(a(0), a(1)),
        "h_c07_header" => c07::h_c07_header(a(0), a(1), a(2)),
        "h_c07_tamper" => c07::h_c07_tamper(a(0), a(1)),
        "h_c07_clear" => c07::h_c07_clear(a(0), a(1)),
        "h_c07_many" => c07::h_c07_many(a(0)),
        "h_c08_block" => c07::h_c08_block(a(0), a(1)),
        "h_c08_ids" => c07::h_c08_ids(a(0), a(1)),
        "h_c08_wide" => c07::h_c08_wide(a(0), a(1)),
        "h_c08_tamper" => c07::h_c08_tamper(a(0)),
        "h_c09_keys" => c09::h_c09_keys(a(0), a(1), a(2)),
        "h_c09_caches" => c09::h_c09_caches(a(0), a(1), a(2)),
        "h_c09_encrypt_header" => c09::h_c09_encrypt_header(a(0), a(1), a(2), a(3)),
        "h_c09_decrypt_header" => c09::h_c09_decrypt_header(a(0), a(1), a(2)),
        "h_c09_block" => c09::h_c09_block(a(0), a(1), a(2)),
        "h_c09_size" => c09::h_c09_size(a(0)),
        "h_c10_history" => c10::h_c10_history(a(0), a(1), a(2)),
        "h_c10_threads" => c10::h_c10_threads(a(0), a(1), a(2), a(3)),
        "h_c10_kinds" => c10::h_c10_kinds(),
        "h_c10_many" => c10::h_c10_many(a(0), a(1)),
        "h_c10_failed" => c10::h_c10_failed(a(0)),
        "h_c11_text" => c11::h_c11_text(a(0), a(1), a(2)),
        "h_c11_number" => c11::h_c11_number(a(0)),
        "h_c11_deep" => {
            // a small stack
            let (x, y) = (a(0), a(1));
            std::thread::Builder::new()
                .stack_size(512 << 10)
                .spawn(move || c11::h_c11_deep(x, y))
                .expect("thread")
                .join()
                .expect("joined")
        }
        "h_c11_tree" => c11::h_c11_tree(a(0)),
        "h_c16_last" => c16::h_c16_last(a(0), a(1), a(2)),
        "h_c16_long" => c16::h_c16_long(a(0), a(1)),
        "h_c16_threads" => c16::h_c16_threads(a(0), a(1)),
        "h_c16_null" => c16::h_c16_null(),
        "h_c16_text" => c16::h_c16_text(),
        #[cfg(feature = "bindings")]
        "h_c17_keys" => c17::h_c17_keys(a(0), a(1)),
        #[cfg(feature = "bindings")]
        "h_c17_rotate" => c17::h_c17_rotate(a(0), a(1)),
        #[cfg(feature = "bindings")]
        "h_c17_policy" => c17::h_c17_policy(a(0)),
        #[cfg(feature = "bindings")]
        "h_c17_seal" => c17::h_c17_seal(a(0), a(1), a(2), a(3)),
        #[cfg(feature = "bindings")]
        "h_c17_open" => c17::h_c17_open(a(0), a(1), a(2), a(3), a(4)),
        #[cfg(feature = "bindings")]
        "h_c17_block" => c17::h_c17_block(a(0), a(1), a(2)),
        #[cfg(feature = "bindings")]
        "h_c17_value" => c17::h_c17_value(a(0), a(1), a(2)),
        #[cfg(feature = "bindings")]
        "h_c17_garbage" => c17::h_c17_garbage(a(0)),
        #[cfg(feature = "bindings")]
        "h_c17_size" => c17::h_c17_size(a(0), a(1)),
        #[cfg(feature = "bindings")]
        "h_c18_any" => c18::h_c18_any(a(0), a(1), a(2)),
        #[cfg(feature = "bindings")]
        "h_c18_cut" => c18::h_c18_cut(a(0), a(1)),
        #[cfg(feature = "bindings")]
        "h_c18_byte" => c18::h_c18_byte(a(0), a(1), a(2)),
        #[cfg(feature = "bindings")]
        "h_c18_policy" => c18::h_c18_policy(a(0), a(1)),
        #[cfg(feature = "bindings")]
        "h_c18_history" => c18::h_c18_history(a(0), a(1), a(2)),
        #[cfg(feature = "bindings")]
        "h_c18_number" => c18::h_c18_number(a(0)),
        #[cfg(feature = "bindings")]
        "h_c18_apart" => c18::h_c18_apart(a(0)),
        #[cfg(feature = "bindings")]
        "h_c18_many" => c18::h_c18_many(a(0), a(1)),
        n => {
            println!("no harness {n}");
            std::process::exit(2);
        }
    }
}
