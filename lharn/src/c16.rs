//! The last error of the C interface.
use crate::api::*;
use cosmian_abe_gpsw::interfaces::ffi::error::{get_last_error, set_error};
use cosmian_abe_gpsw::interfaces::ffi::generate_gpsw_keys::h_generate_user_private_key;
use cosmian_abe_gpsw::interfaces::ffi::hybrid_gpsw_aes::h_get_encrypted_header_size;
use std::os::raw::c_char;

/// reads the last error into a buffer of `cap` bytes whose announced size is arbitrary
fn read(cap: usize, want: &[u8], id: u32) {
    let p = buf(cap);
    let l = buf(4).cast::<i32>();
    let a = any_i32();
    assume(a <= cap as i32);
    unsafe { *l = a };
    let r = unsafe { get_last_error(p.cast(), l) };
    let w = written(p) as i32;
    if a < 1 {
        check(r != 0, id);
        check(w == 0, id + 1);
        reach(0);
        // nothing was consumed
        if cap > 0 {
            let p = buf(cap);
            unsafe { *l = cap as i32 };
            check(unsafe { get_last_error(p.cast(), l) } == 0, id + 9);
            let n = std::cmp::min(cap - 1, want.len());
            check(unsafe { *l } == n as i32, id + 10);
            check(same(unsafe { std::slice::from_raw_parts(p, n) }, &want[..n]), id + 11);
        }
        return;
    }
    reach(1);
    check(r == 0, id + 2);
    check(w <= a, id + 3);
    let n = std::cmp::min(conc(a as u64) as usize - 1, want.len());
    check(unsafe { *l } == n as i32, id + 4);
    check(w > n as i32, id + 5);
    let got = unsafe { std::slice::from_raw_parts(p, n + 1) };
    check(same(&got[..n], &want[..n]), id + 6);
    check(got[n] == 0, id + 7);
    // cleared
    let p = buf(4);
    unsafe { *l = 4 };
    check(unsafe { get_last_error(p.cast(), l) } == 0 && unsafe { *l } == 0 && unsafe { *p } == 0, id + 8);
}

/// the error text, read with room enough
fn text() -> Vec<u8> {
    let p = buf(200);
    let mut l = 200;
    check(unsafe { get_last_error(p.cast(), &mut l) } == 0 && (0..200).contains(&l), 80);
    unsafe { std::slice::from_raw_parts(p, l as usize) }.to_vec()
}
fn fail() {
    check(unsafe { h_get_encrypted_header_size(std::ptr::null(), 4) } == 1, 90);
}
fn set_bytes(m: &[u8]) -> i32 {
    let mut m = m.to_vec();
    m.push(0);
    unsafe { set_error(ext(&m).cast()) }
}

/// the texts of known failures, and what stands before a message
struct Texts {
    failure: Vec<u8>,
    null: Vec<u8>,
    invalid: Vec<u8>,
    prefix: Vec<u8>,
}
fn texts() -> Texts {
    check(text().is_empty(), 81);
    fail();
    let failure = text();
    check(unsafe { set_error(std::ptr::null()) } == 1, 82);
    let null = text();
    check(set_bytes(&[0xff]) == 1, 83);
    let invalid = text();
    check(set_bytes(b"abc") == 0, 84);
    let mut prefix = text();
    check(prefix.ends_with(b"abc"), 85);
    prefix.truncate(prefix.len() - 3);
    check(!failure.is_empty() && !null.is_empty() && !invalid.is_empty(), 86);
    check(failure != null && failure != invalid && null != invalid, 87);
    check(text().is_empty(), 88);
    Texts { failure, null, invalid, prefix }
}

/// sets `n` arbitrary bytes; what can be read back
fn set(t: &Texts, n: usize) -> Vec<u8> {
    let mut m = bytes(n);
    m.push(0);
    let r = unsafe { set_error(ext(&m).cast()) };
    let k = m.iter().position(|c| *c == 0).unwrap();
    match std::str::from_utf8(&m[..k]) {
        Ok(_) => {
            check(r == 0, 91);
            let mut t = t.prefix.clone();
            t.extend_from_slice(&m[..k]);
            t
        }
        Err(_) => {
            check(r == 1, 92);
            t.invalid.clone()
        }
    }
}

/// `order`: which of setting a message and failing comes when
#[no_mangle]
pub extern "C" fn h_c16_last(order: usize, n: usize, cap: usize) {
    let t = texts();
    let want = match order {
        0 => vec![],
        1 => set(&t, n),
        2 => {
            fail();
            t.failure.clone()
        }
        3 => {
            set(&t, n);
            fail();
            t.failure.clone()
        }
        4 => {
            fail();
            set(&t, n)
        }
        5 => {
            set(&t, n);
            set(&t, n)
        }
        _ => {
            // refused: the refusal is the latest failure
            set(&t, 1);
            check(unsafe { set_error(std::ptr::null()) } == 1, 93);
            t.null.clone()
        }
    };
    read(cap, &want, 1);
}

/// a message of `n` bytes, read into room for its last `short` bytes less, or more
#[no_mangle]
pub extern "C" fn h_c16_long(n: usize, short: usize) {
    let mut m: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    for at in [0, n / 2, n - 1] {
        let c: [u8; 1] = array();
        assume(c[0] > 0 && c[0] < 128);
        m[at] = c[0];
    }
    check(set_bytes(b"x") == 0, 1);
    let mut want = text();
    want.pop();
    check(set_bytes(&m) == 0, 2);
    want.extend_from_slice(&m);
    let cap = want.len() + 11 - short;
    let k = std::cmp::min(cap - 1, want.len());
    let p = buf(cap);
    let mut l = cap as i32;
    check(unsafe { get_last_error(p.cast(), &mut l) } == 0, 3);
    check(l == k as i32, 4);
    check(written(p) > k && written(p) <= cap, 5);
    let got = unsafe { std::slice::from_raw_parts(p, k + 1) };
    check(same(&got[..k], &want[..k]), 6);
    check(got[k] == 0, 7);
    check(text().is_empty(), 8);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_c16_null() {
    let want = set(&texts(), 2);
    let (p, l) = (buf(64), buf(4).cast::<i32>());
    unsafe { *l = 64 };
    let k = choice(3);
    let pp = if k == 1 { p } else { std::ptr::null_mut() };
    let pl = if k == 2 { l } else { std::ptr::null_mut() };
    check(unsafe { get_last_error(pp.cast::<c_char>(), pl) } != 0, 1);
    check(written(p) == 0 && unsafe { *l } == 64, 2);
    check(unsafe { get_last_error(p.cast(), l) } == 0, 3);
    check(same(unsafe { std::slice::from_raw_parts(p, want.len()) }, &want), 4);
    reach(1);
}

/// a failure whose text holds a byte chosen by the caller, zero included
#[no_mangle]
pub extern "C" fn h_c16_text() {
    let w = world();
    let c: [u8; 1] = array();
    assume(c[0] < 128);
    let hex = |x: u8| if x < 10 { b'0' + x } else { b'a' + x - 10 };
    let mut a = b"{\"q\\u00".to_vec();
    a.push(hex(c[0] >> 4));
    a.push(hex(c[0] & 15));
    a.extend_from_slice(b"z\":1}\0");
    let o = buf(2000);
    let mut l = 2000;
    let m = b(&w.msk);
    let r = unsafe {
        h_generate_user_private_key(
            o.cast(),
            &mut l,
            m.as_ptr().cast(),
            m.len() as i32,
            ext(&a).cast(),
            cstr(&w.policy.to_string()),
        )
    };
    check(r == 1, 1);
    let p = buf(300);
    let mut n = 300;
    check(unsafe { get_last_error(p.cast(), &mut n) } == 0, 2);
    let t = unsafe { std::slice::from_raw_parts(p, n as usize) };
    check(!t.is_empty(), 3);
    // the offending word is told
    let mut q = 0;
    for i in 0..t.len() - 1 {
        q |= ((t[i] == b'q') & ((t[i + 1] == c[0]) | (c[0] == 0))) as u8;
    }
    check(q == 1, 4);
    reach(1);
}

// ------------------------------------------------------------ two threads
struct Work {
    t: Texts,
    op: usize,
}
static mut WORK: *const Work = std::ptr::null();
extern "C" fn first() {
    let t = unsafe { &(*WORK).t };
    let want = set(t, 1);
    check(same(&text(), &want), 20);
    check(text().is_empty(), 21);
}
extern "C" fn second() {
    let w = unsafe { &*WORK };
    match w.op {
        0 => {
            fail();
            check(text() == w.t.failure, 22);
        }
        1 => {
            let want = set(&w.t, 1);
            check(same(&text(), &want), 23);
        }
        2 => check(text().is_empty(), 24),
        _ => fail(),
    }
}
/// each thread has its own last error
#[no_mangle]
pub extern "C" fn h_c16_threads(op: usize, k: usize) {
    let w = Work { t: texts(), op };
    unsafe { WORK = &w };
    let want = set(&w.t, 1);
    threads(first, second, k);
    check(same(&text(), &want), 25);
    reach(1);
}
