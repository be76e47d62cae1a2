//! Histories of cache handles.
use crate::api::*;
use cosmian_abe_gpsw::interfaces::ffi::hybrid_gpsw_aes::*;
use cosmian_abe_gpsw::interfaces::hybrid_crypto::{decrypt_hybrid_header, encrypt_hybrid_header};
use cosmian_crypto_base::symmetric_crypto::aes_256_gcm_pure::Aes256GcmCrypto;
use cosmian_crypto_base::symmetric_crypto::{Metadata, SymKey};

type A = Aes256GcmCrypto;

struct Side {
    w: World,
    pub_key: Vec<u8>,
    key: Usk,
    key_bytes: Vec<u8>,
    header: Vec<u8>,
    sym: Vec<u8>,
}
fn side() -> Side {
    let w = world();
    let key = w.key();
    let h = encrypt_hybrid_header::<S, A>(
        &w.policy,
        &w.mpk,
        &w.attrs(),
        Some(Metadata { uid: vec![1, 2], additional_data: None }),
    )
    .unwrap();
    Side {
        pub_key: b(&w.mpk),
        key_bytes: b(&key),
        key,
        w,
        sym: h.symmetric_key.as_bytes().to_vec(),
        header: h.encrypted_header_bytes,
    }
}

fn create(enc: bool, s: &Side) -> i32 {
    let mut h = -77;
    let r = unsafe {
        if enc {
            let p = cstr(&s.w.policy.to_string());
            h_aes_create_encryption_cache(&mut h, p, s.pub_key.as_ptr().cast(), s.pub_key.len() as i32)
        } else {
            h_aes_create_decryption_cache(&mut h, s.key_bytes.as_ptr().cast(), s.key_bytes.len() as i32)
        }
    };
    check(r == 0, 1);
    h
}

/// which side's material handle `h` works with, if any
fn used(enc: bool, h: i32, sides: &[Side]) -> Option<usize> {
    let mut sym = [0u8; 40];
    let mut sl = 40;
    if enc {
        let mut hb = vec![0u8; 1000];
        let mut hl = 1000;
        let at = cstr(&serde_json::to_string(&sides[0].w.attrs()).unwrap());
        let r = unsafe {
            h_aes_encrypt_header_using_cache(
                sym.as_mut_ptr().cast(),
                &mut sl,
                hb.as_mut_ptr().cast(),
                &mut hl,
                h,
                at,
                [7u8].as_ptr().cast(),
                1,
                std::ptr::null(),
                0,
            )
        };
        if r != 0 {
            return None;
        }
        for (i, s) in sides.iter().enumerate() {
            if let Ok(c) = decrypt_hybrid_header::<S, A>(&s.key, &hb[..hl as usize]) {
                check(same(c.symmetric_key.as_bytes(), &sym[..sl as usize]), 2);
                return Some(i);
            }
        }
        check(false, 3);
        None
    } else {
        // exactly one of the headers opens
        let mut got = None;
        let mut all_failed = true;
        for (i, s) in sides.iter().enumerate() {
            sl = 40;
            let r = unsafe {
                h_aes_decrypt_header_using_cache(
                    sym.as_mut_ptr().cast(),
                    &mut sl,
                    std::ptr::null_mut(),
                    std::ptr::null_mut(),
                    std::ptr::null_mut(),
                    std::ptr::null_mut(),
                    s.header.as_ptr().cast(),
                    s.header.len() as i32,
                    h,
                )
            };
            if r == 0 {
                all_failed = false;
                check(same(&sym[..sl as usize], &s.sym), 4);
                check(got.is_none(), 5);
                got = Some(i);
            }
        }
        check(all_failed == got.is_none(), 6);
        got
    }
}

/// `depth` operations; `first`: the first two are fixed by its bits (to divide the work)
#[no_mangle]
pub extern "C" fn h_c10_history(enc: usize, depth: usize, first: usize) {
    let enc = enc == 1;
    let sides = [side(), side()];
    // handle and material of the live caches
    let mut live: Vec<(i32, usize)> = vec![];
    let mut issued: Vec<i32> = vec![];
    let mut plan = first;
    for step in 0..depth {
        // 0, 1: create; 2: use; 3: destroy
        let op = if plan > 0 {
            let o = plan % 5 - 1;
            plan /= 5;
            o
        } else if step == 0 {
            choice(2)
        } else {
            choice(4)
        };
        match op {
            0 | 1 => {
                let h = create(enc, &sides[op]);
                // a destroyed handle stays dead
                check(issued.iter().all(|l| *l != h), 7);
                issued.push(h);
                live.push((h, op));
            }
            2 => {
                let h = any_i32();
                let want = live.iter().find(|(l, _)| *l == h).map(|x| x.1);
                check(used(enc, h, &sides) == want, 8);
            }
            _ => {
                let h = any_i32();
                let r = unsafe {
                    if enc {
                        h_aes_destroy_encryption_cache(h)
                    } else {
                        h_aes_destroy_decryption_cache(h)
                    }
                };
                if live.iter().any(|(l, _)| *l == h) {
                    check(r == 0, 9);
                }
                live.retain(|(l, _)| *l != h);
            }
        }
    }
    // at the end every live cache still works with its own material
    for (h, m) in &live {
        check(used(enc, *h, &sides) == Some(*m), 10);
    }
    reach(1);
    reach(2 + live.len() as u32);
    emit(live.len() as u64);
}

/// encryption and decryption handles do not interfere
#[no_mangle]
pub extern "C" fn h_c10_kinds() {
    let sides = [side(), side()];
    let (e, d) = (create(true, &sides[0]), create(false, &sides[1]));
    let h = any_i32();
    let k = choice(3);
    unsafe {
        if k == 0 {
            h_aes_destroy_encryption_cache(h);
        } else if k == 1 {
            h_aes_destroy_decryption_cache(h);
        }
    }
    let (we, wd) = (k == 0 && h == e, k == 1 && h == d);
    check(used(true, e, &sides) == if we { None } else { Some(0) }, 11);
    check(used(false, d, &sides) == if wd { None } else { Some(1) }, 12);
    reach(1);
}

/// a creation that fails neither issues a handle nor disturbs the others
#[no_mangle]
pub extern "C" fn h_c10_failed(enc: usize) {
    let enc = enc == 1;
    let sides = [side(), side()];
    let a = create(enc, &sides[0]);
    let mut h = -5;
    let r = unsafe {
        if enc {
            let p = cstr(&sides[1].w.policy.to_string());
            h_aes_create_encryption_cache(&mut h, p, sides[1].pub_key.as_ptr().cast(), 20)
        } else {
            h_aes_create_decryption_cache(&mut h, sides[1].key_bytes.as_ptr().cast(), 20)
        }
    };
    check(r != 0, 13);
    let c = create(enc, &sides[1]);
    check(a != c, 14);
    let x = any_i32();
    let want = if x == a {
        Some(0)
    } else if x == c {
        Some(1)
    } else {
        None
    };
    check(used(enc, x, &sides) == want, 15);
    reach(1);
}

/// `n` caches at the same time, one of them destroyed
#[no_mangle]
pub extern "C" fn h_c10_many(enc: usize, n: usize) {
    let enc = enc == 1;
    let sides = [side(), side()];
    let handles: Vec<i32> = (0..n).map(|i| create(enc, &sides[i % 2])).collect();
    for i in 0..n {
        check(!handles[..i].contains(&handles[i]), 16);
    }
    let (d, h) = (handles[n / 2], any_i32());
    destroy(enc, d);
    let want = handles.iter().position(|x| *x == h && h != d).map(|i| i % 2);
    check(used(enc, h, &sides) == want, 17);
    reach(1 + want.map_or(0, |w| 1 + w as u32));
}

// ------------------------------------------------------------ two threads
struct Work {
    enc: bool,
    op: [usize; 2],
    sides: Vec<Side>,
    /// the two caches that exist before
    old: [i32; 2],
    got: [Option<usize>; 2],
    made: [i32; 2],
}
static mut WORK: *mut Work = std::ptr::null_mut();
fn destroy(enc: bool, h: i32) -> bool {
    let r = unsafe {
        if enc {
            h_aes_destroy_encryption_cache(h)
        } else {
            h_aes_destroy_decryption_cache(h)
        }
    };
    r == 0
}
/// thread `i`: 0 create with material `i`; 1, 2 use of a cache that exists; 3, 4 its destruction
fn work(i: usize) {
    let w = unsafe { &mut *WORK };
    match w.op[i] {
        0 => w.made[i] = create(w.enc, &w.sides[i]),
        1 | 2 => w.got[i] = used(w.enc, w.old[w.op[i] - 1], &w.sides),
        // (two threads that destroy the same cache: one of them may hear that it is gone)
        o => check(destroy(w.enc, w.old[o - 3]) || w.op == [o, o], 20),
    }
}
extern "C" fn first() {
    work(0)
}
extern "C" fn second() {
    work(1)
}
/// two calls at the same time, interleaved with `k` interruptions
#[no_mangle]
pub extern "C" fn h_c10_threads(enc: usize, op0: usize, op1: usize, k: usize) {
    let enc = enc == 1;
    let sides = vec![side(), side()];
    let old = [create(enc, &sides[0]), create(enc, &sides[1])];
    let mut w = Work { enc, op: [op0, op1], sides, old, got: [None; 2], made: [0; 2] };
    unsafe { WORK = &mut w };
    threads(first, second, k);
    let w = unsafe { &*WORK };
    let dead = |c: usize| w.op.contains(&(c + 3));
    let mut live: Vec<(i32, usize)> = vec![];
    for c in 0..2 {
        if dead(c) {
            check(used(enc, old[c], &w.sides).is_none(), 21);
        } else {
            live.push((old[c], c));
        }
    }
    for i in 0..2 {
        match w.op[i] {
            0 => {
                // never issued before, to anyone
                check(w.made[i] != old[0] && w.made[i] != old[1], 22);
                check(live.iter().all(|l| l.0 != w.made[i]), 23);
                live.push((w.made[i], i));
            }
            o @ (1 | 2) => {
                // its own material or, when destroyed at the same time, nothing
                check(w.got[i] == Some(o - 1) || (w.got[i].is_none() && dead(o - 1)), 24);
                if w.got[i].is_none() {
                    reach(3);
                }
            }
            _ => {}
        }
    }
    for (h, m) in &live {
        check(used(enc, *h, &w.sides) == Some(*m), 25);
    }
    reach(1);
    emit(live.len() as u64);
}
