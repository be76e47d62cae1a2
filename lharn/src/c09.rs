//! The C interface: pointers, announced lengths, capacities.
use crate::api::*;
use abe_policy::AccessPolicy;
use cosmian_abe_gpsw::interfaces::ffi::error::get_last_error;
use cosmian_abe_gpsw::interfaces::ffi::generate_gpsw_keys::*;
use cosmian_abe_gpsw::interfaces::ffi::hybrid_gpsw_aes::*;
use cosmian_abe_gpsw::interfaces::hybrid_crypto::{encrypt_hybrid_block, encrypt_hybrid_header};
use cosmian_crypto_base::symmetric_crypto::aes_256_gcm_pure::Aes256GcmCrypto;
use cosmian_crypto_base::symmetric_crypto::{Metadata, SymKey, SymmetricCrypto};
use cosmian_crypto_base::KeyTrait;
use std::os::raw::c_char;

/// `p` or null
fn maybe<T>(p: *const T) -> *const T {
    let b: [u8; 1] = array();
    assume(b[0] < 2);
    ((p as usize) * (b[0] as usize)) as *const T
}
/// `p`, or `p` or null
fn opt<T>(nulls: bool, p: *const T) -> *const T {
    if nulls {
        maybe(p)
    } else {
        p
    }
}

/// an output buffer and the number that announces its size
struct Out {
    p: *mut u8,
    l: *mut i32,
    announced: i32,
    /// what the function is told
    pp: *mut c_char,
    pl: *mut i32,
    required: bool,
}
impl Out {
    fn new(cap: usize, announced: i32, nulls: bool, required: bool) -> Out {
        let p = buf(cap);
        let l = buf(4).cast::<i32>();
        unsafe { *l = announced };
        Out {
            p,
            l,
            announced,
            pp: opt(nulls, p as *const u8) as *mut c_char,
            pl: opt(nulls, l as *const i32) as *mut i32,
            required,
        }
    }
    fn any(cap: usize, nulls: bool, required: bool) -> Out {
        let a = any_i32();
        assume(a <= cap as i32);
        Out::new(cap, a, nulls, required)
    }
    fn given(&self) -> bool {
        !self.pp.is_null() && !self.pl.is_null() && self.announced > 0
    }
    fn len(&self) -> i32 {
        unsafe { *self.l }
    }
}
pub fn last_error() -> (i32, Vec<u8>) {
    const N: usize = 400;
    let p = buf(N);
    let mut l = N as i32;
    let r = unsafe { get_last_error(p.cast(), &mut l) };
    let n = if r == 0 && l >= 0 && l <= N as i32 { l as usize } else { 0 };
    (r, unsafe { std::slice::from_raw_parts(p, n).to_vec() })
}

/// what holds of every call
fn drive(outs: Vec<Out>, retry: bool, f: &dyn Fn(&[Out]) -> i32) {
    let _ = last_error();
    let r = f(&outs);
    check((r == 0) | (r == 1), 1);
    for o in &outs {
        let w = written(o.p) as i32;
        check(w <= std::cmp::max(o.announced, 0), 2);
    }
    if r == 0 {
        reach(1);
        for o in &outs {
            let given = o.given();
            check(given | !o.required, 3);
            if given {
                check(written(o.p) as i32 == o.len(), 4);
            } else {
                check(written(o.p) == 0, 5);
            }
        }
    } else {
        reach(0);
        let (r, e) = last_error();
        check(r == 0 && !e.is_empty(), 6);
        if retry && outs.iter().all(Out::given) {
            // the only reason left is the capacity, and the size needed is told
            let mut old: Vec<(i32, i32)> = outs.iter().map(|o| (o.announced, o.len())).collect();
            for k in 0..outs.len() {
                check(old.iter().any(|(a, l)| l > a), 7);
                let again: Vec<Out> = old
                    .iter()
                    .map(|(a, l)| {
                        let n = conc(std::cmp::max(*a, *l) as u64) as usize;
                        Out::new(n, n as i32, false, true)
                    })
                    .collect();
                let r = f(&again);
                if r == 0 {
                    reach(2);
                    for o in &again {
                        check(written(o.p) as i32 == o.len(), 8);
                    }
                    return;
                }
                check(k + 1 < outs.len(), 9);
                old = again.iter().map(|o| (o.announced, o.len())).collect();
            }
        }
    }
}

/// length of an input of `n` bytes: exact, or any number up to it
fn inlen(any: bool, n: usize) -> i32 {
    if !any {
        return n as i32;
    }
    let l = any_i32();
    assume(l <= n as i32);
    if l > 0 {
        conc(l as u64) as i32
    } else {
        l
    }
}

/// a text: `n` arbitrary bytes
fn text(n: usize) -> *const c_char {
    let mut b = bytes(n);
    b.push(0);
    ext(&b).cast()
}

/// `what` = 0: pointers and output lengths are arbitrary; k > 0: the length of the k-th input is;
/// 100 + k: the k-th text is (`n` arbitrary bytes)
#[no_mangle]
pub extern "C" fn h_c09_keys(func: usize, what: usize, n: usize) {
    let w = world();
    let nulls = what == 0;
    let t = |k: usize, s: &str| {
        let p = if what == 100 + k { text(n) } else { cstr(s) };
        opt(nulls, p)
    };
    let policy = w.policy.to_string();
    let out = |cap: usize| if nulls { Out::any(cap, true, true) } else { Out::new(cap, cap as i32, false, true) };
    match func {
        0 => {
            let p = t(1, &policy);
            drive(vec![out(n)], nulls && !p.is_null(), &|o| unsafe { h_generate_master_keys(o[0].pp, o[0].pl, p) });
        }
        1 => {
            let msk = b(&w.msk);
            let (mp, ml) = (opt(nulls, ext(&msk).cast::<c_char>()), inlen(what == 1, msk.len()));
            let ap = serde_json::to_string(&(AccessPolicy::new("D", "a") & AccessPolicy::new("L", "x"))).unwrap();
            let (a, p) = (t(1, &ap), t(2, &policy));
            let ok = nulls && !mp.is_null() && !a.is_null() && !p.is_null();
            drive(vec![out(n)], ok, &|o| unsafe { h_generate_user_private_key(o[0].pp, o[0].pl, mp, ml, a, p) });
        }
        _ => {
            let at = serde_json::to_string(&w.attrs()[..1]).unwrap();
            let (a, p) = (t(1, &at), t(2, &policy));
            let ok = nulls && !a.is_null() && !p.is_null();
            drive(vec![out(n)], ok, &|o| unsafe { h_rotate_attributes(o[0].pp, o[0].pl, a, p) });
        }
    }
}

#[no_mangle]
pub extern "C" fn h_c09_caches(func: usize, what: usize, n: usize) {
    let w = world();
    let nulls = what == 0;
    let handle = buf(4).cast::<i32>();
    let hp = opt(nulls, handle as *const i32) as *mut i32;
    let key = if func == 0 { b(&w.mpk) } else { b(&w.key()) };
    let (kp, kl) = (opt(nulls, ext(&key).cast::<c_char>()), inlen(what == 1, key.len()));
    let _ = last_error();
    let r = if func == 0 {
        let p = if what == 101 { text(n) } else { cstr(&w.policy.to_string()) };
        let p = opt(nulls, p);
        let r = unsafe { h_aes_create_encryption_cache(hp, p, kp, kl) };
        check(r != 0 || !p.is_null(), 1);
        r
    } else {
        unsafe { h_aes_create_decryption_cache(hp, kp, kl) }
    };
    check((r == 0) | (r == 1), 2);
    if r == 0 {
        reach(1);
        check(!hp.is_null() && !kp.is_null() && kl > 0, 3);
        check(written(handle.cast()) == 4, 4);
    } else {
        reach(0);
        let (r, e) = last_error();
        check(r == 0 && !e.is_empty(), 6);
    }
    // whatever the number, destroying is accepted
    let h = any_i32();
    let r = unsafe {
        if func == 0 {
            h_aes_destroy_encryption_cache(h)
        } else {
            h_aes_destroy_decryption_cache(h)
        }
    };
    check(r == 0, 7);
}

/// `what`: as above; inputs are public key (1), identifier (2), additional data (3); texts are the
/// attributes (1) and the policy (2)
#[no_mangle]
pub extern "C" fn h_c09_encrypt_header(cached: usize, what: usize, n: usize, cap: usize) {
    let w = world();
    let nulls = what == 0;
    let mpk = b(&w.mpk);
    let at = serde_json::to_string(&w.attrs()).unwrap();
    let at = opt(nulls, if what == 101 { text(n) } else { cstr(&at) });
    let (uid, ad) = (bytes(3), bytes(4));
    let (up, ul) = (opt(nulls, ext(&uid).cast()), inlen(what == 2, 3));
    let (ap, al) = (opt(nulls, ext(&ad).cast()), inlen(what == 3, 4));
    let out = |cap: usize| if nulls { Out::any(cap, true, true) } else { Out::new(cap, cap as i32, false, true) };
    let outs = vec![out(36), out(cap)];
    if cached == 1 {
        let mut h = 0;
        let r = unsafe {
            h_aes_create_encryption_cache(&mut h, cstr(&w.policy.to_string()), mpk.as_ptr().cast(), mpk.len() as i32)
        };
        check(r == 0, 10);
        let ok = nulls && !at.is_null();
        drive(outs, ok, &|o| unsafe {
            h_aes_encrypt_header_using_cache(o[0].pp, o[0].pl, o[1].pp, o[1].pl, h, at, up, ul, ap, al)
        });
    } else {
        let p = opt(nulls, if what == 102 { text(n) } else { cstr(&w.policy.to_string()) });
        let (kp, kl) = (opt(nulls, ext(&mpk).cast::<c_char>()), inlen(what == 1, mpk.len()));
        let ok = nulls && !at.is_null() && !p.is_null() && !kp.is_null();
        drive(outs, ok, &|o| unsafe {
            h_aes_encrypt_header(o[0].pp, o[0].pl, o[1].pp, o[1].pl, p, kp, kl, at, up, ul, ap, al)
        });
    }
}

/// inputs are the header (1) and the key (2); `ad` bytes of additional data (0: none)
#[no_mangle]
pub extern "C" fn h_c09_decrypt_header(cached: usize, what: usize, ad: usize) {
    let w = world();
    let nulls = what == 0;
    let md = Metadata { uid: bytes(3), additional_data: if ad == 0 { None } else { Some(bytes(ad)) } };
    let hdr = encrypt_hybrid_header::<S, Aes256GcmCrypto>(&w.policy, &w.mpk, &w.attrs(), Some(md)).unwrap();
    let uk = b(&w.key());
    let hb = &hdr.encrypted_header_bytes;
    let (hp, hl) = (opt(nulls, ext(hb).cast::<c_char>()), inlen(what == 1, hb.len()));
    let out = |cap: usize, req: bool| if nulls { Out::any(cap, true, req) } else { Out::new(cap, cap as i32, false, req) };
    let outs = vec![out(36, true), out(6, false), out(9, false)];
    if cached == 1 {
        let mut h = 0;
        check(unsafe { h_aes_create_decryption_cache(&mut h, uk.as_ptr().cast(), uk.len() as i32) } == 0, 10);
        let ok = nulls && !hp.is_null();
        drive(outs, ok, &|o| unsafe {
            h_aes_decrypt_header_using_cache(o[0].pp, o[0].pl, o[1].pp, o[1].pl, o[2].pp, o[2].pl, hp, hl, h)
        });
    } else {
        let (kp, kl) = (opt(nulls, ext(&uk).cast::<c_char>()), inlen(what == 2, uk.len()));
        let ok = nulls && !hp.is_null() && !kp.is_null();
        drive(outs, ok, &|o| unsafe {
            h_aes_decrypt_header(o[0].pp, o[0].pl, o[1].pp, o[1].pl, o[2].pp, o[2].pl, hp, hl, kp, kl)
        });
    }
}

/// inputs are key (1), identifier (2) and data (3), all arbitrary at once when `what` = 9
#[no_mangle]
pub extern "C" fn h_c09_block(func: usize, what: usize, n: usize) {
    let nulls = what == 0;
    let is = |k: usize| what == k || what == 9;
    let key = bytes(33);
    let uid = bytes(2);
    let num = any_i32();
    let mut data = bytes(n);
    if func == 1 && what != 4 {
        let k = <Aes256GcmCrypto as SymmetricCrypto>::Key::try_from_bytes(&key[..32]).unwrap();
        data = encrypt_hybrid_block::<S, Aes256GcmCrypto, MAX_CLEAR_TEXT_SIZE>(&k, &uid, num as usize, &data).unwrap();
        check(same(k.as_bytes(), &key[..32]), 10);
    }
    let (kp, kl) = (opt(nulls, ext(&key).cast::<c_char>()), if is(1) { inlen(true, 33) } else { 32 });
    let (up, ul) = (opt(nulls, ext(&uid).cast()), inlen(is(2), 2));
    let (dp, dl) = (opt(nulls, ext(&data).cast()), inlen(is(3), data.len()));
    let cap = if func == 0 { n + 30 } else { n + 2 };
    let o = if nulls || what == 9 { Out::any(cap, nulls, true) } else { Out::new(cap, cap as i32, false, true) };
    let a = o.announced;
    drive(vec![o], false, &|o| unsafe {
        if func == 0 {
            let r = h_aes_encrypt_block(o[0].pp, o[0].pl, kp, kl, up, ul, num, dp, dl);
            if !nulls {
                check((r == 0) == (kl == 32 && dl > 0 && a >= dl + h_aes_symmetric_encryption_overhead()), 11);
            }
            r
        } else {
            let r = h_aes_decrypt_block(o[0].pp, o[0].pl, kp, kl, up, ul, num, dp, dl);
            if !nulls && what != 4 {
                check((r == 0) == (kl == 32 && ul == 2 && dl == data.len() as i32 && a >= n as i32), 12);
            }
            r
        }
    });
}

#[no_mangle]
pub extern "C" fn h_c09_size(n: usize) {
    let d = bytes(n);
    let p = maybe(ext(&d).cast::<c_char>());
    let l = any_i32();
    assume(l <= n as i32);
    let _ = last_error();
    let r = unsafe { h_get_encrypted_header_size(p, l) };
    if p.is_null() || l < 4 {
        check(r == 1, 1);
        check(!last_error().1.is_empty(), 2);
        reach(0);
    } else {
        check(r == i32::from_be_bytes([d[0], d[1], d[2], d[3]]), 3);
        reach(1);
    }
}
