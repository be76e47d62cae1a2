//! The Python and WebAssembly entry points: whatever they are given, an answer; caches kept apart.
use crate::api::*;
use abe_policy::Attribute;
use cosmian_abe_gpsw::interfaces::hybrid_crypto::{
    decrypt_hybrid_header, encrypt_hybrid_block, encrypt_hybrid_header, ClearTextHeader, EncryptedHeader,
};
use cosmian_abe_gpsw::interfaces::pyo3::{generate_gpsw_keys as pk, hybrid_gpsw_aes as ph};
use cosmian_abe_gpsw::interfaces::wasm_bindgen::{
    generate_gpsw_keys as wk, hybrid_gpsw_aes_decryption as wd, hybrid_gpsw_aes_encryption as we,
};
use cosmian_crypto_base::symmetric_crypto::aes_256_gcm_pure::Aes256GcmCrypto;
use cosmian_crypto_base::symmetric_crypto::{Metadata, SymKey, SymmetricCrypto};
use cosmian_crypto_base::KeyTrait;
use js_sys::Uint8Array;

type A = Aes256GcmCrypto;
type Key = <A as SymmetricCrypto>::Key;
const MAX: usize = 1 << 30;

fn js(b: &[u8]) -> Uint8Array {
    Uint8Array::from(b)
}
fn text(b: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}

/// what a function is, and what it may be given
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Json,
    /// readable characters
    Text,
    Key,
    Header,
    Value,
    /// no structure of its own
    Free,
    Sym,
    Block,
}
use Kind::*;

/// valid arguments of function `f`
fn args(f: usize, w: &World, num: usize) -> Vec<(Kind, Vec<u8>)> {
    // (a document whose fields are in alphabetical order)
    let policy = || {
        let mut p = w.policy.clone();
        if f == 4 || f == 22 {
            // (room for rotations)
            p.max_attribute_creations = 9;
        }
        (Json, serde_json::to_value(&p).unwrap().to_string().into_bytes())
    };
    let at = || (Json, serde_json::to_string(&w.attrs()).unwrap().into_bytes());
    let (msk, mpk, mdk, usk) = (|| (Key, b(&w.msk)), || (Key, b(&w.mpk)), || (Key, b(&w.mdk)), || (Key, b(&w.key())));
    let ap = || (Text, b"D::a && L::x".to_vec());
    let ats = || (Text, b"D::a,L::x".to_vec());
    let meta = || (Json, b"{\"uid\":[1,2],\"additional_data\":[3]}".to_vec());
    let sym = || (Sym, vec![5u8; 32]);
    let m = Metadata { uid: vec![1, 2], additional_data: Some(vec![3]) };
    let header = || {
        let h: EncryptedHeader<A> = encrypt_hybrid_header::<S, A>(&w.policy, &w.mpk, &w.attrs(), Some(m.clone())).unwrap();
        (h.encrypted_header_bytes, h.symmetric_key)
    };
    let block = |k: &Key| encrypt_hybrid_block::<S, A, MAX>(k, &[1, 2], num, &[9; 3]).unwrap();
    match f {
        0 | 20 => vec![policy()],
        1 | 21 => vec![msk(), ap(), policy()],
        2 => vec![mdk(), usk(), ap(), policy()],
        5 | 23 => vec![(Free, vec![0, 0, 0, 9, 1])],
        3 => vec![(Json, b"[{\"name\":\"A\",\"attributes\":[\"z\"],\"hierarchical\":true}]".to_vec())],
        4 | 22 => vec![at(), policy()],
        6 => vec![meta(), policy(), at(), mpk()],
        7 | 28 | 30 => vec![usk(), (Header, header().0)],
        8 | 27 => vec![sym(), (Free, vec![1, 2]), (Free, vec![9; 3])],
        9 | 31 => vec![sym(), (Free, vec![1, 2]), (Block, block(&Key::try_from_bytes(&[5; 32]).unwrap()))],
        10 => vec![meta(), policy(), at(), mpk(), (Free, vec![9; 3])],
        11 => {
            let (h, k) = header();
            let mut v = (h.len() as u32).to_be_bytes().to_vec();
            v.extend_from_slice(&h);
            v.extend(block(&k));
            vec![usk(), (Value, v)]
        }
        24 => vec![policy(), mpk(), ats(), (Free, vec![1, 2])],
        26 => vec![ats(), (Free, vec![1, 2])],
        25 => vec![policy(), mpk()],
        _ => vec![usk()],
    }
}
/// what comes back, for functions that open something
fn call(f: usize, w: &World, num: usize, a: Vec<Vec<u8>>) -> Option<Vec<u8>> {
    let none = |ok: bool| if ok { Some(vec![]) } else { None };
    let g = |i: usize| a[i].clone();
    let j = |i: usize| js(&a[i]);
    let opt = |i: usize| if a[i].is_empty() { None } else { Some(js(&a[i])) };
    match f {
        0 => none(pk::generate_master_keys(g(0)).is_ok()),
        1 => none(pk::generate_user_private_key(g(0), text(&a[1]), g(2)).is_ok()),
        2 => none(pk::generate_delegated_key(g(0), g(1), text(&a[2]), g(3)).is_ok()),
        3 => none(pk::generate_policy(g(0), 5).is_ok()),
        4 => none(pk::rotate_attributes(g(0), g(1)).is_ok()),
        5 => none(ph::get_encrypted_header_size(g(0)).is_ok()),
        23 => none(wd::webassembly_get_encrypted_header_size(j(0)).is_ok()),
        6 => none(ph::encrypt_hybrid_header(g(0), g(1), g(2), g(3)).is_ok()),
        7 => ph::decrypt_hybrid_header(g(0), g(1)).ok().map(|(mut k, m)| {
            k.extend(m);
            k
        }),
        8 => none(ph::encrypt_hybrid_block(g(0), g(1), num, g(2)).is_ok()),
        9 => ph::decrypt_hybrid_block(g(0), g(1), num, g(2)).ok(),
        10 => none(ph::encrypt(g(0), g(1), g(2), g(3), g(4)).is_ok()),
        11 => ph::decrypt(g(0), g(1)).ok(),
        20 => none(wk::webassembly_generate_master_keys(j(0)).is_ok()),
        21 => none(wk::webassembly_generate_user_private_key(j(0), &text(&a[1]), j(2)).is_ok()),
        22 => none(wk::webassembly_rotate_attributes(j(0), j(1)).is_ok()),
        24 => none(we::webassembly_encrypt_hybrid_header(j(0), j(1), &text(&a[2]), j(3)).is_ok()),
        25 => none(we::webassembly_create_encryption_cache(j(0), j(1)).is_ok()),
        26 => {
            let h = we::webassembly_create_encryption_cache(js(w.policy.to_string().as_bytes()), js(&b(&w.mpk))).unwrap();
            none(we::webassembly_encrypt_hybrid_header_using_cache(h, &text(&a[0]), j(1)).is_ok())
        }
        27 => none(we::webassembly_encrypt_hybrid_block(j(0), opt(1), Some(num), j(2)).is_ok()),
        28 => wd::webassembly_decrypt_hybrid_header(j(0), j(1)).ok().map(|v| v.to_vec()),
        30 => match wd::webassembly_create_decryption_cache(j(0)) {
            Ok(h) => wd::webassembly_decrypt_hybrid_header_using_cache(h, j(1)).ok().map(|v| v.to_vec()),
            Err(_) => None,
        },
        31 => wd::webassembly_decrypt_hybrid_block(j(0), opt(1), Some(num), j(2)).ok().map(|v| v.to_vec()),
        _ => none(wd::webassembly_create_decryption_cache(j(0)).is_ok()),
    }
}
fn done(ok: bool) {
    reach(ok as u32);
    emit(ok as u64);
}

fn number() -> usize {
    u64::from_be_bytes(array::<8>()) as usize
}
/// a block under any number, opened under it or another
#[no_mangle]
pub extern "C" fn h_c18_number(f: usize) {
    let w = world();
    let (n, m) = (number(), number());
    let a = args(f, &w, n);
    let ok = call(f, &w, m, a.into_iter().map(|a| a.1).collect()).is_some();
    check(ok == (n == m || f == 8 || f == 27), 1);
    done(ok);
}
/// argument `i` of function `f` is `n` arbitrary bytes
#[no_mangle]
pub extern "C" fn h_c18_any(f: usize, i: usize, n: usize) {
    let w = world();
    let num = number();
    let mut a = args(f, &w, num);
    let x = bytes(n);
    if a[i].0 == Text {
        for c in &x {
            assume(*c < 128);
        }
    }
    let kind = a[i].0;
    a[i].1 = x;
    let ok = call(f, &w, num, a.into_iter().map(|a| a.1).collect()).is_some();
    match kind {
        // sealed data cannot be made up
        Header | Value | Block => check(!ok, 1),
        Sym => check(!ok || n == 32, 2),
        _ => {}
    }
    done(ok);
}
/// argument `i` of function `f` is cut somewhere
#[no_mangle]
pub extern "C" fn h_c18_cut(f: usize, i: usize) {
    let w = world();
    let mut a = args(f, &w, 0);
    let l = a[i].1.len();
    let x: [u8; 2] = array();
    assume(u16::from_be_bytes(x) < l as u16);
    let n = conc(u64::from(u16::from_be_bytes(x))) as usize;
    let kind = a[i].0;
    // a header that ends behind the encapsulation has no metadata
    let bare = kind == Header && {
        let h = &a[i].1;
        n == 4 + u32::from_be_bytes([h[0], h[1], h[2], h[3]]) as usize
    };
    a[i].1.truncate(n);
    let ok = call(f, &w, 0, a.into_iter().map(|a| a.1).collect()).is_some();
    match kind {
        Header => check(ok == bare, 1),
        Json | Key | Value | Block | Sym => check(!ok, 2),
        _ => {}
    }
    done(ok);
}
/// byte `p` of argument `i` of function `f` is any byte
#[no_mangle]
pub extern "C" fn h_c18_byte(f: usize, i: usize, p: usize) {
    let w = world();
    let mut a = args(f, &w, 0);
    let original = call(f, &w, 0, a.iter().map(|a| a.1.clone()).collect());
    let (kind, v) = &mut a[i];
    if p >= v.len() {
        return done(false);
    }
    let was = v[p];
    let x: [u8; 1] = array();
    if *kind == Text {
        assume(x[0] < 128);
    }
    v[p] = x[0];
    let kind = *kind;
    let got = call(f, &w, 0, a.into_iter().map(|a| a.1).collect());
    if x[0] == was {
        check(got.is_some(), 1);
    } else if kind == Block {
        check(got.is_none(), 2);
    } else if let (Header | Value, Some(got)) = (kind, &got) {
        // (the encapsulation may hold parts that this key does not need)
        check(original.map_or(false, |o| same(&o, got)), 3);
    }
    done(got.is_some());
}

/// a policy that says strange things: `kind` of strangeness, numbers of one digit
#[no_mangle]
pub extern "C" fn h_c18_policy(lang: usize, kind: usize) {
    let w = world();
    let digit = || {
        let d: [u8; 1] = array();
        assume(d[0] < 10);
        char::from(b'0' + d[0])
    };
    let (last, max, v) = match kind {
        0 => ('2', '4', format!("[{}]", digit())),
        1 => ('2', digit(), "[1]".to_string()),
        2 => (digit(), '4', "[1]".to_string()),
        3 => ('3', '4', format!("[{},{}]", digit(), digit())),
        4 => ('2', '4', "[]".to_string()),
        _ => ('2', '4', "[1]".to_string()),
    };
    // an attribute without value, a value without attribute, an empty axis
    let (names, extra) = match kind {
        5 => ("\"a\",\"b\"", ""),
        6 => ("\"a\"", ",\"D::b\":[2]"),
        7 => ("", ""),
        8 => ("\"a\",\"a\"", ""),
        _ => ("\"a\"", ""),
    };
    let h = flag();
    let p = format!(
        "{{\"last_attribute_value\":{last},\"max_attribute_creations\":{max},\"axes\":{{\"D\":[[{names}],{h}]}},\"attribute_to_int\":{{\"D::a\":{v}{extra}}}}}"
    );
    let p = p.into_bytes();
    let (msk, mpk) = (b(&w.msk), b(&w.mpk));
    let aps = ["D::a", "D::b", "D::a || D::b"];
    let ap = aps[choice(3)];
    let at = ["D::a", "D::b"][choice(2)];
    let atj = serde_json::to_string(&vec![Attribute::try_from(at).unwrap()]).unwrap();
    if lang == 1 {
        let _ = pk::generate_master_keys(p.clone());
        let k = pk::generate_user_private_key(msk, ap.to_string(), p.clone());
        let h = ph::encrypt_hybrid_header(b"{\"uid\":[1],\"additional_data\":null}".to_vec(), p.clone(), atj.clone().into_bytes(), mpk);
        let _ = pk::rotate_attributes(atj.into_bytes(), p);
        reach(k.is_ok() as u32);
        reach(2 + h.is_ok() as u32);
        if let (Ok(k), Ok(h)) = (k, h) {
            let o = ph::decrypt_hybrid_header(k, h.1);
            reach(4 + o.is_ok() as u32);
        }
    } else {
        let _ = wk::webassembly_generate_master_keys(js(&p));
        let k = wk::webassembly_generate_user_private_key(js(&msk), ap, js(&p));
        let h = we::webassembly_encrypt_hybrid_header(js(&p), js(&mpk), at, js(&[1]));
        let _ = wk::webassembly_rotate_attributes(js(atj.as_bytes()), js(&p));
        reach(k.is_ok() as u32);
        reach(2 + h.is_ok() as u32);
        if let (Ok(k), Ok(h)) = (k, h) {
            let h = EncryptedHeader::<A>::try_from_bytes(&h.to_vec()).unwrap();
            let o = wd::webassembly_decrypt_hybrid_header(k, js(&h.encrypted_header_bytes));
            reach(4 + o.is_ok() as u32);
        }
    }
}

// ------------------------------------------------------------ WebAssembly caches
struct Side {
    w: World,
    key: Usk,
    header: Vec<u8>,
    sym: Vec<u8>,
}
fn side() -> Side {
    let w = world();
    let key = w.key();
    let h: EncryptedHeader<A> = encrypt_hybrid_header::<S, A>(
        &w.policy,
        &w.mpk,
        &w.attrs(),
        Some(Metadata { uid: vec![1, 2], additional_data: None }),
    )
    .unwrap();
    Side { key, w, sym: h.symmetric_key.as_bytes().to_vec(), header: h.encrypted_header_bytes }
}
fn create(enc: bool, s: &Side) -> i32 {
    let r = if enc {
        we::webassembly_create_encryption_cache(js(s.w.policy.to_string().as_bytes()), js(&b(&s.w.mpk)))
    } else {
        wd::webassembly_create_decryption_cache(js(&b(&s.key)))
    };
    check(r.is_ok(), 1);
    r.unwrap_or(0)
}
fn destroy(enc: bool, h: i32) -> bool {
    if enc {
        we::webassembly_destroy_encryption_cache(h).is_ok()
    } else {
        wd::webassembly_destroy_decryption_cache(h).is_ok()
    }
}
/// which side's material handle `h` works with, if any
fn used(enc: bool, h: i32, sides: &[Side]) -> Option<usize> {
    if enc {
        let v = we::webassembly_encrypt_hybrid_header_using_cache(h, "D::a,L::x", js(&[7])).ok()?.to_vec();
        let e = EncryptedHeader::<A>::try_from_bytes(&v);
        check(e.is_ok(), 2);
        let e = e.ok()?;
        for (i, s) in sides.iter().enumerate() {
            if let Ok(c) = decrypt_hybrid_header::<S, A>(&s.key, &e.encrypted_header_bytes) {
                check(same(c.symmetric_key.as_bytes(), e.symmetric_key.as_bytes()), 3);
                return Some(i);
            }
        }
        check(false, 4);
        return None;
    }
    let mut got = None;
    for (i, s) in sides.iter().enumerate() {
        if let Ok(v) = wd::webassembly_decrypt_hybrid_header_using_cache(h, js(&s.header)) {
            let c = ClearTextHeader::<A>::try_from_bytes(&v.to_vec());
            check(c.map_or(false, |c| same(c.symmetric_key.as_bytes(), &s.sym)), 5);
            check(got.is_none(), 6);
            got = Some(i);
        }
    }
    got
}
/// `depth` operations, the first ones fixed by the digits of `plan`
#[no_mangle]
pub extern "C" fn h_c18_history(enc: usize, depth: usize, plan: usize) {
    let enc = enc == 1;
    let sides = [side(), side()];
    let mut live: Vec<(i32, usize)> = vec![];
    let mut issued: Vec<i32> = vec![];
    let mut plan = plan;
    for _ in 0..depth {
        let op = if plan > 0 {
            let o = plan % 5 - 1;
            plan /= 5;
            o
        } else {
            choice(4)
        };
        match op {
            0 | 1 => {
                let h = create(enc, &sides[op]);
                check(issued.iter().all(|l| *l != h), 7);
                issued.push(h);
                live.push((h, op));
            }
            2 => {
                let h = any_i32();
                let want = live.iter().find(|(l, _)| *l == h).map(|x| x.1);
                check(used(enc, h, &sides) == want, 8);
            }
            _ => {
                let h = any_i32();
                let r = destroy(enc, h);
                if live.iter().any(|(l, _)| *l == h) {
                    check(r, 9);
                }
                live.retain(|(l, _)| *l != h);
            }
        }
    }
    for (h, m) in &live {
        check(used(enc, *h, &sides) == Some(*m), 10);
    }
    reach(1);
    reach(2 + live.len() as u32);
    emit(live.len() as u64);
}
/// a creation that fails changes nothing, and the two kinds of caches are apart
#[no_mangle]
pub extern "C" fn h_c18_apart(k: usize) {
    let sides = [side(), side()];
    let (e, d) = (create(true, &sides[0]), create(false, &sides[1]));
    let h = any_i32();
    let (mut we_, mut wd_) = (Some(0), Some(1));
    match k {
        0 => {
            destroy(true, h);
            if h == e {
                we_ = None;
            }
        }
        1 => {
            destroy(false, h);
            if h == d {
                wd_ = None;
            }
        }
        2 => check(we::webassembly_create_encryption_cache(js(sides[1].w.policy.to_string().as_bytes()), js(&b(&sides[1].w.mpk)[..20])).is_err(), 11),
        3 => check(wd::webassembly_create_decryption_cache(js(&b(&sides[0].key)[..20])).is_err(), 12),
        _ => {
            check(we::webassembly_encrypt_hybrid_header_using_cache(e, "D::z", js(&[7])).is_err(), 13);
            check(wd::webassembly_decrypt_hybrid_header_using_cache(d, js(&sides[1].header[..10])).is_err(), 14);
        }
    }
    check(used(true, e, &sides) == we_, 15);
    check(used(false, d, &sides) == wd_, 16);
    reach(1);
}

/// `n` caches at the same time, one of them destroyed
#[no_mangle]
pub extern "C" fn h_c18_many(enc: usize, n: usize) {
    let enc = enc == 1;
    let sides = [side(), side()];
    let handles: Vec<i32> = (0..n).map(|i| create(enc, &sides[i % 2])).collect();
    for i in 0..n {
        check(!handles[..i].contains(&handles[i]), 17);
    }
    let (d, h) = (handles[n / 2], any_i32());
    destroy(enc, d);
    let want = handles.iter().position(|x| *x == h && h != d).map(|i| i % 2);
    check(used(enc, h, &sides) == want, 18);
    reach(1 + want.map_or(0, |w| 1 + w as u32));
}
