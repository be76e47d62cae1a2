//! The language bindings against the core library.
use crate::api::*;
use abe_policy::{AccessPolicy, Attribute, Policy, PolicyAxis};
use cosmian_abe_gpsw::core::gpsw::AsBytes;
use cosmian_abe_gpsw::core::Engine;
use cosmian_abe_gpsw::interfaces::ffi::generate_gpsw_keys as fk;
use cosmian_abe_gpsw::interfaces::ffi::hybrid_gpsw_aes as fh;
use cosmian_abe_gpsw::interfaces::hybrid_crypto::{
    decrypt_hybrid_block, decrypt_hybrid_header, encrypt_hybrid_block, encrypt_hybrid_header, ClearTextHeader, EncryptedHeader,
};
use cosmian_abe_gpsw::interfaces::pyo3::{generate_gpsw_keys as pk, hybrid_gpsw_aes as ph};
use cosmian_abe_gpsw::interfaces::wasm_bindgen::{
    generate_gpsw_keys as wk, hybrid_gpsw_aes_decryption as wd, hybrid_gpsw_aes_encryption as we,
};
use cosmian_crypto_base::symmetric_crypto::aes_256_gcm_pure::Aes256GcmCrypto;
use cosmian_crypto_base::symmetric_crypto::{Metadata, SymKey, SymmetricCrypto};
use cosmian_crypto_base::KeyTrait;
use js_sys::Uint8Array;
use std::os::raw::{c_char, c_int};

type A = Aes256GcmCrypto;
type Key = <A as SymmetricCrypto>::Key;
const C: usize = 0;
const PY: usize = 1;
const MAX: usize = 1 << 30;

fn js(b: &[u8]) -> Uint8Array {
    Uint8Array::from(b)
}
/// what a C function writes into buffers of these sizes, with the lengths it tells
fn c<const N: usize>(caps: [usize; N], f: impl Fn([*mut c_char; N], [*mut c_int; N]) -> c_int) -> Option<[Vec<u8>; N]> {
    let p = caps.map(|n| buf(n).cast::<c_char>());
    let l = caps.map(|n| {
        let l = buf(4).cast::<c_int>();
        unsafe { *l = n as c_int };
        l
    });
    if f(p, l) != 0 {
        return None;
    }
    let mut out = [const { vec![] }; N];
    for i in 0..N {
        let n = unsafe { *l[i] };
        check(n >= 0 && n as usize <= caps[i], 90);
        out[i] = unsafe { std::slice::from_raw_parts(p[i].cast::<u8>(), n as usize) }.to_vec();
    }
    Some(out)
}
/// pointer and length; nothing is a null pointer
fn cin(b: &[u8]) -> (*const c_char, c_int) {
    if b.is_empty() {
        (std::ptr::null(), 0)
    } else {
        (ext(b).cast(), b.len() as c_int)
    }
}
/// 4-byte big-endian length | first | second
fn two(v: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    if v.len() < 4 {
        return None;
    }
    let n = u32::from_be_bytes([v[0], v[1], v[2], v[3]]) as usize;
    if v.len() - 4 < n {
        return None;
    }
    Some((v[4..4 + n].to_vec(), v[4 + n..].to_vec()))
}
fn attr_lists() -> Vec<Vec<Attribute>> {
    let (a, b, x) = (Attribute::new("D", "a"), Attribute::new("D", "b"), Attribute::new("L", "x"));
    vec![vec![a.clone()], vec![b.clone()], vec![x.clone()], vec![a.clone(), x.clone()], vec![b, x]]
}
fn policies() -> [&'static str; 7] {
    ["D::a && L::x", "D::a || L::x", "D::b", "L::x", "(D::a || D::b) && L::x", "D::a", "D::b && L::x"]
}

// ------------------------------------------------------------ keys
fn master(lang: usize, policy: &str) -> Option<(Vec<u8>, Vec<u8>, Vec<u8>)> {
    let mut mdk = vec![];
    let (msk, mpk) = match lang {
        C => {
            let p = cstr(policy);
            let [v] = c([1500], |p0, l0| unsafe { fk::h_generate_master_keys(p0[0], l0[0], p) })?;
            two(&v)?
        }
        PY => {
            let k = pk::generate_master_keys(policy.as_bytes().to_vec()).ok()?;
            mdk = k.2;
            (k.0, k.1)
        }
        _ => two(&wk::webassembly_generate_master_keys(js(policy.as_bytes())).ok()?.to_vec())?,
    };
    Some((msk, mpk, mdk))
}
fn user(lang: usize, msk: &[u8], ap: &str, policy: &str) -> Option<Vec<u8>> {
    match lang {
        C => {
            let j = serde_json::to_string(&AccessPolicy::from_boolean_expression(ap).ok()?).ok()?;
            let (a, p, (m, ml)) = (cstr(&j), cstr(policy), cin(msk));
            let [k] = c([1500], |p0, l0| unsafe { fk::h_generate_user_private_key(p0[0], l0[0], m, ml, a, p) })?;
            Some(k)
        }
        PY => pk::generate_user_private_key(msk.to_vec(), ap.to_string(), policy.as_bytes().to_vec()).ok(),
        _ => Some(wk::webassembly_generate_user_private_key(js(msk), ap, js(policy.as_bytes())).ok()?.to_vec()),
    }
}
/// the symmetric key is recovered
fn opens(policy: &Policy, mpk: &Mpk, k: &Usk, at: &[Attribute]) -> bool {
    let e = Engine::<S>::new();
    let (sk, enc) = e.generate_symmetric_key(policy, mpk, at, 32).unwrap();
    e.decrypt_symmetric_key(k, &enc, 32).map_or(false, |s| same(&s, &sk))
}
/// keys issued through a binding for policy `ap` open what the core's keys for it open
#[no_mangle]
pub extern "C" fn h_c17_keys(lang: usize, ap: usize) {
    let w = world();
    let policy = w.policy.to_string();
    let Some((msk, mpk, mdk)) = master(lang, &policy) else { return check(false, 1) };
    // the core reads them, and they are keys of this policy
    let (Ok(m), Ok(p)) = (Msk::try_from_bytes(&msk), Mpk::try_from_bytes(&mpk)) else { return check(false, 2) };
    check(same(&b(&m), &msk) & same(&b(&p), &mpk), 3);
    check(msk.len() == b(&w.msk).len() && mpk.len() == b(&w.mpk).len(), 4);
    check(!same(&msk, &b(&w.msk)), 5);
    let e = Engine::<S>::new();
    let ap = policies()[ap];
    let apo = AccessPolicy::from_boolean_expression(ap).unwrap();
    let Some(k) = user(lang, &msk, ap, &policy) else { return check(false, 6) };
    let core = e.generate_user_key(&w.policy, &m, &apo).unwrap();
    check(k.len() == b(&core).len(), 7);
    let Ok(k1) = Usk::try_from_bytes(&k) else { return check(false, 8) };
    for at in attr_lists() {
        let ok = opens(&w.policy, &p, &core, &at);
        reach(if ok { 1 } else { 2 });
        check(opens(&w.policy, &p, &k1, &at) == ok, 9);
    }
    // a key of another authority opens nothing
    check(!opens(&w.policy, &w.mpk, &k1, &[Attribute::new("D", "a"), Attribute::new("D", "b"), Attribute::new("L", "x")]), 10);
    // wrong material is an error
    check(user(lang, &msk[..msk.len() - 1], ap, &policy).is_none(), 11);
    check(user(lang, &msk, "D::z", &policy).is_none(), 12);
    check(user(lang, &msk, "D::a &&", &policy).is_none(), 13);
    check(user(lang, &msk, ap, "{}").is_none() && master(lang, "{}").is_none(), 14);
    if lang == PY {
        let Ok(d) = Mdk::try_from_bytes(&mdk) else { return check(false, 15) };
        for r in policies() {
            let ro = AccessPolicy::from_boolean_expression(r).unwrap();
            let py = pk::generate_delegated_key(mdk.clone(), k.clone(), r.to_string(), policy.as_bytes().to_vec());
            let own = e.delegate_user_key(&w.policy, &d, &core, &ro);
            check(py.is_ok() == own.is_ok(), 16);
            if let (Ok(py), Ok(own)) = (py, own) {
                reach(3);
                check(py.len() == b(&own).len(), 17);
                let Ok(py) = Usk::try_from_bytes(&py) else { return check(false, 18) };
                for at in attr_lists() {
                    let ct = e.random_message().and_then(|m| Ok((e.encrypt(&w.policy, &p, &at, &m)?, m)));
                    let Ok((ct, m)) = ct else { return check(false, 19) };
                    let f = |k: &Usk| e.decrypt(&ct, k).ok().flatten().map(|d| d == m);
                    check(f(&py) == f(&own), 20);
                }
            }
        }
    }
}

// ------------------------------------------------------------ policies
fn same_policy(a: &Policy, b: &Policy) -> bool {
    a.last_attribute_value == b.last_attribute_value
        && a.max_attribute_creations == b.max_attribute_creations
        && a.axes == b.axes
        && a.attribute_to_int.len() == b.attribute_to_int.len()
        && a.attributes().iter().all(|at| a.attribute_values(at).ok() == b.attribute_values(at).ok())
}
/// `n` attributes, each one of four (one unknown), rotated in a policy with room for three rotations
#[no_mangle]
pub extern "C" fn h_c17_rotate(lang: usize, n: usize) {
    let mut policy = Policy::new(6);
    policy.add_axis(&PolicyAxis::new("D", &["a", "b"], false)).unwrap();
    policy.add_axis(&PolicyAxis::new("L", &["x"], true)).unwrap();
    let all = ["D::a", "D::b", "L::x", "D::z"];
    let list: Vec<&str> = (0..n).map(|_| all[choice(4)]).collect();
    let text = policy.to_string();
    let mut ok = true;
    for a in &list {
        ok = ok && policy.rotate(&Attribute::try_from(*a).unwrap()).is_ok();
    }
    let at = serde_json::to_string(&list).unwrap();
    let got = match lang {
        C => {
            let (a, p) = (cstr(&at), cstr(&text));
            c([600], |p0, l0| unsafe { fk::h_rotate_attributes(p0[0], l0[0], a, p) }).map(|[v]| v)
        }
        PY => pk::rotate_attributes(at.into_bytes(), text.into_bytes()).ok(),
        _ => wk::webassembly_rotate_attributes(js(at.as_bytes()), js(text.as_bytes())).ok().map(String::into_bytes),
    };
    check(got.is_some() == ok, 1);
    if let Some(g) = got {
        match serde_json::from_slice::<Policy>(&g) {
            Ok(g) => check(same_policy(&g, &policy), 2),
            Err(_) => check(false, 3),
        }
        reach(1);
    } else {
        reach(0);
    }
}
/// a policy made by Python from `n` axes, each of one to three attributes or with the name of the
/// first, hierarchical or not
#[no_mangle]
pub extern "C" fn h_c17_policy(n: usize) {
    let max = [0usize, 1, 3, 5, 255, 256, 65535, 65536, 65541, 16_777_216, 4_294_967_295][choice(11)];
    let mut policy = Policy::new(max as u32);
    let mut j = String::from("[");
    let mut ok = true;
    for i in 0..n {
        let name = ["A", "B", "C"][if i > 0 { i * choice(2) } else { 0 }];
        let at = &["z", "y", "x"][..1 + choice(3)];
        let h = flag();
        ok = ok && policy.add_axis(&PolicyAxis::new(name, at, h)).is_ok();
        let l: Vec<String> = at.iter().map(|a| format!("\"{a}\"")).collect();
        j += &format!("{}{{\"name\":\"{name}\",\"attributes\":[{}],\"hierarchical\":{h}}}", if i > 0 { "," } else { "" }, l.join(","));
    }
    j += "]";
    match pk::generate_policy(j.into_bytes(), max) {
        Ok(g) => {
            check(ok, 1);
            match serde_json::from_slice::<Policy>(&g) {
                Ok(g) => check(same_policy(&g, &policy), 2),
                Err(_) => check(false, 3),
            }
            reach(1);
        }
        Err(_) => {
            check(!ok, 4);
            reach(0);
        }
    }
}

// ------------------------------------------------------------ headers
/// decimal text of a byte: any with one, two or three digits
fn byte_text(i: usize) -> (String, u8) {
    let d: [u8; 1] = array();
    assume(d[0] < 10);
    let (pre, p, top) = [("", 0u8, 10), ("1", 10, 10), ("9", 90, 10), ("12", 120, 10), ("25", 250, 6)][i % 5];
    assume(d[0] < top);
    let mut s = pre.as_bytes().to_vec();
    s.push(b'0' + d[0]);
    (unsafe { String::from_utf8_unchecked(s) }, p + d[0])
}
/// JSON of metadata, and what it says
fn meta_json(uid: usize, ad: usize) -> (Vec<u8>, Metadata) {
    let list = |n: usize, o: usize| -> (String, Vec<u8>) {
        let (mut t, mut v) = (String::from("["), vec![]);
        for i in 0..n {
            // (of many, few are arbitrary)
            let (s, x) = if n > 256 && i % 4000 > 0 { ("7".to_string(), 7) } else { byte_text(i + o) };
            if i > 0 {
                t.push(',');
            }
            t.push_str(&s);
            v.push(x);
        }
        t.push(']');
        (t, v)
    };
    let (ut, uv) = list(uid, 0);
    let mut j = String::from("{\"uid\":");
    j.push_str(&ut);
    let mut m = Metadata { uid: uv, additional_data: None };
    j.push_str(",\"additional_data\":");
    if ad == 0 {
        j.push_str("null");
    } else {
        let (at, av) = list(ad, 2);
        j.push_str(&at);
        m.additional_data = Some(av);
    }
    j.push('}');
    (j.into_bytes(), m)
}
fn ad_of(m: &Metadata) -> &[u8] {
    m.additional_data.as_deref().unwrap_or(&[])
}

/// a header made through a binding, with `uid` and `ad` bytes of metadata, opened by the core
#[no_mangle]
pub extern "C" fn h_c17_seal(lang: usize, cached: usize, uid: usize, ad: usize) {
    let w = world();
    let (policy, mpk) = (w.policy.to_string(), b(&w.mpk));
    let at = serde_json::to_string(&w.attrs()).unwrap();
    let made = match lang {
        C => {
            let m = Metadata { uid: bulk(uid), additional_data: if ad > 0 { Some(bulk(ad)) } else { None } };
            let ((u, ul), (d, dl), (k, kl)) = (cin(&m.uid), cin(ad_of(&m)), cin(&mpk));
            let (p, a) = (cstr(&policy), cstr(&at));
            let r = if cached == 1 {
                let mut h = 0;
                check(unsafe { fh::h_aes_create_encryption_cache(&mut h, p, k, kl) } == 0, 1);
                c([32, 500 + uid + ad], |q, l| unsafe { fh::h_aes_encrypt_header_using_cache(q[0], l[0], q[1], l[1], h, a, u, ul, d, dl) })
            } else {
                c([32, 500 + uid + ad], |q, l| unsafe { fh::h_aes_encrypt_header(q[0], l[0], q[1], l[1], p, k, kl, a, u, ul, d, dl) })
            };
            r.map(|[k, h]| (k, h, m))
        }
        PY => {
            let (j, m) = meta_json(uid, ad);
            ph::encrypt_hybrid_header(j, policy.into_bytes(), at.into_bytes(), mpk).ok().map(|(k, h)| (k, h, m))
        }
        _ => {
            let m = Metadata { uid: bulk(uid), additional_data: None };
            let r = if cached == 1 {
                we::webassembly_create_encryption_cache(js(policy.as_bytes()), js(&mpk))
                    .and_then(|h| we::webassembly_encrypt_hybrid_header_using_cache(h, "D::a,L::x", js(&m.uid)))
            } else {
                we::webassembly_encrypt_hybrid_header(js(policy.as_bytes()), js(&mpk), "D::a,L::x", js(&m.uid))
            };
            let r = r.ok().and_then(|v| {
                let v = v.to_vec();
                let e = EncryptedHeader::<A>::try_from_bytes(&v).ok()?;
                let (k, h) = two(&v)?;
                check(same(&k, e.symmetric_key.as_bytes()) & same(&h, &e.encrypted_header_bytes), 2);
                Some((k, h))
            });
            r.map(|(k, h)| (k, h, m))
        }
    };
    let Some((key, header, m)) = made else { return check(false, 3) };
    check(key.len() == 32, 4);
    // size of what the core makes of the same
    let own: EncryptedHeader<A> = encrypt_hybrid_header::<S, A>(&w.policy, &w.mpk, &w.attrs(), Some(m.clone())).unwrap();
    check(own.encrypted_header_bytes.len() == header.len(), 5);
    match decrypt_hybrid_header::<S, A>(&w.key(), &header) {
        Ok(h) => {
            check(same(h.symmetric_key.as_bytes(), &key), 6);
            check(same(&h.meta_data.uid, &m.uid), 7);
            check(same(ad_of(&h.meta_data), ad_of(&m)), 8);
            reach(1);
        }
        Err(_) => check(false, 9),
    }
    check(decrypt_hybrid_header::<S, A>(&w.other_key(), &header).is_err(), 10);
}

fn open_header(lang: usize, cached: bool, key: &[u8], header: &[u8]) -> Option<(Vec<u8>, Metadata)> {
    match lang {
        C => {
            let ((k, kl), (h, hl)) = (cin(key), cin(header));
            let r = if cached {
                let mut x = 0;
                if unsafe { fh::h_aes_create_decryption_cache(&mut x, k, kl) } != 0 {
                    return None;
                }
                c([32, header.len() + 60, header.len() + 60], |q, l| unsafe {
                    fh::h_aes_decrypt_header_using_cache(q[0], l[0], q[1], l[1], q[2], l[2], h, hl, x)
                })
            } else {
                c([32, header.len() + 60, header.len() + 60], |q, l| unsafe { fh::h_aes_decrypt_header(q[0], l[0], q[1], l[1], q[2], l[2], h, hl, k, kl) })
            };
            r.map(|[k, u, d]| (k, Metadata { uid: u, additional_data: Some(d) }))
        }
        PY => {
            let (k, m) = ph::decrypt_hybrid_header(key.to_vec(), header.to_vec()).ok()?;
            Some((k, Metadata::try_from_bytes(&m).ok()?))
        }
        _ => {
            let v = if cached {
                let h = wd::webassembly_create_decryption_cache(js(key)).ok()?;
                wd::webassembly_decrypt_hybrid_header_using_cache(h, js(header)).ok()?
            } else {
                wd::webassembly_decrypt_hybrid_header(js(key), js(header)).ok()?
            };
            let h = ClearTextHeader::<A>::try_from_bytes(&v.to_vec()).ok()?;
            Some((h.symmetric_key.as_bytes().to_vec(), h.meta_data))
        }
    }
}
/// a header of the core (`some` = 0: without metadata) opened through a binding
#[no_mangle]
pub extern "C" fn h_c17_open(lang: usize, cached: usize, some: usize, uid: usize, ad: usize) {
    let w = world();
    let m = Metadata { uid: bulk(uid), additional_data: if ad > 0 { Some(bulk(ad)) } else { None } };
    let h: EncryptedHeader<A> =
        encrypt_hybrid_header::<S, A>(&w.policy, &w.mpk, &w.attrs(), if some == 1 { Some(m.clone()) } else { None }).unwrap();
    let m = if some == 1 { m } else { Metadata::default() };
    let hb = &h.encrypted_header_bytes;
    match open_header(lang, cached == 1, &b(&w.key()), hb) {
        Some((k, g)) => {
            check(same(&k, h.symmetric_key.as_bytes()), 1);
            check(same(&g.uid, &m.uid), 2);
            check(same(ad_of(&g), ad_of(&m)), 3);
            reach(1);
        }
        None => check(false, 4),
    }
    check(open_header(lang, cached == 1, &b(&w.other_key()), hb).is_none(), 5);
    for n in [0, 3, 4, 10, hb.len() - 1] {
        let core = decrypt_hybrid_header::<S, A>(&w.key(), &hb[..n]).is_ok();
        check(open_header(lang, cached == 1, &b(&w.key()), &hb[..n]).is_some() == core, 6);
    }
    let k = b(&w.key());
    check(open_header(lang, cached == 1, &k[..k.len() - 1], hb).is_none(), 7);
}

// ------------------------------------------------------------ blocks
fn seal_block(lang: usize, key: &[u8], uid: &[u8], num: u64, data: &[u8]) -> Option<Vec<u8>> {
    match lang {
        C => {
            let ((k, kl), (u, ul), (d, dl)) = (cin(key), cin(uid), cin(data));
            c([data.len() + 40], |q, l| unsafe { fh::h_aes_encrypt_block(q[0], l[0], k, kl, u, ul, num as c_int, d, dl) }).map(|[v]| v)
        }
        PY => ph::encrypt_hybrid_block(key.to_vec(), uid.to_vec(), num as usize, data.to_vec()).ok(),
        _ => {
            let u = if uid.is_empty() { None } else { Some(js(uid)) };
            we::webassembly_encrypt_hybrid_block(js(key), u, Some(num as usize), js(data)).ok().map(|v| v.to_vec())
        }
    }
}
fn open_block(lang: usize, key: &[u8], uid: &[u8], num: u64, data: &[u8]) -> Option<Vec<u8>> {
    match lang {
        C => {
            let ((k, kl), (u, ul), (d, dl)) = (cin(key), cin(uid), cin(data));
            c([data.len()], |q, l| unsafe { fh::h_aes_decrypt_block(q[0], l[0], k, kl, u, ul, num as c_int, d, dl) }).map(|[v]| v)
        }
        PY => ph::decrypt_hybrid_block(key.to_vec(), uid.to_vec(), num as usize, data.to_vec()).ok(),
        _ => {
            let u = if uid.is_empty() { None } else { Some(js(uid)) };
            wd::webassembly_decrypt_hybrid_block(js(key), u, Some(num as usize), js(data)).ok().map(|v| v.to_vec())
        }
    }
}
/// blocks of `n` bytes between a binding and the core, both ways
#[no_mangle]
pub extern "C" fn h_c17_block(lang: usize, n: usize, uid: usize) {
    let (key, id, data) = (bytes(32), bulk(uid), bulk(n));
    let num = any_u64();
    if lang == C {
        assume(num < 1 << 31);
    }
    let k = Key::try_from_bytes(&key).unwrap();
    let own = encrypt_hybrid_block::<S, A, MAX>(&k, &id, num as usize, &data);
    let made = seal_block(lang, &key, &id, num, &data);
    check(own.is_ok() == made.is_some(), 1);
    check(own.is_ok() == (n > 0), 2);
    if let (Ok(own), Some(made)) = (own, made) {
        check(own.len() == made.len(), 3);
        let r = decrypt_hybrid_block::<S, A, MAX>(&k, &id, num as usize, &made);
        check(r.map_or(false, |d| same(&d, &data)), 4);
        let r = open_block(lang, &key, &id, num, &own);
        check(r.map_or(false, |d| same(&d, &data)), 5);
        if lang > PY {
            // nothing said: the first block, no identifier
            let first = we::webassembly_encrypt_hybrid_block(js(&key), None, None, js(&data)).ok().map(|v| v.to_vec());
            let r = first.and_then(|f| decrypt_hybrid_block::<S, A, MAX>(&k, &[], 0, &f).ok());
            check(r.map_or(false, |d| same(&d, &data)), 6);
        }
        // bound to its place
        let other = any_u64();
        assume(other != num);
        if lang == C {
            assume(other < 1 << 31);
        }
        check(open_block(lang, &key, &id, other, &own).is_none(), 7);
        check(open_block(lang, &key[..31], &id, num, &own).is_none(), 8);
        check(seal_block(lang, &key[..31], &id, num, &data).is_none(), 9);
        let mut longer = id.clone();
        longer.push(0);
        check(open_block(lang, &key, &longer, num, &own).is_none(), 10);
        reach(1);
    }
}

// ------------------------------------------------------------ combined values
/// a value made by Python is length, header and block, and the core opens it; one made by hand from
/// the core's header and block is opened by Python
#[no_mangle]
pub extern "C" fn h_c17_value(n: usize, uid: usize, ad: usize) {
    let w = world();
    let at = serde_json::to_string(&w.attrs()).unwrap();
    let (j, m) = meta_json(uid, ad);
    let data = bulk(n);
    let v = ph::encrypt(j, w.policy.to_string().into_bytes(), at.into_bytes(), b(&w.mpk), data.clone());
    check(v.is_ok() == (n > 0), 1);
    let Ok(v) = v else { return };
    let Some((h, blk)) = two(&v) else { return check(false, 2) };
    check(ph::get_encrypted_header_size(v.clone()).map_or(false, |s| s as usize == h.len()), 3);
    match decrypt_hybrid_header::<S, A>(&w.key(), &h) {
        Ok(c) => {
            check(same(&c.meta_data.uid, &m.uid) & same(ad_of(&c.meta_data), ad_of(&m)), 4);
            let d = decrypt_hybrid_block::<S, A, MAX>(&c.symmetric_key, &m.uid, 0, &blk);
            check(d.map_or(false, |d| same(&d, &data)), 5);
        }
        Err(_) => return check(false, 6),
    }
    check(ph::decrypt(b(&w.key()), v.clone()).map_or(false, |d| same(&d, &data)), 7);
    check(ph::decrypt(b(&w.other_key()), v).is_err(), 8);
    // made by hand
    let h: EncryptedHeader<A> = encrypt_hybrid_header::<S, A>(&w.policy, &w.mpk, &w.attrs(), Some(m.clone())).unwrap();
    let blk = encrypt_hybrid_block::<S, A, MAX>(&h.symmetric_key, &m.uid, 0, &data).unwrap();
    let hb = &h.encrypted_header_bytes;
    let mut v = (hb.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(hb);
    v.extend_from_slice(&blk);
    check(ph::decrypt(b(&w.key()), v.clone()).map_or(false, |d| same(&d, &data)), 9);
    // another block of the same resource is not the value
    let second = encrypt_hybrid_block::<S, A, MAX>(&h.symmetric_key, &m.uid, 1, &data).unwrap();
    let mut x = v[..4 + hb.len()].to_vec();
    x.extend_from_slice(&second);
    check(ph::decrypt(b(&w.key()), x).is_err(), 10);
    // any other length field, and every cut
    let mut x = v.clone();
    let l = if n < 100 && x.len() < 1000 {
        any_u64() as u32
    } else {
        // one bit of the length
        hb.len() as u32 ^ 1 << choice(32)
    };
    assume(l != hb.len() as u32);
    x[..4].copy_from_slice(&l.to_be_bytes());
    check(ph::decrypt(b(&w.key()), x).is_err(), 11);
    for cut in [0, 1, 3, 4, 5, 8, 4 + hb.len() - 1, 4 + hb.len(), 4 + hb.len() + 1, v.len() - 1] {
        check(ph::decrypt(b(&w.key()), v[..cut].to_vec()).is_err(), 12);
    }
    reach(1);
}
/// `n` arbitrary bytes are no value
#[no_mangle]
pub extern "C" fn h_c17_garbage(n: usize) {
    let w = world();
    let v = bytes(n);
    check(ph::decrypt(b(&w.key()), v).is_err(), 1);
    reach(1);
}
/// the size of the header, from `n` arbitrary bytes
#[no_mangle]
pub extern "C" fn h_c17_size(lang: usize, n: usize) {
    let v = bytes(n);
    let r = match lang {
        C => {
            let (p, l) = cin(&v);
            let r = unsafe { fh::h_get_encrypted_header_size(p, l) };
            // an error is told by 1, which is no possible header size either
            if r == 1 && n < 4 { None } else { Some(r as u32) }
        }
        PY => ph::get_encrypted_header_size(v.clone()).ok(),
        _ => wd::webassembly_get_encrypted_header_size(js(&v)).ok(),
    };
    match r {
        Some(s) => {
            check(n >= 4, 1);
            check(n >= 4 && s == u32::from_be_bytes([v[0], v[1], v[2], v[3]]), 2);
            reach(1);
        }
        None => check(n < 4, 3),
    }
}
