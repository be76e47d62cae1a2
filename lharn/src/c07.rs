//! Hybrid headers and blocks.
use crate::api::*;
use cosmian_abe_gpsw::interfaces::hybrid_crypto::{
    decrypt_hybrid_block, decrypt_hybrid_header, encrypt_hybrid_block, encrypt_hybrid_header,
    symmetric_encryption_overhead, ClearTextHeader, EncryptedHeader,
};
use cosmian_crypto_base::symmetric_crypto::aes_256_gcm_pure::Aes256GcmCrypto;
use cosmian_crypto_base::symmetric_crypto::{Metadata, SymKey, SymmetricCrypto};
use cosmian_crypto_base::KeyTrait;

type A = Aes256GcmCrypto;
type Key = <A as SymmetricCrypto>::Key;

fn meta(uid: usize, ad: usize) -> Metadata {
    Metadata { uid: bulk(uid), additional_data: if ad == 0 { None } else { Some(bulk(ad - 1)) } }
}
/// absent and empty additional data have the same encoding
fn ad(m: &Metadata) -> &[u8] {
    m.additional_data.as_deref().unwrap_or(&[])
}

/// `uid` bytes of identifier, `adl - 1` bytes of additional data (0: none), `some` = 0: no metadata
#[no_mangle]
pub extern "C" fn h_c07_header(some: usize, uid: usize, adl: usize) {
    let w = world();
    let (uk, ok) = (w.key(), w.other_key());
    let m = if some == 1 { Some(meta(uid, adl)) } else { None };
    let h: EncryptedHeader<A> = encrypt_hybrid_header::<S, A>(&w.policy, &w.mpk, &w.attrs(), m.clone()).unwrap();
    let m = m.unwrap_or_default();
    let hb = &h.encrypted_header_bytes;
    // layout
    let el = u32::from_be_bytes([hb[0], hb[1], hb[2], hb[3]]) as usize;
    check(4 + el <= hb.len(), 1);
    check((some == 1) || hb.len() == 4 + el, 2);
    // the key alone can be recovered from the encapsulation
    let k = cosmian_abe_gpsw::core::Engine::<S>::new().decrypt_symmetric_key(&uk, &hb[4..4 + el], 32);
    check(k.map_or(false, |k| same(&k, h.symmetric_key.as_bytes())), 3);
    match decrypt_hybrid_header::<S, A>(&uk, hb) {
        Ok(c) => {
            check(same(c.symmetric_key.as_bytes(), h.symmetric_key.as_bytes()), 4);
            check(same(&c.meta_data.uid, &m.uid), 5);
            check(same(ad(&c.meta_data), ad(&m)), 6);
            reach(1);
        }
        Err(_) => check(false, 7),
    }
    // an unauthorised key gets nothing
    check(decrypt_hybrid_header::<S, A>(&ok, hb).is_err(), 8);
    // shortened headers
    for cut in 0..hb.len() {
        let near = cut < 8 || cut + 8 > hb.len() || (cut + 20 > 4 + el && cut < el + 26);
        if near {
            let r = decrypt_hybrid_header::<S, A>(&uk, &hb[..cut]);
            check(r.is_err() || cut == 4 + el, 9);
        }
    }
    // encodings of the two structures
    let e = h.try_into_bytes().unwrap();
    match EncryptedHeader::<A>::try_from_bytes(&e) {
        Ok(x) => {
            check(same(x.symmetric_key.as_bytes(), h.symmetric_key.as_bytes()), 10);
            check(same(&x.encrypted_header_bytes, hb), 11);
        }
        Err(_) => check(false, 12),
    }
    emit(hb.len() as u64);
}

/// an altered byte anywhere after the encapsulation is refused
#[no_mangle]
pub extern "C" fn h_c07_tamper(uid: usize, adl: usize) {
    let w = world();
    let uk = w.key();
    let m = meta(uid, adl);
    let h: EncryptedHeader<A> = encrypt_hybrid_header::<S, A>(&w.policy, &w.mpk, &w.attrs(), Some(m)).unwrap();
    let mut hb = h.encrypted_header_bytes.clone();
    let el = u32::from_be_bytes([hb[0], hb[1], hb[2], hb[3]]) as usize;
    let rest = hb.len() - 4 - el;
    let at = 4 + el + if rest < 256 { choice(rest as u8) } else { [0, 1, 255, 256, rest / 2, rest - 17, rest - 1][choice(7)] };
    let new: [u8; 1] = array();
    assume(new[0] != hb[at]);
    hb[at] = new[0];
    let r = decrypt_hybrid_header::<S, A>(&uk, &hb);
    check(r.is_err(), 1);
    reach(1);
    emit(at as u64);
}

/// the other structure of the hybrid interface, over every key and metadata
#[no_mangle]
pub extern "C" fn h_c07_clear(uid: usize, adl: usize) {
    let k: [u8; 32] = array();
    let m = meta(uid, adl);
    let c = ClearTextHeader::<A> { symmetric_key: Key::try_from_bytes(&k).unwrap(), meta_data: m.clone() };
    let e = c.try_into_bytes().unwrap();
    check(same(&e[..4], &[0, 0, 0, 32]), 1);
    match ClearTextHeader::<A>::try_from_bytes(&e) {
        Ok(x) => {
            check(same(x.symmetric_key.as_bytes(), &k), 2);
            check(same(&x.meta_data.uid, &m.uid), 3);
            check(same(ad(&x.meta_data), ad(&m)), 4);
            reach(1);
        }
        Err(_) => check(false, 5),
    }
    let n = bulk(uid);
    let h = EncryptedHeader::<A> { symmetric_key: Key::try_from_bytes(&k).unwrap(), encrypted_header_bytes: n.clone() };
    match EncryptedHeader::<A>::try_from_bytes(&h.try_into_bytes().unwrap()) {
        Ok(x) => {
            check(same(x.symmetric_key.as_bytes(), &k), 6);
            check(same(&x.encrypted_header_bytes, &n), 7);
        }
        Err(_) => check(false, 8),
    }
    for cut in 0..36 {
        check(ClearTextHeader::<A>::try_from_bytes(&e[..cut]).is_err(), 9);
        check(EncryptedHeader::<A>::try_from_bytes(&e[..cut]).is_err(), 10);
    }
    emit(digest(&e));
}

const MAX: usize = 24;

/// block of `n` bytes under an identifier of `u` bytes
#[no_mangle]
pub extern "C" fn h_c08_block(n: usize, u: usize) {
    let key = Key::try_from_bytes(&array::<32>()).unwrap();
    let (id, num, data) = (bytes(u), any_u64() as usize, bytes(n));
    let over = symmetric_encryption_overhead::<A, MAX>();
    let e = encrypt_hybrid_block::<S, A, MAX>(&key, &id, num, &data);
    if n == 0 || n > MAX {
        check(e.is_err(), 1);
        reach(0);
        return;
    }
    let e = match e {
        Ok(e) => e,
        Err(_) => {
            check(false, 2);
            return;
        }
    };
    reach(1);
    check(e.len() == n + over, 3);
    match decrypt_hybrid_block::<S, A, MAX>(&key, &id, num, &e) {
        Ok(d) => check(same(&d, &data), 4),
        Err(_) => check(false, 5),
    }
    // twice the same text gives another ciphertext (fresh nonce)
    let e2 = encrypt_hybrid_block::<S, A, MAX>(&key, &id, num, &data).unwrap();
    check(!same(&e2[..12], &e[..12]), 6);
    // any other key, identifier or number
    let key2: [u8; 32] = array();
    let (id2, num2) = (bytes(u), any_u64() as usize);
    let differs = !same(&key2, key.as_bytes()) | !same(&id2, &id) | (num2 != num);
    let r = decrypt_hybrid_block::<S, A, MAX>(&Key::try_from_bytes(&key2).unwrap(), &id2, num2, &e);
    check(r.is_err() | !differs, 7);
    emit(e.len() as u64);
}

/// a long block: `n` bytes of at most `WIDE`, identifier of `u` bytes
const WIDE: usize = 70_000;
#[no_mangle]
pub extern "C" fn h_c08_wide(n: usize, u: usize) {
    let key = Key::try_from_bytes(&[7; 32]).unwrap();
    let (id, num, data) = (bulk(u), any_u64() as usize, bulk(n));
    let e = encrypt_hybrid_block::<S, A, WIDE>(&key, &id, num, &data);
    if n > WIDE {
        check(e.is_err(), 1);
        reach(0);
        return;
    }
    let Ok(mut e) = e else { return check(false, 2) };
    reach(1);
    check(e.len() == n + symmetric_encryption_overhead::<A, WIDE>(), 3);
    match decrypt_hybrid_block::<S, A, WIDE>(&key, &id, num, &e) {
        Ok(d) => check(same(&d, &data), 4),
        Err(_) => check(false, 5),
    }
    let mut id2 = id.clone();
    if u > 0 {
        let (at, new) = ([0, u / 2, u - 1][choice(3)], array::<1>()[0]);
        assume(new != id2[at]);
        id2[at] = new;
    } else {
        id2.push(0);
    }
    check(decrypt_hybrid_block::<S, A, WIDE>(&key, &id2, num, &e).is_err(), 6);
    let num2 = any_u64() as usize;
    assume(num2 != num);
    check(decrypt_hybrid_block::<S, A, WIDE>(&key, &id, num2, &e).is_err(), 7);
    check(decrypt_hybrid_block::<S, A, WIDE>(&key, &id, num, &e[..e.len() - 1]).is_err(), 8);
    let (at, new) = ([0, 12, e.len() / 2, e.len() - 1][choice(4)], array::<1>()[0]);
    assume(new != e[at]);
    e[at] = new;
    check(decrypt_hybrid_block::<S, A, WIDE>(&key, &id, num, &e).is_err(), 9);
    emit(at as u64);
}

/// identifiers of different lengths: the pair (identifier, number) is what is bound
#[no_mangle]
pub extern "C" fn h_c08_ids(u: usize, u2: usize) {
    let key = Key::try_from_bytes(&[9; 32]).unwrap();
    let (id, num, data) = (bytes(u), any_u64() as usize, bytes(3));
    let e = encrypt_hybrid_block::<S, A, MAX>(&key, &id, num, &data).unwrap();
    let (id2, num2) = (bytes(u2), any_u64() as usize);
    let r = decrypt_hybrid_block::<S, A, MAX>(&key, &id2, num2, &e);
    if u != u2 {
        check(r.is_err(), 1);
    } else {
        check(r.is_ok() == (same(&id, &id2) & (num == num2)), 2);
    }
    reach(1);
    emit(e.len() as u64);
}

/// altered, shortened or lengthened ciphertexts; ciphertexts beyond the maximum
#[no_mangle]
pub extern "C" fn h_c08_tamper(n: usize) {
    let key = Key::try_from_bytes(&array::<32>()).unwrap();
    let (id, num, data) = (bytes(2), any_u64() as usize, bytes(n));
    let mut e = encrypt_hybrid_block::<S, A, MAX>(&key, &id, num, &data).unwrap();
    for cut in 0..e.len() {
        check(decrypt_hybrid_block::<S, A, MAX>(&key, &id, num, &e[..cut]).is_err(), 1);
    }
    let mut long = e.clone();
    let tail: [u8; 1] = array();
    long.push(tail[0]);
    check(decrypt_hybrid_block::<S, A, MAX>(&key, &id, num, &long).is_err(), 2);
    // what a larger maximum allows is beyond this one
    let big = bytes(MAX + 1);
    let b = encrypt_hybrid_block::<S, A, { MAX + 8 }>(&key, &id, num, &big).unwrap();
    check(decrypt_hybrid_block::<S, A, { MAX + 8 }>(&key, &id, num, &b).is_ok(), 3);
    check(decrypt_hybrid_block::<S, A, MAX>(&key, &id, num, &b).is_err(), 4);
    let at = choice(e.len() as u8);
    let new: [u8; 1] = array();
    assume(new[0] != e[at]);
    e[at] = new[0];
    check(decrypt_hybrid_block::<S, A, MAX>(&key, &id, num, &e).is_err(), 5);
    reach(1);
    emit(at as u64);
}

/// an encapsulation for `n` attributes
#[no_mangle]
pub extern "C" fn h_c07_many(n: usize) {
    use cosmian_abe_gpsw::core::gpsw::AbeScheme;
    use abe_policy::{AccessPolicy, Attribute, Policy, PolicyAxis};
    let names: Vec<String> = (0..n).map(|i| format!("{i}")).collect();
    let list: Vec<&str> = names.iter().map(String::as_str).collect();
    let mut policy = Policy::new(n as u32);
    policy.add_axis(&PolicyAxis::new("Z", &list, false)).unwrap();
    let e = cosmian_abe_gpsw::core::Engine::<S>::new();
    let (msk, mpk, _) = e.generate_master_key(&policy).unwrap();
    let last = Attribute::new("Z", list[n - 1]);
    let uk = e.generate_user_key(&policy, &msk, &AccessPolicy::Attr(last)).unwrap();
    let at: Vec<Attribute> = list.iter().map(|a| Attribute::new("Z", a)).collect();
    let m = meta(2, 3);
    let h: EncryptedHeader<A> = encrypt_hybrid_header::<S, A>(&policy, &mpk, &at, Some(m.clone())).unwrap();
    let mut hb = h.encrypted_header_bytes.clone();
    let el = u32::from_be_bytes([hb[0], hb[1], hb[2], hb[3]]) as usize;
    check(el == <S as AbeScheme>::ciphertext_len(n), 1);
    match decrypt_hybrid_header::<S, A>(&uk, &hb) {
        Ok(c) => {
            check(same(c.symmetric_key.as_bytes(), h.symmetric_key.as_bytes()), 2);
            check(same(&c.meta_data.uid, &m.uid), 3);
            check(same(ad(&c.meta_data), ad(&m)), 4);
            reach(1);
        }
        Err(_) => check(false, 5),
    }
    // one bit of the length field
    let l = el as u32 ^ 1 << choice(32);
    hb[..4].copy_from_slice(&l.to_be_bytes());
    check(decrypt_hybrid_header::<S, A>(&uk, &hb).is_err(), 6);
    emit(el as u64);
}
