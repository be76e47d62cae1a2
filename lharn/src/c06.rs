//! Readers of bytes: whatever the bytes, an answer and nothing else.
use crate::api::*;
use cosmian_abe_gpsw::core::gpsw::AsBytes;
use cosmian_abe_gpsw::core::msp::MonotoneSpanProgram;
use cosmian_abe_gpsw::core::Engine;
use cosmian_abe_gpsw::interfaces::hybrid_crypto::{decrypt_hybrid_block, decrypt_hybrid_header, ClearTextHeader, EncryptedHeader};
use cosmian_bls12_381::{G1Affine, G2Affine, Gt};
use cosmian_crypto_base::symmetric_crypto::aes_256_gcm_pure::Aes256GcmCrypto;
use cosmian_crypto_base::symmetric_crypto::SymmetricCrypto;
use cosmian_crypto_base::KeyTrait;

/// elements may take at most 64 bytes of memory for each byte read
fn limit(n: usize) {
    alloc_limit(64 * n + 1024);
}

fn reader<T: AsBytes>(n: usize) {
    let data = bytes(n);
    let data = unsafe { std::slice::from_raw_parts(ext(&data), n) };
    limit(n);
    match T::try_from_bytes(data) {
        Ok(x) => {
            reach(1);
            // what was understood lies within the bytes given
            check(x.len_bytes() <= n, 1);
            emit(x.len_bytes() as u64);
        }
        Err(_) => {
            reach(0);
            emit(0);
        }
    }
}

#[no_mangle]
pub extern "C" fn h_c06_read(kind: usize, n: usize) {
    match kind {
        0 => reader::<Msk>(n),
        1 => reader::<Mpk>(n),
        2 => reader::<Mdk>(n),
        3 => reader::<Usk>(n),
        4 => reader::<Pt>(n),
        5 => reader::<Ct>(n),
        6 => reader::<MonotoneSpanProgram<i32>>(n),
        7 => reader::<MonotoneSpanProgram<cosmian_abe_gpsw::core::bilinear_map::bls12_381::Scalar>>(n),
        8 => reader::<Vec<G1Affine>>(n),
        9 => reader::<Vec<G2Affine>>(n),
        10 => reader::<cosmian_abe_gpsw::core::bilinear_map::bls12_381::Scalar>(n),
        11 => reader::<Gt>(n),
        12 => reader::<i32>(n),
        13 => reader::<Vec<cosmian_abe_gpsw::core::bilinear_map::bls12_381::Scalar>>(n),
        14 => reader::<G1Affine>(n),
        _ => reader::<G2Affine>(n),
    }
}

/// the two header structures of the hybrid interface
#[no_mangle]
pub extern "C" fn h_c06_header(kind: usize, n: usize) {
    let data = bytes(n);
    let data = unsafe { std::slice::from_raw_parts(ext(&data), n) };
    limit(n);
    let ok = match kind {
        0 => match EncryptedHeader::<Aes256GcmCrypto>::try_from_bytes(data) {
            Ok(h) => {
                check(h.encrypted_header_bytes.len() <= n, 1);
                let out = h.try_into_bytes().unwrap();
                check(same(&out, data), 2);
                true
            }
            Err(_) => false,
        },
        _ => match ClearTextHeader::<Aes256GcmCrypto>::try_from_bytes(data) {
            Ok(h) => {
                check(h.meta_data.uid.len() <= n, 3);
                true
            }
            Err(_) => false,
        },
    };
    reach(ok as u32);
    emit(ok as u64);
}

/// opening an arbitrary header, key encapsulation or block with a well-formed key
#[no_mangle]
pub extern "C" fn h_c06_open(kind: usize, n: usize) {
    let w = world();
    let uk = w.key();
    let data = bytes(n);
    let data = unsafe { std::slice::from_raw_parts(ext(&data), n) };
    limit(n);
    let ok = match kind {
        0 => decrypt_hybrid_header::<S, Aes256GcmCrypto>(&uk, data).is_ok(),
        1 => Engine::<S>::new().decrypt_symmetric_key(&uk, data, 32).is_ok(),
        _ => {
            let key = <Aes256GcmCrypto as SymmetricCrypto>::Key::try_from_bytes(&[7u8; 32]).unwrap();
            let ok = decrypt_hybrid_block::<S, Aes256GcmCrypto, 16>(&key, b"id", 1, data).is_ok();
            check(!ok, 1);
            ok
        }
    };
    reach(ok as u32);
    emit(ok as u64);
}
