//! Ideal AEAD with the interface of `aes-gcm`.
pub use aead::{self, AeadCore, AeadInPlace, Error, NewAead};
use aead::generic_array::typenum::{U0, U12, U16, U32};
use aead::generic_array::GenericArray;
use std::sync::Mutex;

pub type Key<K> = GenericArray<u8, K>;
pub type Nonce<N> = GenericArray<u8, N>;
pub type Tag = GenericArray<u8, U16>;

struct Record {
    key: [u8; 32],
    nonce: [u8; 12],
    aad: Vec<u8>,
    ct: Vec<u8>,
    tag: [u8; 16],
}

static LOG: Mutex<Vec<Record>> = Mutex::new(Vec::new());

/// one comparison at the end, whatever the bytes are
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

#[derive(Clone)]
pub struct Aes256Gcm {
    key: [u8; 32],
}

impl NewAead for Aes256Gcm {
    type KeySize = U32;
    fn new(key: &GenericArray<u8, U32>) -> Self {
        let mut k = [0; 32];
        k.copy_from_slice(key);
        Aes256Gcm { key: k }
    }
}

impl AeadCore for Aes256Gcm {
    type NonceSize = U12;
    type TagSize = U16;
    type CiphertextOverhead = U0;
}

impl AeadInPlace for Aes256Gcm {
    fn encrypt_in_place_detached(
        &self,
        nonce: &GenericArray<u8, U12>,
        aad: &[u8],
        buffer: &mut [u8],
    ) -> Result<Tag, Error> {
        for (i, b) in buffer.iter_mut().enumerate() {
            *b ^= 0x5a ^ (i as u8);
        }
        let mut n = [0; 12];
        n.copy_from_slice(nonce);
        let mut l = LOG.lock().unwrap();
        let mut tag = [0xa5; 16];
        tag[0] = l.len() as u8;
        l.push(Record { key: self.key, nonce: n, aad: aad.to_vec(), ct: buffer.to_vec(), tag });
        Ok(GenericArray::clone_from_slice(&tag))
    }

    fn decrypt_in_place_detached(
        &self,
        nonce: &GenericArray<u8, U12>,
        aad: &[u8],
        buffer: &mut [u8],
        tag: &Tag,
    ) -> Result<(), Error> {
        let hit = LOG.lock().unwrap().iter().rev().any(|r| {
            r.aad.len() == aad.len()
                && r.ct.len() == buffer.len()
                && (same(&r.key, &self.key)
                    & same(&r.nonce, nonce)
                    & same(&r.tag, tag)
                    & same(&r.aad, aad)
                    & same(&r.ct, buffer))
        });
        if !hit {
            return Err(Error);
        }
        for (i, b) in buffer.iter_mut().enumerate() {
            *b ^= 0x5a ^ (i as u8);
        }
        Ok(())
    }
}
