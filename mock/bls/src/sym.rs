//! arithmetic modulo 2^31-1 and the byte encoding of elements
pub const P: u64 = 0x7fff_ffff;

pub fn small(x: u64) -> u32 {
    (x % P) as u32
}
pub fn add(a: u32, b: u32) -> u32 {
    ((u64::from(a) + u64::from(b)) % P) as u32
}
pub fn sub(a: u32, b: u32) -> u32 {
    ((u64::from(a) + P - u64::from(b)) % P) as u32
}
pub fn mul(a: u32, b: u32) -> u32 {
    ((u64::from(a) * u64::from(b)) % P) as u32
}
pub fn neg(a: u32) -> u32 {
    ((P - u64::from(a)) % P) as u32
}
pub fn is_zero(a: u32) -> bool {
    a == 0
}
pub fn equal(a: u32, b: u32) -> bool {
    a == b
}
pub fn inv(a: u32) -> Option<u32> {
    if a == 0 {
        return None;
    }
    let (mut e, mut b, mut r) = (P - 2, a, 1);
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, b);
        }
        b = mul(b, b);
        e >>= 1;
    }
    Some(r)
}
/// a non-zero element from random bytes
pub fn draw(b: &[u8]) -> u32 {
    let mut v: u64 = 0;
    for x in b.iter() {
        v = (v * 257 + u64::from(*x)) % P;
    }
    if v == 0 {
        1
    } else {
        v as u32
    }
}
/// tag, zeroes, value big endian
pub fn encode(tag: u8, v: u32, o: &mut [u8]) {
    let n = o.len();
    o[0] = tag;
    o[n - 4..].copy_from_slice(&v.to_be_bytes());
}
pub fn decode(tag: u8, b: &[u8]) -> Option<u32> {
    let n = b.len();
    let v = u32::from_be_bytes([b[n - 4], b[n - 3], b[n - 2], b[n - 1]]);
    if (b[0] == tag) & (u64::from(v) < P) {
        Some(v)
    } else {
        None
    }
}
