//! What a harness can ask of its executor.
use abe_policy::{AccessPolicy, Attribute, Policy, PolicyAxis};
use cosmian_abe_gpsw::core::bilinear_map::bls12_381::Bls12_381;
use cosmian_abe_gpsw::core::gpsw::{AbeScheme, AsBytes, Gpsw};
use cosmian_abe_gpsw::core::Engine;

extern "C" {
    fn lsym_bytes(p: *mut u8, n: usize);
    fn lsym_assume(c: bool);
    fn lsym_same(p: *const u8, q: *const u8, n: usize) -> bool;
    fn lsym_check(c: bool, id: u32);
    fn lsym_reach(id: u32);
    fn lsym_alloc_limit(n: usize);
    fn lsym_emit(v: u64);
    fn lsym_conc(v: u64) -> u64;
    fn lsym_threads(f: extern "C" fn(), g: extern "C" fn(), plan: *const u8, n: usize);
    fn lsym_buf(n: usize) -> *mut u8;
    fn lsym_written(p: *const u8) -> usize;
}

/// `n` arbitrary bytes
pub fn bytes(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    unsafe { lsym_bytes(b.as_mut_ptr(), n) };
    b
}
/// `n` bytes; of many, the first, some in the middle and the last ones are arbitrary
pub fn bulk(n: usize) -> Vec<u8> {
    if n <= 256 {
        return bytes(n);
    }
    let mut b: Vec<u8> = (0..n).map(|i| (i * 37 + (i >> 8)) as u8).collect();
    for at in [0, 255, n / 2, n - 4] {
        b[at..at + 4].copy_from_slice(&array::<4>());
    }
    b
}
pub fn array<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { lsym_bytes(b.as_mut_ptr(), N) };
    b
}
pub fn any_i32() -> i32 {
    i32::from_le_bytes(array())
}
pub fn any_u64() -> u64 {
    u64::from_le_bytes(array())
}
/// one of 0 .. n, each on its own path
pub fn choice(n: u8) -> usize {
    let b: [u8; 1] = array();
    assume(b[0] < n);
    conc(u64::from(b[0])) as usize
}
pub fn flag() -> bool {
    choice(2) == 1
}
pub fn assume(c: bool) {
    unsafe { lsym_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { lsym_check(c, id) }
}
pub fn reach(id: u32) {
    unsafe { lsym_reach(id) }
}
/// largest single allocation from here on (and four times as much in all)
pub fn alloc_limit(n: usize) {
    unsafe { lsym_alloc_limit(n) }
}
pub fn emit(v: u64) {
    unsafe { lsym_emit(v) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { lsym_conc(v) }
}
/// both at once, in two threads that interrupt each other at most `n` times, anywhere
pub fn threads(f: extern "C" fn(), g: extern "C" fn(), n: usize) {
    let plan = bytes(n);
    unsafe { lsym_threads(f, g, plan.as_ptr(), n) }
}
/// memory that does not belong to Rust, of exactly `n` bytes
pub fn buf(n: usize) -> *mut u8 {
    unsafe { lsym_buf(n) }
}
/// how far `p` (from `buf`) was written
pub fn written(p: *const u8) -> usize {
    unsafe { lsym_written(p) }
}
/// a copy of `b` in memory of exactly its size
pub fn ext(b: &[u8]) -> *const u8 {
    let p = buf(b.len());
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
    p
}
/// the same, zero-terminated
pub fn cstr(s: &str) -> *const std::os::raw::c_char {
    let mut b = s.as_bytes().to_vec();
    b.push(0);
    ext(&b).cast()
}
/// equality as one condition, without a branch for each byte
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    unsafe { lsym_same(a.as_ptr(), b.as_ptr(), a.len()) }
}
pub fn digest(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

// ------------------------------------------------------------ a small authority
pub type S = Gpsw<Bls12_381>;
pub type Msk = <S as AbeScheme>::MasterPrivateKey;
pub type Mpk = <S as AbeScheme>::MasterPublicKey;
pub type Mdk = <S as AbeScheme>::MasterPublicDelegationKey;
pub type Usk = <S as AbeScheme>::UserDecryptionKey;
pub type Ct = <S as AbeScheme>::CipherText;
pub type Pt = <S as AbeScheme>::PlainText;

pub struct World {
    pub policy: Policy,
    pub msk: Msk,
    pub mpk: Mpk,
    pub mdk: Mdk,
}
pub fn world() -> World {
    let mut policy = Policy::new(4);
    policy.add_axis(&PolicyAxis::new("D", &["a", "b"], false)).unwrap();
    policy.add_axis(&PolicyAxis::new("L", &["x"], true)).unwrap();
    let (msk, mpk, mdk) = Engine::<S>::new().generate_master_key(&policy).unwrap();
    World { policy, msk, mpk, mdk }
}
impl World {
    pub fn attrs(&self) -> Vec<Attribute> {
        vec![Attribute::new("D", "a"), Attribute::new("L", "x")]
    }
    /// opens what `attrs` encrypts
    pub fn key(&self) -> Usk {
        let p = AccessPolicy::new("D", "a") & AccessPolicy::new("L", "x");
        Engine::<S>::new().generate_user_key(&self.policy, &self.msk, &p).unwrap()
    }
    /// does not
    pub fn other_key(&self) -> Usk {
        let p = AccessPolicy::new("D", "b");
        Engine::<S>::new().generate_user_key(&self.policy, &self.msk, &p).unwrap()
    }
}
pub fn b<T: AsBytes>(x: &T) -> Vec<u8> {
    x.try_into_bytes().unwrap()
}
