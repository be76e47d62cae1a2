//! What the WebAssembly bindings use of `js_sys`, without JavaScript.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Uint8Array(Vec<u8>);
impl Uint8Array {
    pub fn new_with_length(n: u32) -> Uint8Array {
        Uint8Array(vec![0; n as usize])
    }
    pub fn length(&self) -> u32 {
        self.0.len() as u32
    }
    pub fn byte_length(&self) -> u32 {
        self.0.len() as u32
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.clone()
    }
    pub fn copy_to(&self, d: &mut [u8]) {
        d.copy_from_slice(&self.0)
    }
    pub fn get_index(&self, i: u32) -> u8 {
        self.0.get(i as usize).copied().unwrap_or(0)
    }
    /// as in JavaScript: out-of-range limits are clamped
    pub fn subarray(&self, a: u32, b: u32) -> Uint8Array {
        let b = (b as usize).min(self.0.len());
        let a = (a as usize).min(b);
        Uint8Array(self.0[a..b].to_vec())
    }
    pub fn slice(&self, a: u32, b: u32) -> Uint8Array {
        self.subarray(a, b)
    }
}
impl From<&[u8]> for Uint8Array {
    fn from(b: &[u8]) -> Uint8Array {
        Uint8Array(b.to_vec())
    }
}
