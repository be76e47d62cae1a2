//! Deterministic stand-in for HC-128.
use rand_core::{CryptoRng, Error, RngCore, SeedableRng};
use std::sync::atomic::{AtomicU32, Ordering};

static NEXT: AtomicU32 = AtomicU32::new(1);

#[derive(Clone, Debug)]
pub struct Hc128Rng {
    id: u32,
    n: u32,
}

impl RngCore for Hc128Rng {
    fn next_u32(&mut self) -> u32 {
        self.n = self.n.wrapping_add(1);
        self.id.wrapping_mul(0x9e37_79b1) ^ self.n.wrapping_mul(0x85eb_ca77).rotate_left(13)
    }
    fn next_u64(&mut self) -> u64 {
        u64::from(self.next_u32()) << 32 | u64::from(self.next_u32())
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(4) {
            let b = self.next_u32().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl SeedableRng for Hc128Rng {
    type Seed = [u8; 32];
    fn from_seed(seed: [u8; 32]) -> Self {
        let mut id = 0u32;
        for b in seed {
            id = id.wrapping_mul(31).wrapping_add(u32::from(b));
        }
        Hc128Rng { id, n: 0 }
    }
    fn from_entropy() -> Self {
        Hc128Rng { id: NEXT.fetch_add(1, Ordering::Relaxed), n: 0 }
    }
}

impl CryptoRng for Hc128Rng {}
