//! Stands in for Keccak under the interpreter, where the real one takes most
//! of the time. Not a cryptographic hash: what the threads observe is compared
//! with what they observe alone using the same function.

pub trait Hasher {
    fn update(&mut self, input: &[u8]);
    fn finalize(self, output: &mut [u8]);
}

#[derive(Clone)]
pub struct Keccak(u64);

impl Keccak {
    pub fn v224() -> Self {
        Self(1)
    }
    pub fn v256() -> Self {
        Self(2)
    }
    pub fn v384() -> Self {
        Self(3)
    }
    pub fn v512() -> Self {
        Self(4)
    }
}

impl Hasher for Keccak {
    fn update(&mut self, input: &[u8]) {
        for c in input.chunks(8) {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            self.0 = (self.0.rotate_left(23) ^ u64::from_le_bytes(w) ^ c.len() as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        }
    }
    fn finalize(self, output: &mut [u8]) {
        let mut x = self.0;
        for o in output.chunks_mut(8) {
            x = (x ^ (x >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9).wrapping_add(1);
            o.copy_from_slice(&x.to_le_bytes()[..o.len()]);
        }
    }
}
