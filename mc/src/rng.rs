/// Scripted randomness: answers the given bytes, then a fixed mixed stream (so that rejection loops end).
pub struct Script(pub Vec<u8>, pub usize);
impl rand_core::RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            *x = match self.0.get(self.1) {
                Some(b) => *b,
                None => {
                    let z = (self.1 as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
                    let z = (z ^ (z >> 29)).wrapping_mul(0xbf58476d1ce4e5b9);
                    let b = (z >> 40) as u8;
                    self.0.resize(self.1, 0);
                    self.0.push(b);
                    b
                }
            };
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for Script {}
