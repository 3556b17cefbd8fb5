use super::transcript::Transcript;
use crate::hooks;
use sha3::{Digest, Keccak256};

pub struct DefaultTranscript {
    hasher: Keccak256,
    count: usize,
}
impl Transcript for DefaultTranscript {
    fn append(&mut self, new_data: &[u8]) {
        hooks::log(hooks::Event::Append(new_data.to_vec()));
        self.hasher.update(new_data);
    }
    fn challenge(&mut self) -> [u8; 32] {
        let mut result_hash = [0_u8; 32];
        result_hash.copy_from_slice(&self.hasher.finalize_reset());
        result_hash.reverse();
        self.hasher.update(result_hash);
        let r = hooks::challenge(self.count, result_hash);
        self.count += 1;
        hooks::log(hooks::Event::Challenge(r));
        r
    }
}
impl Default for DefaultTranscript {
    fn default() -> Self {
        Self::new()
    }
}
impl DefaultTranscript {
    pub fn new() -> Self {
        Self { hasher: Keccak256::new(), count: 0 }
    }
}
