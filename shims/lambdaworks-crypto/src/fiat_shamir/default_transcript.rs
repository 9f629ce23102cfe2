use super::{log, transcript::Transcript};
use sha3::{Digest, Keccak256};

pub struct DefaultTranscript {
    hasher: Keccak256,
    id: u64,
}

impl Transcript for DefaultTranscript {
    fn append(&mut self, new_data: &[u8]) {
        log::record(|| log::Event::Append(self.id, new_data.to_vec()));
        self.hasher.update(&mut new_data.to_owned());
    }

    fn challenge(&mut self) -> [u8; 32] {
        let mut result_hash = [0_u8; 32];
        result_hash.copy_from_slice(&self.hasher.finalize_reset());
        result_hash.reverse();
        self.hasher.update(result_hash);
        log::record(|| log::Event::Challenge(self.id, result_hash));
        result_hash
    }
}

impl Default for DefaultTranscript {
    fn default() -> Self {
        Self::new()
    }
}

impl DefaultTranscript {
    pub fn new() -> Self {
        let id = log::fresh_id();
        log::record(|| log::Event::New(id));
        Self {
            hasher: Keccak256::new(),
            id,
        }
    }
}
