use super::transcript::Transcript;

/// Deterministic transcript; like upstream's, it ignores nothing but is only for tests.
pub struct TestTranscript {
    inner: super::default_transcript::DefaultTranscript,
}

impl Transcript for TestTranscript {
    fn append(&mut self, new_data: &[u8]) {
        self.inner.append(new_data)
    }
    fn challenge(&mut self) -> [u8; 32] {
        self.inner.challenge()
    }
}

impl Default for TestTranscript {
    fn default() -> Self {
        Self::new()
    }
}

impl TestTranscript {
    pub fn new() -> Self {
        Self {
            inner: super::default_transcript::DefaultTranscript::new(),
        }
    }
}
