use super::transcript::Transcript;
pub struct TestTranscript;
impl Transcript for TestTranscript {
    fn append(&mut self, _new_data: &[u8]) {}
    fn challenge(&mut self) -> [u8; 32] {
        let mut result = [0; 32];
        result[0] = 1;
        result
    }
}
impl TestTranscript {
    pub fn new() -> Self {
        Self {}
    }
}
impl Default for TestTranscript {
    fn default() -> Self {
        Self::new()
    }
}
