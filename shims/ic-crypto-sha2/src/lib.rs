use sha2::Digest;
pub struct Sha256(sha2::Sha256);
impl Sha256 {
    pub fn new() -> Self { Self(sha2::Sha256::new()) }
    pub fn write(&mut self, d: &[u8]) { self.0.update(d) }
    pub fn finish(self) -> [u8; 32] { self.0.finalize().into() }
    pub fn hash(d: &[u8]) -> [u8; 32] { sha2::Sha256::digest(d).into() }
}
impl Default for Sha256 { fn default() -> Self { Self::new() } }
