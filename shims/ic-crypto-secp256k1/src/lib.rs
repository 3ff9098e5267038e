//! Stand-in for dfinity/ic's ic-crypto-secp256k1 (a wrapper of k256).
use k256::ecdsa::{signature::hazmat::PrehashVerifier, Signature, VerifyingKey};
use k256::elliptic_curve::sec1::ToEncodedPoint;
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum KeyDecodingError { InvalidKeyEncoding(String) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RecoveryError { SignatureParseError(String), WrongParameters(String) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RecoveryId { recid: k256::ecdsa::RecoveryId }
impl RecoveryId {
    pub const fn is_y_odd(&self) -> bool { self.recid.is_y_odd() }
    pub const fn is_x_reduced(&self) -> bool { self.recid.is_x_reduced() }
    pub const fn to_byte(&self) -> u8 { self.recid.to_byte() }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PublicKey { key: k256::PublicKey }
impl PublicKey {
    pub fn deserialize_sec1(bytes: &[u8]) -> Result<Self, KeyDecodingError> {
        k256::PublicKey::from_sec1_bytes(bytes)
            .map(|key| Self { key })
            .map_err(|e| KeyDecodingError::InvalidKeyEncoding(format!("{e:?}")))
    }
    pub fn serialize_sec1(&self, compressed: bool) -> Vec<u8> {
        self.key.to_encoded_point(compressed).as_bytes().to_vec()
    }
    pub fn verify_signature_prehashed(&self, digest: &[u8], signature: &[u8]) -> bool {
        let Ok(sig) = Signature::try_from(signature) else { return false };
        let sig = sig.normalize_s().unwrap_or(sig);
        VerifyingKey::from(&self.key).verify_prehash(digest, &sig).is_ok()
    }
    pub fn try_recovery_from_digest(&self, digest: &[u8], signature: &[u8]) -> Result<RecoveryId, RecoveryError> {
        let sig = Signature::try_from(signature).map_err(|e| RecoveryError::SignatureParseError(e.to_string()))?;
        k256::ecdsa::RecoveryId::trial_recovery_from_prehash(&VerifyingKey::from(&self.key), digest, &sig)
            .map(|recid| RecoveryId { recid })
            .map_err(|e| RecoveryError::WrongParameters(e.to_string()))
    }
}
