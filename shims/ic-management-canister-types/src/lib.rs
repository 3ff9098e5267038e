use candid::CandidType;
use serde::{Deserialize, Serialize};
use serde_bytes::ByteBuf;
#[derive(CandidType, Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Default)]
pub struct DerivationPath(Vec<ByteBuf>);
impl DerivationPath {
    pub fn new(v: Vec<ByteBuf>) -> Self { Self(v) }
    pub fn get(&self) -> &Vec<ByteBuf> { &self.0 }
}
#[derive(CandidType, Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum EcdsaCurve {
    #[serde(rename = "secp256k1")]
    Secp256k1,
}
#[derive(CandidType, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct EcdsaKeyId { pub curve: EcdsaCurve, pub name: String }
#[derive(CandidType, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct SignWithECDSAArgs {
    pub message_hash: [u8; 32],
    pub derivation_path: DerivationPath,
    pub key_id: EcdsaKeyId,
}
#[derive(CandidType, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct SignWithECDSAReply {
    #[serde(with = "serde_bytes")]
    pub signature: Vec<u8>,
}
