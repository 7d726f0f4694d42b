//! Independent cryptography for the reference models (ring, used directly).

use ring::{digest, signature};

/// Hash algorithms by their SPDM bit.
pub fn ds(bit: u32) -> usize {
    match bit {
        1 => 32,
        2 => 48,
        _ => 64,
    }
}

pub fn hash(bit: u32, data: &[u8]) -> Vec<u8> {
    let a = match bit {
        1 => &digest::SHA256,
        2 => &digest::SHA384,
        _ => &digest::SHA512,
    };
    digest::digest(a, data).as_ref().to_vec()
}

pub fn verify(pubkey: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    signature::UnparsedPublicKey::new(&signature::ECDSA_P256_SHA256_FIXED, pubkey)
        .verify(msg, sig)
        .is_ok()
}
