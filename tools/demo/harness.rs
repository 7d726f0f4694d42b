//! Helpers: certificates, slots, a pair of real endpoints, hand-made messages.
#![allow(dead_code)]
pub use spdm::config::*;
pub use spdm::crypto::ring::signing::{new_signer, RingSigner};
pub use spdm::crypto::{FilledSlot, Signer};
pub use spdm::msgs::algorithms::*;
pub use spdm::msgs::CertificateChain;
pub use spdm::{RequesterError, RequesterInit, Responder};

use rcgen::*;

pub fn params(ca: bool, cn: &str) -> CertificateParams {
    let mut p = CertificateParams::new(vec![]);
    let mut dn = DistinguishedName::new();
    dn.push(DnType::CommonName, cn);
    p.distinguished_name = dn;
    p.alg = &PKCS_ECDSA_P256_SHA256;
    p.not_before = date_time_ymd(2021, 10, 27);
    p.not_after = date_time_ymd(3000, 1, 1);
    p.serial_number = Some(1);
    use ExtendedKeyUsagePurpose as E;
    use KeyUsagePurpose as P;
    if ca {
        p.is_ca = IsCa::Ca(BasicConstraints::Unconstrained);
        p.key_usages = vec![P::DigitalSignature, P::KeyCertSign, P::CrlSign];
        p.extended_key_usages = vec![E::ServerAuth, E::ClientAuth];
    } else {
        p.is_ca = IsCa::SelfSignedOnly;
        p.key_usages = vec![P::DigitalSignature];
        p.extended_key_usages = vec![E::ServerAuth, E::ClientAuth];
    }
    p
}

/// A root, intermediates and any number of leaves.
pub struct Ca {
    pub root: Certificate,
    pub root_der: Vec<u8>,
    pub root_hash: Vec<u8>,
    pub inters: Vec<Certificate>,
    pub inter_ders: Vec<Vec<u8>>,
}
pub struct Leaf {
    pub der: Vec<u8>,
    pub key: Vec<u8>,
}
pub fn sha(alg: &'static ring::digest::Algorithm, b: &[u8]) -> Vec<u8> {
    ring::digest::digest(alg, b).as_ref().to_vec()
}
pub fn sha256(b: &[u8]) -> Vec<u8> {
    sha(&ring::digest::SHA256, b)
}
impl Ca {
    pub fn new(depth: usize) -> Ca {
        let root = Certificate::from_params(params(true, "Root")).unwrap();
        let root_der = root.serialize_der().unwrap();
        let mut inters: Vec<Certificate> = vec![];
        let mut inter_ders = vec![];
        for i in 0..depth {
            let c = Certificate::from_params(params(true, &format!("I{}", i))).unwrap();
            inter_ders.push(c.serialize_der_with_signer(inters.last().unwrap_or(&root)).unwrap());
            inters.push(c);
        }
        let root_hash = sha256(&root_der);
        Ca { root, root_der, root_hash, inters, inter_ders }
    }
    pub fn leaf(&self, cn: &str) -> Leaf {
        let c = Certificate::from_params(params(false, cn)).unwrap();
        Leaf {
            der: c.serialize_der_with_signer(self.inters.last().unwrap_or(&self.root)).unwrap(),
            key: c.serialize_private_key_der(),
        }
    }
    pub fn chain<'a>(&'a self, l: &'a Leaf) -> CertificateChain<'a> {
        let mut c = CertificateChain::new(&self.root_hash, &l.der);
        for i in &self.inter_ders {
            c.append_intermediate_cert(i).unwrap();
        }
        c
    }
    /// The chain as it is sent
    pub fn bytes(&self, l: &Leaf) -> Vec<u8> {
        chain_bytes(&self.root_hash, &self.inter_ders, &l.der)
    }
    pub fn slot<'a>(&'a self, l: &'a Leaf) -> FilledSlot<'a, RingSigner> {
        FilledSlot {
            signing_algorithm: BaseAsymAlgo::ECDSA_ECC_NIST_P256,
            hash_algorithm: BaseHashAlgo::SHA_256,
            cert_chain: self.chain(l),
            signer: signer(l),
        }
    }
}
pub fn self_signed(cn: &str) -> Leaf {
    let c = Certificate::from_params(params(false, cn)).unwrap();
    Leaf { der: c.serialize_der().unwrap(), key: c.serialize_private_key_der() }
}
pub fn signer(l: &Leaf) -> RingSigner {
    new_signer(BaseAsymAlgo::ECDSA_ECC_NIST_P256, &l.key).unwrap()
}
pub fn chain_bytes(root_hash: &[u8], inters: &[Vec<u8>], leaf: &[u8]) -> Vec<u8> {
    let n = 4 + root_hash.len() + inters.iter().map(|x| x.len()).sum::<usize>() + leaf.len();
    let mut v = (n as u16).to_le_bytes().to_vec();
    v.extend([0, 0]);
    v.extend(root_hash);
    inters.iter().for_each(|i| v.extend(i));
    v.extend(leaf);
    v
}
pub type Slots<'a> = [Option<FilledSlot<'a, RingSigner>>; NUM_SLOTS];
pub fn none<'a>() -> Slots<'a> {
    Default::default()
}
pub fn one<'a>(ca: &'a Ca, l: &'a Leaf) -> Slots<'a> {
    let mut s = none();
    s[0] = Some(ca.slot(l));
    s
}

pub type Req<'a> = RequesterInit<'a, RingSigner>;
pub type Rsp<'a> = Responder<'a, RingSigner>;

pub fn ask(r: &mut Req) -> Vec<u8> {
    let mut b = [0; 4096];
    r.next_request(&mut b).expect("next_request").to_vec()
}
/// The response, and whether the call succeeded.
pub fn answer(r: &mut Rsp, req: &[u8]) -> (Vec<u8>, bool) {
    let mut b = [0; 4096];
    let (o, e) = r.handle_msg(req, &mut b);
    (o.to_vec(), e.is_ok())
}
pub fn exchange(q: &mut Req, p: &mut Rsp) -> Result<bool, RequesterError> {
    let m = ask(q);
    let (a, ok) = answer(p, &m);
    assert!(ok, "the responder refused {:02x?}", m);
    q.handle_msg(&a)
}
/// All six exchanges; did the requester report completion?
pub fn complete(q: &mut Req, p: &mut Rsp) -> Result<bool, RequesterError> {
    for _ in 0..5 {
        assert!(!exchange(q, p)?);
    }
    exchange(q, p)
}

// Messages made by hand, as the specification lays them out.
pub const GET_VERSION: &[u8] = &[0x10, 0x84, 0, 0];
pub const VERSION: &[u8] = &[0x10, 4, 0, 0, 0, 1, 0, 0x11];
pub fn get_capabilities(flags: u32) -> Vec<u8> {
    let mut v = vec![0x11, 0xe1, 0, 0, 0, 0, 0, 0];
    v.extend(flags.to_le_bytes());
    v
}
pub fn capabilities(flags: u32) -> Vec<u8> {
    let mut v = vec![0x11, 0x61, 0, 0, 0, 0, 0, 0];
    v.extend(flags.to_le_bytes());
    v
}
/// `structs`: type, algorithms offered, extended algorithms
pub fn negotiate(asym: u32, hash: u32, structs: &[(u8, u16, usize)]) -> Vec<u8> {
    let mut v = vec![0x11, 0xe3, structs.len() as u8, 0, 0, 0, 1, 0];
    v.extend(asym.to_le_bytes());
    v.extend(hash.to_le_bytes());
    v.extend([0; 16]);
    for (t, a, e) in structs {
        v.extend([*t, 0x20 | *e as u8]);
        v.extend(a.to_le_bytes());
        v.extend(vec![0xee; 4 * e]);
    }
    let n = v.len() as u16;
    v[4..6].copy_from_slice(&n.to_le_bytes());
    v
}
pub fn algorithms(asym: u32, hash: u32, structs: &[(u8, u16)]) -> Vec<u8> {
    let mut v = vec![0x11, 0x63, structs.len() as u8, 0, 0, 0, 1, 0];
    v.extend(hash.to_le_bytes());
    v.extend(asym.to_le_bytes());
    v.extend(hash.to_le_bytes());
    v.extend([0; 16]);
    for (t, a) in structs {
        v.extend([*t, 0x20]);
        v.extend(a.to_le_bytes());
    }
    let n = v.len() as u16;
    v[4..6].copy_from_slice(&n.to_le_bytes());
    v
}
pub const GET_DIGESTS: &[u8] = &[0x11, 0x81, 0, 0];
pub fn digests(mask: u8, d: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![0x11, 1, 0, mask];
    d.iter().for_each(|d| v.extend(d));
    v
}
pub fn get_certificate(slot: u8) -> Vec<u8> {
    vec![0x11, 0x82, slot, 0, 0, 0, 0, 4]
}
pub fn certificate(slot: u8, chain: &[u8]) -> Vec<u8> {
    let mut v = vec![0x11, 2, slot, 0];
    v.extend((chain.len() as u16).to_le_bytes());
    v.extend([0, 0]);
    v.extend(chain);
    v
}
pub fn challenge(slot: u8) -> Vec<u8> {
    let mut v = vec![0x11, 0x83, slot, 0];
    v.extend([0x5a; 32]);
    v
}
/// CHALLENGE_AUTH without its signature
pub fn auth(slot: u8, mask: u8, digest: &[u8], opaque: &[u8]) -> Vec<u8> {
    let mut v = vec![0x11, 3, slot, mask];
    v.extend(digest);
    v.extend([0x33; 32]);
    v.extend(vec![0; digest.len()]);
    v.extend((opaque.len() as u16).to_le_bytes());
    v.extend(opaque);
    v
}
/// Sign what the requester's side of the conversation amounts to.
pub fn sign(l: &Leaf, alg: &'static ring::digest::Algorithm, conversation: &[u8], auth: &[u8]) -> Vec<u8> {
    let mut all = conversation.to_vec();
    all.extend(auth);
    let s = signer(l).sign(&sha(alg, &all)).unwrap();
    let mut v = auth.to_vec();
    v.extend(s.as_ref());
    v
}
/// A hand-made device: answers with the given messages up to CHALLENGE, then
/// with a signed CHALLENGE_AUTH. Does the requester complete?
pub fn mock(
    q: &mut Req,
    before: &[Vec<u8>],
    auth: &[u8],
    alg: &'static ring::digest::Algorithm,
    l: &Leaf,
) -> Result<bool, RequesterError> {
    let mut conv = vec![];
    for m in before {
        conv.extend(ask(q));
        conv.extend(m);
        assert!(!q.handle_msg(m)?);
    }
    conv.extend(ask(q));
    q.handle_msg(&sign(l, alg, &conv, auth))
}
pub fn usual(chain: &[u8]) -> Vec<Vec<u8>> {
    vec![
        VERSION.to_vec(),
        capabilities(0x6),
        algorithms(0x10, 1, &[]),
        digests(1, &[sha256(chain)]),
        certificate(0, chain),
    ]
}
pub fn fail(s: &str) -> ! {
    println!("BROKEN: {}", s);
    std::process::exit(1)
}
