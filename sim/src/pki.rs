//! Certificates, keys and chains of every shape the properties talk about,
//! built here byte by byte, independently of the library and of its test
//! tools. Everything is a pure function of the specification string.

use crate::crypt;
use crate::rng::tag;
use crate::sys;
use ring::rand::SystemRandom;
use ring::signature::{EcdsaKeyPair, KeyPair, ECDSA_P256_SHA256_ASN1_SIGNING};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

pub struct Key {
    pub id: u32,
    pub pkcs8: Vec<u8>,
    pub public: Vec<u8>,
    kp: EcdsaKeyPair,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Trust {
    Valid,
    Invalid,
    /// acceptable either way (an extra or reordered certificate, say)
    Either,
}

pub struct Chain {
    pub inters: Vec<Vec<u8>>,
    pub leaf: Vec<u8>,
    pub root_hash: Vec<u8>,
    pub key: u32,
    /// serialized chain
    pub bytes: Vec<u8>,
    pub root: char,
    /// valid under its root
    sound: bool,
    /// a root it may be valid under besides
    also: Option<char>,
}

impl Chain {
    pub fn trust(&self, root: char) -> Trust {
        if self.sound && self.root == root {
            Trust::Valid
        } else {
            Trust::Invalid
        }
    }
}

#[derive(Default)]
struct Pool {
    keys: HashMap<u32, &'static Key>,
    roots: HashMap<char, &'static [u8]>,
    chains: HashMap<String, &'static Chain>,
    cas: HashMap<String, Vec<u8>>,
    /// (root, leaf) -> intermediate sequences known to verify
    valid: HashMap<(char, Vec<u8>), Vec<(Vec<Vec<u8>>, u32)>>,
    /// leaves that another root vouches for
    either: HashSet<(char, Vec<u8>)>,
    /// every leaf ever issued -> key
    leaves: HashMap<Vec<u8>, u32>,
}

thread_local! { static POOL: RefCell<Pool> = RefCell::new(Pool::default()); }

// ---------------------------------------------------------------- DER

fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let n = body.len();
    let mut v = vec![tag];
    if n < 128 {
        v.push(n as u8);
    } else if n < 256 {
        v.extend([0x81, n as u8]);
    } else {
        v.extend([0x82, (n >> 8) as u8, n as u8]);
    }
    v.extend_from_slice(body);
    v
}
fn seq(parts: &[&[u8]]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
const OID_ECDSA_SHA256: &[u8] = &[0x06, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2];
const OID_EC: &[u8] = &[0x06, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1];
const OID_P256: &[u8] = &[0x06, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7];
const OID_CN: &[u8] = &[0x06, 3, 0x55, 4, 3];
const OID_O: &[u8] = &[0x06, 3, 0x55, 4, 10];

fn name(cn: &str) -> Vec<u8> {
    if cn.is_empty() {
        return vec![0x30, 0];
    }
    // the parts before a slash are organizations
    let parts: Vec<&str> = cn.split('/').collect();
    let mut rdns = vec![];
    for (i, p) in parts.iter().enumerate() {
        let oid = if i + 1 == parts.len() { OID_CN } else { OID_O };
        rdns.push(tlv(0x31, &seq(&[oid, &tlv(if i % 2 == 0 { 0x0c } else { 0x13 }, p.as_bytes())])));
    }
    let v: Vec<&[u8]> = rdns.iter().map(|x| &x[..]).collect();
    seq(&v)
}
/// UTCTime, or GeneralizedTime where the year has four digits.
fn time(s: &str) -> Vec<u8> {
    tlv(if s.len() == 15 { 0x18 } else { 0x17 }, s.as_bytes())
}
fn spki(public: &[u8]) -> Vec<u8> {
    let mut bits = vec![0];
    bits.extend_from_slice(public);
    seq(&[&seq(&[OID_EC, OID_P256]), &tlv(3, &bits)])
}
fn ext(oid: &[u8], critical: bool, value: &[u8]) -> Vec<u8> {
    let o = tlv(6, oid);
    let v = tlv(4, value);
    if critical {
        seq(&[&o, &[1, 1, 0xff], &v])
    } else {
        seq(&[&o, &v])
    }
}
fn bc(ca: Option<bool>, pathlen: Option<u8>) -> Vec<u8> {
    let mut b = vec![];
    match ca {
        Some(true) => b.extend([1, 1, 0xff]),
        Some(false) => b.extend([1, 1, 0x00]),
        None => (),
    }
    if let Some(p) = pathlen {
        b.extend([2, 1, p]);
    }
    ext(&[0x55, 0x1d, 0x13], true, &tlv(0x30, &b))
}
fn eku(server: bool) -> Vec<u8> {
    let last = if server { 1 } else { 2 };
    let o = [0x06, 8, 0x2b, 6, 1, 5, 5, 7, 3, last];
    ext(&[0x55, 0x1d, 0x25], false, &tlv(0x30, &o))
}
fn key_usage(bits: &[u8]) -> Vec<u8> {
    ext(&[0x55, 0x1d, 0x0f], true, bits)
}
fn key_id(public: &[u8]) -> Vec<u8> {
    ext(&[0x55, 0x1d, 0x0e], false, &tlv(4, &crypt::hash(1, public)[..20]))
}
fn authority(public: &[u8]) -> Vec<u8> {
    ext(&[0x55, 0x1d, 0x23], false, &seq(&[&tlv(0x80, &crypt::hash(1, public)[..20])]))
}
const PAD_OID: &[u8] = &[0x2b, 6, 1, 4, 1, 0x82, 0x37, 0x63];

#[derive(Clone)]
struct Cert<'a> {
    subject: &'a str,
    issuer: &'a str,
    public: &'a [u8],
    nb: &'a str,
    na: &'a str,
    exts: Vec<Vec<u8>>,
    serial: Vec<u8>,
}

fn tbs(c: &Cert) -> Vec<u8> {
    let alg = seq(&[OID_ECDSA_SHA256]);
    let val = seq(&[&time(c.nb), &time(c.na)]);
    let mut parts: Vec<Vec<u8>> = vec![
        tlv(0xa0, &[2, 1, 2]),
        tlv(2, &c.serial),
        alg,
        name(c.issuer),
        val,
        name(c.subject),
        spki(c.public),
    ];
    if c.serial == [0x76, 1] {
        // a version 1 certificate, which has neither of the two
        parts.remove(0);
    } else if !c.exts.is_empty() {
        let e: Vec<&[u8]> = c.exts.iter().map(|x| &x[..]).collect();
        parts.push(tlv(0xa3, &seq(&e)));
    }
    let p: Vec<&[u8]> = parts.iter().map(|x| &x[..]).collect();
    seq(&p)
}

/// Sign so that the signature value is always 71 bytes of DER: certificate
/// sizes are then a function of their contents.
fn issue(c: &Cert, k: &Key) -> Vec<u8> {
    let t = tbs(c);
    let alg = seq(&[OID_ECDSA_SHA256]);
    let h = tag(&format!("{:?}", crypt::hash(1, &t)));
    for i in 0..10_000u64 {
        sys::ambient(&[0x1551e, h, i]);
        let s = k.kp.sign(&SystemRandom::new(), &t).expect("sign");
        if s.as_ref().len() != 71 {
            continue;
        }
        let mut bits = vec![0];
        bits.extend_from_slice(s.as_ref());
        return seq(&[&t, &alg, &tlv(3, &bits)]);
    }
    unreachable!()
}

/// Issue with padding so that the certificate is exactly `size` bytes long, if
/// that is possible (the nearest size not below otherwise).
fn issue_sized(c: &Cert, k: &Key, size: usize) -> Vec<u8> {
    let base = {
        let t = tbs(c).len();
        cert_len(t)
    };
    if base >= size {
        return issue(c, k);
    }
    // no padding extension, only a longer serial number
    for extra in 1..=16usize {
        let mut d = c.clone();
        d.serial = serial(c.serial[0] as usize, extra + 1);
        if cert_len(tbs(&d).len()) == size {
            return issue(&d, k);
        }
    }
    let mut best: Option<(usize, Cert)> = None;
    let lo = (size - base).saturating_sub(64);
    for n in lo..size - base + 4 {
        for sl in 1..=8usize {
            let mut d = c.clone();
            d.serial = serial(c.serial[0] as usize, sl);
            d.exts.push(ext(PAD_OID, false, &vec![0x5a; n]));
            let l = cert_len(tbs(&d).len());
            if l == size {
                return issue(&d, k);
            }
            if l > size && best.as_ref().map_or(true, |b| l < b.0) {
                best = Some((l, d));
            }
        }
    }
    issue(&best.unwrap().1, k)
}
fn cert_len(tbs_len: usize) -> usize {
    let n = tbs_len + 12 + 3 - 1 + 72;
    n + if n < 128 {
        2
    } else if n < 256 {
        3
    } else {
        4
    }
}
fn serial(first: usize, len: usize) -> Vec<u8> {
    let mut v = vec![(first as u8 & 0x7f) | 1];
    while v.len() < len {
        v.push(0x11 * (v.len() as u8 % 15));
    }
    v
}

// ---------------------------------------------------------------- pool

pub fn get_key(id: u32) -> &'static Key {
    if let Some(k) = POOL.with(|p| p.borrow().keys.get(&id).copied()) {
        return k;
    }
    sys::ambient(&[0x5e1f, id as u64]);
    let doc = EcdsaKeyPair::generate_pkcs8(
        &ECDSA_P256_SHA256_ASN1_SIGNING,
        &SystemRandom::new(),
    )
    .expect("key");
    let kp = EcdsaKeyPair::from_pkcs8(&ECDSA_P256_SHA256_ASN1_SIGNING, doc.as_ref()).unwrap();
    let k = Box::leak(Box::new(Key {
        id,
        pkcs8: doc.as_ref().to_vec(),
        public: kp.public_key().as_ref().to_vec(),
        kp,
    }));
    POOL.with(|p| p.borrow_mut().keys.insert(id, k));
    k
}

const NB: &str = "200101000000Z";
const NA: &str = "401231235959Z";
/// 2021-12-01 00:00:00 GMT, the library's fixed reference date
const AT: &str = "211201000000Z";
const JUST_BEFORE: &str = "211130235959Z";
const JUST_AFTER: &str = "211201000001Z";
const FOREVER: &str = "99991231235959Z";

const ROOT_A: u32 = 1000;
const ROOT_B: u32 = 1001;
const ROGUE: u32 = 1002;
const SELF: u32 = 1003;
const ROOT_C: u32 = 1004;
const ROOT_D: u32 = 1005;
const INTER: u32 = 1100;

fn root_name(r: char) -> &'static str {
    match r {
        'B' => "B",
        'C' => "C",
        'D' => "D",
        _ => "A",
    }
}
fn root_key(r: char) -> &'static Key {
    get_key(match r {
        'A' => ROOT_A,
        'B' => ROOT_B,
        'C' => ROOT_C,
        'D' => ROOT_D,
        _ => ROGUE,
    })
}

/// Trust anchors: A, B, C with many extensions, D a version 1
/// certificate, and R, a rogue
/// one with A's name.
pub fn root(r: char) -> &'static [u8] {
    if let Some(x) = POOL.with(|p| p.borrow().roots.get(&r).copied()) {
        return x;
    }
    let k = root_key(r);
    let c = Cert {
        subject: root_name(r),
        issuer: root_name(r),
        public: &k.public,
        nb: NB,
        na: NA,
        exts: match r {
            'C' => {
                let pad = ext(PAD_OID, false, &tlv(4, &[7; 300]));
                vec![key_usage(&[3, 2, 1, 6]), bc(Some(true), Some(20)), key_id(&k.public), pad]
            }
            'D' => vec![],
            _ => vec![bc(Some(true), None)],
        },
        serial: match r {
            'C' => serial(1, 20),
            'D' => vec![0x76, 1],
            _ => vec![1],
        },
    };
    let der: &'static [u8] = Box::leak(issue(&c, k).into_boxed_slice());
    POOL.with(|p| p.borrow_mut().roots.insert(r, der));
    der
}

pub const INVALID_KINDS: &[&str] = &[
    "roguesign",
    "otherroot",
    "selfsigned",
    "gap",
    "expired_leaf",
    "notyet_leaf",
    "expired_ca",
    "notyet_ca",
    "ca_leaf",
    "noca",
    "noca_false",
    "pathlen",
    "eku_client",
    "eku_ca",
    "badsig_leaf",
    "badtbs_leaf",
    "badsig_ca",
    "crit",
    "crit_ca",
    "badname",
    "wrongkey_ca",
    "leafasca",
    "truncated",
    // an own root along with the chain: first or last, under its own hash or A's
    "ownroot",
    "ownroot_r",
    "ownroot_a",
    "ownroot_end",
    // a root as leaf: the rogue one, the trusted one
    "rootleaf",
    "anchorleaf",
    // another party's valid chain before or after an own certificate
    "firstleaf",
    "lastleaf",
    // two intermediates that vouch for each other
    "loop",
    // a valid chain with an oddity in its encoding; the size says which
    "der",
];
pub const VALID_KINDS: &[&str] = &["valid", "edge_nb", "edge_na", "eku_server", "bc_leaf", "forever", "rich", "bare"];

/// `kind:root:depth:leafkey:size:hash`, size 0 for the natural size; the size
/// counts the whole serialized chain.
pub fn spec(kind: &str, root: char, depth: usize, leaf: u32, size: usize, hash: usize) -> String {
    format!("{}:{}:{}:{}:{}:{}", kind, root, depth, leaf, size, hash)
}

pub fn serialize(root_hash: &[u8], inters: &[Vec<u8>], leaf: &[u8]) -> Vec<u8> {
    let n = 4 + root_hash.len() + inters.iter().map(|c| c.len()).sum::<usize>() + leaf.len();
    let mut v = (n as u16).to_le_bytes().to_vec();
    v.extend([0, 0]);
    v.extend_from_slice(root_hash);
    for c in inters {
        v.extend_from_slice(c);
    }
    v.extend_from_slice(leaf);
    v
}

pub fn chain(s: &str) -> &'static Chain {
    if let Some(c) = POOL.with(|p| p.borrow().chains.get(s).copied()) {
        return c;
    }
    let f: Vec<&str> = s.split(':').collect();
    let kind = f[0];
    let r = f[1].chars().next().unwrap();
    let mut depth: usize = f[2].parse().unwrap();
    let leaf_id: u32 = f[3].parse().unwrap();
    let size: usize = f[4].parse().unwrap();
    let hs: usize = f[5].parse().unwrap();
    let signer_root = match kind {
        "roguesign" | "ownroot_r" | "ownroot_a" | "ownroot_end" => 'R',
        "otherroot" | "ownroot" if r == 'B' => 'A',
        "otherroot" | "ownroot" => 'B',
        _ => r,
    };
    let needs_ca = matches!(
        kind,
        "gap" | "expired_ca" | "notyet_ca" | "noca" | "noca_false" | "eku_ca" | "crit_ca"
            | "wrongkey_ca" | "badsig_ca" | "leafasca"
    );
    if needs_ca && depth == 0 {
        depth = 1;
    }
    if kind == "pathlen" && depth < 2 {
        depth = 2;
    }
    let bit = match hs {
        32 => 1,
        48 => 2,
        _ => 4,
    };
    let root_hash = match kind {
        "ownroot" | "ownroot_r" | "ownroot_end" => crypt::hash(bit, root(signer_root)),
        "twinhash" => crypt::hash(bit, root(if r == 'A' { 'B' } else { 'A' })),
        _ => crypt::hash(bit, root(r)),
    };
    // Which certificate of the chain carries the defect.
    let at = (leaf_id as usize) % depth.max(1);
    let mut inters: Vec<Vec<u8>> = vec![];
    let mut ik = root_key(signer_root);
    let mut issuer = root_name(signer_root).to_string();
    let mut names: Vec<String> = vec![];
    for i in 0..depth {
        let k = get_key(INTER + i as u32);
        let cn = if kind == "rich" {
            format!("Oxide/Device identity/i{}", i)
        } else if kind == "bare" && i + 1 == depth {
            String::new()
        } else {
            format!("i{}", i)
        };
        let mut e = vec![bc(Some(true), None)];
        let (mut nb, mut na) = (NB, NA);
        let mut subject = cn.clone();
        match kind {
            "forever" => na = FOREVER,
            "rich" => {
                e = vec![bc(Some(true), Some((depth - 1 - i) as u8)), key_usage(&[3, 2, 1, 6]), key_id(&k.public), authority(&ik.public)];
            }
            _ => (),
        }
        if i == at {
            match kind {
                "expired_ca" => na = JUST_BEFORE,
                "notyet_ca" => nb = JUST_AFTER,
                "noca" => e = vec![],
                "leafasca" => e = vec![bc(None, None)],
                "noca_false" => e = vec![bc(Some(false), None)],
                "eku_ca" => e.push(eku(false)),
                "crit_ca" => e.push(ext(PAD_OID, true, &[5, 0])),
                "wrongkey_ca" => {
                    // certified under another key than the one used below
                    let other = get_key(INTER + 50);
                    let c = Cert {
                        subject: &subject,
                        issuer: &issuer,
                        public: &other.public,
                        nb,
                        na,
                        exts: e.clone(),
                        serial: vec![2],
                    };
                    inters.push(issue(&c, ik));
                    names.push(subject.clone());
                    issuer = cn;
                    ik = k;
                    continue;
                }
                _ => (),
            }
        }
        if kind == "pathlen" && i == 0 {
            e = vec![bc(Some(true), Some(0))];
        }
        if kind == "badname" && depth > 0 && i == at {
            subject = format!("x{}", i);
        }
        let memo = format!("{}|{}|{}|{}|{:?}|{}", subject, issuer, nb, na, e, ik.id);
        let known = POOL.with(|p| p.borrow().cas.get(&memo).cloned());
        let mut der = known.unwrap_or_else(|| {
            let c = Cert {
                subject: &subject,
                issuer: &issuer,
                public: &k.public,
                nb,
                na,
                exts: e,
                serial: if kind == "rich" { serial(2, 20) } else { vec![2] },
            };
            let d = issue(&c, ik);
            POOL.with(|p| p.borrow_mut().cas.insert(memo, d.clone()));
            d
        });
        if kind == "badsig_ca" && i == at {
            let n = der.len();
            der[n - 5] ^= 0x10;
        }
        inters.push(der);
        issuer = cn;
        ik = k;
    }
    let lk = get_key(leaf_id);
    let subject = if kind == "rich" {
        format!("Oxide/Device identity/L{}", leaf_id)
    } else {
        format!("L{}", leaf_id)
    };
    let mut c = Cert {
        subject: if kind == "tiny" || kind == "bare" { "" } else { &subject },
        issuer: &issuer,
        public: &lk.public,
        nb: NB,
        na: NA,
        // key usage: digitalSignature
        exts: vec![key_usage(&[3, 2, 7, 0x80])],
        serial: vec![3],
    };
    let sk = if kind == "selfsigned" { get_key(SELF) } else { ik };
    match kind {
        "edge_nb" => c.nb = AT,
        "edge_na" => c.na = AT,
        "expired_leaf" => c.na = JUST_BEFORE,
        "notyet_leaf" => c.nb = JUST_AFTER,
        "ca_leaf" => c.exts.push(bc(Some(true), None)),
        "bc_leaf" => c.exts.push(bc(None, None)),
        "eku_client" => c.exts.push(eku(false)),
        "eku_server" => c.exts.push(eku(true)),
        "forever" => c.na = FOREVER,
        // as short as a certificate gets
        "bare" => c.exts = vec![ext(&[0x2a], false, &[])],
        "rich" => {
            c.serial = serial(3, 20);
            c.exts.insert(0, bc(Some(false), None));
            c.exts.push(key_id(&lk.public));
            c.exts.push(authority(&sk.public));
            // a policy, a name
            c.exts.push(ext(&[0x55, 0x1d, 0x20], false, &seq(&[&seq(&[&[6, 3, 0x2a, 3, 4]])])));
            c.exts.push(ext(&[0x55, 0x1d, 0x11], false, &seq(&[&tlv(0x82, b"device.example")])));
        }
        "crit" => c.exts.push(ext(PAD_OID, true, &[5, 0])),
        "badname" if depth == 0 => c.issuer = "Z",
        "selfsigned" => c.issuer = c.subject,
        _ => (),
    }
    let fixed: usize = 4 + hs + inters.iter().map(|x| x.len()).sum::<usize>();
    let mut leaf = if size > fixed && kind != "der" {
        issue_sized(&c, sk, size - fixed)
    } else {
        issue(&c, sk)
    };
    let n = leaf.len();
    match kind {
        "badsig_leaf" => leaf[n - 6] ^= 0x04,
        // a different key inside an otherwise intact certificate
        "badtbs_leaf" => {
            let other = get_key(leaf_id + 1);
            let pos = leaf.windows(65).position(|w| w == &lk.public[..]).unwrap();
            leaf[pos..pos + 65].copy_from_slice(&other.public);
        }
        _ => (),
    }
    if kind == "gap" {
        inters.remove(at);
    }
    if kind == "truncated" {
        leaf.pop();
    }
    // who holds the key in the leaf, and with which key the peer signs
    let mut holder = if kind == "badtbs_leaf" { leaf_id + 1 } else { leaf_id };
    let mut key = holder;
    let own = |subject: &str| {
        issue(
            &Cert {
                subject,
                issuer: subject,
                public: &lk.public,
                nb: NB,
                na: NA,
                exts: vec![ext(&[0x55, 0x1d, 0x0f], true, &[3, 2, 7, 0x80])],
                serial: vec![4],
            },
            lk,
        )
    };
    match kind {
        "ownroot" | "ownroot_r" | "ownroot_a" => inters.insert(0, root(signer_root).to_vec()),
        "ownroot_end" => inters.push(root('R').to_vec()),
        "rootleaf" => {
            inters.clear();
            leaf = root('R').to_vec();
            holder = ROGUE;
            key = ROGUE;
        }
        "anchorleaf" => {
            inters.clear();
            leaf = root(r).to_vec();
            holder = root_key(r).id;
        }
        "firstleaf" => {
            let v = chain(&spec("valid", r, depth, leaf_id + 1, 0, hs));
            inters = v.inters.clone();
            inters.insert(0, own(&subject));
            leaf = v.leaf.clone();
            holder = leaf_id + 1;
        }
        // a valid chain, but for the root hash, the order or the key of its own
        "twinhash" | "twinpath" => {
            let v = chain(&spec("valid", r, depth, leaf_id, 0, hs));
            inters = v.inters.clone();
            leaf = v.leaf.clone();
            if kind == "twinpath" {
                let other = chain(&spec("valid", r, depth.max(1), leaf_id + 1, 0, hs));
                match inters.len() {
                    0 => inters.push(other.inters[0].clone()),
                    1 => inters.clear(),
                    _ => inters.reverse(),
                }
            }
        }
        "twinleaf" => {
            // same length, same path, another leaf key
            let v = chain(&spec("valid", r, depth, leaf_id + 1, 0, hs));
            inters = v.inters.clone();
            leaf = v.leaf.clone();
            holder = leaf_id + 1;
            key = holder;
        }
        "lastleaf" => {
            let v = chain(&spec("valid", r, depth, leaf_id + 1, 0, hs));
            inters = v.inters.clone();
            inters.push(v.leaf.clone());
            leaf = own(&format!("L{}", leaf_id + 1));
        }
        "der" => {
            let v = chain(&spec("valid", r, depth, leaf_id, 0, hs));
            inters = v.inters.clone();
            leaf = v.leaf.clone();
            let at = (size >> 4) % (inters.len() + 1);
            let n = leaf.len();
            let mut put = |v: Vec<u8>| inters.insert(at, v);
            match size & 15 {
                0 => put(vec![0x30, 0]),
                1 => put([vec![0x30, 0x81, 0x80], vec![0; 0x80]].concat()),
                2 => put([vec![0x30, 0x81, 5], vec![1; 5]].concat()),
                3 => put([vec![0x30, 0x82, 0, 0x85], vec![0; 0x85]].concat()),
                4 => put(vec![0x30, 0x80, 0, 0]),
                5 => put(vec![0x30, 0x83, 0, 1, 0]),
                6 => put(vec![0x31, 1, 0]),
                7 => put(vec![0]),
                8 => put(vec![0x30, 0x82, 0xff, 0xff]),
                9 => put(vec![0x30, 0x84, 0xff, 0xff, 0xff, 0xff]),
                10 => leaf = vec![0x30, 0],
                11 => leaf.extend([0x30, 0]),
                12 => leaf = vec![],
                13 => leaf = leaf[..(size >> 4) % 5].to_vec(),
                // a length that is off, of any of the certificates
                _ => {
                    let c = if at < inters.len() { &mut inters[at] } else { &mut leaf };
                    let i = if c.get(1) == Some(&0x82) { 3 } else { 2 };
                    c[i] = if size & 1 == 0 { c[i].wrapping_add(1 + (n & 3) as u8) } else { c[i].wrapping_sub(1 + (n & 3) as u8) };
                }
            }
        }
        "loop" => {
            let (a, b) = (get_key(INTER), get_key(INTER + 1));
            let ca = |subject: &str, issuer: &str, k: &Key, by: &Key| {
                issue(
                    &Cert {
                        subject,
                        issuer,
                        public: &k.public,
                        nb: NB,
                        na: NA,
                        exts: vec![bc(Some(true), None)],
                        serial: vec![2],
                    },
                    by,
                )
            };
            inters = vec![ca("i0", "i1", a, b), ca("i1", "i0", b, a)];
            c.issuer = "i1";
            leaf = issue(&c, b);
        }
        _ => (),
    }
    let bytes = serialize(&root_hash, &inters, &leaf);
    let sound = VALID_KINDS.contains(&kind) || kind == "tiny";
    let also = (signer_root != r && signer_root != 'R').then_some(signer_root);
    let ch: &'static Chain = Box::leak(Box::new(Chain {
        inters,
        leaf,
        root_hash,
        key,
        bytes,
        root: r,
        sound,
        also,
    }));
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        p.leaves.insert(ch.leaf.clone(), holder);
        if let Some(o) = ch.also {
            p.either.insert((o, ch.leaf.clone()));
        }
        if sound {
            let e = p.valid.entry((r, ch.leaf.clone())).or_default();
            e.push((ch.inters.clone(), key));
        }
        p.chains.insert(s.to_string(), ch);
    });
    ch
}

/// Independent judgement of an arbitrary serialized chain against a root: who
/// holds the leaf key, and does a valid path exist. A chain made of bytes this
/// pool never issued cannot be valid.
pub fn judge(bytes: &[u8], digest: usize, max_depth: usize, root: char) -> (Trust, Option<u32>) {
    let certs = match split(bytes, digest) {
        Some(c) => c,
        None => return (Trust::Invalid, None),
    };
    let leaf = certs[certs.len() - 1].clone();
    let inters = &certs[..certs.len() - 1];
    let k = POOL.with(|p| p.borrow().leaves.get(&leaf).copied());
    if inters.len() > max_depth {
        return (Trust::Invalid, k);
    }
    let leaf = (root, leaf);
    if POOL.with(|p| p.borrow().either.contains(&leaf)) {
        return (Trust::Either, k);
    }
    let alts = POOL.with(|p| p.borrow().valid.get(&leaf).cloned());
    if let Some(alts) = alts {
        for (path, key) in &alts {
            if &path[..] == inters {
                if inters.len() > crate::model::WEBPKI {
                    return (Trust::Either, Some(*key));
                }
                return (Trust::Valid, Some(*key));
            }
        }
        let have: HashSet<&Vec<u8>> = inters.iter().collect();
        for (path, key) in &alts {
            if path.iter().all(|c| have.contains(c)) {
                return (Trust::Either, Some(*key));
            }
        }
    }
    (Trust::Invalid, k)
}

pub fn split(bytes: &[u8], digest: usize) -> Option<Vec<Vec<u8>>> {
    if bytes.len() < 4 + digest {
        return None;
    }
    let n = u16::from_le_bytes([bytes[0], bytes[1]]) as usize;
    if n != bytes.len() || bytes[2] != 0 || bytes[3] != 0 {
        return None;
    }
    let mut i = 4 + digest;
    let mut out = vec![];
    while i < bytes.len() {
        let b = &bytes[i..];
        if b.len() < 2 || b[0] != 0x30 {
            return None;
        }
        let (h, l) = match b[1] {
            x if x < 128 => (2usize, x as usize),
            0x81 if b.len() > 2 => (3, b[2] as usize),
            0x82 if b.len() > 3 => (4, (b[2] as usize) << 8 | b[3] as usize),
            _ => return None,
        };
        if h + l > b.len() {
            return None;
        }
        out.push(b[..h + l].to_vec());
        i += h + l;
    }
    if out.is_empty() {
        None
    } else {
        Some(out)
    }
}

/// A fixed-width (r || s) signature over `msg` with the current entropy.
pub fn sign_with(id: u32, msg: &[u8]) -> Vec<u8> {
    use ring::signature::ECDSA_P256_SHA256_FIXED_SIGNING as ALG;
    thread_local! { static KP: RefCell<HashMap<u32, &'static EcdsaKeyPair>> = RefCell::new(HashMap::new()); }
    let known = KP.with(|m| m.borrow().get(&id).copied());
    let kp = known.unwrap_or_else(|| {
        // ring draws a secret here, the same whenever that happens first
        let kp: &'static EcdsaKeyPair = sys::outside_with_entropy(0x5ec7e7 + id as u64, || {
            Box::leak(Box::new(EcdsaKeyPair::from_pkcs8(&ALG, &get_key(id).pkcs8).unwrap()))
        });
        KP.with(|m| m.borrow_mut().insert(id, kp));
        kp
    });
    kp.sign(&SystemRandom::new(), msg).expect("sign").as_ref().to_vec()
}
