//! Reference models, written from the wire format and the protocol phases, not
//! from the library. `DevModel` follows a responder, `HostModel` a requester;
//! both judge every single call.

use crate::crypt;
use crate::exposed::{self, Exposed};
use crate::pki::{self, Trust};
use spdm::config;

pub type Tags = Vec<&'static str>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rule {
    Accept,
    Reject,
    /// the properties leave it open
    Either,
}

#[derive(Clone, Debug)]
pub struct Want {
    pub rule: Rule,
    pub why: &'static str,
    /// properties broken when the call does the opposite
    pub tags: Tags,
    /// refusal must be UnexpectedRequest
    pub unexpected: bool,
    pub resource: bool,
    /// succeeded although some resource has no byte to spare
    pub tight: bool,
    /// Host: accepting this response completes the session
    pub completes: bool,
}

fn want(rule: Rule, why: &'static str, tags: &[&'static str]) -> Want {
    Want {
        rule,
        why,
        tags: tags.to_vec(),
        unexpected: false,
        resource: false,
        tight: false,
        completes: false,
    }
}

pub fn u16le(b: &[u8], i: usize) -> u16 {
    u16::from_le_bytes([b[i], b[i + 1]])
}
pub fn u32le(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]])
}

pub const CERT: u32 = 1 << 1;
pub const CHAL: u32 = 1 << 2;
pub const MUT: u32 = 1 << 8;
pub const REQ_KNOWN: u32 = 0x1_FFC6;
pub const RSP_KNOWN: u32 = 0x1_FFFF;
pub const ASYM_KNOWN: u32 = 0x1FF;
pub const HASH_KNOWN: u32 = 0x3F;
pub const SIG: usize = 64;

/// The configuration the harness was built for (see /verif/cfg). The expected
/// flags come from the harness, not from the library's generated constants.
pub fn cfg_name() -> &'static str {
    option_env!("SPDMSIM_CFG").unwrap_or("std")
}
pub fn caps() -> u32 {
    match cfg_name() {
        "certonly" => CERT | 1 << 6 | 1 << 14,
        "nocrypto" => 0,
        "vca" => CHAL | 1 << 7,
        "tight" => CERT | CHAL,
        "mini" => CERT | CHAL | MUT,
        // CERT CHAL ENCRYPT MAC MUT_AUTH KEY_EX KEY_UPD
        _ => CERT | CHAL | 1 << 6 | 1 << 7 | MUT | 1 << 9 | 1 << 14,
    }
}
pub fn crypto() -> bool {
    cfg!(feature = "crypto")
}
pub fn hashes() -> u32 {
    // A digest that does not fit `max_digest_size` cannot be offered.
    match config::MAX_DIGEST_SIZE {
        64 if crypto() => 7,
        48 if crypto() => 3,
        _ => 1,
    }
}
pub const N: usize = config::NUM_SLOTS;
pub const BUF: usize = config::MAX_CERT_CHAIN_SIZE;
pub const TR: usize = config::TRANSCRIPT_SIZE;
pub const DEPTH: usize = config::MAX_CERT_CHAIN_DEPTH;
/// The longest chain a 16-bit length can describe, if the buffer takes it.
pub const MAXCHAIN: usize = if BUF < 65535 { BUF } else { 65535 };
/// Path validation (webpki) follows no more intermediates than this.
pub const WEBPKI: usize = 6;
pub const PATH: usize = if DEPTH < WEBPKI { DEPTH } else { WEBPKI };
pub const OPQ_N: usize = config::MAX_OPAQUE_ELEMENTS;
pub const OPQ_SIZE: usize = config::MAX_OPAQUE_ELEMENT_DATA_SIZE;

// ------------------------------------------------------------ algorithms

pub struct Algs {
    pub spec: u8,
    pub asym: u32,
    pub hash: u32,
    /// (type, bits)
    pub structs: Vec<(u8, u16)>,
    pub len_ok: bool,
    pub sorted: bool,
    pub end: usize,
}

fn alg_known(t: u8) -> Option<u16> {
    match t {
        2 => Some(0x3F),
        3 => Some(7),
        4 => Some(0x1FF),
        5 => Some(1),
        _ => None,
    }
}

fn alg_structs(b: &[u8], mut i: usize, n: usize) -> Result<(Vec<(u8, u16)>, usize, bool), &'static str> {
    let mut v = vec![];
    let mut ext = false;
    for _ in 0..n {
        if b.len() < i + 4 {
            return Err("algorithm structure truncated");
        }
        let known = alg_known(b[i]).ok_or("unknown algorithm type")?;
        if b[i + 1] >> 4 != 2 {
            return Err("fixed algorithm count not 2");
        }
        let bits = u16le(b, i + 2);
        if bits & !known != 0 {
            return Err("undefined algorithm bits");
        }
        let e = 4 * (b[i + 1] & 15) as usize;
        if e > 0 {
            ext = true;
        }
        v.push((b[i], bits));
        i += 4 + e;
        if b.len() < i {
            return Err("extended algorithms truncated");
        }
    }
    Ok((v, i, ext))
}

pub fn parse_negotiate(b: &[u8]) -> Result<Algs, &'static str> {
    if b.len() < 32 {
        return Err("truncated");
    }
    if b[2] > 4 {
        return Err("too many algorithm structures");
    }
    if b[3] != 0 || b[7] != 0 || b[16..28].iter().any(|x| *x != 0) || b[30] != 0 || b[31] != 0 {
        return Err("reserved bytes not zero");
    }
    let len = u16le(b, 4);
    if len > 128 {
        return Err("longer than 128 bytes");
    }
    if b[6] > 1 {
        return Err("undefined measurement specification");
    }
    let asym = u32le(b, 8);
    let hash = u32le(b, 12);
    if asym & !ASYM_KNOWN != 0 || hash & !HASH_KNOWN != 0 {
        return Err("undefined algorithm bits");
    }
    let i = 32 + 4 * (b[28] as usize + b[29] as usize);
    if b.len() < i {
        return Err("extended algorithms truncated");
    }
    let (structs, end, _) = alg_structs(b, i, b[2] as usize)?;
    let sorted = structs.windows(2).all(|w| w[0].0 < w[1].0);
    Ok(Algs {
        spec: b[6],
        asym,
        hash,
        structs,
        len_ok: len as usize == end,
        sorted,
        end,
    })
}

/// A well formed GET_* request of a known type (used to tell "wrong message
/// for this phase" from "malformed").
fn wellformed(b: &[u8]) -> bool {
    let v11 = b[0] == 0x11;
    match b[1] {
        0x84 => b[0] == 0x10 && b.len() == 4 && b[2] == 0 && b[3] == 0,
        0xE1 => v11 && b.len() == 12 && b[2..5] == [0; 3] && b[6..8] == [0; 2],
        0xE3 => v11 && parse_negotiate(b).map_or(false, |a| a.len_ok && a.end == b.len()),
        0x81 => v11 && b.len() == 4 && b[2] == 0 && b[3] == 0,
        0x82 => v11 && b.len() == 8 && b[3] == 0,
        0x83 => v11 && b.len() == 36,
        _ => false,
    }
}

// ------------------------------------------------------------ responder

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ph {
    V,
    C,
    A,
    I,
    Ch,
    Dead,
    /// the responder did something the properties leave open; judged again
    /// from the next GET_VERSION on
    Unknown,
}

#[derive(Clone)]
pub struct SlotInfo {
    pub bytes: Vec<u8>,
}

#[derive(Clone)]
pub struct DevModel {
    pub ph: Ph,
    pub req_caps: u32,
    pub hash: u32,
    pub tr: Vec<u8>,
    pub slots: Vec<Option<SlotInfo>>,
    pub challenges: u32,
    /// what the state must say was negotiated
    pub exp: Exposed,
}

pub struct Signed {
    pub slot: u8,
    pub msg: Vec<u8>,
    /// what the signer handed back
    pub sig: Option<Vec<u8>>,
}

pub type Bad = (Tags, String);

impl DevModel {
    pub fn new(slots: Vec<Option<SlotInfo>>) -> DevModel {
        DevModel {
            ph: Ph::V,
            req_caps: 0,
            hash: 1,
            tr: vec![],
            slots,
            challenges: 0,
            exp: vec![],
        }
    }
    pub fn reset(&mut self) {
        self.ph = Ph::V;
        self.tr.clear();
        self.exp.clear();
    }
    pub fn mask(&self) -> u8 {
        (0..N).filter(|i| self.slots[*i].is_some()).fold(0, |m, i| m | 1 << i)
    }

    fn room(&self, w: Want, req: &[u8], out: usize, record: usize, rsp_len: usize, fresh: bool) -> Want {
        if w.rule == Rule::Reject {
            return w;
        }
        let base = if fresh { 0 } else { self.tr.len() };
        let need = base + req.len() + record;
        if rsp_len < out || need > TR {
            let mut r = want(
                Rule::Reject,
                if rsp_len < out { "response buffer too small" } else { "transcript full" },
                &["C13"],
            );
            r.resource = true;
            return r;
        }
        let mut w = w;
        if rsp_len < out + 8 || need + 8 > TR {
            w.tight = true;
        }
        w
    }

    fn oversized(&self, i: usize) -> bool {
        self.slots[i].as_ref().map_or(false, |s| s.bytes.len() > BUF)
    }

    pub fn want(&self, req: &[u8], rsp_len: usize) -> Want {
        if req.len() <= 2 {
            return want(Rule::Reject, "shorter than a header", &["C06"]);
        }
        // GET_VERSION, in every state
        if req[1] == 0x84 {
            if req[0] != 0x10 {
                return want(Rule::Reject, "GET_VERSION with a wrong version", &["C06"]);
            }
            if req.len() < 4 || req[2] != 0 || req[3] != 0 {
                return want(Rule::Reject, "malformed GET_VERSION", &["C06"]);
            }
            let w = if req.len() == 4 {
                want(Rule::Accept, "GET_VERSION", &["C06", "C15", "C04"])
            } else {
                want(Rule::Either, "GET_VERSION with extra bytes", &["C06"])
            };
            return self.room(w, req, 10, 10, rsp_len, true);
        }
        if self.ph == Ph::Unknown {
            return want(Rule::Either, "unmodelled", &[]);
        }
        let code = match self.ph {
            Ph::C => req[1] == 0xE1,
            Ph::A => req[1] == 0xE3,
            Ph::I => (req[1] == 0x81 || req[1] == 0x82) && caps() & CERT != 0,
            Ph::Ch => req[1] == 0x83 && caps() & CHAL != 0,
            _ => false,
        };
        if !code {
            let mut w = want(Rule::Reject, "wrong message for this phase", &["C06"]);
            w.unexpected = wellformed(req);
            return w;
        }
        if req[0] != 0x11 {
            return want(Rule::Reject, "wrong version", &["C06"]);
        }
        let bad = |why| want(Rule::Reject, why, &["C06"]);
        let good = |exact: bool, why| {
            if exact {
                want(Rule::Accept, why, &["C06", "C15"])
            } else {
                want(Rule::Either, why, &["C06"])
            }
        };
        match req[1] {
            0xE1 => {
                if req.len() < 12 {
                    return bad("GET_CAPABILITIES truncated");
                }
                if req[2..5] != [0; 3] || req[6..8] != [0; 2] {
                    return bad("GET_CAPABILITIES reserved bytes");
                }
                let f = u32le(req, 8);
                if f & !REQ_KNOWN != 0 {
                    return bad("GET_CAPABILITIES undefined bits");
                }
                let w = good(
                    req.len() == 12 && req[5] <= 31 && f & (1 << 11) == 0,
                    "GET_CAPABILITIES",
                );
                self.room(w, req, 12, 12, rsp_len, false)
            }
            0xE3 => {
                let a = match parse_negotiate(req) {
                    Ok(a) => a,
                    Err(e) => return bad(e),
                };
                if a.hash & hashes() == 0 {
                    return want(Rule::Reject, "no common hash algorithm", &["C08"]);
                }
                if a.asym & 0x10 == 0 {
                    return want(Rule::Reject, "no common signature algorithm", &["C08"]);
                }
                if a.structs.iter().any(|s| s.1 == 0) {
                    return want(Rule::Reject, "algorithm structure offers nothing", &["C08"]);
                }
                let mut w = good(a.len_ok && a.sorted && a.end == req.len(), "NEGOTIATE_ALGORITHMS");
                if w.rule == Rule::Accept {
                    w.tags = vec!["C08", "C15", "C06"];
                }
                let out = 36 + 4 * a.structs.len();
                self.room(w, req, out, out, rsp_len, false)
            }
            0x81 => {
                if req.len() < 4 || req[2] != 0 || req[3] != 0 {
                    return bad("malformed GET_DIGESTS");
                }
                let mut w = good(req.len() == 4, "GET_DIGESTS");
                if (0..N).any(|i| self.oversized(i)) {
                    w = want(Rule::Reject, "a chain exceeds the buffer", &["C13"]);
                    w.resource = true;
                    return w;
                }
                let out = 4 + self.mask().count_ones() as usize * crypt::ds(self.hash);
                self.room(w, req, out, out, rsp_len, false)
            }
            0x82 => {
                if req.len() < 8 || req[3] != 0 {
                    return bad("malformed GET_CERTIFICATE");
                }
                let s = req[2] as usize;
                if s >= N {
                    return want(Rule::Reject, "no such slot", &["C09", "C06"]);
                }
                if self.oversized(s) {
                    let mut w = want(Rule::Reject, "the chain exceeds the buffer", &["C13"]);
                    w.resource = true;
                    return w;
                }
                let len = self.slots[s].as_ref().map_or(0, |x| x.bytes.len());
                let whole = u16le(req, 4) == 0 && u16le(req, 6) as usize >= len && len > 0;
                let w = good(whole && req.len() == 8, "GET_CERTIFICATE");
                if whole || len == 0 {
                    self.room(w, req, 8 + len, 8 + len, rsp_len, false)
                } else {
                    let mut w = want(Rule::Either, "GET_CERTIFICATE for a part", &[]);
                    // it may fail for lack of room
                    w.resource = true;
                    w
                }
            }
            _ => {
                if req.len() < 36 {
                    return bad("CHALLENGE truncated");
                }
                if ![0, 1, 0xFF].contains(&req[3]) {
                    return bad("undefined measurement summary type");
                }
                let s = req[2] as usize;
                if s >= N || self.slots[s].is_none() {
                    return want(Rule::Reject, "CHALLENGE for an empty slot", &["C09", "C06"]);
                }
                if self.oversized(s) {
                    let mut w = want(Rule::Reject, "the chain exceeds the buffer", &["C13"]);
                    w.resource = true;
                    return w;
                }
                let w = good(req.len() == 36 && req[3] == 0, "CHALLENGE");
                let d = crypt::ds(self.hash);
                let rec = 4 + d + 32 + d + 2 + 4;
                self.room(w, req, rec + SIG, rec, rsp_len, false)
            }
        }
    }

    pub fn fail(&mut self) {
        self.ph = Ph::Dead;
    }

    /// Judge a successful call and follow it.
    pub fn ok(&mut self, req: &[u8], rsp: &[u8], signs: &[Signed]) -> Vec<Bad> {
        let mut bad: Vec<Bad> = vec![];
        let mut b = |t: &[&'static str], s: String| bad.push((t.to_vec(), s));
        if req.len() < 4 {
            return bad;
        }
        if self.ph == Ph::Unknown && req[1] != 0x84 {
            return bad;
        }
        if req[1] != 0x83 && !signs.is_empty() {
            b(&["C01", "C03", "C06"], "signed without a CHALLENGE".into());
        }
        let mut record = rsp.len();
        match req[1] {
            0x84 => {
                self.tr.clear();
                self.exp.clear();
                if rsp != [0x10, 4, 0, 0, 0, 2, 0, 0x10, 0, 0x11] {
                    b(&["C15", "C08"], format!("VERSION is {}", hex(rsp)));
                }
                self.ph = Ph::C;
            }
            0xE1 => {
                let mut e = vec![0x11, 0x61, 0, 0, 0, 12, 0, 0];
                e.extend(caps().to_le_bytes());
                if rsp != &e[..] {
                    b(&["C15", "C08"], format!("CAPABILITIES is {}", hex(rsp)));
                }
                self.req_caps = u32le(req, 8);
                exposed::set(&mut self.exp, "requester_ct_exponent", &req[5..6]);
                exposed::set(&mut self.exp, "requester_cap", &req[8..12]);
                if rsp.len() == 12 {
                    exposed::set(&mut self.exp, "responder_ct_exponent", &rsp[5..6]);
                    exposed::set(&mut self.exp, "responder_cap", &rsp[8..12]);
                }
                self.ph = Ph::A;
            }
            0xE3 => {
                let a = match parse_negotiate(req) {
                    Ok(a) => a,
                    Err(_) => {
                        self.ph = Ph::Unknown;
                        return bad;
                    }
                };
                for x in check_algorithms(&a, rsp) {
                    bad.push(x);
                }
                if rsp.len() < 36 || u32le(rsp, 16).count_ones() != 1 {
                    self.ph = Ph::Unknown;
                    return bad;
                }
                self.hash = u32le(rsp, 16);
                exposed::set_algorithms(&mut self.exp, rsp);
                self.ph = Ph::I;
            }
            0x81 => {
                let mut e = vec![0x11, 1, 0, self.mask()];
                for s in self.slots.iter().flatten() {
                    e.extend(crypt::hash(self.hash, &s.bytes));
                }
                if rsp != &e[..] {
                    b(&["C09", "C15"], format!("DIGESTS is {} instead of {}", hex(rsp), hex(&e)));
                }
            }
            0x82 => {
                let s = req[2] as usize;
                let chain = if s < N {
                    self.slots[s].as_ref().map_or(vec![], |x| x.bytes.clone())
                } else {
                    vec![]
                };
                let (off, len) = (u16le(req, 4) as usize, u16le(req, 6) as usize);
                let whole = off == 0 && len >= chain.len();
                let mut e = vec![0x11, 2, req[2], 0];
                e.extend((chain.len() as u16).to_le_bytes());
                e.extend([0, 0]);
                e.extend_from_slice(&chain);
                if rsp == &e[..] {
                    self.ph = Ph::Ch;
                } else if whole {
                    b(
                        &["C09", "C15"],
                        format!("CERTIFICATE for slot {} is {} instead of {}", s, hex(rsp), hex(&e)),
                    );
                    self.ph = Ph::Ch;
                } else {
                    // Portions are a documented omission; should one be
                    // served, it must at least be of this chain.
                    let p = if rsp.len() >= 8 { u16le(rsp, 4) as usize } else { 0 };
                    let okay = rsp.len() == 8 + p
                        && off + p <= chain.len()
                        && rsp[8..] == chain[off..off + p]
                        && rsp[2] == req[2];
                    if !okay {
                        b(&["C09"], format!("CERTIFICATE portion is {}", hex(rsp)));
                    }
                    self.ph = Ph::Unknown;
                }
            }
            0x83 => {
                let slot = req[2] as usize;
                let d = crypt::ds(self.hash);
                let n = 4 + d + 32 + d + 2 + 4;
                record = n.min(rsp.len());
                let info = match self.slots.get(slot).and_then(|s| s.as_ref()) {
                    Some(i) => i.clone(),
                    None => {
                        self.ph = Ph::Unknown;
                        return bad;
                    }
                };
                if rsp.len() != n + SIG {
                    b(&["C15", "C09"], format!("CHALLENGE_AUTH of {} bytes", rsp.len()));
                    self.ph = Ph::Unknown;
                    return bad;
                }
                let mutual = self.req_caps & caps() & MUT != 0;
                let p1 = slot as u8 | if mutual { 0x80 } else { 0 };
                let mut e = vec![0x11, 3, p1, self.mask()];
                e.extend(crypt::hash(self.hash, &info.bytes));
                e.extend_from_slice(&rsp[4 + d..4 + d + 32]);
                e.extend(vec![0; d]);
                e.extend([4, 0, 0, 0, 0, 0]);
                if rsp[..n] != e[..] {
                    b(
                        &["C09", "C15"],
                        format!("CHALLENGE_AUTH is {} instead of {}", hex(&rsp[..n]), hex(&e)),
                    );
                }
                let mut m = self.tr.clone();
                m.extend_from_slice(req);
                m.extend_from_slice(&rsp[..n]);
                let h = crypt::hash(self.hash, &m);
                if signs.len() != 1 {
                    b(&["C03", "C01"], format!("{} signing operations for one CHALLENGE", signs.len()));
                } else {
                    if signs[0].msg != h {
                        b(
                            &["C01", "C05"],
                            "signed something else than the digest of the complete transcript".into(),
                        );
                    }
                    if signs[0].slot as usize != slot {
                        b(&["C09"], format!("slot {} challenged, slot {} signed", slot, signs[0].slot));
                    }
                    match &signs[0].sig {
                        Some(s) if s.len() == SIG => {
                            if rsp[n..] != s[..] {
                                b(&["C13", "C15", "C01"], "the signature sent is not the signer's".into());
                            }
                        }
                        _ => b(&["C13"], "succeeded although the signer failed".into()),
                    }
                }
                self.challenges += 1;
            }
            _ => (),
        }
        self.tr.extend_from_slice(req);
        self.tr.extend_from_slice(&rsp[..record]);
        bad
    }
}

fn check_algorithms(a: &Algs, r: &[u8]) -> Vec<Bad> {
    let mut bad: Vec<Bad> = vec![];
    let mut b = |t: &[&'static str], s: String| bad.push((t.to_vec(), s));
    if r.len() < 36 || r[0] != 0x11 || r[1] != 0x63 {
        b(&["C15", "C08"], format!("ALGORITHMS is {}", hex(r)));
        return bad;
    }
    let zeros = r[3] == 0
        && r[7] == 0
        && r[20..32].iter().all(|x| *x == 0)
        && r[34] == 0
        && r[35] == 0;
    if !zeros || u16le(r, 4) as usize != r.len() || r[32] != 0 || r[33] != 0 {
        b(&["C15"], format!("ALGORITHMS malformed: {}", hex(r)));
    }
    if r[6] & !a.spec != 0 || r[6].count_ones() > 1 || (a.spec != 0 && r[6] == 0) {
        b(&["C08"], format!("measurement specification {:#x} of offered {:#x}", r[6], a.spec));
    }
    let mh = u32le(r, 8);
    if mh.count_ones() > 1 || mh & !a.hash != 0 {
        b(&["C08"], format!("measurement hash {:#x} of offered {:#x}", mh, a.hash));
    }
    let asym = u32le(r, 12);
    if asym.count_ones() != 1 || asym & a.asym & 0x10 == 0 {
        b(&["C08"], format!("signature algorithm {:#x} of offered {:#x}", asym, a.asym));
    }
    let h = u32le(r, 16);
    if h.count_ones() != 1 || h & a.hash & hashes() == 0 {
        b(&["C08"], format!("hash algorithm {:#x} of offered {:#x}", h, a.hash));
    }
    match alg_structs(r, 36, r[2] as usize) {
        Ok((s, end, ext)) => {
            if ext || end != r.len() {
                b(&["C15"], format!("ALGORITHMS structures malformed: {}", hex(r)));
            }
            for (t, bits) in &s {
                let off = a.structs.iter().filter(|x| x.0 == *t).fold(0, |m, x| m | x.1);
                if bits.count_ones() != 1 || bits & off == 0 {
                    b(&["C08"], format!("structure {} selects {:#x} of offered {:#x}", t, bits, off));
                }
            }
            if a.sorted {
                let mut have: Vec<u8> = s.iter().map(|x| x.0).collect();
                have.sort();
                let ask: Vec<u8> = a.structs.iter().map(|x| x.0).collect();
                if have != ask {
                    b(&["C08"], format!("structures {:?} answered for {:?}", have, ask));
                }
            }
        }
        Err(e) => b(&["C15", "C08"], format!("ALGORITHMS: {}: {}", e, hex(r))),
    }
    bad
}

/// A refusal: a single well formed ERROR message, or nothing where none fits.
pub fn check_error(w: &Want, rsp_len: usize, out: &[u8], force: bool) -> Vec<Bad> {
    let mut bad = vec![];
    if out.is_empty() {
        let fits = rsp_len >= if w.resource { 8 } else { 4 };
        if fits || force {
            bad.push((vec!["C06", "C13"], "refused without an ERROR message although it fits".into()));
        }
        return bad;
    }
    const CODES: &[u8] = &[1, 3, 4, 5, 6, 7, 8, 9, 0xA, 0xB, 0xC, 0xD, 0xE, 0xF, 0x10, 0x41, 0x42, 0x43, 0xFF];
    let ok = out.len() >= 4
        && out[0] >= 0x10
        && out[0] <= 0x11
        && out[1] == 0x7F
        && CODES.contains(&out[2])
        && match out[2] {
            0xD => out.len() == 8,
            0xF => out.len() == 5,
            0x42 => out.len() == 8,
            0xFF => true,
            _ => out.len() == 4,
        };
    if !ok {
        bad.push((vec!["C06", "C13", "C15"], format!("refused with {} which is no well formed ERROR", hex(out))));
    } else if w.unexpected && out[2] != 4 {
        bad.push((vec!["C06"], format!("{}: ERROR code {:#x}, not UnexpectedRequest", w.why, out[2])));
    }
    bad
}

// ------------------------------------------------------------ requester

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hp {
    V,
    C,
    A,
    D,
    X,
    G,
    Done,
    Dead,
}

#[derive(Clone)]
pub struct HostModel {
    pub root: char,
    pub ph: Hp,
    pub outstanding: bool,
    pub version: (u8, u8),
    pub rsp_caps: u32,
    pub hash: u32,
    pub asym: u32,
    pub chain: Vec<u8>,
    pub tr: Vec<u8>,
    pub nonce: Vec<u8>,
    pub exchanges: u32,
    pub exp: Exposed,
}

pub fn negotiate_request() -> Vec<u8> {
    let mut e = vec![0x11, 0xE3, 4, 0, 48, 0, 1, 0];
    e.extend(0x10u32.to_le_bytes());
    e.extend(hashes().to_le_bytes());
    e.extend([0; 16]);
    e.extend([2, 0x20, 0x12, 0, 3, 0x20, 6, 0, 4, 0x20, 0x90, 0, 5, 0x20, 1, 0]);
    e
}

pub const OFFERED: &[(u8, u16)] = &[(2, 0x12), (3, 6), (4, 0x90), (5, 1)];

impl HostModel {
    pub fn new(root: char) -> HostModel {
        HostModel {
            root,
            ph: Hp::V,
            outstanding: false,
            version: (0, 0),
            rsp_caps: 0,
            hash: 1,
            asym: 0,
            chain: vec![],
            tr: vec![],
            nonce: vec![],
            exchanges: 0,
            exp: vec![],
        }
    }
    /// The request this requester must emit now (nonce left open).
    pub fn expected(&self) -> Option<Vec<u8>> {
        Some(match self.ph {
            Hp::V => vec![0x10, 0x84, 0, 0],
            Hp::C => {
                let mut e = vec![0x11, 0xE1, 0, 0, 0, 12, 0, 0];
                e.extend(caps().to_le_bytes());
                e
            }
            Hp::A => negotiate_request(),
            Hp::D => vec![0x11, 0x81, 0, 0],
            Hp::X => {
                let mut e = vec![0x11, 0x82, 0, 0, 0, 0];
                e.extend((MAXCHAIN as u16).to_le_bytes());
                e
            }
            Hp::G => {
                let mut e = vec![0x11, 0x83, 0, 0];
                e.extend([0; 32]);
                e
            }
            _ => return None,
        })
    }
    /// (fits, spare): whether a buffer of `n` suffices now
    pub fn fits(&self, n: usize) -> (bool, bool) {
        let e = self.expected().map_or(0, |e| e.len());
        let base = if self.ph == Hp::V { 0 } else { self.tr.len() };
        (n >= e && base + e <= TR, n >= e + 8 && base + e + 8 <= TR)
    }
    pub fn request(&mut self, out: &[u8]) -> Vec<Bad> {
        let mut bad = vec![];
        let mut e = match self.expected() {
            Some(e) => e,
            None => {
                bad.push((vec!["C11"], format!("a request in phase {:?}: {}", self.ph, hex(out))));
                return bad;
            }
        };
        if self.ph == Hp::G && out.len() == 36 {
            e[4..].copy_from_slice(&out[4..]);
            self.nonce = out[4..].to_vec();
        }
        if out != &e[..] {
            let code = out.len() > 1 && out[..2] != e[..2];
            let t: &[&'static str] = if code {
                &["C11", "C15"]
            } else if matches!(self.ph, Hp::C | Hp::A) {
                &["C08", "C15"]
            } else if self.ph == Hp::X || self.ph == Hp::G {
                &["C15", "C09", "C11"]
            } else {
                &["C15", "C11"]
            };
            bad.push((t.to_vec(), format!("request {} instead of {}", hex(out), hex(&e))));
        }
        if self.ph == Hp::C && self.version == (1, 0) && out.first() == Some(&0x11) {
            bad.push((
                vec!["C08"],
                "[version-1.0] the only common version is 1.0, yet GET_CAPABILITIES says 1.1".into(),
            ));
        }
        if self.ph == Hp::V {
            self.tr.clear();
            self.exp.clear();
        }
        if out == &e[..] {
            let x = &mut self.exp;
            match self.ph {
                Hp::C => {
                    exposed::set(x, "requester_ct_exponent", &out[5..6]);
                    exposed::set(x, "requester_cap", &out[8..12]);
                }
                Hp::A => {
                    let mut v = vec![out[6]];
                    v.extend_from_slice(&out[8..16]);
                    v.push(out[2]);
                    v.extend(out[32..].chunks(4).flat_map(|c| vec![c[0], c[2], c[3]]));
                    exposed::set(x, "negotiate_algorithms", &v);
                }
                Hp::X => exposed::set(x, "requested_slot", &out[2..3]),
                Hp::G => exposed::set(x, "nonce", &out[4..]),
                _ => (),
            }
        }
        self.tr.extend_from_slice(out);
        self.outstanding = true;
        bad
    }
    fn after_cert(&self) -> Hp {
        if caps() & self.rsp_caps & CHAL != 0 {
            Hp::G
        } else {
            Hp::Done
        }
    }
    pub fn next_phase(&self, rsp: &[u8]) -> Hp {
        match self.ph {
            Hp::V => Hp::C,
            Hp::C => Hp::A,
            Hp::A => {
                if caps() & self.rsp_caps & CERT != 0 {
                    Hp::D
                } else {
                    Hp::Done
                }
            }
            Hp::D => Hp::X,
            Hp::X => {
                let _ = rsp;
                self.after_cert()
            }
            _ => Hp::Done,
        }
    }
    pub fn want(&self, r: &[u8], leaf_pub: impl Fn(u32) -> Vec<u8>) -> Want {
        let mut w = self.want_inner(r, leaf_pub);
        if w.rule != Rule::Reject {
            let rec = if self.ph == Hp::G { r.len().saturating_sub(SIG) } else { r.len() };
            if self.tr.len() + rec > TR {
                let mut x = want(Rule::Reject, "transcript full", &["C13"]);
                x.resource = true;
                return x;
            }
            if self.tr.len() + rec + 8 > TR {
                w.tight = true;
            }
            w.completes = self.next_phase(r) == Hp::Done;
        }
        w
    }
    fn want_inner(&self, r: &[u8], leaf_pub: impl Fn(u32) -> Vec<u8>) -> Want {
        let rej = |why, t: &[&'static str]| want(Rule::Reject, why, t);
        if self.ph == Hp::Done || self.ph == Hp::Dead {
            return want(Rule::Either, "no handshake in progress", &[]);
        }
        if !self.outstanding {
            return rej("no request outstanding", &["C11"]);
        }
        if r.len() <= 2 {
            return rej("shorter than a header", &["C11"]);
        }
        let (ver, code) = match self.ph {
            Hp::V => (0x10, 4),
            Hp::C => (0x11, 0x61),
            Hp::A => (0x11, 0x63),
            Hp::D => (0x11, 1),
            Hp::X => (0x11, 2),
            _ => (0x11, 3),
        };
        if r[1] != code {
            return rej("not the expected message", &["C11"]);
        }
        if r[0] != ver {
            return rej("wrong version", &["C11"]);
        }
        let acc = |exact: bool, why| {
            if exact {
                want(Rule::Accept, why, &["C15", "C11"])
            } else {
                want(Rule::Either, why, &[])
            }
        };
        match self.ph {
            Hp::V => {
                if r.len() < 6 {
                    return rej("VERSION truncated", &["C11"]);
                }
                if r[2..5] != [0; 3] {
                    return rej("VERSION reserved bytes", &["C11"]);
                }
                let n = r[5] as usize;
                if r.len() < 6 + 2 * n {
                    // too many entries to fit, or too few bytes
                    return rej("VERSION truncated", &["C11"]);
                }
                match highest(r) {
                    Found::No => rej("no common version", &["C08", "C11"]),
                    Found::Maybe => want(Rule::Either, "an update of a known version", &[]),
                    Found::Yes(1, 0) => want(Rule::Either, "only version 1.0 is common", &[]),
                    Found::Yes(..) => acc(n <= 2 && r.len() == 6 + 2 * n, "VERSION"),
                }
            }
            Hp::C => {
                if r.len() < 12 {
                    return rej("CAPABILITIES truncated", &["C11"]);
                }
                if r[2..5] != [0; 3] || r[6..8] != [0; 2] {
                    return rej("CAPABILITIES reserved bytes", &["C11"]);
                }
                let f = u32le(r, 8);
                if f & !RSP_KNOWN != 0 {
                    return rej("CAPABILITIES undefined bits", &["C11"]);
                }
                acc(
                    r.len() == 12 && r[5] <= 31 && f & 0x18 != 0x18 && f & 0xC00 != 0xC00,
                    "CAPABILITIES",
                )
            }
            Hp::A => {
                if r.len() < 36 {
                    return rej("ALGORITHMS truncated", &["C11"]);
                }
                if r[2] > 4 {
                    return rej("too many algorithm structures", &["C11"]);
                }
                let zeros = r[3] == 0 && r[7] == 0 && r[20..36].iter().all(|x| *x == 0);
                if !zeros {
                    return rej("ALGORITHMS reserved or extended bytes", &["C11"]);
                }
                let one = |v: u32, off: u32| v.count_ones() == 1 && v & off != 0;
                if r[6] & !1 != 0 {
                    return rej("measurement specification not offered", &["C08", "C11"]);
                }
                if !one(u32le(r, 12), 0x10) {
                    return rej("signature algorithm not a single offered one", &["C08", "C11"]);
                }
                if !one(u32le(r, 16), hashes()) {
                    return rej("hash algorithm not a single offered one", &["C08", "C11"]);
                }
                let mh = u32le(r, 8);
                if mh.count_ones() > 1 || mh & !hashes() != 0 {
                    return rej("measurement hash not a single offered one", &["C08", "C11"]);
                }
                let (s, end, ext) = match alg_structs(r, 36, r[2] as usize) {
                    Ok(x) => x,
                    Err(e) => return rej(e, &["C11", "C08"]),
                };
                for (t, bits) in &s {
                    let off = OFFERED.iter().find(|o| o.0 == *t).map_or(0, |o| o.1);
                    if bits.count_ones() != 1 || bits & off == 0 {
                        return rej("a structure selects what was not offered", &["C08", "C11"]);
                    }
                }
                let sorted = s.windows(2).all(|x| x[0].0 < x[1].0);
                acc(
                    sorted
                        && !ext
                        && end == r.len()
                        && u16le(r, 4) as usize == r.len()
                        && r[6] == 1
                        && mh != 0,
                    "ALGORITHMS",
                )
            }
            Hp::D => {
                if r.len() < 4 || r[2] != 0 {
                    return rej("malformed DIGESTS", &["C11"]);
                }
                let d = crypt::ds(self.hash);
                let mine = (0..N).filter(|i| r[3] >> i & 1 == 1).count();
                if r.len() < 4 + mine * d {
                    return rej("DIGESTS truncated", &["C11"]);
                }
                let exact = r.len() == 4 + r[3].count_ones() as usize * d;
                acc(exact && r[3] & 1 == 1, "DIGESTS")
            }
            Hp::X => {
                if r.len() < 8 || r[3] != 0 {
                    return rej("malformed CERTIFICATE", &["C11"]);
                }
                if r[2] != 0 {
                    return rej("CERTIFICATE of another slot", &["C09", "C11"]);
                }
                let p = u16le(r, 4) as usize;
                if p > BUF {
                    return rej("CERTIFICATE larger than requested", &["C11"]);
                }
                if r.len() < 8 + p {
                    return rej("CERTIFICATE truncated", &["C11"]);
                }
                let t = pki::judge(&r[8..8 + p], crypt::ds(self.hash), DEPTH, self.root).0;
                acc(
                    r.len() == 8 + p && u16le(r, 6) == 0 && t == Trust::Valid,
                    "CERTIFICATE",
                )
            }
            _ => self.want_auth(r, leaf_pub),
        }
    }

    fn want_auth(&self, r: &[u8], leaf_pub: impl Fn(u32) -> Vec<u8>) -> Want {
        let rej = |why, t: &[&'static str]| want(Rule::Reject, why, t);
        let d = crypt::ds(self.hash);
        let o = 4 + d + 32 + d;
        if r.len() < o + 2 + SIG {
            return rej("CHALLENGE_AUTH truncated", &["C11"]);
        }
        if r[2] & 15 != 0 {
            return rej("CHALLENGE_AUTH of another slot", &["C02", "C09", "C11"]);
        }
        if r[3] & 1 == 0 {
            return rej("slot not in the mask", &["C02", "C11"]);
        }
        if r[4..4 + d] != crypt::hash(self.hash, &self.chain)[..] {
            return rej("certificate chain digest differs", &["C02", "C11"]);
        }
        let (trust, key) = pki::judge(&self.chain, d, DEPTH, self.root);
        if trust == Trust::Invalid {
            return rej("certificate chain not valid", &["C02", "C11"]);
        }
        let n = r.len() - SIG;
        let mut m = self.tr.clone();
        m.extend_from_slice(&r[..n]);
        let h = crypt::hash(self.hash, &m);
        let key = match key {
            Some(k) => k,
            None => return rej("nobody holds this leaf key", &["C02"]),
        };
        if !crypt::verify(&leaf_pub(key), &h, &r[n..]) {
            return rej("signature does not cover this transcript", &["C01", "C02", "C11"]);
        }
        // From here on only the form of the opaque data decides.
        let olen = u16le(r, o) as usize;
        if olen > 1024 {
            return rej("opaque data too long", &["C11"]);
        }
        let body = &r[o + 2..n];
        let form = if olen == 0 && body.is_empty() { Opaque::Good(0) } else { opaque(body) };
        match form {
            Opaque::Good(used) => {
                let exact = used == olen && used == body.len() && r[2] & 0x70 == 0;
                let mutual = r[2] & 0x80 == 0 || caps() & self.rsp_caps & MUT != 0;
                if exact && mutual && trust == Trust::Valid {
                    want(Rule::Accept, "CHALLENGE_AUTH", &["C15", "C04", "C11"])
                } else {
                    want(Rule::Either, "CHALLENGE_AUTH of unusual form", &[])
                }
            }
            Opaque::Odd => want(Rule::Either, "opaque data of unusual form", &[]),
            Opaque::Bad => rej("malformed opaque data", &["C11"]),
        }
    }

    /// Follow an accepted response.
    pub fn accept(&mut self, r: &[u8], exact: bool) {
        self.outstanding = false;
        if exact {
            self.expose(r);
        }
        self.exchanges += 1;
        let next = self.next_phase_after(r);
        let rec = if self.ph == Hp::G { r.len().saturating_sub(SIG) } else { r.len() };
        self.tr.extend_from_slice(&r[..rec]);
        self.ph = next;
    }
    /// What a regular response of this phase negotiates. An irregular one
    /// leaves it open what the state has to say.
    fn expose(&mut self, r: &[u8]) {
        let x = &mut self.exp;
        match self.ph {
            Hp::V => {
                if let Found::Yes(a, b) = highest(r) {
                    exposed::set(x, "version", &[a, b]);
                }
            }
            Hp::C => {
                exposed::set(x, "responder_ct_exponent", &r[5..6]);
                exposed::set(x, "responder_cap", &r[8..12]);
            }
            Hp::A => exposed::set_algorithms(x, r),
            Hp::D => {
                let d = crypt::ds(self.hash);
                let mut v = vec![r[3]];
                for (k, i) in (0..N).filter(|i| r[3] >> i & 1 == 1).enumerate() {
                    v.push(i as u8);
                    v.extend_from_slice(&r[4 + k * d..4 + k * d + d]);
                }
                exposed::set(x, "digests", &v);
            }
            Hp::X => {
                exposed::set(x, "cert_slot", &r[2..3]);
                exposed::set(x, "cert_chain", &r[8..]);
            }
            _ => (),
        }
    }
    fn next_phase_after(&mut self, r: &[u8]) -> Hp {
        match self.ph {
            Hp::V => {
                if let Found::Yes(a, b) = highest(r) {
                    self.version = (a, b);
                }
            }
            Hp::C if r.len() >= 12 => self.rsp_caps = u32le(r, 8),
            Hp::A if r.len() >= 20 => {
                self.hash = u32le(r, 16);
                self.asym = u32le(r, 12);
            }
            Hp::X if r.len() >= 8 => {
                let p = (u16le(r, 4) as usize).min(r.len() - 8);
                self.chain = r[8..8 + p].to_vec();
            }
            _ => (),
        }
        self.next_phase(r)
    }
}

pub enum Found {
    Yes(u8, u8),
    Maybe,
    No,
}
/// The highest version common to a VERSION message and this library (1.0, 1.1)
pub fn highest(r: &[u8]) -> Found {
    let n = r[5] as usize;
    let (mut best, mut near) = (None, false);
    for i in 0..n {
        if r.len() < 8 + 2 * i {
            break;
        }
        let (lo, hi) = (r[6 + 2 * i], r[7 + 2 * i]);
        if hi == 0x10 || hi == 0x11 {
            if lo == 0 {
                best = best.max(Some((1, hi & 15)));
            } else if lo & 15 == 0 {
                // an update; with an alpha number it would be a draft
                near = true;
            }
        }
    }
    match best {
        // With more entries than the library takes, or a neighbouring update
        // version, which one it uses is its business.
        Some((a, b)) => Found::Yes(a, b),
        None if near => Found::Maybe,
        None => Found::No,
    }
}

enum Opaque {
    Good(usize),
    Odd,
    Bad,
}
fn opaque(b: &[u8]) -> Opaque {
    if b.len() < 4 {
        return Opaque::Odd;
    }
    let n = b[0] as usize;
    if b[1..4] != [0; 3] {
        return Opaque::Bad;
    }
    if n > OPQ_N {
        return Opaque::Odd;
    }
    let mut i = 4;
    for _ in 0..n {
        if b.len() < i + 4 {
            return Opaque::Bad;
        }
        let (reg, vl) = (b[i], b[i + 1] as usize);
        let wantl = match reg {
            0 => 0,
            4 | 5 => 4,
            1..=8 => 2,
            _ => return Opaque::Odd,
        };
        if vl != wantl {
            return Opaque::Odd;
        }
        if b.len() < i + 4 + vl {
            return Opaque::Bad;
        }
        let dl = u16le(b, i + 2 + vl) as usize;
        if dl > OPQ_SIZE {
            return Opaque::Odd;
        }
        let raw = 4 + vl + dl;
        let pad = (4 - raw % 4) % 4;
        if b.len() < i + raw + pad {
            return Opaque::Bad;
        }
        if b[i + raw..i + raw + pad].iter().any(|x| *x != 0) {
            return Opaque::Odd;
        }
        i += raw + pad;
    }
    Opaque::Good(i)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(96) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 96 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
