//! Independent peers: legal request builders, a reference responder with every
//! legal choice, impostors, and byte-level mutation of messages.

use crate::crypt;
use crate::endpoint::signed_elsewhere;
use crate::model::*;
use crate::pki::{self, Chain};
use crate::rng::{tag, Rng};
use crate::sys;

// ------------------------------------------------------------- requests

fn reqcaps(r: &mut Rng) -> u32 {
    // any legal combination of the defined bits; sometimes all, sometimes none
    let mut f = match r.below(6) {
        0 => 0,
        1 => REQ_KNOWN & !(1 << 11),
        2 => CERT | CHAL,
        3 => caps() & REQ_KNOWN,
        _ => r.u64() as u32 & REQ_KNOWN,
    };
    if r.pct(60) {
        f |= CERT | CHAL;
    }
    // PSK_CAP 11b and 10b are reserved for a requester
    f & !(1 << 11)
}

/// (type, bits) pairs, sorted, each with at least one defined bit.
fn structs(r: &mut Rng) -> Vec<(u8, u16)> {
    let mut v = vec![];
    for (t, known) in [(2u8, 0x3Fu16), (3, 7), (4, 0x1FF), (5, 1)] {
        if r.pct(65) {
            let mut b = r.u64() as u16 & known;
            if b == 0 || r.pct(15) {
                b = known;
            }
            if r.pct(20) {
                b = 1 << (15 - known.leading_zeros()); // highest alone
            }
            v.push((t, b));
        }
    }
    v
}

fn put_structs(e: &mut Vec<u8>, s: &[(u8, u16)], exts: bool, r: &mut Rng) {
    for (t, b) in s {
        let n = if exts && e.len() < 100 { r.below(3) as u8 } else { 0 };
        e.extend([*t, 0x20 | n]);
        e.extend(b.to_le_bytes());
        for _ in 0..n {
            e.extend([r.below(9) as u8, 0, r.u64() as u8, r.u64() as u8]);
        }
    }
}

/// A legal NEGOTIATE_ALGORITHMS that shares an algorithm with the library.
pub fn negotiate(r: &mut Rng) -> Vec<u8> {
    let plain = r.pct(30);
    if plain {
        return negotiate_request();
    }
    let mut hash = r.u64() as u32 & HASH_KNOWN;
    if r.pct(40) {
        hash = 1 << r.below(6);
    }
    if hash & hashes() == 0 {
        hash |= loop {
            let b = 1 << r.below(3);
            if b & hashes() != 0 {
                break b;
            }
        };
    }
    let asym = (r.u64() as u32 & ASYM_KNOWN & if r.pct(50) { 0xFFFF } else { 0 }) | 0x10;
    let mut s = structs(r);
    // as long as such a message may be: every structure, and 20 extended algorithms
    let full = r.pct(6);
    if full {
        s = vec![(2, 0x3F), (3, 7), (4, 0x1FF), (5, 1)];
    }
    let mut e = vec![0x11, 0xE3, s.len() as u8, 0, 0, 0, if r.pct(75) { 1 } else { 0 }, 0];
    e.extend(asym.to_le_bytes());
    e.extend(hash.to_le_bytes());
    e.extend([0; 12]);
    let (xa, xh) = if full {
        (r.below(11) as u8, r.below(11) as u8)
    } else if r.pct(30) { (r.below(4) as u8, r.below(4) as u8) } else { (0, 0) };
    e.extend([xa, xh, 0, 0]);
    for _ in 0..xa + xh {
        e.extend([r.below(9) as u8, 0, r.u64() as u8, r.u64() as u8]);
    }
    let ext = r.pct(25);
    if full {
        let mut left = 20 - xa - xh;
        for (i, (t, b)) in s.iter().enumerate() {
            let n = if i == 3 { left } else { r.below(left as u64 + 1) as u8 }.min(15);
            left -= n;
            e.extend([*t, 0x20 | n]);
            e.extend(b.to_le_bytes());
            for _ in 0..n {
                e.extend([r.below(9) as u8, 0, r.u64() as u8, r.u64() as u8]);
            }
        }
    } else {
        put_structs(&mut e, &s, ext, r);
    }
    let n = e.len() as u16;
    e[4..6].copy_from_slice(&n.to_le_bytes());
    e
}

/// Structured departures from a legal NEGOTIATE_ALGORITHMS.
pub fn bad_negotiate(r: &mut Rng) -> Vec<u8> {
    let mut e = negotiate(r);
    match r.below(12) {
        9 | 10 => {
            // more structures than there are types, and more bytes than may be
            for _ in 0..r.range(1, 5) {
                let (t, known) = *r.pick(&[(2u8, 0x3Fu16), (3, 7), (4, 0x1FF), (5, 1)]);
                let x = if r.pct(30) { r.below(16) as u8 } else { 0 };
                e.extend([t, 0x20 | x]);
                e.extend((known & r.u64() as u16).to_le_bytes());
                let x = r.bytes(4 * x as usize);
                e.extend(x);
                e[2] += 1;
            }
            let n = e.len() as u16;
            e[4..6].copy_from_slice(&n.to_le_bytes());
        }
        11 => {
            let n = *r.pick(&[0u16, 4, 32, 48, 112, 127, 128, 129, 130, 132, 256, 384, 0x8000, 0xffff]);
            e[4..6].copy_from_slice(&n.to_le_bytes());
        }
        0 => e[12..16].copy_from_slice(&[0; 4]),
        1 => e[8..12].copy_from_slice(&[0; 4]),
        2 => {
            // only hashes this library does not implement
            let h = (r.u64() as u32 & HASH_KNOWN & !hashes()).max(8);
            e[12..16].copy_from_slice(&h.to_le_bytes());
        }
        3 => {
            let a = (r.u64() as u32 & ASYM_KNOWN & !0x10).max(1);
            e[8..12].copy_from_slice(&a.to_le_bytes());
        }
        4 | 5 if e[2] > 0 => {
            // a structure that offers nothing
            let i = 32 + 4 * (e[28] as usize + e[29] as usize);
            e[i + 2] = 0;
            e[i + 3] = 0;
        }
        6 => e[12 + r.below(4) as usize] |= 0x40,
        7 => e[2] = 5 + r.below(250) as u8,
        _ => {
            let i = r.below(e.len() as u64) as usize;
            e[i] ^= 1 << r.below(8);
        }
    }
    e
}

pub fn request(op: &str, a: &[u64], k: u64) -> Vec<u8> {
    let mut r = Rng::new(&[k, tag(op)]);
    match op {
        "ver" => vec![0x10, 0x84, 0, 0],
        "caps" => {
            let mut e = vec![0x11, 0xE1, 0, 0, 0, r.below(32) as u8, 0, 0];
            e.extend(reqcaps(&mut r).to_le_bytes());
            e
        }
        "alg" => negotiate(&mut r),
        "badalg" => bad_negotiate(&mut r),
        "dig" => vec![0x11, 0x81, 0, 0],
        "cert" => {
            let mut e = vec![0x11, 0x82, a.first().copied().unwrap_or(0) as u8, 0];
            let off = a.get(1).copied().unwrap_or(0) as u16;
            let len = a.get(2).copied().unwrap_or(MAXCHAIN as u64) as u16;
            e.extend(off.to_le_bytes());
            e.extend(len.to_le_bytes());
            e
        }
        "chal" => {
            let mut e = vec![0x11, 0x83, a.first().copied().unwrap_or(0) as u8];
            e.push(a.get(1).copied().unwrap_or(0) as u8);
            let n = match r.below(10) {
                0 => vec![0; 32],
                1 => vec![0xff; 32],
                _ => r.bytes(32),
            };
            e.extend(n);
            e
        }
        // other requests of the specification
        "meas" => {
            let mut e = vec![0x11, 0xE0, r.u64() as u8, r.u64() as u8];
            let n = if r.pct(50) { 33 } else { 0 };
            e.extend(r.bytes(n));
            e
        }
        "other" => {
            let c = *r.pick(&[0xE4u8, 0xE5, 0xE6, 0xE7, 0xE8, 0xE9, 0xEA, 0xEB, 0xEC, 0xFE, 0xFF, 0x7F, 0x04, 0x61, 0x63, 1, 2, 3, 0x60]);
            let mut e = vec![*r.pick(&[0x10u8, 0x11, 0x12]), c];
            let n = r.below(40) as usize;
            e.extend(r.bytes(n));
            e
        }
        "rand" => {
            let n = match a.first() {
                Some(n) => *n as usize,
                None => r.below(200) as usize,
            };
            r.bytes(n)
        }
        // right header, arbitrary body
        "head" => {
            let c = *r.pick(&[0x84u8, 0xE1, 0xE3, 0x81, 0x82, 0x83]);
            let v = if c == 0x84 { 0x10 } else { 0x11 };
            let mut e = vec![v, c];
            let n = match r.below(4) {
                0 => r.below(4),
                1 => r.below(40),
                2 => r.below(200),
                _ => r.below(1200),
            } as usize;
            let z = r.pct(40);
            for _ in 0..n {
                e.push(if z && r.pct(80) { 0 } else { r.u64() as u8 });
            }
            e
        }
        _ => vec![],
    }
}

// ------------------------------------------------------------- mutation

/// `flip:bit`, `set:off:val`, `trunc:n`, `ext:n`, `cut:off:n`, `ins:off:n`,
/// `u16:off:val`, `splice:k` - positions wrap around.
pub fn mutate(m: &str, msg: &mut Vec<u8>, k: u64) {
    let f: Vec<&str> = m.split(':').collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) as usize;
    let mut r = Rng::new(&[k, tag(m)]);
    let l = msg.len().max(1);
    match f[0] {
        "flip" if !msg.is_empty() => {
            let b = n(1) % (l * 8);
            msg[b / 8] ^= 1 << (b % 8);
        }
        "set" if !msg.is_empty() => msg[n(1) % l] = n(2) as u8,
        "u16" if l > 1 => {
            let o = n(1) % (l - 1);
            msg[o..o + 2].copy_from_slice(&(n(2) as u16).to_le_bytes());
        }
        "trunc" => msg.truncate(n(1) % l),
        "ext" => msg.extend(r.bytes(n(1))),
        "zext" => msg.extend(vec![0; n(1)]),
        "cut" if !msg.is_empty() => {
            let o = n(1) % l;
            let e = (o + n(2)).min(l);
            msg.drain(o..e);
        }
        "ins" => {
            let o = n(1) % (msg.len() + 1);
            let b = r.bytes(n(2));
            for (i, x) in b.into_iter().enumerate() {
                msg.insert(o.min(msg.len()) + i, x);
            }
        }
        "swap" if l > 1 => {
            let (a, b) = (n(1) % l, n(2) % l);
            msg.swap(a, b);
        }
        "fill" if !msg.is_empty() => {
            let o = n(1) % l;
            let e = (o + n(2)).min(l);
            for x in &mut msg[o..e] {
                *x = n(3) as u8;
            }
        }
        // an ERROR message instead: error:CODE:DATA:VERSION
        "error" => {
            let mut m = vec![if n(3) == 0 { 0x11 } else { n(3) as u8 }, 0x7F, n(1) as u8, n(2) as u8];
            match n(1) {
                // ResponseNotReady: delay exponent, request code, token, ...
                0x42 => m.extend([n(2) as u8, msg.get(1).map_or(0x83, |x| x | 0x80), 1, 1]),
                // ResponseTooLarge, LargeResponse
                0x0d => m.extend((n(2) as u32 * 300).to_le_bytes()),
                0x0f => m.push(n(2) as u8),
                _ => (),
            }
            *msg = m;
        }
        "field" => fields(msg, &mut r),
        // another kind of message
        "code" if msg.len() > 1 => msg[1] = n(1) as u8,
        _ => (),
    }
}

/// Fields that disagree with what the message holds, or agree on something unusual.
fn fields(msg: &mut Vec<u8>, r: &mut Rng) {
    let l = msg.len();
    let put = |m: &mut Vec<u8>, i: usize, v: usize| m[i..i + 2].copy_from_slice(&(v as u16).to_le_bytes());
    match msg.get(1) {
        // CERTIFICATE: portion and remainder, with and without the bytes
        Some(2) if l >= 8 => {
            let n = l - 8;
            let p = match r.below(6) {
                0 | 1 => 0,
                2 => n,
                3 => n / 2,
                4 => n.saturating_sub(1 + r.below(3) as usize),
                _ => r.below(n as u64 + 3) as usize,
            };
            put(msg, 4, p);
            let rest = *r.pick(&[0usize, 1, 0xffff, n, n.saturating_sub(p), n.saturating_sub(p)]);
            put(msg, 6, rest);
            if r.pct(70) {
                msg.truncate(8 + p);
            }
            if r.pct(25) && msg.len() > 10 {
                // the chain's own length follows
                put(msg, 8, p);
            }
        }
        // DIGESTS: another mask, with or without the digests
        Some(1) if l >= 4 => {
            msg[3] = *r.pick(&[0u8, 1, 2, 3, 0x80, 0x81, 0xff, 0xfe]);
            match r.below(4) {
                0 => msg.truncate(4),
                1 => msg.resize(4 + msg[3].count_ones() as usize * *r.pick(&[32usize, 48, 64]), 0),
                _ => (),
            }
        }
        // CHALLENGE_AUTH: slot, mask, size of the opaque data
        Some(3) if l >= 4 => match r.below(6) {
            // or the opaque data itself, beyond what the configuration allows
            4 | 5 => {
                for d in [32usize, 48, 64] {
                    let i = 36 + 2 * d;
                    if l >= i + 66 && usize::from(u16::from_le_bytes([msg[i], msg[i + 1]])) + i + 66 == l {
                        let o = wild_opaque(r);
                        let n = if r.pct(70) { o.len() } else { *r.pick(&[0usize, 1, 4, 1024, 1025, 0xffff]) };
                        put(msg, i, n);
                        msg.splice(i + 2..l - 64, o);
                        break;
                    }
                }
            }
            0 => msg[2] ^= *r.pick(&[0x80u8, 0x40, 0x10, 1, 0x0f]),
            1 => msg[3] = *r.pick(&[0u8, 1, 2, 0xfe, 0xff]),
            _ => {
                let i = 4 + *r.pick(&[96usize, 128, 160]);
                if l > i + 1 {
                    let v = *r.pick(&[0usize, 1, 2, 3, 4, 5, 8, 1023, 1024, 1025, 0xffff]);
                    put(msg, i, v);
                }
            }
        },
        // VERSION: fewer or more entries than announced
        Some(4) if l >= 6 => {
            msg[5] = r.below(5) as u8;
            match r.below(3) {
                0 => msg.truncate(6 + 2 * msg[5] as usize),
                1 => msg.resize(6 + 2 * msg[5] as usize, *r.pick(&[0u8, 0x11, 0x10])),
                _ => (),
            }
        }
        // GET_CERTIFICATE
        Some(0x82) if l >= 8 => {
            let (o, n) = (*r.pick(&[0usize, 1, 4, 36, 0xffff]), *r.pick(&[0usize, 1, 4, 255, 256, 0xffff]));
            put(msg, 4, o);
            put(msg, 6, n);
        }
        Some(0x83) if l >= 4 => {
            msg[2] = *r.pick(&[0u8, 1, 7, 8, 0x0f, 0x10, 0x80, 0xff]);
            msg[3] = *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xfe, 0xff]);
        }
        _ => {
            let n = l.max(1) as u64;
            if l > 0 {
                msg[r.below(n) as usize] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
            }
        }
    }
}

/// Opaque data about, and beyond, the limits of the configuration.
fn wild_opaque(r: &mut Rng) -> Vec<u8> {
    let n = if r.pct(60) { OPQ_N + 1 + r.below(3) as usize } else { r.below(OPQ_N as u64 + 3) as usize };
    let mut e = vec![n as u8, 0, 0, 0];
    if r.pct(10) {
        e[0] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
    }
    for _ in 0..n {
        let most = if r.pct(90) { 9 } else { 12 };
        let reg = r.below(most) as u8;
        let mut vl = match reg {
            0 => 0,
            4 | 5 => 4,
            _ => 2,
        };
        if r.pct(5) {
            vl = *r.pick(&[0, 1, 2, 3, 4, 5, 8, 255]);
        }
        let dl = match r.below(8) {
            0 => OPQ_SIZE,
            1 => OPQ_SIZE + 1 + r.below(4) as usize,
            2 => OPQ_SIZE.saturating_sub(1),
            _ => r.below(OPQ_SIZE as u64 + 1) as usize,
        };
        e.extend([reg, vl as u8]);
        e.extend(r.bytes(vl));
        e.extend((if r.pct(95) { dl } else { *r.pick(&[0xffff, 0xfffb, 0x8000]) } as u16).to_le_bytes());
        e.extend(r.bytes(dl));
        while e.len() % 4 != 0 {
            e.push(0);
        }
    }
    e
}

/// The request and response codes of SPDM 1.0 to 1.2.
const CODES: &[u64] = &[
    0x01, 0x02, 0x03, 0x04, 0x60, 0x61, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6f, 0x7e, 0x7f,
    0x81, 0x82, 0x83, 0x84, 0xe0, 0xe1, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xeb, 0xec, 0xed, 0xef, 0xfe, 0xff,
];

/// The error codes of SPDM 1.0 to 1.2, and what is none.
const ERRORS: &[u64] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0x41, 0x41, 0x42, 0x42, 0x42, 0x43, 0x44, 0xfe, 0xff,
];

pub fn error_mutation(r: &mut Rng) -> String {
    let e = *r.pick(ERRORS);
    let v = if r.pct(85) { 0x11 } else { *r.pick(&[0x10u64, 0x12, 0]) };
    format!("error:{}:{}:{}", e, if r.pct(60) { 0 } else { r.below(256) }, v)
}

pub fn random_mutation(r: &mut Rng) -> String {
    match r.below(18) {
        14 => error_mutation(r),
        16 | 17 => format!("field:{}", r.below(1000)),
        15 => format!("code:{}", r.pick(CODES)),
        0..=3 => {
            // mostly near the front, where the structure is
            let b = if r.pct(60) { r.below(64 * 8) } else { r.below(65536) };
            format!("flip:{}", b)
        }
        4 | 5 => {
            let v = *r.pick(&[0u64, 1, 2, 3, 4, 5, 7, 8, 0x0f, 0x10, 0x11, 0x12, 0x30, 0x7f, 0x80, 0x81, 0x82, 0xfe, 0xff]);
            let most = if r.pct(70) { 48 } else { 2000 };
            format!("set:{}:{}", r.below(most), v)
        }
        6 => {
            let v = *r.pick(&[0u64, 1, 4, 255, 256, 1023, 1024, 1025, 2048, 32767, 65535]);
            let most = if r.pct(70) { 48 } else { 2000 };
            format!("u16:{}:{}", r.below(most), v)
        }
        7 | 8 => {
            let n = if r.pct(60) { r.below(48) } else { r.below(2000) };
            format!("trunc:{}", n)
        }
        9 => format!("ext:{}", 1 + r.below(70)),
        10 => format!("zext:{}", 1 + r.below(20)),
        11 => format!("cut:{}:{}", r.below(1200), 1 + r.below(40)),
        12 => format!("ins:{}:{}", r.below(1200), 1 + r.below(40)),
        _ => format!("fill:{}:{}:{}", r.below(1200), 1 + r.below(80), r.pick(&[0u64, 255, 0x30, 0x82])),
    }
}

// --------------------------------------------------- reference responder

pub const IMPOSTURES: &[&str] = &[
    "wrongkey",
    "zerosig",
    "garbsig",
    "rzero",
    "szero",
    "signtr",
    "oldtr",
    "notr",
    "novca",
    "othernonce",
    "cached",
    "digest",
    "slot",
    "mask",
    "chainswap",
    "otherhash",
    "lateswap",
    "shortsig",
    "highsig",
];

pub struct RefDev {
    pub seed: u64,
    pub chain: &'static Chain,
    /// another party's valid chain, whose key this peer does not hold
    pub victim: &'static Chain,
    pub imp: String,
    pub sessions: u64,
    pub tr: Vec<u8>,
    pub host_caps: u32,
    pub my_caps: u32,
    pub hash: u32,
    pub ph: u8,
    last_sig: Vec<u8>,
    /// fixed choices that scripts may force
    pub plain: bool,
    pub force_caps: Option<u32>,
    /// CHALLENGE_AUTH without a summary nobody asked for
    pub strict: bool,
}

impl RefDev {
    pub fn new(seed: u64, chain: &'static Chain, victim: &'static Chain, imp: &str) -> RefDev {
        RefDev {
            seed,
            chain,
            victim,
            imp: imp.into(),
            sessions: 0,
            tr: vec![],
            host_caps: 0,
            my_caps: 0,
            hash: 1,
            ph: 0,
            last_sig: vec![],
            plain: false,
            force_caps: None,
            strict: false,
        }
    }
    fn rng(&self, s: &str) -> Rng {
        Rng::new(&[self.seed, tag(s), self.sessions])
    }

    pub fn version(&self) -> Vec<u8> {
        let mut r = self.rng("version");
        let v: &[u16] = match if self.plain { 0 } else { r.below(7) } {
            0 | 1 => &[0x1000, 0x1100],
            2 => &[0x1100],
            3 => &[0x1100, 0x1000],
            4 => &[0x1100, 0x1200],
            5 => &[0x1200, 0x1100],
            _ => &[0x1300, 0x1100],
        };
        let mut e = vec![0x10, 4, 0, 0, 0, v.len() as u8];
        for x in v {
            e.extend(x.to_le_bytes());
        }
        e
    }
    pub fn capabilities(&self) -> Vec<u8> {
        let mut r = self.rng("caps");
        let mut f = match r.below(5) {
            0 => CERT | CHAL,
            1 => caps(),
            2 => CERT | CHAL | MUT,
            _ => r.u64() as u32 & RSP_KNOWN,
        };
        if r.pct(80) {
            f |= CERT | CHAL;
        }
        if self.imp != "legit" || self.plain {
            f |= CERT | CHAL;
        }
        // measurement capability 11b and PSK 11b are reserved
        if f & 0x18 == 0x18 {
            f &= !0x10;
        }
        if f & 0xC00 == 0xC00 {
            f &= !0x800;
        }
        if let Some(x) = self.force_caps {
            f = x;
        }
        let mut e = vec![0x11, 0x61, 0, 0, 0, r.below(32) as u8, 0, 0];
        e.extend(f.to_le_bytes());
        e
    }
    pub fn algorithms(&self) -> Vec<u8> {
        let mut r = self.rng("alg");
        // the chain's root hash is of the negotiated kind
        let h: u32 = match self.chain.root_hash.len() {
            32 => 1,
            48 => 2,
            _ => 4,
        };
        let mh = loop {
            let b = 1u32 << r.below(3);
            if b & hashes() != 0 {
                break b;
            }
        };
        let mut s = vec![];
        for (t, bits) in OFFERED {
            if r.pct(75) {
                let b = loop {
                    let b = 1u16 << r.below(16);
                    if b & bits != 0 {
                        break b;
                    }
                };
                s.push((*t, b));
            }
        }
        let mut e = vec![0x11, 0x63, s.len() as u8, 0, 0, 0, 1, 0];
        e.extend(mh.to_le_bytes());
        e.extend(0x10u32.to_le_bytes());
        e.extend(h.to_le_bytes());
        e.extend([0; 16]);
        put_structs(&mut e, &s, false, &mut r);
        let n = e.len() as u16;
        e[4..6].copy_from_slice(&n.to_le_bytes());
        e
    }
    fn shown(&self) -> &'static Chain {
        if self.imp == "chainswap" {
            self.victim
        } else {
            self.chain
        }
    }
    pub fn digests(&self) -> Vec<u8> {
        let mut r = self.rng("digests");
        let mask = if self.plain { 1 } else { 1 | if r.pct(60) { r.u64() as u8 } else { 0 } };
        let mut e = vec![0x11, 1, 0, mask];
        for i in 0..8 {
            if mask >> i & 1 == 1 {
                if i == 0 {
                    e.extend(crypt::hash(self.hash, &self.shown().bytes));
                } else {
                    e.extend(r.bytes(crypt::ds(self.hash)));
                }
            }
        }
        e
    }
    pub fn certificate(&self) -> Vec<u8> {
        let b = &self.shown().bytes;
        let mut e = vec![0x11, 2, 0, 0];
        e.extend((b.len() as u16).to_le_bytes());
        e.extend([0, 0]);
        e.extend_from_slice(b);
        e
    }
    pub fn opaque(&self) -> Vec<u8> {
        let mut r = self.rng("opaque");
        if r.pct(15) {
            return vec![];
        }
        let n = if self.plain { 0 } else { r.below(OPQ_N as u64 + 1) };
        let mut e = vec![0, 0, 0, 0];
        for _ in 0..n {
            let reg = r.below(9) as u8;
            let vl = match reg {
                0 => 0,
                4 | 5 => 4,
                _ => 2,
            };
            let mut dl = match r.below(4) {
                0 => 0,
                1 => OPQ_SIZE,
                _ => r.below(OPQ_SIZE as u64 + 1) as usize,
            };
            // all of it fits in 1024 bytes, sometimes exactly
            let room = 1024 - e.len();
            if room < 4 + vl {
                break;
            }
            if dl > room - 4 - vl {
                dl = room - 4 - vl;
            }
            e[0] += 1;
            e.extend([reg, vl as u8]);
            e.extend(r.bytes(vl));
            e.extend((dl as u16).to_le_bytes());
            e.extend(r.bytes(dl));
            while e.len() % 4 != 0 {
                e.push(0);
            }
        }
        e
    }
    /// CHALLENGE_AUTH for the transcript so far (which ends in CHALLENGE).
    pub fn auth(&mut self, challenge: &[u8]) -> Vec<u8> {
        let mut r = self.rng("auth");
        let d = crypt::ds(self.hash);
        let mutual = self.my_caps & caps() & MUT != 0 && r.pct(50);
        let mut p1 = if mutual { 0x80 } else { 0 };
        let mut mask = 1 | if self.plain { 0 } else { r.u64() as u8 };
        let mut dig = crypt::hash(self.hash, &self.chain.bytes);
        match &self.imp[..] {
            "digest" => match r.below(12) {
                0 | 1 => dig.fill(0),
                2 => dig.fill(0xff),
                3 => dig = crypt::hash(self.hash, &[]),
                4 => dig = crypt::hash(self.hash, &self.chain.leaf),
                5 => dig = crypt::hash(self.hash, &self.chain.bytes[4..]),
                6 => dig[1 + r.below(d as u64 - 1) as usize..].fill(0),
                7 => dig[..d - 1 - r.below(d as u64 - 1) as usize].fill(0),
                _ => {
                    let i = r.below(d as u64) as usize;
                    dig[i] ^= 1 << r.below(8);
                }
            },
            "slot" => p1 |= 1 + r.below(15) as u8,
            "mask" => mask = if r.pct(30) { 0 } else { mask & !1 },
            "lateswap" => dig = crypt::hash(self.hash, &self.victim.bytes),
            _ => (),
        }
        if self.imp == "digest" && dig == crypt::hash(self.hash, &self.chain.bytes) {
            dig[0] ^= 1;
        }
        let mut e = vec![0x11, 3, p1, mask];
        e.extend(dig);
        e.extend(r.bytes(32));
        let summary = if r.pct(50) { vec![0; d] } else { r.bytes(d) };
        if !self.strict {
            e.extend(summary);
        }
        let o = self.opaque();
        e.extend((o.len() as u16).to_le_bytes());
        e.extend(o);
        let mut m = self.tr.clone();
        match &self.imp[..] {
            "oldtr" => {
                m.truncate(m.len().saturating_sub(challenge.len()));
            }
            "notr" => m.clear(),
            "novca" => {
                // skips the version exchange
                let cut = 12.min(m.len());
                m.drain(..cut);
            }
            "othernonce" => {
                let n = m.len();
                if n >= 32 {
                    m[n - 1 - r.below(32) as usize] ^= 1;
                }
            }
            _ => (),
        }
        m.extend_from_slice(&e);
        let h = if self.imp == "otherhash" {
            crypt::hash(if self.hash == 1 { 2 } else { 1 }, &m)
        } else {
            crypt::hash(self.hash, &m)
        };
        let k = match &self.imp[..] {
            "wrongkey" => 900,
            _ => self.chain.key,
        };
        let sign = |msg: &[u8]| {
            sys::ambient(&[self.seed, self.sessions, 0x5167]);
            let s = pki::sign_with(k, msg);
            signed_elsewhere(k, msg);
            s
        };
        let mut sig = match &self.imp[..] {
            "zerosig" => vec![0; 64],
            "highsig" => vec![0xff; 64],
            "garbsig" => r.bytes(64),
            "signtr" => sign(&m),
            "cached" if !self.last_sig.is_empty() => self.last_sig.clone(),
            "chainswap" => {
                // the key of the chain it showed is out of reach
                sys::ambient(&[self.seed, self.sessions, 0x5168]);
                signed_elsewhere(self.chain.key, &h);
                pki::sign_with(self.chain.key, &h)
            }
            _ => sign(&h),
        };
        match &self.imp[..] {
            "rzero" => sig[..32].fill(0),
            "szero" => sig[32..].fill(0),
            "shortsig" => {
                sig.pop();
            }
            _ => (),
        }
        self.last_sig = sig.clone();
        e.extend(sig);
        e
    }

    /// Selections no conforming responder makes.
    pub fn bad_algorithms(&self, kind: &str, m: &mut Vec<u8>, k: u64) {
        if m.len() < 36 || m[1] != 0x63 {
            return;
        }
        let mut r = Rng::new(&[k, tag(kind)]);
        let n = m[2] as usize;
        let put = |m: &mut Vec<u8>, i: usize, v: u32| m[i..i + 4].copy_from_slice(&v.to_le_bytes());
        // two bits, an undefined or an unoffered bit, none
        let sel = |r: &mut Rng, off: u32, known: u32| match r.below(4) {
            0 => 0,
            1 => {
                let one = 1u32 << r.below(9);
                (off & off.wrapping_neg()) | (one & known) | if off.count_ones() > 1 { off } else { 1 << 8 & known | 2 & known }
            }
            2 => loop {
                let b = 1u32 << r.below(9);
                if b & known != 0 && b & off == 0 {
                    break b;
                }
            },
            _ => known,
        };
        match kind {
            "spec" => m[6] = *r.pick(&[2u8, 3, 4, 0x80, 0xff]),
            "mhash" => {
                let v = match r.below(3) {
                    0 => 3,
                    1 => 8 << r.below(3),
                    _ => 0x3F,
                };
                put(m, 8, v);
            }
            "asym" => {
                let v = sel(&mut r, 0x10, ASYM_KNOWN);
                put(m, 12, v);
            }
            "hash" => {
                let v = sel(&mut r, hashes(), HASH_KNOWN);
                put(m, 16, v);
            }
            "struct" if n > 0 => {
                let i = 36 + 4 * r.below(n as u64) as usize;
                if m.len() < i + 4 {
                    return;
                }
                let t = m[i];
                let known = [0x3Fu32, 7, 0x1FF, 1][(t as usize).saturating_sub(2).min(3)];
                let off = OFFERED.iter().find(|o| o.0 == t).map_or(0, |o| o.1 as u32);
                let v = if known == 1 { 0 } else { sel(&mut r, off, known) };
                m[i + 2..i + 4].copy_from_slice(&(v as u16).to_le_bytes());
            }
            "type" if n > 0 => {
                let i = 36 + 4 * r.below(n as u64) as usize;
                if m.len() > i {
                    m[i] = *r.pick(&[0u8, 1, 6, 7, 0xff]);
                }
            }
            "count" if n > 0 => {
                let i = 37 + 4 * r.below(n as u64) as usize;
                if m.len() > i {
                    m[i] = *r.pick(&[0u8, 0x10, 0x30, 0x40, 0xf0, 0x2f]);
                }
            }
            // one structure twice, of which one selects what was not offered
            "twice" if n > 0 => {
                let i = 36 + 4 * r.below(n as u64) as usize;
                if m.len() < i + 4 {
                    return;
                }
                let mut x = m[i..i + 4].to_vec();
                let t = x[0];
                let known = [0x3Fu32, 7, 0x1FF, 1][(t as usize).saturating_sub(2).min(3)];
                let off = OFFERED.iter().find(|o| o.0 == t).map_or(0, |o| o.1 as u32);
                let v = if known == 1 { 0 } else { sel(&mut r, off, known) };
                x[2..4].copy_from_slice(&(v as u16).to_le_bytes());
                let j = if r.pct(70) { m.len() } else { 36 + 4 * r.below(n as u64) as usize };
                for (o, b) in x.into_iter().enumerate() {
                    m.insert(j.min(m.len() - o) + o, b);
                }
                // in the place of another, or one more
                if n == 4 {
                    let o = if j > 36 { 36 } else { m.len() - 4 };
                    m.drain(o..o + 4);
                } else {
                    m[2] += 1;
                }
                let n = m.len() as u16;
                m[4..6].copy_from_slice(&n.to_le_bytes());
            }
            "more" => {
                for _ in 0..r.range(1, 5) {
                    let (t, off) = *r.pick(OFFERED);
                    let b = loop {
                        let b = 1u16 << r.below(16);
                        if b & off != 0 {
                            break b;
                        }
                    };
                    m.extend([t, 0x20]);
                    m.extend(b.to_le_bytes());
                    m[2] += 1;
                }
                let n = m.len() as u16;
                m[4..6].copy_from_slice(&n.to_le_bytes());
            }
            "n" => m[2] = *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 0x80, 0xff]),
            "ext" => {
                m[32] = r.below(3) as u8;
                m[33] = r.below(3) as u8;
            }
            _ => (),
        }
    }

    pub fn error(code: u8) -> Vec<u8> {
        vec![0x11, 0x7F, code, 0]
    }

    /// The response of type `code` this peer would give now, whatever was asked.
    pub fn make(&mut self, code: u8, req: &[u8]) -> Vec<u8> {
        match code {
            4 => self.version(),
            0x61 => self.capabilities(),
            0x63 => self.algorithms(),
            1 => self.digests(),
            2 => self.certificate(),
            3 => self.auth(req),
            _ => RefDev::error(4),
        }
    }

    pub fn handle(&mut self, req: &[u8]) -> Vec<u8> {
        if req.len() < 4 {
            self.ph = 9;
            return RefDev::error(1);
        }
        let (want, code) = match req[1] {
            0x84 if req[0] == 0x10 => {
                self.sessions += 1;
                self.tr.clear();
                (true, 4)
            }
            0xE1 => (self.ph == 1 && req.len() == 12, 0x61),
            0xE3 => (self.ph == 2 && req.len() >= 32, 0x63),
            0x81 => (self.ph == 3, 1),
            0x82 => (self.ph == 3 && req.len() == 8 && req[2] == 0, 2),
            0x83 => (self.ph == 4 && req.len() == 36 && req[2] == 0, 3),
            _ => (false, 0),
        };
        if !want {
            self.ph = 9;
            return RefDev::error(4);
        }
        self.tr.extend_from_slice(req);
        let out = self.make(code, req);
        match code {
            4 => self.ph = 1,
            0x61 => {
                self.host_caps = u32le(req, 8);
                self.my_caps = u32le(&out, 8);
                self.ph = 2;
            }
            0x63 => {
                self.hash = u32le(&out, 16);
                self.ph = 3;
            }
            2 => self.ph = 4,
            _ => (),
        }
        // Following sessions, the signature is not part of the transcript.
        let n = if code == 3 { out.len().saturating_sub(SIG) } else { out.len() };
        self.tr.extend_from_slice(&out[..n]);
        out
    }
}

