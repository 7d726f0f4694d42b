//! Real endpoints of the library under the simulator: every call goes through
//! the seams of `sys` and is judged by the models.

use crate::crypt;
use crate::exposed::{self, Exposed};
use crate::model::*;
use crate::pair;
use crate::pki::{self, Chain, Trust};
use crate::rng::{key, tag, Fnv, Rng};
use crate::sys::{self, EntFault};
use spdm::crypto::signing::{Error as SignError, Signature, Signer};
use spdm::crypto::FilledSlot;
use spdm::msgs::algorithms::{BaseAsymAlgo, BaseHashAlgo};
use spdm::msgs::CertificateChain;
use spdm::{RequesterError, RequesterInit, Responder};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};

// ------------------------------------------------------------- recorder

#[derive(Clone)]
pub struct Viol {
    pub tags: Tags,
    pub msg: String,
}

pub struct SignEv {
    pub seq: u64,
    pub key: u32,
    pub msg: Vec<u8>,
    pub used: bool,
}

#[derive(Default)]
pub struct Nonces {
    seen: HashSet<Vec<u8>>,
    and: Vec<u8>,
    or: Vec<u8>,
    n: u64,
}

#[derive(Default)]
pub struct Rec {
    pub seq: u64,
    pub quiet: u32,
    pub viol: Vec<Viol>,
    pub signs: Vec<SignEv>,
    pub nonces: [Nonces; 2],
    pub counts: BTreeMap<String, u64>,
    pub shape: u64,
    pub log: u64,
    pub verbose: bool,
    pub lines: Vec<String>,
}

thread_local! {
    static REC: RefCell<Rec> = RefCell::new(Rec::default());
    static SIGN: RefCell<SignCtl> = RefCell::new(SignCtl::default());
}

pub fn start(verbose: bool) {
    REC.with(|r| {
        *r.borrow_mut() = Rec {
            verbose,
            shape: Fnv::new().0,
            log: Fnv::new().0,
            ..Rec::default()
        }
    })
}
pub fn take() -> Rec {
    REC.with(|r| std::mem::take(&mut *r.borrow_mut()))
}
pub fn rec<T>(f: impl FnOnce(&mut Rec) -> T) -> T {
    REC.with(|r| f(&mut r.borrow_mut()))
}
pub fn count(k: &str) {
    rec(|r| {
        if r.quiet == 0 {
            *r.counts.entry(k.to_string()).or_insert(0) += 1
        }
    })
}
pub fn violation(tags: &[&'static str], msg: String) {
    rec(|r| {
        if r.quiet > 0 {
            return;
        }
        if r.verbose {
            let s = format!("!! {:?} {}", tags, msg);
            r.lines.push(s);
        }
        if r.viol.len() < 40 {
            r.viol.push(Viol { tags: tags.to_vec(), msg });
        }
    })
}
pub fn note(f: impl FnOnce() -> String) {
    rec(|r| {
        if r.verbose && r.quiet == 0 {
            let s = f();
            r.lines.push(s);
        }
    })
}
/// Enter one event into the exact log and the coarse trace shape.
fn event(shape: &str, exact: &[&[u8]]) {
    rec(|r| {
        if r.quiet > 0 {
            return;
        }
        r.seq += 1;
        let mut f = Fnv(r.shape);
        f.add(shape.as_bytes());
        r.shape = f.0;
        let mut f = Fnv(r.log);
        f.add(shape.as_bytes());
        for e in exact {
            f.add_u(e.len() as u64);
            f.add(e);
        }
        r.log = f.0;
    })
}
pub fn shape(s: &str) {
    event(s, &[]);
}

/// Which side emitted: 0 requester, 1 responder.
fn nonce(side: usize, n: &[u8], drawn: u32) {
    let bad = rec(|r| {
        if r.quiet > 0 {
            return None;
        }
        let dup = r.nonces.iter().any(|x| x.seen.contains(n));
        let x = &mut r.nonces[side];
        x.seen.insert(n.to_vec());
        if x.n == 0 {
            x.and = n.to_vec();
            x.or = n.to_vec();
        }
        for i in 0..n.len() {
            x.and[i] &= n[i];
            x.or[i] |= n[i];
        }
        x.n += 1;
        if dup {
            return Some("nonce used before");
        }
        if drawn < 32 {
            return Some("nonce without 32 fresh bytes of entropy");
        }
        if x.n == 64 && (x.and.iter().any(|b| *b != 0) || x.or.iter().any(|b| *b != 0xff)) {
            return Some("some nonce bits never change");
        }
        None
    });
    if let Some(b) = bad {
        violation(&["C03", "C13"], format!("{}: {}", b, hex(n)));
    }
}

// --------------------------------------------------------------- signer

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Plan {
    Ok,
    Err,
    Short,
    Long,
    Empty,
    /// only the first attempt within a call fails
    ErrOnce,
    ShortOnce,
    Garbage,
    Zero,
    ZeroR,
    ZeroS,
    /// ground until r (s) starts with a zero byte / a high bit
    R0,
    S0,
    RHigh,
    SHigh,
}
pub const PLANS: &[(&str, Plan)] = &[
    ("ok", Plan::Ok),
    ("err", Plan::Err),
    ("short", Plan::Short),
    ("long", Plan::Long),
    ("empty", Plan::Empty),
    ("erronce", Plan::ErrOnce),
    ("shortonce", Plan::ShortOnce),
    ("garbage", Plan::Garbage),
    ("zero", Plan::Zero),
    ("zeror", Plan::ZeroR),
    ("zeros", Plan::ZeroS),
    ("r0", Plan::R0),
    ("s0", Plan::S0),
    ("rhigh", Plan::RHigh),
    ("shigh", Plan::SHigh),
];
pub fn plan(s: &str) -> Plan {
    PLANS.iter().find(|p| p.0 == s).map_or(Plan::Ok, |p| p.1)
}
impl Plan {
    pub fn fails(self) -> bool {
        matches!(
            self,
            Plan::Err | Plan::Short | Plan::Long | Plan::Empty | Plan::ErrOnce | Plan::ShortOnce
        )
    }
    /// the signature handed out is not a signature
    pub fn bogus(self) -> bool {
        matches!(self, Plan::Garbage | Plan::Zero | Plan::ZeroR | Plan::ZeroS)
    }
}

#[derive(Default)]
struct SignCtl {
    plan: Option<Plan>,
    ekey: u64,
    calls: u64,
    done: Vec<(Signed, u32)>,
}

pub struct SimSig {
    buf: [u8; 96],
    len: usize,
}
impl AsRef<[u8]> for SimSig {
    fn as_ref(&self) -> &[u8] {
        &self.buf[..self.len]
    }
}
impl Signature for SimSig {}
impl SimSig {
    fn of(b: &[u8]) -> SimSig {
        let mut buf = [0; 96];
        buf[..b.len()].copy_from_slice(b);
        SimSig { buf, len: b.len() }
    }
}

pub struct SimSigner {
    slot: u8,
    key: u32,
    #[cfg(feature = "crypto")]
    ring: spdm::crypto::ring::signing::RingSigner,
}

impl SimSigner {
    pub fn new(slot: u8, key: u32) -> SimSigner {
        // made first, if it is new: ring draws there as well
        pki::get_key(key);
        // ring draws a secret of its own here; twins share it
        sys::ambient(&[0x519e, slot as u64, key as u64]);
        SimSigner {
            slot,
            key,
            #[cfg(feature = "crypto")]
            ring: spdm::crypto::ring::signing::new_signer(
                BaseAsymAlgo::ECDSA_ECC_NIST_P256,
                &pki::get_key(key).pkcs8,
            )
            .expect("signer"),
        }
    }
    #[cfg(feature = "crypto")]
    fn real(&self, msg: &[u8]) -> Option<SimSig> {
        self.ring.sign(msg).ok().map(|s| SimSig::of(s.as_ref()))
    }
    #[cfg(not(feature = "crypto"))]
    fn real(&self, msg: &[u8]) -> Option<SimSig> {
        Some(SimSig::of(&sys::outside(|| pki::sign_with(self.key, msg))))
    }
    fn grind(&self, msg: &[u8], p: Plan, k: u64) -> Option<SimSig> {
        for i in 0..4000u64 {
            let s = sys::outside_with_entropy(key(&[k, i]), || pki::sign_with(self.key, msg));
            let hit = match p {
                Plan::R0 => s[0] == 0,
                Plan::S0 => s[32] == 0,
                Plan::RHigh => s[0] >= 0x80,
                _ => s[32] >= 0x80,
            };
            if hit {
                return Some(SimSig::of(&s));
            }
        }
        None
    }
}

impl Signer for SimSigner {
    type Signature = SimSig;
    fn sign(&self, msg: &[u8]) -> Result<SimSig, SignError> {
        pair::seam();
        pair::step(false);
        let (p, k) = SIGN.with(|s| {
            let mut s = s.borrow_mut();
            s.calls += 1;
            let p = match s.plan.unwrap_or(Plan::Ok) {
                Plan::ErrOnce if s.done.is_empty() => Plan::Err,
                Plan::ShortOnce if s.done.is_empty() => Plan::Short,
                Plan::ErrOnce | Plan::ShortOnce => Plan::Ok,
                p => p,
            };
            (p, key(&[s.ekey, s.calls]))
        });
        let out = match p {
            Plan::Ok => self.real(msg),
            Plan::Err | Plan::ErrOnce | Plan::ShortOnce => None,
            Plan::R0 | Plan::S0 | Plan::RHigh | Plan::SHigh => self.grind(msg, p, k),
            Plan::Short => self.real(msg).map(|s| SimSig { len: 63, ..s }),
            Plan::Long => self.real(msg).map(|s| SimSig { len: 65, ..s }),
            Plan::Empty => Some(SimSig { buf: [0; 96], len: 0 }),
            Plan::Garbage => {
                let mut b = [0u8; 96];
                let mut r = Rng::new(&[k, 7]);
                for x in b.iter_mut() {
                    *x = r.u64() as u8;
                }
                Some(SimSig { buf: b, len: 64 })
            }
            Plan::Zero => Some(SimSig { buf: [0; 96], len: 64 }),
            Plan::ZeroR | Plan::ZeroS => self.real(msg).map(|mut s| {
                let o = if p == Plan::ZeroR { 0 } else { 32 };
                s.buf[o..o + 32].fill(0);
                s
            }),
        };
        sys::outside(|| {
            SIGN.with(|s| {
                s.borrow_mut().done.push((
                    Signed {
                        slot: self.slot,
                        msg: msg.to_vec(),
                        sig: out.as_ref().map(|x| x.as_ref().to_vec()),
                    },
                    self.key,
                ));
            })
        });
        pair::step(true);
        out.ok_or(SignError {})
    }
}

/// A reference device (or an impostor) signed something.
pub fn signed_elsewhere(k: u32, msg: &[u8]) {
    rec(|r| {
        r.seq += 1;
        let seq = r.seq;
        r.signs.push(SignEv { seq, key: k, msg: msg.to_vec(), used: false });
    })
}

// ---------------------------------------------------------------- slots

pub type Slots = Vec<Option<&'static Chain>>;

pub fn build_slots(s: &Slots) -> [Option<FilledSlot<'static, SimSigner>>; N] {
    std::array::from_fn(|i| {
        s.get(i).copied().flatten().map(|c| {
            let mut cc = CertificateChain::new(&c.root_hash, &c.leaf);
            for x in &c.inters {
                cc.append_intermediate_cert(x).expect("depth");
            }
            FilledSlot {
                signing_algorithm: BaseAsymAlgo::ECDSA_ECC_NIST_P256,
                hash_algorithm: BaseHashAlgo::SHA_256,
                cert_chain: cc,
                signer: SimSigner::new(i as u8, c.key),
            }
        })
    })
}

/// Are the slots an endpoint reports the ones it was given?
fn slots_kept(have: &[Option<FilledSlot<'static, SimSigner>>; N], want: &Slots) -> Option<String> {
    for (i, h) in have.iter().enumerate() {
        let w = want.get(i).copied().flatten();
        let same = match (h, w) {
            (None, None) => true,
            (Some(h), Some(w)) => {
                h.signing_algorithm == BaseAsymAlgo::ECDSA_ECC_NIST_P256
                    && h.hash_algorithm == BaseHashAlgo::SHA_256
                    && h.cert_chain.root_hash == &w.root_hash[..]
                    && h.cert_chain.leaf_cert == &w.leaf[..]
                    && h.cert_chain.intermediate_certs().len() == w.inters.len()
                    && h.cert_chain.intermediate_certs().iter().zip(&w.inters).all(|(a, b)| *a == &b[..])
            }
            _ => false,
        };
        if !same {
            return Some(format!("slot {} is not what was provisioned", i));
        }
    }
    None
}

// ------------------------------------------------------------ responder

#[derive(Clone, Debug)]
pub struct Opt {
    pub len: usize,
    pub ents: Vec<EntFault>,
    pub plan: Plan,
    pub ekey: u64,
}

/// Everything observable about one call.
#[derive(Clone, PartialEq, Debug)]
pub struct Seen {
    pub out: Vec<u8>,
    pub res: String,
    pub state: String,
    pub tr: Vec<u8>,
    /// digest of the exposed state
    pub exp: u64,
}

pub struct RawDev {
    pub r: Option<Responder<'static, SimSigner>>,
    pub slots: Slots,
}

pub struct RawOut {
    pub panic: Option<String>,
    pub ok: bool,
    pub seen: Seen,
    pub allocs: u64,
    pub ent: sys::EntStat,
    pub signs: Vec<(Signed, u32)>,
    pub outside: bool,
    pub exp: Exposed,
    pub slots: Option<String>,
}

const CANARY: u8 = 0xC7;
const EDGE: usize = 16;

impl RawDev {
    pub fn new(slots: &Slots, ekey: u64) -> (RawDev, RawOut) {
        let built = build_slots(slots);
        let o = sys::call(ekey, &[], || Responder::new(built));
        let mut raw = RawOut {
            panic: None,
            ok: true,
            seen: Seen { out: vec![], res: String::new(), state: String::new(), tr: vec![], exp: 0 },
            allocs: o.allocs,
            ent: o.ent,
            signs: vec![],
            outside: false,
            exp: vec![],
            slots: None,
        };
        match o.r {
            Ok(r) => {
                raw.slots = slots_kept(r.slots(), slots);
                raw.seen.state = r.state().name().into();
                raw.seen.tr = r.transcript().get().to_vec();
                (RawDev { r: Some(r), slots: slots.clone() }, raw)
            }
            Err(e) => {
                raw.panic = Some(e);
                (RawDev { r: None, slots: slots.clone() }, raw)
            }
        }
    }

    pub fn call(&mut self, req: &[u8], opt: &Opt) -> RawOut {
        let mut buf = vec![CANARY; EDGE + opt.len + EDGE];
        // Whatever the library leaves untouched must not look like zeros.
        for (i, b) in buf.iter_mut().enumerate() {
            if i >= EDGE && i < EDGE + opt.len {
                *b = 0xA5 ^ i as u8;
            }
        }
        SIGN.with(|s| {
            let mut s = s.borrow_mut();
            s.plan = Some(opt.plan);
            s.ekey = key(&[opt.ekey, 0x51]);
            s.calls = 0;
            s.done.clear();
        });
        let r = self.r.as_mut().expect("live responder");
        let rsp = &mut buf[EDGE..EDGE + opt.len];
        let base = rsp.as_ptr() as usize;
        let o = sys::call(opt.ekey, &opt.ents, || {
            let (out, res) = r.handle_msg(req, rsp);
            (out.as_ptr() as usize, out.len(), res)
        });
        let signs = SIGN.with(|s| std::mem::take(&mut s.borrow_mut().done));
        let mut raw = RawOut {
            panic: None,
            ok: false,
            seen: Seen { out: vec![], res: String::new(), state: String::new(), tr: vec![], exp: 0 },
            allocs: o.allocs,
            ent: o.ent,
            signs,
            outside: false,
            exp: vec![],
            slots: None,
        };
        match o.r {
            Err(e) => {
                raw.panic = Some(e);
                self.r = None;
            }
            Ok((p, n, res)) => {
                raw.ok = res.is_ok();
                raw.seen.res = format!("{:?}", res);
                let off = p.wrapping_sub(base);
                if n > 0 && off.saturating_add(n) > opt.len {
                    raw.outside = true;
                } else if n > 0 {
                    raw.seen.out = buf[EDGE + off..EDGE + off + n].to_vec();
                }
                let r = self.r.as_ref().unwrap();
                raw.seen.state = r.state().name().into();
                raw.seen.tr = r.transcript().get().to_vec();
                raw.exp = exposed::dev(r.state());
                raw.seen.exp = exposed::digest(&raw.exp);
                raw.slots = slots_kept(r.slots(), &self.slots);
            }
        }
        if buf[..EDGE].iter().chain(&buf[EDGE + opt.len..]).any(|b| *b != CANARY) {
            raw.outside = true;
        }
        raw
    }
}

#[derive(Clone)]
pub enum DevLog {
    New(u64),
    Reset,
    Msg(Vec<u8>, Opt, Seen),
}

/// A twin follows the real responder from its last reset on.
struct Twin {
    dev: RawDev,
    why: &'static str,
}

pub struct RealDev {
    pub name: String,
    pub seed: u64,
    pub inc: u32,
    pub calls: u32,
    pub slots: Slots,
    pub raw: Option<RawDev>,
    pub model: DevModel,
    pub log: Option<Vec<DevLog>>,
    /// the last nonce given out: entry of the log, place in the message
    pub nonce_at: Option<(usize, usize)>,
    pub twins: bool,
    twin: Option<Twin>,
    pub alive: bool,
    /// the last call ran into a resource limit
    pub short: bool,
}

pub struct DevOut {
    pub out: Vec<u8>,
    pub ok: bool,
    pub crashed: bool,
}

impl RealDev {
    pub fn new(name: &str, seed: u64, slots: &Slots) -> RealDev {
        let infos = (0..N)
            .map(|i| {
                slots.get(i).copied().flatten().map(|c| SlotInfo {
                    bytes: c.bytes.clone(),
                })
            })
            .collect();
        let mut d = RealDev {
            name: name.into(),
            seed,
            inc: 0,
            calls: 0,
            slots: slots.clone(),
            raw: None,
            model: DevModel::new(infos),
            log: None,
            nonce_at: None,
            twins: false,
            twin: None,
            alive: false,
            short: false,
        };
        d.boot();
        d
    }
    pub fn ekey(&self) -> u64 {
        key(&[self.seed, tag(&self.name), self.inc as u64, self.calls as u64])
    }
    /// Start (again) from nothing but the durable slots.
    pub fn boot(&mut self) {
        self.inc += 1;
        let k = self.ekey();
        let (dev, o) = RawDev::new(&self.slots, k);
        if let Some(l) = self.log.as_mut() {
            l.push(DevLog::New(k));
        }
        if let Some(p) = &o.panic {
            violation(&["C07"], format!("{} Responder::new: {}", self.name, p));
        }
        if o.allocs > 0 {
            violation(&["C12"], format!("{} Responder::new: {} heap allocations", self.name, o.allocs));
        }
        if !o.seen.tr.is_empty() {
            violation(&["C05", "C10"], "a new responder has a transcript".into());
        }
        self.alive = dev.r.is_some();
        self.raw = Some(dev);
        self.model.reset();
        self.twin = None;
        event("dev boot", &[self.name.as_bytes()]);
    }
    pub fn start_log(&mut self) {
        // the log starts with the boot that already happened
        let k = self.ekey();
        self.log = Some(vec![DevLog::New(k)]);
    }
    pub fn reset(&mut self) {
        if !self.alive {
            self.boot();
            return;
        }
        let r = self.raw.as_mut().unwrap().r.as_mut().unwrap();
        let o = sys::call(key(&[self.seed, 0x7e5e7]), &[], || r.reset());
        if let Some(l) = self.log.as_mut() {
            l.push(DevLog::Reset);
        }
        if let Err(p) = o.r {
            violation(&["C07", "C10"], format!("{} reset: {}", self.name, p));
            self.boot();
            return;
        }
        if o.allocs > 0 {
            violation(&["C12"], format!("{} reset: {} heap allocations", self.name, o.allocs));
        }
        let r = self.raw.as_ref().unwrap().r.as_ref().unwrap();
        if r.transcript().get().len() != 0 {
            violation(&["C10", "C05"], "transcript not empty after reset".into());
        }
        if r.state().name() != "Version" {
            violation(&["C10"], format!("state {} after reset", r.state().name()));
        }
        count("dev reset");
        event("dev reset", &[self.name.as_bytes()]);
        self.model.reset();
        self.twin = None;
        if self.twins {
            self.twin = Some(Twin { dev: RawDev::new(&self.slots, 1).0, why: "reset" });
        }
    }
    /// Smallest response buffer with which the model accepts `req`.
    pub fn need(&self, req: &[u8]) -> usize {
        let hi = BUF + 4096;
        if self.model.want(req, hi).rule == Rule::Reject {
            return 8;
        }
        let (mut a, mut b) = (0, hi);
        while a < b {
            let m = (a + b) / 2;
            if self.model.want(req, m).rule == Rule::Reject {
                a = m + 1;
            } else {
                b = m;
            }
        }
        a
    }

    pub fn handle(&mut self, req: &[u8], opt: &Opt) -> DevOut {
        self.calls += 1;
        let mut opt = opt.clone();
        if opt.ekey == 0 {
            opt.ekey = self.ekey();
        }
        let before = self.model.clone();
        let mut w = self.model.want(req, opt.len);
        let challenge = w.rule != Rule::Reject && req.len() > 1 && req[1] == 0x83;
        if challenge && opt.plan.fails() {
            w.rule = Rule::Reject;
            w.why = "the signer fails";
            w.tags = vec!["C13"];
            w.resource = true;
        }
        self.short = w.resource;
        let live_get_version =
            w.why == "GET_VERSION" && w.rule == Rule::Accept && before.ph != Ph::Dead;
        if self.twins && live_get_version && self.twin.is_none() {
            self.twin = Some(Twin { dev: RawDev::new(&self.slots, 1).0, why: "GET_VERSION" });
        }
        let raw = self.raw.as_mut().unwrap();
        let o = raw.call(req, &opt);
        for (i, n) in o.ent.injected.iter().enumerate() {
            for _ in 0..*n {
                count(["entropy EIO", "entropy EINTR", "entropy short read"][i]);
            }
        }
        if opt.plan != Plan::Ok && !o.signs.is_empty() {
            count(&format!("signer {:?}", opt.plan));
        }
        // Signing operations enter the history whatever becomes of the call.
        let at = rec(|r| r.seq + 1);
        rec(|r| {
            if r.quiet == 0 {
                for (s, k) in &o.signs {
                    r.signs.push(SignEv { seq: at, key: *k, msg: s.msg.clone(), used: false });
                }
            }
        });
        let verdict = if o.panic.is_some() {
            "PANIC"
        } else if o.ok {
            "ok"
        } else {
            "err"
        };
        let sh = format!("dev {:?} {} {}", before.ph, w.why, verdict);
        count(&sh);
        note(|| {
            format!(
                "{}#{} {:?} [{}] len={} plan={:?} <- {} => {} {} -> {}",
                self.name,
                self.calls,
                before.ph,
                w.why,
                opt.len,
                opt.plan,
                hex(req),
                verdict,
                o.panic.clone().unwrap_or(o.seen.res.clone()),
                hex(&o.seen.out)
            )
        });
        event(&sh, &[self.name.as_bytes(), req, &o.seen.out, o.seen.res.as_bytes(), &o.seen.tr]);
        if let Some(l) = self.log.as_mut() {
            l.push(DevLog::Msg(req.to_vec(), opt.clone(), o.seen.clone()));
        }
        let who = format!("{} in {:?}, {} [{}]", self.name, before.ph, hex(req), w.why);

        if let Some(p) = &o.panic {
            self.alive = false;
            self.twin = None;
            if o.ent.failed > 0 {
                // the platform's entropy is gone: giving up is allowed
                count("dev gave up on entropy failure");
                return DevOut { out: vec![], ok: false, crashed: true };
            }
            let mut t = vec!["C07"];
            if w.resource {
                t.push("C13");
            }
            if challenge && opt.plan == Plan::Ok {
                t.push("C04");
            }
            violation(&t, format!("{}: {}", who, p));
            return DevOut { out: vec![], ok: false, crashed: true };
        }
        if o.outside {
            violation(&["C07"], format!("{}: wrote or returned bytes outside the buffer", who));
        }
        if o.allocs > 0 {
            violation(&["C12"], format!("{}: {} heap allocations", who, o.allocs));
        }
        // ---- twin
        if let Some(t) = self.twin.as_mut() {
            let why = t.why;
            let b = t.dev.call(req, &opt);
            count("twin comparison");
            if b.panic.is_some() || b.seen != o.seen {
                let at = |a: &[u8], b: &[u8]| a.iter().zip(b).position(|(x, y)| x != y);
                let (do_, dt) = (at(&b.seen.out, &o.seen.out), at(&b.seen.tr, &o.seen.tr));
                violation(
                    &["C10"],
                    format!(
                        "after {}, {} (answers differ at {:?}, transcripts at {:?}): {} {} state {} transcript {} instead of {} {} state {} transcript {}",
                        why,
                        who,
                        do_,
                        dt,
                        o.seen.res,
                        hex(&o.seen.out),
                        o.seen.state,
                        o.seen.tr.len(),
                        b.panic.clone().unwrap_or(b.seen.res.clone()),
                        hex(&b.seen.out),
                        b.seen.state,
                        b.seen.tr.len()
                    ),
                );
                self.twin = None;
            }
        }
        let ent_failed = o.ent.failed > 0;
        if o.ok {
            if w.rule == Rule::Reject {
                violation(&w.tags, format!("{}: accepted, answered {}", who, hex(&o.seen.out)));
            }
            if o.seen.state == "Error" {
                violation(&["C06"], format!("{}: success but dead", who));
            }
            if challenge && o.seen.out.len() >= 36 {
                let d = crypt::ds(before.hash);
                if o.seen.out.len() >= 4 + d + 32 {
                    nonce(1, &o.seen.out[4 + d..4 + d + 32], o.ent.bytes_ok);
                    if let Some(l) = &self.log {
                        self.nonce_at = Some((l.len() - 1, 4 + d));
                    }
                }
            }
            let signs: Vec<Signed> = o.signs.into_iter().map(|s| s.0).collect();
            let known = self.model.ph != Ph::Unknown || req.get(1) == Some(&0x84);
            let mut bads = self.model.ok(req, &o.seen.out, &signs);
            for (t, m) in bads.drain(..) {
                violation(&t, format!("{}: {}", who, m));
            }
            if known && w.rule != Rule::Reject && o.seen.tr != self.model.tr {
                violation(
                    &["C05", "C01"],
                    format!(
                        "{}: transcript is {} bytes {}, not {} bytes {}",
                        who,
                        o.seen.tr.len(),
                        tail(&o.seen.tr),
                        self.model.tr.len(),
                        tail(&self.model.tr)
                    ),
                );
                self.model.tr = o.seen.tr.clone();
            }
            if w.rule == Rule::Accept && self.model.ph != Ph::Unknown {
                if !o.exp.is_empty() {
                    count("exposed state compared");
                }
                if let Some(m) = exposed::compare(&o.exp, &self.model.exp) {
                    violation(&["C16"], format!("{}: in state {} {}", who, o.seen.state, m));
                }
                let name = match self.model.ph {
                    Ph::C => "Capabilities",
                    Ph::A => "Algorithms",
                    Ph::Ch => "Challenge",
                    Ph::I if caps() & CERT != 0 => "IdAuth",
                    _ => &o.seen.state,
                };
                if name != o.seen.state {
                    violation(&["C16"], format!("{}: state is {}, not {}", who, o.seen.state, name));
                }
            }
            if let Some(m) = &o.slots {
                violation(&["C16"], format!("{}: {}", who, m));
            }
            if w.rule == Rule::Reject {
                // follow the library where it went
                self.model.ph = Ph::Unknown;
            }
        } else {
            if w.rule == Rule::Accept && !ent_failed {
                let mut t = w.tags.clone();
                if w.tight {
                    t.push("C13");
                }
                if !o.ent.injected.iter().all(|x| *x == 0) {
                    t.push("C13");
                }
                violation(&t, format!("{}: refused with {}", who, o.seen.res));
            }
            if !o.signs.is_empty() && !challenge {
                violation(&["C06", "C01", "C03"], format!("{}: refused, yet signed", who));
            }
            if o.seen.state != "Error" {
                violation(&["C06"], format!("{}: error result but state {}", who, o.seen.state));
            }
            let mut w2 = w.clone();
            if ent_failed {
                w2.resource = true;
                w2.unexpected = false;
            }
            let bads = check_error(&w2, opt.len, &o.seen.out, false);
            if bads.is_empty() && !o.seen.out.is_empty() {
                count("ERROR read back");
                if let Some(m) = exposed::error_reread(&o.seen.out) {
                    violation(&["C15"], format!("{}: {} {}", who, hex(&o.seen.out), m));
                }
            }
            for (t, m) in bads {
                violation(&t, format!("{}: {}", who, m));
            }
            self.model.fail();
        }
        DevOut { ok: o.ok, out: o.seen.out, crashed: false }
    }
}

fn tail(b: &[u8]) -> String {
    hex(&b[b.len().saturating_sub(24)..])
}

/// Run a recorded log of one responder alone and compare.
pub fn solo_dev(name: &str, slots: &Slots, log: &[DevLog]) {
    let mut dev: Option<RawDev> = None;
    for (i, l) in log.iter().enumerate() {
        pair::gate();
        match l {
            DevLog::New(k) => dev = Some(RawDev::new(slots, *k).0),
            DevLog::Reset => {
                if let Some(r) = dev.as_mut().and_then(|d| d.r.as_mut()) {
                    r.reset();
                }
            }
            DevLog::Msg(req, opt, seen) => {
                let d = match dev.as_mut() {
                    Some(d) if d.r.is_some() => d,
                    _ => continue,
                };
                let o = d.call(req, opt);
                count("solo comparison");
                if o.panic.is_none() && o.seen != *seen {
                    violation(
                        &["C14"],
                        format!(
                            "{} call {} ({}): {} {} state {} among others, {} {} state {} alone",
                            name,
                            i,
                            hex(req),
                            seen.res,
                            hex(&seen.out),
                            seen.state,
                            o.seen.res,
                            hex(&o.seen.out),
                            o.seen.state
                        ),
                    );
                    return;
                }
                if o.panic.is_some() != seen.res.is_empty() {
                    violation(&["C14"], format!("{} call {}: panics only in company or only alone", name, i));
                    return;
                }
            }
        }
    }
}

/// The same history up to the call that gave out a nonce, and that call again
/// and again with other entropy: does every part of the nonce follow?
fn follows(name: &str, first: &[u8], n: u64, mut again: impl FnMut(u64) -> Option<Vec<u8>>) {
    let mut and = first.to_vec();
    let mut or = first.to_vec();
    let mut same = vec![true; first.len()];
    let (mut got, mut k) = (0, 0);
    while got < n && k < 4 * n + 16 {
        k += 1;
        let e = key(&[0xf0110, tag(name), k]);
        if !sys::plain(e) {
            continue;
        }
        let v = match again(e) {
            Some(v) if v.len() == first.len() => v,
            _ => return,
        };
        got += 1;
        for i in 0..v.len() {
            and[i] &= v[i];
            or[i] |= v[i];
            same[i] &= v[i] == first[i];
        }
    }
    count("nonce drawn again");
    let stuck = n >= 40 && (and.iter().any(|b| *b != 0) || or.iter().any(|b| *b != 0xff));
    if stuck || same.iter().any(|s| *s) {
        violation(&["C03"], format!("{}: part of the nonce {} does not come from fresh entropy", name, hex(first)));
    }
}

fn cut(out: &[u8], at: usize) -> Option<Vec<u8>> {
    out.get(at..at + 32).map(|x| x.to_vec())
}

pub fn fresh_dev(d: &RealDev, n: u64) {
    let (log, (i, at)) = match (&d.log, d.nonce_at) {
        (Some(l), Some(x)) => (l, x),
        _ => return,
    };
    let from = (0..i).rev().find(|j| matches!(log[*j], DevLog::New(_))).unwrap_or(0);
    let first = match &log[i] {
        DevLog::Msg(_, _, s) => cut(&s.out, at).unwrap_or_default(),
        _ => return,
    };
    follows(&d.name, &first, n, |e| {
        let mut dev: Option<RawDev> = None;
        for l in &log[from..i] {
            match l {
                DevLog::New(k) => dev = Some(RawDev::new(&d.slots, *k).0),
                DevLog::Reset => {
                    dev.as_mut()?.r.as_mut()?.reset();
                }
                DevLog::Msg(req, opt, _) => {
                    let o = dev.as_mut()?.call(req, opt);
                    if o.panic.is_some() {
                        return None;
                    }
                }
            }
        }
        match &log[i] {
            DevLog::Msg(req, opt, _) => {
                let mut opt = opt.clone();
                opt.ekey = e;
                cut(&dev?.call(req, &opt).seen.out, at)
            }
            _ => None,
        }
    });
}

// ------------------------------------------------------------ requester

pub type Req = RequesterInit<'static, SimSigner>;

#[derive(Clone)]
pub enum HostLog {
    Next(usize, Vec<EntFault>, u64, Seen),
    Msg(Vec<u8>, u64, Seen),
}

pub struct RealHost {
    pub name: String,
    pub seed: u64,
    pub calls: u32,
    pub req: Option<Req>,
    pub model: HostModel,
    pub log: Option<Vec<HostLog>>,
    pub nonce_at: Option<(usize, usize)>,
    pub slots: Slots,
    /// event number of the CHALLENGE
    challenge_seq: u64,
    pub done: bool,
    /// some call ran into a resource limit
    pub short: bool,
}

#[derive(PartialEq, Debug)]
pub enum HostOut {
    Req(Vec<u8>),
    Complete,
    Failed,
    Crashed,
}
#[derive(PartialEq, Debug, Clone, Copy)]
pub enum HostRes {
    More,
    Done,
    Failed,
    Crashed,
}

fn seen_host(r: &Req, out: Vec<u8>, res: String) -> Seen {
    Seen {
        out,
        res,
        state: r.state().name().into(),
        tr: r.transcript().get().to_vec(),
        exp: exposed::digest(&exposed::host(r.state())),
    }
}

fn raw_next(r: &mut Req, len: usize, ents: &[EntFault], k: u64) -> (sys::Obs<(usize, usize, Result<(), RequesterError>)>, Vec<u8>, bool) {
    let mut buf = vec![CANARY; EDGE + len + EDGE];
    for (i, b) in buf.iter_mut().enumerate() {
        if i >= EDGE && i < EDGE + len {
            *b = 0xA5 ^ i as u8;
        }
    }
    let b = &mut buf[EDGE..EDGE + len];
    let base = b.as_ptr() as usize;
    let o = sys::call(k, ents, || match r.next_request(b) {
        Ok(s) => (s.as_ptr() as usize, s.len(), Ok(())),
        Err(e) => (base, 0, Err(e)),
    });
    let mut out = vec![];
    let mut bad = buf[..EDGE].iter().chain(&buf[EDGE + len..]).any(|b| *b != CANARY);
    if let Ok((p, n, _)) = &o.r {
        let off = p.wrapping_sub(base);
        if *n > 0 && off.saturating_add(*n) > len {
            bad = true;
        } else if *n > 0 {
            out = buf[EDGE + off..EDGE + off + n].to_vec();
        }
    }
    (o, out, bad)
}

impl Drop for RealHost {
    /// A completed requester is turned into a session.
    fn drop(&mut self) {
        if let (true, Some(r)) = (self.done, self.req.take()) {
            let o = sys::call(1, &[], || std::mem::drop(r.begin_session()));
            count("session begun");
            if let Err(p) = o.r {
                violation(&["C07", "C04"], format!("{} begin_session: {}", self.name, p));
            }
            if o.allocs > 0 {
                violation(&["C12"], format!("{} begin_session: {} heap allocations", self.name, o.allocs));
            }
        }
    }
}

impl RealHost {
    pub fn new(name: &str, seed: u64, root: char, slots: &Slots) -> RealHost {
        let cert = pki::root(root);
        let built = build_slots(slots);
        let o = sys::call(key(&[seed, tag(name)]), &[], || RequesterInit::new(cert, built));
        if o.allocs > 0 {
            violation(&["C12"], format!("{} RequesterInit::new: {} heap allocations", name, o.allocs));
        }
        if let Err(p) = &o.r {
            violation(&["C07"], format!("{} RequesterInit::new: {}", name, p));
        }
        event("host new", &[name.as_bytes()]);
        RealHost {
            name: name.into(),
            seed,
            calls: 0,
            req: o.r.ok(),
            model: HostModel::new(root),
            log: None,
            nonce_at: None,
            slots: slots.clone(),
            challenge_seq: 0,
            done: false,
            short: false,
        }
    }
    pub fn live(&self) -> bool {
        self.req.is_some() && self.model.ph != Hp::Dead
    }
    fn ekey(&self) -> u64 {
        key(&[self.seed, tag(&self.name), self.calls as u64])
    }
    pub fn need(&self) -> usize {
        self.model.expected().map_or(0, |e| e.len())
    }

    pub fn next(&mut self, len: usize, ents: &[EntFault]) -> HostOut {
        self.calls += 1;
        let k = self.ekey();
        let ph = self.model.ph;
        let r = match self.req.as_mut() {
            Some(r) => r,
            None => return HostOut::Crashed,
        };
        let (o, out, outside) = raw_next(r, len, ents, k);
        for (i, n) in o.ent.injected.iter().enumerate() {
            for _ in 0..*n {
                count(["entropy EIO", "entropy EINTR", "entropy short read"][i]);
            }
        }
        let who = format!("{} next_request in {:?} (buffer {})", self.name, ph, len);
        let (res, ok) = match &o.r {
            Ok((_, _, r)) => (format!("{:?}", r), r.is_ok()),
            Err(_) => (String::new(), false),
        };
        let verdict = if o.r.is_err() { "PANIC" } else if ok { "ok" } else { "err" };
        let sh = format!("host {:?} next {}", ph, verdict);
        count(&sh);
        note(|| {
            format!(
                "{}#{} {:?} next_request len={} => {} {} -> {}",
                self.name,
                self.calls,
                ph,
                len,
                verdict,
                o.r.as_ref().err().cloned().unwrap_or(res.clone()),
                hex(&out)
            )
        });
        event(&sh, &[self.name.as_bytes(), &out, res.as_bytes()]);
        if let Some(l) = self.log.as_mut() {
            let seen = match o.r.is_ok() {
                true => seen_host(self.req.as_ref().unwrap(), out.clone(), res.clone()),
                false => Seen { out: vec![], res: String::new(), state: String::new(), tr: vec![], exp: 0 },
            };
            l.push(HostLog::Next(len, ents.to_vec(), k, seen));
        }
        let (fits, spare) = self.model.fits(len);
        // A requester that ran out of space before owes nothing but exactness.
        let hurt = self.short;
        let again = self.model.outstanding;
        self.short |= !fits;
        if again {
            count("request asked for again");
        }
        if let Err(p) = &o.r {
            self.req = None;
            self.model.ph = Hp::Dead;
            if hurt {
                count("host gave up after a space failure");
                return HostOut::Crashed;
            }
            if o.ent.failed > 0 {
                count("host gave up on entropy failure");
                return HostOut::Crashed;
            }
            let mut t = vec!["C07"];
            if !fits {
                t.push("C13");
            }
            violation(&t, format!("{}: {}", who, p));
            return HostOut::Crashed;
        }
        if outside {
            violation(&["C07"], format!("{}: wrote or returned bytes outside the buffer", who));
        }
        if o.allocs > 0 {
            violation(&["C12"], format!("{}: {} heap allocations", who, o.allocs));
        }
        if ph == Hp::Done {
            if ok {
                violation(&["C11"], format!("{}: a request after completion: {}", who, hex(&out)));
            } else if !res.contains("InitializationComplete") {
                violation(&["C11"], format!("{}: {} instead of initialization complete", who, res));
            }
            return HostOut::Complete;
        }
        if !ok {
            if res.contains("InitializationComplete") {
                violation(&["C11"], format!("{}: says complete", who));
            }
            if fits && o.ent.failed == 0 && !hurt && !again {
                let mut t = vec!["C11"];
                if !spare || o.ent.injected.iter().any(|x| *x > 0) {
                    t.push("C13");
                }
                violation(&t, format!("{}: failed with {}", who, res));
            }
            if fits || o.ent.failed > 0 {
                self.model.ph = Hp::Dead;
            } else if ph != Hp::V && ph != Hp::Dead {
                // the request was not handed out
                count("transcript after a space failure");
                self.check_transcript(&who, &["C13", "C05"]);
            }
            return HostOut::Failed;
        }
        if hurt {
            count("retry after a space failure");
        }
        if !fits {
            violation(&["C13"], format!("{}: {} bytes from a buffer or transcript too small", who, out.len()));
        }
        for (t, m) in self.model.request(&out) {
            violation(&t, format!("{}: {}", who, m));
        }
        if ph == Hp::G && out.len() == 36 {
            nonce(0, &out[4..], o.ent.bytes_ok);
            if let Some(l) = &self.log {
                self.nonce_at = Some((l.len() - 1, 4));
            }
            self.challenge_seq = rec(|r| r.seq);
        }
        self.check_transcript(&who, &["C05", "C01"]);
        self.check_exposed(&who);
        HostOut::Req(out)
    }

    fn check_exposed(&mut self, who: &str) {
        let r = self.req.as_ref().unwrap();
        let have = exposed::host(r.state());
        if !have.is_empty() {
            count("exposed state compared");
        }
        if let Some(m) = exposed::compare(&have, &self.model.exp) {
            violation(&["C16"], format!("{}: in state {} {}", who, r.state().name(), m));
        }
        if let Some(m) = slots_kept(r.slots(), &self.slots) {
            violation(&["C16"], format!("{}: {}", who, m));
        }
        let name = match self.model.ph {
            Hp::V => "Version",
            Hp::C => "Capabilities",
            Hp::A => "Algorithms",
            Hp::D | Hp::X => "IdAuth",
            Hp::G => "Challenge",
            Hp::Done => "NewSession",
            Hp::Dead => return,
        };
        let is = r.state().name();
        if is != name {
            violation(&["C16"], format!("{}: state is {}, not {}", who, is, name));
        }
    }

    fn check_transcript(&mut self, who: &str, tags: &[&'static str]) {
        let tr = self.req.as_ref().unwrap().transcript().get();
        if tr != &self.model.tr[..] {
            violation(
                tags,
                format!(
                    "{}: transcript is {} bytes {}, not {} bytes {}",
                    who,
                    tr.len(),
                    tail(tr),
                    self.model.tr.len(),
                    tail(&self.model.tr)
                ),
            );
            self.model.tr = tr.to_vec();
        }
    }

    pub fn handle(&mut self, rsp: &[u8]) -> HostRes {
        self.calls += 1;
        let k = self.ekey();
        let ph = self.model.ph;
        let leaf = |id: u32| pki::get_key(id).public.clone();
        let w = if crypto() {
            self.model.want(rsp, leaf)
        } else {
            self.model.want(rsp, |_| vec![])
        };
        let hurt = self.short;
        self.short |= w.resource;
        let r = match self.req.as_mut() {
            Some(r) => r,
            None => return HostRes::Crashed,
        };
        let o = sys::call(k, &[], || r.handle_msg(rsp));
        let (res, ok, done) = match &o.r {
            Ok(Ok(d)) => (format!("{:?}", d), true, *d),
            Ok(Err(e)) => (format!("{:?}", e), false, false),
            Err(_) => (String::new(), false, false),
        };
        let verdict = if o.r.is_err() {
            "PANIC"
        } else if done {
            "done"
        } else if ok {
            "ok"
        } else {
            "err"
        };
        let sh = format!("host {:?} {} {}", ph, w.why, verdict);
        count(&sh);
        note(|| {
            format!(
                "{}#{} {:?} [{}] <- {} => {} {}",
                self.name,
                self.calls,
                ph,
                w.why,
                hex(rsp),
                verdict,
                o.r.as_ref().err().cloned().unwrap_or(res.clone())
            )
        });
        event(&sh, &[self.name.as_bytes(), rsp, res.as_bytes()]);
        if let Some(l) = self.log.as_mut() {
            let seen = match o.r.is_ok() {
                true => seen_host(self.req.as_ref().unwrap(), vec![], res.clone()),
                false => Seen { out: vec![], res: String::new(), state: String::new(), tr: vec![], exp: 0 },
            };
            l.push(HostLog::Msg(rsp.to_vec(), k, seen));
        }
        let who = format!("{} in {:?}, {} [{}]", self.name, ph, hex(rsp), w.why);
        if let Err(p) = &o.r {
            self.req = None;
            self.model.ph = Hp::Dead;
            if hurt {
                count("host gave up after a space failure");
                return HostRes::Crashed;
            }
            let mut t = vec!["C07"];
            if w.resource {
                t.push("C13");
            }
            violation(&t, format!("{}: {}", who, p));
            return HostRes::Crashed;
        }
        if o.allocs > 0 {
            violation(&["C12"], format!("{}: {} heap allocations", who, o.allocs));
        }
        if ph == Hp::Done {
            count("message after completion");
            if done {
                violation(&["C11", "C03"], format!("{}: reports completion again", who));
            }
            return if ok { HostRes::More } else { HostRes::Failed };
        }
        if !ok {
            if w.rule == Rule::Accept && !hurt {
                let mut t = w.tags.clone();
                if w.tight {
                    t.push("C13");
                }
                violation(&t, format!("{}: refused with {}", who, res));
            }
            let st = self.req.as_ref().unwrap().state().name();
            if st != "Error" {
                violation(&["C11"], format!("{}: error result but state {}", who, st));
            }
            self.model.ph = Hp::Dead;
            return HostRes::Failed;
        }
        if w.rule == Rule::Reject {
            violation(&w.tags, format!("{}: accepted", who));
        }
        if w.rule != Rule::Reject && done != w.completes {
            violation(
                &["C11"],
                format!("{}: {}", who, if done { "complete too early" } else { "not complete" }),
            );
        }
        let auth = caps() & self.model.rsp_caps & (CERT | CHAL) == CERT | CHAL;
        self.model.accept(rsp, w.rule == Rule::Accept);
        if w.rule != Rule::Reject {
            self.check_transcript(&who, &["C05", "C01"]);
        }
        self.check_exposed(&who);
        if done {
            self.done = true;
            if auth {
                self.completed(&who);
            }
            self.model.ph = Hp::Done;
            count("completion");
            return HostRes::Done;
        }
        if self.model.ph == Hp::Done {
            // should have completed; stop here
            self.model.ph = Hp::Dead;
        }
        HostRes::More
    }

    /// An authenticated completion: whose signature, when, over what?
    fn completed(&mut self, who: &str) {
        count("authenticated completion");
        let h = crypt::hash(self.model.hash, &self.model.tr);
        let (trust, leaf) = pki::judge(&self.model.chain, crypt::ds(self.model.hash), DEPTH, self.model.root);
        if trust == Trust::Invalid {
            violation(&["C02"], format!("{}: completed with an invalid chain", who));
        }
        let after = self.challenge_seq;
        let verdict = rec(|r| {
            let mut any = None;
            for s in r.signs.iter_mut().filter(|s| s.msg == h) {
                if s.seq <= after {
                    any = Some("by a signature older than its CHALLENGE");
                    continue;
                }
                if s.used {
                    any = Some("by a signature already used");
                    continue;
                }
                if Some(s.key) != leaf {
                    any = Some("by a signature of another key");
                    continue;
                }
                s.used = true;
                return None;
            }
            Some(any)
        });
        match verdict {
            None => (),
            Some(None) => violation(
                &["C01", "C02", "C03"],
                format!("{}: completed, but nobody signed what this requester saw", who),
            ),
            Some(Some("by a signature of another key")) => {
                violation(&["C02"], format!("{}: completed by a signature of another key", who))
            }
            Some(Some(x)) => violation(&["C03"], format!("{}: completed {}", who, x)),
        }
    }
}

pub fn solo_host(name: &str, root: char, slots: &Slots, log: &[HostLog]) {
    let cert = pki::root(root);
    let mut r: Req = RequesterInit::new(cert, build_slots(slots));
    for (i, l) in log.iter().enumerate() {
        count("solo comparison");
        pair::gate();
        let (now, seen) = match l {
            HostLog::Next(len, ents, k, seen) => {
                let (o, out, _) = raw_next(&mut r, *len, ents, *k);
                match o.r {
                    Ok((_, _, res)) => (seen_host(&r, out, format!("{:?}", res)), seen),
                    Err(_) => {
                        if !seen.res.is_empty() {
                            violation(&["C14"], format!("{} call {}: panics only alone", name, i));
                        }
                        return;
                    }
                }
            }
            HostLog::Msg(m, k, seen) => {
                let o = sys::call(*k, &[], || r.handle_msg(m));
                match o.r {
                    Ok(res) => {
                        let s = match &res {
                            Ok(d) => format!("{:?}", d),
                            Err(e) => format!("{:?}", e),
                        };
                        (seen_host(&r, vec![], s), seen)
                    }
                    Err(_) => {
                        if !seen.res.is_empty() {
                            violation(&["C14"], format!("{} call {}: panics only alone", name, i));
                        }
                        return;
                    }
                }
            }
        };
        if now != *seen {
            violation(
                &["C14"],
                format!(
                    "{} call {}: {} {} state {} among others, {} {} state {} alone",
                    name, i, seen.res, hex(&seen.out), seen.state, now.res, hex(&now.out), now.state
                ),
            );
            return;
        }
    }
}

pub fn fresh_host(h: &RealHost, n: u64) {
    let (log, (i, at)) = match (&h.log, h.nonce_at) {
        (Some(l), Some(x)) => (l, x),
        _ => return,
    };
    let first = match &log[i] {
        HostLog::Next(_, _, _, s) => cut(&s.out, at).unwrap_or_default(),
        _ => return,
    };
    let cert = pki::root(h.model.root);
    follows(&h.name, &first, n, |e| {
        let mut r: Req = RequesterInit::new(cert, build_slots(&h.slots));
        for l in &log[..i] {
            match l {
                HostLog::Next(len, ents, k, _) => {
                    raw_next(&mut r, *len, ents, *k).0.r.ok()?;
                }
                HostLog::Msg(m, k, _) => {
                    sys::call(*k, &[], || r.handle_msg(m).is_ok()).r.ok()?;
                }
            }
        }
        match &log[i] {
            HostLog::Next(len, ents, _, _) => cut(&raw_next(&mut r, *len, ents, e).1, at),
            _ => None,
        }
    });
}
