//! What an endpoint's public state says was negotiated, in a neutral form:
//! field name and bytes. Built only with the feature `fields`, so that a tree
//! whose state types changed shape can still be checked for everything else.

pub type Exposed = Vec<(&'static str, Vec<u8>)>;

#[cfg(not(feature = "fields"))]
mod imp {
    use super::Exposed;
    use spdm::{requester, responder};
    pub fn host(_: &requester::AllStates) -> Exposed {
        vec![]
    }
    pub fn dev(_: &responder::AllStates) -> Exposed {
        vec![]
    }
    pub fn error_reread(_: &[u8]) -> Option<String> {
        None
    }
}

#[cfg(feature = "fields")]
mod imp {
    use super::Exposed;
    use spdm::msgs::algorithms::{AlgorithmRequest, Algorithms};
    use spdm::{requester, responder};

    fn le16(t: u8, b: u16) -> Vec<u8> {
        vec![t, b as u8, (b >> 8) as u8]
    }
    fn part(b: &[u8], n: u16) -> Vec<u8> {
        b.get(..n as usize).unwrap_or(b).to_vec()
    }
    fn request(a: &AlgorithmRequest) -> Vec<u8> {
        match a {
            AlgorithmRequest::Dhe(x) => le16(2, x.supported.bits()),
            AlgorithmRequest::Aead(x) => le16(3, x.supported.bits()),
            AlgorithmRequest::ReqBaseAsym(x) => le16(4, x.supported.bits()),
            AlgorithmRequest::KeySchedule(x) => le16(5, x.supported.bits()),
        }
    }
    fn algorithms(e: &mut Exposed, a: &Algorithms) {
        e.push(("measurement_spec_selected", vec![a.measurement_spec_selected.bits()]));
        e.push(("measurement_hash_algo_selected", a.measurement_hash_algo_selected.bits().to_le_bytes().to_vec()));
        e.push(("base_asym_algo_selected", a.base_asym_algo_selected.bits().to_le_bytes().to_vec()));
        e.push(("base_hash_algo_selected", a.base_hash_algo_selected.bits().to_le_bytes().to_vec()));
        let n = a.num_algorithm_responses as usize;
        let v: Vec<u8> = a.algorithm_responses.iter().take(n).flat_map(request).collect();
        e.push(("num_algorithm_responses", vec![n as u8]));
        e.push(("algorithm_responses", v));
    }
    fn agreed(e: &mut Exposed, qc: Option<u8>, q: Option<u32>, sc: Option<u8>, s: Option<u32>) {
        let mut p = |n, v: Option<Vec<u8>>| {
            if let Some(v) = v {
                e.push((n, v));
            }
        };
        p("requester_ct_exponent", qc.map(|x| vec![x]));
        p("requester_cap", q.map(|x| x.to_le_bytes().to_vec()));
        p("responder_ct_exponent", sc.map(|x| vec![x]));
        p("responder_cap", s.map(|x| x.to_le_bytes().to_vec()));
    }

    /// Does the library read an ERROR message it wrote as what it wrote?
    pub fn error_reread(out: &[u8]) -> Option<String> {
        use spdm::msgs::{Error, Msg};
        if Error::parse_header(out) != Ok(true) {
            return Some("its own ERROR header is not recognised".into());
        }
        match Error::parse_body(&out[2..]) {
            Err(e) => Some(format!("its own ERROR does not parse: {:?}", e)),
            Ok(m) => {
                let mut b = [0u8; 64];
                match m.write(&mut b) {
                    Ok(n) if b[..n] == *out => None,
                    x => Some(format!("its own ERROR reads as {:?} ({:?})", m, x)),
                }
            }
        }
    }

    pub fn host(s: &requester::AllStates) -> Exposed {
        use requester::AllStates as S;
        let mut e = vec![];
        match s {
            S::Capabilities(s) => {
                e.push(("version", vec![s.version.major, s.version.minor]));
                agreed(
                    &mut e,
                    s.requester_ct_exponent,
                    s.requester_cap.map(|x| x.bits()),
                    s.responder_ct_exponent,
                    s.responder_cap.map(|x| x.bits()),
                );
            }
            S::Algorithms(s) => {
                e.push(("version", vec![s.version.major, s.version.minor]));
                agreed(
                    &mut e,
                    Some(s.requester_ct_exponent),
                    Some(s.requester_cap.bits()),
                    Some(s.responder_ct_exponent),
                    Some(s.responder_cap.bits()),
                );
                if let Some(n) = &s.negotiate_algorithms {
                    let mut v = vec![n.measurement_spec.bits()];
                    v.extend(n.base_asym_algo.bits().to_le_bytes());
                    v.extend(n.base_hash_algo.bits().to_le_bytes());
                    let k = n.num_algorithm_requests as usize;
                    v.push(k as u8);
                    v.extend(n.algorithm_requests.iter().take(k).flat_map(request));
                    e.push(("negotiate_algorithms", v));
                }
                if let Some(a) = &s.algorithms {
                    algorithms(&mut e, a);
                }
            }
            S::IdAuth(s) => {
                e.push(("version", vec![s.version.major, s.version.minor]));
                agreed(
                    &mut e,
                    Some(s.requester_ct_exponent),
                    Some(s.requester_cap.bits()),
                    Some(s.responder_ct_exponent),
                    Some(s.responder_cap.bits()),
                );
                algorithms(&mut e, &s.algorithms);
                if let Some(d) = &s.digests {
                    let mut v = vec![d.slot_mask];
                    for (i, x) in d.digests.iter().enumerate() {
                        if let Some(x) = x {
                            v.push(i as u8);
                            v.extend_from_slice(x.as_ref());
                        }
                    }
                    e.push(("digests", v));
                }
                if let Some(s) = s.requested_slot {
                    e.push(("requested_slot", vec![s]));
                }
                if let Some(c) = &s.cert_chain {
                    e.push(("cert_slot", vec![c.slot]));
                    e.push(("cert_chain", part(&c.cert_chain, c.portion_length)));
                }
            }
            S::Challenge(s) => {
                e.push(("version", vec![s.version.major, s.version.minor]));
                agreed(
                    &mut e,
                    Some(s.requester_ct_exponent),
                    Some(s.requester_cap.bits()),
                    Some(s.responder_ct_exponent),
                    Some(s.responder_cap.bits()),
                );
                algorithms(&mut e, &s.algorithms);
                e.push(("cert_slot", vec![s.cert_slot]));
                e.push(("cert_chain", part(&s.cert_chain, s.cert_chain_size)));
                if let Some(n) = &s.nonce {
                    e.push(("nonce", n.as_ref().to_vec()));
                }
            }
            _ => (),
        }
        e
    }

    pub fn dev(s: &responder::AllStates) -> Exposed {
        use responder::AllStates as S;
        let mut e = vec![];
        match s {
            S::Capabilities(s) => agreed(
                &mut e,
                s.requester_ct_exponent,
                s.requester_cap.map(|x| x.bits()),
                s.responder_ct_exponent,
                s.responder_cap.map(|x| x.bits()),
            ),
            S::Algorithms(s) => {
                agreed(
                    &mut e,
                    Some(s.requester_ct_exponent),
                    Some(s.requester_cap.bits()),
                    Some(s.responder_ct_exponent),
                    Some(s.responder_cap.bits()),
                );
                if let Some(a) = &s.algorithms {
                    algorithms(&mut e, a);
                }
            }
            S::IdAuth(s) => {
                agreed(
                    &mut e,
                    Some(s.requester_ct_exponent),
                    Some(s.requester_cap.bits()),
                    Some(s.responder_ct_exponent),
                    Some(s.responder_cap.bits()),
                );
                algorithms(&mut e, &s.algorithms);
            }
            S::Challenge(s) => {
                agreed(
                    &mut e,
                    Some(s.requester_ct_exponent),
                    Some(s.requester_cap.bits()),
                    Some(s.responder_ct_exponent),
                    Some(s.responder_cap.bits()),
                );
                algorithms(&mut e, &s.algorithms);
            }
            _ => (),
        }
        e
    }
}

pub use imp::*;

pub fn digest(e: &Exposed) -> u64 {
    let mut f = crate::rng::Fnv::new();
    for (n, v) in e {
        f.add(n.as_bytes());
        f.add(v);
    }
    f.0
}

/// Forget a field: the messages leave it open.
pub fn open(e: &mut Exposed, names: &[&str]) {
    e.retain(|(n, _)| !names.contains(n));
}
pub fn set(e: &mut Exposed, name: &'static str, v: &[u8]) {
    open(e, &[name]);
    e.push((name, v.to_vec()));
}
const ALGS: &[&str] = &[
    "measurement_spec_selected",
    "measurement_hash_algo_selected",
    "base_asym_algo_selected",
    "base_hash_algo_selected",
    "num_algorithm_responses",
    "algorithm_responses",
];
/// The selections of a regular ALGORITHMS message.
pub fn set_algorithms(e: &mut Exposed, r: &[u8]) {
    open(e, ALGS);
    let n = r[2] as usize;
    if r.len() != 36 + 4 * n {
        return;
    }
    set(e, ALGS[0], &r[6..7]);
    set(e, ALGS[1], &r[8..12]);
    set(e, ALGS[2], &r[12..16]);
    set(e, ALGS[3], &r[16..20]);
    set(e, ALGS[4], &r[2..3]);
    let v: Vec<u8> = r[36..].chunks(4).flat_map(|c| vec![c[0], c[2], c[3]]).collect();
    set(e, ALGS[5], &v);
}

/// Compare what is exposed with what the messages say. A field the messages
/// leave open is not judged, nor is one the state does not hold.
pub fn compare(have: &Exposed, want: &Exposed) -> Option<String> {
    for (n, v) in have {
        if let Some((_, w)) = want.iter().find(|(m, _)| m == n) {
            if v != w {
                return Some(format!(
                    "{} is {} instead of {}",
                    n,
                    crate::model::hex(v),
                    crate::model::hex(w)
                ));
            }
        }
    }
    None
}
