mod alone;
mod crypt;
mod endpoint;
mod exposed;
mod gen;
mod model;
mod net;
mod pair;
mod peer;
mod pki;
mod rng;
mod scn;
mod script;
mod sys;

use endpoint::Rec;
use scn::Scn;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::fs::FileExt;

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|x| x == k).and_then(|i| self.0.get(i + 1)).map(|x| &x[..])
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|x| x.parse().ok()).unwrap_or(d)
    }
}

fn execute(s: &Scn, verbose: bool) -> Rec {
    endpoint::start(verbose);
    sys::ambient(&[s.num("seed", 1), 0xa3b1]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| script::run(s)));
    let rec = endpoint::take();
    if r.is_err() {
        eprintln!("HARNESS: the harness itself failed on:\n{}", s.text());
        std::process::exit(3);
    }
    rec
}

/// `finding: property=<id> match=<text>` lines of the known-findings file
fn known(a: &Args) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Some(p) = a.get("--known") {
        for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
            if let Some(x) = l.strip_prefix("finding: property=") {
                if let Some((id, m)) = x.split_once(" match=") {
                    let m = m.split(" :: ").next().unwrap().trim();
                    v.push((id.to_string(), m.to_string()));
                }
            }
        }
    }
    v
}

fn hit<'a>(r: &'a Rec, prop: &str, known: &[(String, String)]) -> (Option<&'a str>, Vec<&'a str>) {
    let mut first = None;
    let mut old = vec![];
    for v in &r.viol {
        if !v.tags.iter().any(|t| *t == prop) {
            continue;
        }
        if known.iter().any(|k| k.0 == prop && v.msg.contains(&k.1)) {
            old.push(&v.msg[..]);
        } else if first.is_none() {
            first = Some(&v.msg[..]);
        }
    }
    (first, old)
}

fn work(a: &Args) {
    let prop = a.get("--prop").unwrap();
    let seed = a.num("--seed", 1);
    let (from, n) = (a.num("--from", 0), a.num("--n", 100));
    let stride = a.num("--stride", 1);
    let secs = a.num("--secs", 3600);
    let known = known(a);
    let out = a.get("--out").unwrap();
    let progress = std::fs::File::create(format!("{}.progress", out)).unwrap();
    let t0 = std::time::Instant::now();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut shapes: BTreeSet<u64> = BTreeSet::new();
    let mut log = rng::Fnv::new();
    let mut viols: Vec<(u64, String)> = vec![];
    let mut others: BTreeMap<String, u64> = BTreeMap::new();
    let mut olds: BTreeMap<String, u64> = BTreeMap::new();
    let mut runs = 0u64;
    let mut kinds: BTreeSet<String> = BTreeSet::new();
    for j in 0..n {
        let i = from + j * stride;
        // Real time only decides how many runs are made, never what they do.
        if j % 16 == 0 && t0.elapsed().as_secs() >= secs {
            break;
        }
        let _ = progress.write_all_at(format!("{:<20}\n", i).as_bytes(), 0);
        let s = gen::scenario(prop, seed, i);
        let r = execute(&s, false);
        runs += 1;
        *counts.entry(format!("profile {}", s.get("profile"))).or_insert(0) += 1;
        for (k, v) in &r.counts {
            *counts.entry(k.clone()).or_insert(0) += v;
        }
        shapes.insert(r.shape);
        log.add_u(r.log);
        let (first, old) = hit(&r, prop, &known);
        for o in old {
            *olds.entry(o.to_string()).or_insert(0) += 1;
        }
        if let Some(m) = first {
            // one report per kind of violation
            let k: String = m.chars().filter(|c| c.is_alphabetic() || *c == ' ').take(400).collect();
            if viols.len() < 6 && kinds.insert(k) {
                std::fs::write(format!("{}.{}.scn", out, viols.len()), s.text()).unwrap();
                viols.push((i, m.to_string()));
            }
            *counts.entry("runs with a violation".into()).or_insert(0) += 1;
        } else if let Some(v) = r.viol.iter().find(|v| !v.tags.contains(&prop)) {
            let k = format!("{:?} {}", v.tags, v.msg.chars().take(160).collect::<String>());
            if others.len() < 20 || others.contains_key(&k) {
                *others.entry(k).or_insert(0) += 1;
            }
        }
    }
    let mut t = String::new();
    t.push_str(&format!("runs\t{}\nsecs\t{:.3}\nlog\t{:016x}\n", runs, t0.elapsed().as_secs_f64(), log.0));
    for (k, v) in &counts {
        t.push_str(&format!("count\t{}\t{}\n", k, v));
    }
    for s in &shapes {
        t.push_str(&format!("shape\t{:016x}\n", s));
    }
    for (i, (n, m)) in viols.iter().enumerate() {
        t.push_str(&format!("viol\t{}\t{}\t{}\n", i, n, m.replace(['\n', '\t'], " ")));
    }
    for (m, n) in &olds {
        t.push_str(&format!("known\t{}\t{}\n", n, m.replace(['\n', '\t'], " ")));
    }
    for (m, n) in &others {
        t.push_str(&format!("other\t{}\t{}\n", n, m.replace(['\n', '\t'], " ")));
    }
    std::fs::write(out, t).unwrap();
}

fn replay(a: &Args) {
    let prop = a.get("--prop").unwrap_or("");
    let known = known(a);
    let s = Scn::parse(&std::fs::read_to_string(a.get("--file").unwrap()).unwrap());
    let r = execute(&s, a.0.iter().any(|x| x == "-v"));
    let mut o = std::io::stdout().lock();
    for l in &r.lines {
        let _ = writeln!(o, "{}", l);
    }
    for v in &r.viol {
        let _ = writeln!(o, "violation\t{}\t{}", v.tags.join(","), v.msg);
    }
    let (first, old) = hit(&r, prop, &known);
    for m in old {
        let _ = writeln!(o, "known\t{}", m);
    }
    for (k, v) in &r.counts {
        let _ = writeln!(o, "count\t{}\t{}", k, v);
    }
    let _ = writeln!(o, "log\t{:016x}\nshape\t{:016x}", r.log, r.shape);
    if first.is_some() {
        let _ = writeln!(o, "REPRODUCED");
        std::process::exit(1);
    }
}

/// Remove faults, operations and settings while the property stays broken.
fn minimise(a: &Args) {
    let prop = a.get("--prop").unwrap().to_string();
    let known = known(a);
    let mut s = Scn::parse(&std::fs::read_to_string(a.get("--file").unwrap()).unwrap());
    let mut budget = a.num("--budget", 3000);
    let bad = |s: &Scn| {
        let r = execute(s, false);
        hit(&r, &prop, &known).0.map(|x| x.to_string())
    };
    if bad(&s).is_none() {
        eprintln!("HARNESS: nothing to minimise");
        std::process::exit(3);
    }
    let cost = |s: &Scn| s.text().len();
    loop {
        let before = cost(&s);
        for which in 0..2 {
            let len = |s: &Scn| if which == 0 { s.faults.len() } else { s.ops.len() };
            let mut size = len(&s).max(1);
            while size >= 1 {
                let mut i = 0;
                while i < len(&s) && budget > 0 {
                    let mut t = s.clone();
                    let v = if which == 0 { &mut t.faults } else { &mut t.ops };
                    let e = (i + size).min(v.len());
                    v.drain(i..e);
                    budget -= 1;
                    if bad(&t).is_some() {
                        s = t;
                    } else {
                        i += size;
                    }
                }
                size /= 2;
            }
            // arguments of what is left
            for i in 0..len(&s) {
                let mut j = 1;
                loop {
                    let mut t = s.clone();
                    let v = if which == 0 { &mut t.faults[i] } else { &mut t.ops[i] };
                    if j >= v.len() || budget == 0 {
                        break;
                    }
                    if !v[j].contains('=') {
                        j += 1;
                        continue;
                    }
                    v.remove(j);
                    budget -= 1;
                    if bad(&t).is_some() {
                        s = t;
                    } else {
                        j += 1;
                    }
                }
            }
        }
        let keys: Vec<String> = s.kv.keys().cloned().collect();
        for k in keys {
            if k == "mode" || k == "seed" || budget == 0 {
                continue;
            }
            let mut tries = vec![None];
            let v = s.get(&k).to_string();
            if v.contains(',') {
                // one slot at a time
                let p: Vec<&str> = v.split(',').collect();
                tries.push(Some(p[0].to_string()));
                for i in 0..p.len() {
                    let mut q = p.clone();
                    q[i] = "-";
                    tries.push(Some(q.join(",")));
                }
            }
            if v.parse::<u64>().is_ok() {
                tries.push(Some("1".into()));
            }
            for t2 in tries {
                let mut t = s.clone();
                match t2 {
                    None => {
                        t.kv.remove(&k);
                    }
                    Some(x) => t.set(&k, x),
                }
                if cost(&t) >= cost(&s) {
                    continue;
                }
                budget = budget.saturating_sub(1);
                if bad(&t).is_some() {
                    s = t;
                }
            }
        }
        if cost(&s) == before || budget == 0 {
            break;
        }
    }
    let m = bad(&s).unwrap();
    let r = execute(&s, true);
    let mut t = format!("# property {}\n# {}\n# configuration {}\n", prop, m.replace('\n', " "), model::cfg_name());
    for k in ["property", "cfg"] {
        s.kv.remove(k);
    }
    t.push_str(&s.text());
    t.push_str(&format!("# event log {:016x}\n", r.log));
    for l in r.lines.iter().take(60) {
        t.push_str(&format!("# {}\n", l));
    }
    std::fs::write(a.get("--out").unwrap(), t).unwrap();
    println!("{}", m);
}

fn main() {
    let a = Args(std::env::args().collect());
    sys::install_panic_hook();
    alone::prepare();
    sys::watchdog(a.num("--watchdog", 20));
    match &a.0.get(1).map_or("", |x| &x[..])[..] {
        "work" => work(&a),
        "replay" => replay(&a),
        "minimise" => minimise(&a),
        "show" => print!("{}", gen::scenario(a.get("--prop").unwrap(), a.num("--seed", 1), a.num("--i", 0)).text()),
        _ => {
            eprintln!("usage: spdmsim work|replay|minimise|show");
            std::process::exit(3);
        }
    }
}
