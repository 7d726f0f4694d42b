//! Scenarios: flat text, the unit of generation, replay and minimisation.

use std::collections::BTreeMap;

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Scn {
    pub kv: BTreeMap<String, String>,
    pub faults: Vec<Vec<String>>,
    pub ops: Vec<Vec<String>>,
}

impl Scn {
    pub fn get(&self, k: &str) -> &str {
        self.kv.get(k).map_or("", |s| &s[..])
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.kv.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
    pub fn set(&mut self, k: &str, v: impl ToString) {
        self.kv.insert(k.into(), v.to_string());
    }
    pub fn fault(&mut self, s: String) {
        self.faults.push(s.split(' ').map(|x| x.to_string()).collect());
    }
    pub fn op(&mut self, s: String) {
        self.ops.push(s.split(' ').map(|x| x.to_string()).collect());
    }
    pub fn text(&self) -> String {
        let mut t = String::new();
        for (k, v) in &self.kv {
            t.push_str(&format!("{}={}\n", k, v));
        }
        for f in &self.faults {
            t.push_str(&format!("fault {}\n", f.join(" ")));
        }
        for o in &self.ops {
            t.push_str(&format!("op {}\n", o.join(" ")));
        }
        t
    }
    pub fn parse(t: &str) -> Scn {
        let mut s = Scn::default();
        for l in t.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            if let Some(x) = l.strip_prefix("fault ") {
                s.fault(x.into());
            } else if let Some(x) = l.strip_prefix("op ") {
                s.op(x.into());
            } else if let Some((k, v)) = l.split_once('=') {
                s.kv.insert(k.into(), v.into());
            }
        }
        s
    }
}

/// `key=value` among the tokens of an op or fault
pub fn arg<'a>(o: &'a [String], k: &str) -> Option<&'a str> {
    o.iter().find_map(|x| x.strip_prefix(k).and_then(|x| x.strip_prefix('=')))
}
/// positional numeric arguments (tokens without `=`)
pub fn pos(o: &[String]) -> Vec<u64> {
    o.iter()
        .skip(1)
        .filter(|x| !x.contains('='))
        .filter_map(|x| x.parse().ok())
        .collect()
}
