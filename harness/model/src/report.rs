//! What a checker writes for the driver: one JSON object per line.
use std::collections::BTreeMap;
use std::fmt::Write as _;

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// Hex of a 64-bit FNV hash, for signatures.
pub fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub suppressed: u64,
    pub samples: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable identification of what failed (used by the known-findings file).
    pub key: String,
    pub what: String,
    pub detail: Vec<(String, String)>,
}
impl Report {
    pub fn count(&mut self, k: &str, n: u64) {
        match self.counts.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxima.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
    pub fn violation(&mut self, key: &str, what: &str, detail: &[(&str, &str)]) {
        if self.violations.len() >= 40 {
            self.suppressed += 1;
            return;
        }
        self.violations.push(Violation {
            key: key.into(),
            what: what.into(),
            detail: detail.iter().map(|(a, b)| (a.to_string(), b.chars().take(4000).collect())).collect(),
        });
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 8 {
            self.samples.push(s.chars().take(600).collect());
        }
    }
    pub fn merge(&mut self, o: Report) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_default();
            *e = (*e).max(v);
        }
        self.violations.extend(o.violations);
        self.suppressed += o.suppressed;
        self.samples.extend(o.samples);
        self.samples.truncate(8);
    }
    pub fn json(&self) -> String {
        let mut o = String::from("{\"counts\":{");
        let kv = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(",");
        o.push_str(&kv(&self.counts));
        o.push_str("},\"maxima\":{");
        o.push_str(&kv(&self.maxima));
        let _ = write!(o, "}},\"suppressed\":{},\"samples\":[", self.suppressed);
        o.push_str(&self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
        o.push_str("],\"violations\":[");
        let v: Vec<String> = self
            .violations
            .iter()
            .map(|v| {
                let d: Vec<String> = v.detail.iter().map(|(a, b)| format!("{}:{}", esc(a), esc(b))).collect();
                format!("{{\"key\":{},\"what\":{},\"detail\":{{{}}}}}", esc(&v.key), esc(&v.what), d.join(","))
            })
            .collect();
        o.push_str(&v.join(","));
        o.push_str("]}");
        o
    }
    /// Write to the path in `VERIF_OUT` (or stdout) and exit 0.
    pub fn finish(&self) {
        match std::env::var("VERIF_OUT") {
            Ok(p) => std::fs::write(p, self.json()).expect("write report"),
            Err(_) => println!("{}", self.json()),
        }
    }
}
