//! What a simulated run found.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// properties this breaks
    pub props: Vec<String>,
    /// class of the violation (stable under minimisation)
    pub sig: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub viol: Vec<Viol>,
    pub stats: BTreeMap<String, u64>,
    /// what was reached, by the family's measure
    pub states: Vec<u64>,
    /// hash of the event log
    pub log: u64,
    pub nontrivial: bool,
    /// schedule that was taken
    pub switches: Vec<(u16, u64, u16)>,
    pub spurious: Vec<(u16, u64)>,
    pub sim_ns: u64,
    #[serde(default)]
    pub events: Vec<String>,
}

impl Report {
    pub fn v(&mut self, props: &str, sig: &str, msg: impl Into<String>) {
        if self.viol.len() < 40 {
            let mut m: String = msg.into();
            if m.len() > 1500 {
                let mut n = 1500;
                while !m.is_char_boundary(n) {
                    n -= 1;
                }
                m.truncate(n);
            }
            self.viol.push(Viol {
                props: props.split_whitespace().map(String::from).collect(),
                sig: sig.into(),
                msg: m,
            });
        }
    }
    pub fn inc(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.stats.entry(k.to_string()).or_default() += n;
        }
    }
    pub fn ev(&mut self, s: &str) {
        self.log = crate::rng::mix(self.log ^ crate::rng::hash(s.as_bytes()));
        if std::env::var_os("SIM_EVENTS").is_some() {
            self.events.push(s.to_string());
        }
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 4000 {
            self.states.push(h);
        }
    }
}
