use std::collections::BTreeMap;

#[derive(Default)]
pub struct Report {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub desc: String,
    pub evals: u64,
}

#[derive(Debug, Clone)]
pub struct Failure {
    pub class: String,
    pub message: String,
}

pub type CaseResult = Result<(), Failure>;

impl Report {
    pub fn label(&mut self, l: &str) {
        if let Some(v) = self.labels.get_mut(l) {
            *v += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l);
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
}

pub fn fail<T>(class: impl Into<String>, message: impl Into<String>) -> Result<T, Failure> {
    Err(Failure {
        class: class.into(),
        message: message.into(),
    })
}

pub fn hash64(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    h ^ (h >> 29)
}
