use crate::tape::hash_bytes;
use std::collections::BTreeMap;

/// What one case looked like, for the evidence file.
#[derive(Default)]
pub struct Stats {
    pub classes: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub key: u64,
    pub want_sample: bool,
    pub sample: Option<String>,
    /// runs of the code under test
    pub runs: u64,
}

impl Stats {
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_insert(0) += 1;
    }

    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.class(c);
        }
    }

    /// Count this case as non-trivial with the identity `key`.
    pub fn nontrivial(&mut self, cond: bool, key: &[u8]) {
        if cond {
            self.nontrivial = true;
            self.key = hash_bytes(self.key, key);
        }
    }

    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_sample {
            self.sample = Some(f());
        }
    }
}

pub type Check = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}
