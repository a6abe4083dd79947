pub mod app;
pub mod cost;
pub mod extra;
pub mod h1p;
pub mod h2p;
pub mod nested;
pub mod partial;
pub mod scale;
pub mod utilp;

use crate::stats::{Check, Stats};
use crate::tape::Src;

pub struct Prop {
    pub id: &'static str,
    pub f: fn(&mut Src, &mut Stats) -> Check,
    /// cases enumerated completely on every run, before the random ones
    pub enumerated: u64,
    pub e: fn(u64, &mut Stats) -> Check,
    /// long histories (scale.rs), after the enumerated cases
    pub long: u64,
    pub l: fn(u64, &mut Stats) -> Check,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

impl Prop {
    /// Cases with fixed numbers, below those of the random ones.
    pub fn fixed(&self) -> u64 {
        self.enumerated + self.long
    }
    pub fn run_fixed(&self, i: u64, st: &mut Stats) -> Check {
        if i < self.long {
            (self.l)(i, st)
        } else {
            (self.e)(i - self.long, st)
        }
    }
}

pub fn no_enum(_: u64, _: &mut Stats) -> Check {
    Ok(())
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    h1p::register(&mut v);
    h2p::register(&mut v);
    utilp::register(&mut v);
    extra::register(&mut v);
    cost::register(&mut v);
    partial::register(&mut v);
    nested::register(&mut v);
    app::register(&mut v);
    scale::register(&mut v);
    v
}
