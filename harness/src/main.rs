//! Deterministic simulation of abe_gpsw: see ../../DESIGN.md.
mod alloc;
mod back;
mod entropy;
mod ffi;
mod fixture;
mod fresh;
mod model;
mod native;
mod plans;
mod remote;
mod report;
mod rng;
mod runner;
mod sched;
mod shm;
mod sys;
#[cfg(feature = "toy")]
mod toy;
mod tsan;
mod world;

use report::Report;
use serde::{Deserialize, Serialize};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// one simulated execution; everything it does follows from this value
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(tag = "family")]
pub enum Case {
    Setup { seed: u64 },
    Native(native::Case),
    Fresh(fresh::Case),
    World(world::Case),
}

impl Case {
    pub fn gen(_prop: &str, profile: &str, seed: u64) -> Case {
        if profile.starts_with("world") {
            return Case::World(world::gen(profile, seed));
        }
        if profile.starts_with("fresh") {
            return Case::Fresh(fresh::gen(profile, seed, fixture::fx().seed));
        }
        Case::Native(native::gen(profile, seed, fixture::fx().seed))
    }
    pub fn run(&self) -> Report {
        match self {
            Case::Setup { seed } => fixture::report(*seed),
            Case::Native(c) => c.run(),
            Case::Fresh(c) => c.run(),
            Case::World(c) => c.run(),
        }
    }
    pub fn shrinks(&self, rep: &Report) -> Vec<Case> {
        match self {
            Case::Setup { .. } => vec![],
            Case::Native(c) => c.shrinks(rep).into_iter().map(Case::Native).collect(),
            Case::World(c) => c.shrinks().into_iter().map(Case::World).collect(),
            Case::Fresh(c) => c.shrinks().into_iter().map(Case::Fresh).collect(),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Case::Setup { .. } => 1,
            Case::Native(c) => c.size(),
            Case::World(c) => c.size(),
            Case::Fresh(c) => c.size(),
        }
    }
    pub fn fixture_seed(&self) -> Option<u64> {
        match self {
            Case::Setup { seed } => Some(*seed),
            Case::Native(c) => Some(c.fx),
            Case::Fresh(c) => Some(c.fx),
            Case::World(_) => None,
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let flag = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |n: &str, d: f64| flag(n).map_or(d, |x| x.parse().expect(n));
    let usage = || -> ! {
        eprintln!("sim check PROP [--seed N] [--tier quick|thorough] [--jobs N] [--cap S] [--out F] [--replays DIR] [--known F] [--scale X] [--only PROFILE]\nsim replay FILE\nsim determinism PROP [--seed N] [--tier T] [--n N]\nsim one PROP PROFILE INDEX [--seed N]");
        std::process::exit(2)
    };
    let seed = num("--seed", 1.0) as u64;
    let tier = flag("--tier").unwrap_or("quick".into());
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("check"), Some(p)) => runner::check(&runner::Opt {
            prop: p.clone(),
            seed,
            jobs: num("--jobs", 8.0) as usize,
            cap_s: num("--cap", if tier == "quick" { 240.0 } else { 3000.0 }),
            tier,
            out: flag("--out"),
            replays: flag("--replays").unwrap_or("/verif/replays".into()),
            known: flag("--known"),
            scale: num("--scale", 1.0),
            only: flag("--only"),
        }),
        (Some("replay"), Some(f)) => runner::replay(f),
        (Some("determinism"), Some(p)) => runner::determinism(p, &tier, seed, num("--n", 10.0) as u64),
        (Some("one"), Some(p)) => runner::one(p, &a[3], seed, a[4].parse().unwrap()),
        _ => usage(),
    };
    std::process::exit(code);
}
