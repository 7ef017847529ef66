//! Runs many simulated cases, each in its own process, finds violations,
//! minimises them and writes the evidence.
use crate::report::{Report, Viol};
use crate::shm;
use crate::{plans, Case};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::sync::atomic::Ordering::*;

const HANG_S: f64 = 90.0;

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub profile: String,
    pub seed: u64,
    pub index: u64,
    pub sig: String,
    pub msg: String,
    pub minimised: Value,
    pub case: Case,
}

pub fn silence() {
    unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if fd >= 0 && std::env::var_os("SIM_VERBOSE").is_none() {
            libc::dup2(fd, 2);
        }
    }
}

struct Child {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
}

fn spawn(sh: *mut shm::Shm, f: impl FnOnce(&mut dyn FnMut(&Report))) -> Child {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            silence();
            shm::attach(sh);
            shm::clear();
            shm::install();
            let fd = p[1];
            f(&mut |r: &Report| {
                let mut b = serde_json::to_vec(r).unwrap();
                b.push(b'\n');
                let mut o = 0;
                while o < b.len() {
                    let n = libc::write(fd, b[o..].as_ptr().cast(), b.len() - o);
                    if n <= 0 {
                        libc::_exit(98);
                    }
                    o += n as usize;
                }
                shm::clear();
            });
            libc::_exit(0);
        }
        libc::close(p[1]);
        Child { pid, fd: p[0], buf: vec![] }
    }
}

enum Ev {
    Report(Box<Report>),
    /// exit status, or None when it hung and was killed
    End(Option<i32>),
}

impl Child {
    fn next(&mut self) -> Ev {
        loop {
            if let Some(p) = self.buf.iter().position(|c| *c == b'\n') {
                let l: Vec<u8> = self.buf.drain(..=p).collect();
                return Ev::Report(Box::new(serde_json::from_slice(&l).expect("report")));
            }
            let mut pf = libc::pollfd { fd: self.fd, events: libc::POLLIN, revents: 0 };
            let n = unsafe { libc::poll(&mut pf, 1, (HANG_S * 1000.0) as i32) };
            if n == 0 {
                unsafe { libc::kill(self.pid, libc::SIGKILL) };
                self.reap();
                return Ev::End(None);
            }
            let mut b = [0u8; 65536];
            let n = unsafe { libc::read(self.fd, b.as_mut_ptr().cast(), b.len()) };
            if n > 0 {
                self.buf.extend(&b[..n as usize]);
            } else {
                return Ev::End(Some(self.reap()));
            }
        }
    }
    fn reap(&mut self) -> i32 {
        let mut st = 0;
        unsafe {
            libc::waitpid(self.pid, &mut st, 0);
            libc::close(self.fd);
        }
        st
    }
}

/// the report of a case whose process died
fn died(st: Option<i32>) -> Report {
    let (mut note, panic) = shm::crash();
    let mut r = Report { switches: shm::switches(), ..Default::default() };
    if st.is_some_and(|s| libc::WIFEXITED(s) && libc::WEXITSTATUS(s) == 97) {
        // no helper process could be started: says nothing about the code
        r.inc("helper_unavailable", 1);
        return r;
    }
    let what = match st {
        None => {
            note = shm::main_note();
            ("hang", format!("no progress for {HANG_S} s"))
        }
        Some(s) if libc::WIFEXITED(s) && libc::WEXITSTATUS(s) == crate::alloc::EXIT_MEMORY => {
            ("memory", "an allocation out of proportion to the input".to_string())
        }
        Some(s) if libc::WIFEXITED(s) && libc::WEXITSTATUS(s) == 99 => {
            let sig = shm::get().map_or(0, |p| p.crash_sig.load(SeqCst));
            ("crash", format!("signal {sig}"))
        }
        Some(s) => ("crash", format!("wait status {s:#x}")),
    };
    if note.is_empty() {
        note = shm::main_note();
    }
    let mut parts = note.splitn(3, '|');
    let props = parts.next().unwrap_or("").to_string();
    let kind = parts.next().unwrap_or("unknown").to_string();
    let desc = parts.next().unwrap_or("").to_string();
    let props = if props.is_empty() { "*".to_string() } else { props };
    r.v(&props, &format!("{}:{}", what.0, kind), format!("{}: {} while {} {} {}", what.0, what.1, kind, desc, panic));
    r
}

pub fn run_one(sh: *mut shm::Shm, case: &Case) -> Report {
    shm::attach(sh);
    let mut c = spawn(sh, |out| out(&case.run()));
    let mut rep = None;
    loop {
        match c.next() {
            Ev::Report(r) => rep = Some(*r),
            Ev::End(st) => {
                return match (rep, st) {
                    (Some(r), _) => r,
                    (None, st) => died(st),
                }
            }
        }
    }
}

pub struct Found {
    pub plan: usize,
    pub index: u64,
    pub viol: Viol,
    pub report: Report,
}

#[derive(Serialize, Deserialize)]
struct Line {
    plan: usize,
    index: u64,
    rep: Report,
    secs: f64,
}

pub struct Opt {
    pub prop: String,
    pub seed: u64,
    pub tier: String,
    pub jobs: usize,
    pub cap_s: f64,
    pub out: Option<String>,
    pub replays: String,
    pub known: Option<String>,
    pub scale: f64,
    pub only: Option<String>,
}

pub fn seed_of(o_seed: u64, profile: &str, index: u64) -> u64 {
    crate::rng::mix(o_seed ^ crate::rng::hash(profile.as_bytes()) ^ crate::rng::mix(index + 1))
}

pub fn concerns(v: &Viol, prop: &str) -> bool {
    v.props.iter().any(|p| p == prop || p == "*")
}

#[derive(Clone, Debug, Deserialize)]
pub struct Known {
    pub property: String,
    pub sig: String,
    pub what: String,
}
pub fn load_known(path: &Option<String>) -> Vec<Known> {
    let Some(p) = path else { return vec![] };
    let t = std::fs::read_to_string(p).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let l = l.trim();
        if l.starts_with('{') {
            v.push(serde_json::from_str(l).expect("known-findings line"));
        }
    }
    v
}

/// runs the plan; returns the exit code
pub fn check(o: &Opt) -> i32 {
    let t0 = crate::sys::wall();
    let known = load_known(&o.known);
    let is_known = |v: &Viol| known.iter().any(|k| k.property == o.prop && k.sig == v.sig);
    let mut plan = plans::plan(&o.prop, &o.tier);
    if let Some(x) = &o.only {
        plan.retain(|p| p.profile.contains(x.as_str()));
    }
    for p in plan.iter_mut() {
        p.count = ((p.count as f64 * o.scale).ceil() as u64).max(1);
    }
    // batches, interleaved so that a time cap cuts every profile alike
    let mut batches: Vec<(f64, usize, u64, u64)> = vec![];
    for (pi, p) in plan.iter().enumerate() {
        let mut i = 0;
        while i < p.count {
            let e = (i + p.batch).min(p.count);
            batches.push(((i as f64 + 0.5) / p.count as f64, pi, i, e));
            i = e;
        }
    }
    batches.sort_by(|a, b| a.0.total_cmp(&b.0));

    // the objects the native cases work on
    let sh0 = shm::map();
    shm::attach(sh0);
    if plan.iter().any(|p| p.profile.starts_with("native") || p.profile.starts_with("fresh")) {
        if let Err(e) = crate::fixture::prepare(o.seed, sh0) {
            let case = Case::Setup { seed: o.seed };
            let path = write_replay(o, "setup", 0, &Viol { props: vec![o.prop.clone()], sig: "setup".into(), msg: e.clone() }, &case, json!({}));
            println!("{e}");
            println!("VIOLATION property={} replay={}", o.prop, path);
            return 1;
        }
    }

    let global = shm::map();
    let mut workers = vec![];
    for w in 0..o.jobs {
        unsafe {
            let mut p = [0i32; 2];
            assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
            let _ = std::io::stdout().flush();
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(p[0]);
                worker(o, &plan, &batches, global, p[1], t0);
                libc::_exit(0);
            }
            libc::close(p[1]);
            workers.push((pid, p[0], Vec::<u8>::new(), w));
        }
    }
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut logs: HashSet<u64> = HashSet::new();
    let mut per: Vec<(u64, u64, f64)> = vec![(0, 0, 0.0); plan.len()];
    let mut found: Vec<Found> = vec![];
    let mut knowns: BTreeSet<String> = BTreeSet::new();
    let (mut evals, mut sim_ns, mut nontriv) = (0u64, 0u64, 0u64);
    let mut open: Vec<usize> = (0..workers.len()).collect();
    while !open.is_empty() {
        let mut pf: Vec<libc::pollfd> =
            open.iter().map(|i| libc::pollfd { fd: workers[*i].1, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, -1) };
        let mut closed = vec![];
        for (k, f) in pf.iter().enumerate() {
            if f.revents == 0 {
                continue;
            }
            let wi = open[k];
            let mut b = vec![0u8; 1 << 16];
            let n = unsafe { libc::read(f.fd, b.as_mut_ptr().cast(), b.len()) };
            if n <= 0 {
                closed.push(wi);
                continue;
            }
            workers[wi].2.extend(&b[..n as usize]);
            while let Some(p) = workers[wi].2.iter().position(|c| *c == b'\n') {
                let l: Vec<u8> = workers[wi].2.drain(..=p).collect();
                let l: Line = serde_json::from_slice(&l).expect("line");
                evals += 1;
                per[l.plan].0 += 1;
                per[l.plan].2 += l.secs;
                sim_ns += l.rep.sim_ns;
                for (k, v) in &l.rep.stats {
                    *stats.entry(k.clone()).or_default() += v;
                }
                states.extend(l.rep.states.iter().copied());
                if l.rep.nontrivial && logs.insert(l.rep.log) {
                    nontriv += 1;
                    per[l.plan].1 += 1;
                }
                for v in &l.rep.viol {
                    if !concerns(v, &o.prop) {
                        *stats.entry("violations_of_other_properties".into()).or_default() += 1;
                        continue;
                    }
                    if is_known(v) {
                        knowns.insert(v.sig.clone());
                        continue;
                    }
                    found.push(Found { plan: l.plan, index: l.index, viol: v.clone(), report: l.rep.clone() });
                    unsafe { (*global).stop.store(1, SeqCst) };
                }
            }
        }
        open.retain(|i| !closed.contains(i));
    }
    for w in &workers {
        let mut st = 0;
        unsafe { libc::waitpid(w.0, &mut st, 0) };
        if st != 0 {
            eprintln!("harness error: worker {} ended with status {st:#x}", w.3);
            return 3;
        }
    }
    let search_s = crate::sys::wall() - t0;
    for k in &known {
        if k.property == o.prop && knowns.contains(&k.sig) {
            println!("KNOWN-FINDING: property={} {}", o.prop, k.what);
        }
    }
    let mut code = 0;
    found.sort_by_key(|f| (f.index, f.plan));
    if let Some(f) = found.first() {
        let prof = plan[f.plan].profile.clone();
        let case = Case::gen(&o.prop, &prof, seed_of(o.seed, &prof, f.index));
        let (case, viol, info) = minimise(o, sh0, case, f);
        let path = write_replay(o, &prof, f.index, &viol, &case, info);
        println!("{}: {}", viol.sig, viol.msg);
        println!("VIOLATION property={} replay={}", o.prop, path);
        code = 1;
    }
    if let Some(out) = &o.out {
        let mut samples = vec![];
        for (pi, p) in plan.iter().enumerate().take(4) {
            let c = Case::gen(&o.prop, &p.profile, seed_of(o.seed, &p.profile, 0));
            let mut s = serde_json::to_string(&c).unwrap();
            s.truncate(s.char_indices().nth(1500).map_or(s.len(), |x| x.0));
            samples.push(json!({"profile": p.profile, "index": 0, "case": s, "cases_run": per[pi].0}));
        }
        let profiles: Vec<Value> = plan
            .iter()
            .enumerate()
            .map(|(i, p)| json!({"profile": p.profile, "planned": p.count, "run": per[i].0, "distinct_nontrivial": per[i].1, "cpu_s": (per[i].2 * 10.0).round() / 10.0}))
            .collect();
        let (real, stub) = plans::components(&plan);
        let faults: BTreeMap<String, u64> =
            stats.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| (k[6..].to_string(), *v)).collect();
        let other: BTreeMap<String, u64> =
            stats.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| (k.clone(), *v)).collect();
        let e = json!({
            "property": o.prop, "tier": o.tier, "seed": o.seed, "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": nontriv,
                "rule": "one case = one simulated execution decided by one seed (workload, schedule and faults are drawn from it); non-trivial: at least one operation of the property's kind was carried out and checked; distinct: different event-log hash",
                "samples": samples,
                "profiles": profiles,
                "runs_per_hour": (evals as f64 / search_s.max(0.001) * 3600.0) as u64,
                "seeds_per_hour": (evals as f64 / search_s.max(0.001) * 3600.0) as u64,
                "simulated_seconds": sim_ns / 1_000_000_000,
                "faults_fired": faults,
                "distinct_states": states.len(),
                "state_measure": plans::measure(&o.prop),
                "counters": other,
                "real_components": real,
                "stubbed_components": stub,
                "search_s": search_s,
                "known_findings_seen": knowns.iter().collect::<Vec<_>>(),
            },
            "assumptions": plans::assumptions(&o.prop),
            "wall_s": crate::sys::wall() - t0,
            "violations": found.len(),
        });
        if let Err(e) = std::fs::write(out, serde_json::to_string_pretty(&e).unwrap() + "\n") {
            eprintln!("harness error: cannot write {out}: {e}");
            return 3;
        }
    }
    println!(
        "{}: {} cases ({} distinct non-trivial), {} states, {:.1} s{}",
        o.prop,
        evals,
        nontriv,
        states.len(),
        search_s,
        if code == 0 { "" } else { " - violated" }
    );
    code
}

fn worker(o: &Opt, plan: &[plans::Plan], batches: &[(f64, usize, u64, u64)], global: *mut shm::Shm, fd: i32, t0: f64) {
    let sh = shm::map();
    let g = unsafe { &mut *global };
    let send = |l: &Line| {
        let mut b = serde_json::to_vec(l).unwrap();
        b.push(b'\n');
        let mut w = 0;
        while w < b.len() {
            let n = unsafe { libc::write(fd, b[w..].as_ptr().cast(), b.len() - w) };
            assert!(n > 0);
            w += n as usize;
        }
    };
    loop {
        let b = g.next.fetch_add(1, SeqCst) as usize;
        if b >= batches.len() || g.stop.load(SeqCst) != 0 || crate::sys::wall() - t0 > o.cap_s {
            return;
        }
        let (_, pi, lo, hi) = batches[b];
        let mut at = lo;
        while at < hi && g.stop.load(SeqCst) == 0 {
            shm::attach(sh);
            let prof = &plan[pi].profile;
            let i = at;
            at += 1;
            let t = crate::sys::wall();
            // a process of its own: nothing is left of earlier cases
            let mut c = spawn(sh, |out| out(&Case::gen(&o.prop, prof, seed_of(o.seed, prof, i)).run()));
            let mut rep = None;
            let st = loop {
                match c.next() {
                    Ev::Report(r) => rep = Some(*r),
                    Ev::End(st) => break st,
                }
            };
            let rep = rep.unwrap_or_else(|| died(st));
            send(&Line { plan: pi, index: i, rep, secs: crate::sys::wall() - t });
        }
    }
}

fn write_replay(o: &Opt, prof: &str, index: u64, v: &Viol, case: &Case, info: Value) -> String {
    let r = Replay {
        property: o.prop.clone(),
        profile: prof.to_string(),
        seed: o.seed,
        index,
        sig: v.sig.clone(),
        msg: v.msg.clone(),
        minimised: info,
        case: case.clone(),
    };
    let _ = std::fs::create_dir_all(&o.replays);
    let path = format!("{}/{}-{}-{}-{}.json", o.replays, o.prop, prof, o.seed, index);
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap() + "\n").expect("replay file");
    path
}

fn minimise(o: &Opt, sh: *mut shm::Shm, case: Case, f: &Found) -> (Case, Viol, Value) {
    let t0 = crate::sys::wall();
    let budget = if o.tier == "quick" { 40.0 } else { 180.0 };
    let known = load_known(&o.known);
    let hit = |r: &Report, sig: &str| -> Option<Viol> {
        r.viol
            .iter()
            .find(|v| v.sig == sig && concerns(v, &o.prop) && !known.iter().any(|k| k.property == o.prop && k.sig == v.sig))
            .cloned()
    };
    let sig = f.viol.sig.clone();
    let mut best = case;
    let mut viol = f.viol.clone();
    let start = best.size();
    let mut rep = run_one(sh, &best);
    let mut tried = 1;
    match hit(&rep, &sig) {
        // depends on what the process did before: the whole case is still the reproduction
        None => return (best, viol, json!({"reproduced": false})),
        Some(v) => viol = v,
    }
    'outer: loop {
        for c in best.shrinks(&rep) {
            if crate::sys::wall() - t0 > budget {
                break 'outer;
            }
            tried += 1;
            let r = run_one(sh, &c);
            if let Some(v) = hit(&r, &sig) {
                viol = v;
                best = c;
                rep = r;
                continue 'outer;
            }
        }
        break;
    }
    let n = best.size();
    (best, viol, json!({"reproduced": true, "size_before": start, "size_after": n, "executions": tried}))
}

pub fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let r: Replay = serde_json::from_str(&t).expect("replay file");
    let sh = shm::map();
    shm::attach(sh);
    if let Err(e) = crate::fixture::prepare(r.case.fixture_seed().unwrap_or(r.seed), sh) {
        println!("{e}");
        if matches!(r.case, Case::Setup { .. }) {
            println!("VIOLATION property={} replay={}", r.property, path);
            return 1;
        }
        return 3;
    }
    let rep = run_one(sh, &r.case);
    for e in &rep.events {
        println!("  {e}");
    }
    for v in &rep.viol {
        println!("{} {}: {}", v.props.join(" "), v.sig, v.msg);
    }
    if rep.viol.iter().any(|v| v.sig == r.sig && concerns(v, &r.property)) {
        println!("VIOLATION property={} replay={}", r.property, path);
        1
    } else {
        println!("not reproduced");
        0
    }
}

/// every case twice, in different processes: the event logs must be identical
pub fn determinism(prop: &str, tier: &str, seed: u64, n: u64) -> i32 {
    let sh = shm::map();
    shm::attach(sh);
    crate::fixture::prepare(seed, sh).expect("fixture");
    let mut bad = 0;
    let mut total = 0;
    for p in plans::plan(prop, tier) {
        for i in 0..n.min(p.count) {
            let c = Case::gen(prop, &p.profile, seed_of(seed, &p.profile, i));
            let a = run_one(sh, &c);
            let b = run_one(sh, &c);
            total += 1;
            if a.log != b.log || a.switches != b.switches || a.viol != b.viol {
                bad += 1;
                println!("{} {} differs: {:x} {:x} switches {} {} viol {:?} {:?}", p.profile, i, a.log, b.log, a.switches.len(), b.switches.len(), a.viol, b.viol);
            }
        }
    }
    println!("{prop}: {total} cases twice, {bad} differ");
    i32::from(bad > 0)
}

/// one generated case, with its events
pub fn one(prop: &str, profile: &str, seed: u64, index: u64) -> i32 {
    let sh = shm::map();
    shm::attach(sh);
    crate::fixture::prepare(seed, sh).expect("fixture");
    let c = Case::gen(prop, profile, seed_of(seed, profile, index));
    println!("{}", serde_json::to_string(&c).unwrap());
    let t = crate::sys::wall();
    let r = run_one(sh, &c);
    for e in &r.events {
        println!("  {e}");
    }
    println!("{:?} log {:x} {:.3} s", r.stats, r.log, crate::sys::wall() - t);
    for v in &r.viol {
        println!("{} {}: {}", v.props.join(" "), v.sig, v.msg);
    }
    0
}
