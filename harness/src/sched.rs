//! Deterministic scheduler of real threads.
//!
//! Each simulated task is a real thread (so thread-locals are the real ones),
//! but only the holder of the baton runs. The baton moves at scheduling
//! points: every instrumented memory access, atomic operation and function
//! entry of the crate under test (see tsan.rs), every futex system call and
//! every entropy draw. Which point is taken, and who runs next, is decided by a
//! seeded strategy or by an explicit list of switches (replay).
//! Futexes are simulated (wait queues, timeouts against the simulated clock,
//! spurious wake-ups), so that a deadlock is "no task can run" rather than a
//! timeout.
use crate::rng::{mix, Rng};
use crate::sys::{futex_wait_raw, futex_wake_raw};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Strategy {
    /// preempt at an atomic/static/system point with probability `strong`,
    /// and at any instrumented point every `weak` points on average (0: never)
    Random { strong: f64, weak: u64 },
    /// priorities with `depth` change points among the first `span` points
    Pct { depth: usize, span: u64 },
    /// exactly these switches: (task, step of this task, next task)
    Replay(Vec<(u16, u64, u16)>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Config {
    pub seed: u64,
    pub strategy: Strategy,
    /// probability that a futex wait returns without a wake-up
    pub spurious: f64,
    /// probability, at a preemption, that the preempted task is stalled for a while
    pub stall: f64,
    /// spurious wake-ups to inject in a replay: (task, index of the wait)
    #[serde(default)]
    pub spurious_at: Vec<(u16, u64)>,
}

impl Config {
    pub fn serial(seed: u64) -> Self {
        Config { seed, strategy: Strategy::Replay(vec![]), spurious: 0.0, stall: 0.0, spurious_at: vec![] }
    }
    /// swarm: every run gets its own mix
    pub fn random(r: &mut Rng) -> Self {
        let strategy = if r.chance(0.75) {
            Strategy::Random {
                strong: *r.pick(&[0.0, 0.01, 0.05, 0.2, 0.5, 0.9]),
                weak: *r.pick(&[0, 0, 20, 200, 2_000, 20_000]),
            }
        } else {
            Strategy::Pct { depth: r.range(1, 6), span: *r.pick(&[300, 3_000, 30_000]) }
        };
        Config {
            seed: r.next(),
            strategy,
            spurious: *r.pick(&[0.0, 0.0, 0.1, 0.5]),
            stall: *r.pick(&[0.0, 0.0, 0.05, 0.3]),
            spurious_at: vec![],
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked { addr: usize, bits: u32, deadline: u64 },
    Done,
}

struct Task {
    st: St,
    steps: u64,
    next_at: u64,
    waits: u64,
    timed_out: bool,
    stalled_until: u64,
    prio: i64,
    plan: Vec<(u64, u16)>,
    plan_pos: usize,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub switches: Vec<(u16, u64, u16)>,
    pub spurious: Vec<(u16, u64)>,
    pub steps: u64,
    pub strong_points: u64,
    pub deadlock: Option<String>,
    pub livelock: bool,
    pub stalls: u64,
    pub futex_waits: u64,
    pub timeouts: u64,
    pub preemptions: u64,
    pub trace_hash: u64,
}

struct Sched {
    cfg: Config,
    rng: Rng,
    tasks: Vec<Task>,
    cur: usize,
    total: u64,
    run_len: u64,
    limit: u64,
    pct_at: Vec<u64>,
    low_prio: i64,
    seq: u64,
    out: Outcome,
    over: bool,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut S: *mut Sched = std::ptr::null_mut();
static MAIN: AtomicU32 = AtomicU32::new(0);
const MAXT: usize = 16;
static BATON: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];

/// simulated clock (ns); nothing in the process sees the real one while it is on
static CLOCK_ON: AtomicBool = AtomicBool::new(false);
static NOW: AtomicU64 = AtomicU64::new(0);
static SKEW: AtomicU64 = AtomicU64::new(0);

const NONE: usize = usize::MAX;
/// a task that runs this long while others wait is preempted
const FAIR: u64 = 300_000;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(NONE) };
}

#[inline(always)]
fn me() -> Option<&'static mut Sched> {
    if !ACTIVE.load(Relaxed) {
        return None;
    }
    if TID.with(|t| t.get()) == NONE {
        return None;
    }
    unsafe { Some(&mut *S) }
}

/// a scheduling point of the code under test
#[inline]
pub fn point(strong: bool) {
    if let Some(s) = me() {
        s.point(strong);
    }
}

pub fn entropy_point() {
    point(true);
}

/// global sequence number for the recorded history
pub fn stamp() -> u64 {
    match me() {
        Some(s) => {
            s.seq += 1;
            s.seq
        }
        None => 0,
    }
}

pub fn current() -> usize {
    TID.with(|t| t.get())
}

pub fn task_steps() -> u64 {
    me().map_or(0, |s| s.tasks[s.cur].steps)
}

/// turns the simulated clock on
pub fn clock_on(start: u64) {
    NOW.store(start, SeqCst);
    SKEW.store(0, SeqCst);
    CLOCK_ON.store(true, SeqCst);
}
pub fn advance(ns: u64) {
    NOW.fetch_add(ns, SeqCst);
}
/// moves the wall clock (not the monotonic one)
pub fn jump_realtime(ns: i64) {
    SKEW.fetch_add(ns as u64, SeqCst);
}
pub fn now() -> u64 {
    NOW.load(SeqCst)
}

pub fn clock(id: i32, ts: *mut libc::timespec) -> bool {
    if !CLOCK_ON.load(Relaxed) {
        return false;
    }
    let mut n = NOW.fetch_add(1_000, SeqCst);
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        n = n.wrapping_add(SKEW.load(SeqCst)).wrapping_add(1_700_000_000_000_000_000);
    }
    unsafe {
        (*ts).tv_sec = (n / 1_000_000_000) as i64;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
    }
    true
}

pub fn sleep(req: &libc::timespec) -> bool {
    if !CLOCK_ON.load(Relaxed) {
        return false;
    }
    let ns = req.tv_sec as u64 * 1_000_000_000 + req.tv_nsec as u64;
    match me() {
        None => {
            NOW.fetch_add(ns, SeqCst);
        }
        Some(s) => {
            let dl = NOW.load(SeqCst) + ns;
            s.block(usize::MAX, 0, dl);
        }
    }
    true
}

/// sched_yield
pub fn pause() -> bool {
    match me() {
        None => false,
        Some(s) => {
            let c = s.cur;
            s.tasks[c].steps += 1;
            s.low_prio -= 1;
            s.tasks[c].prio = s.low_prio;
            s.preempt(true);
            true
        }
    }
}

pub fn futex(addr: usize, op: i32, val: u32, arg: usize, bits: u32) -> Option<isize> {
    let s = me()?;
    let cmd = op & 127;
    match cmd {
        0 | 9 => {
            s.point(true);
            s.out.futex_waits += 1;
            let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
            if cur != val {
                return Some(-11);
            }
            let c = s.cur;
            let w = s.tasks[c].waits;
            s.tasks[c].waits += 1;
            let sp = if matches!(s.cfg.strategy, Strategy::Replay(_)) {
                s.cfg.spurious_at.contains(&(c as u16, w))
            } else {
                s.cfg.spurious > 0.0 && s.rng.chance(s.cfg.spurious)
            };
            if sp {
                s.out.spurious.push((c as u16, w));
                return Some(if w % 2 == 0 { 0 } else { -4 });
            }
            let deadline = if arg == 0 {
                u64::MAX
            } else {
                let ts = unsafe { &*(arg as *const libc::timespec) };
                let ns = (ts.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(ts.tv_nsec as u64);
                if cmd == 0 {
                    NOW.load(SeqCst).saturating_add(ns)
                } else {
                    ns
                }
            };
            let to = s.block(addr, if cmd == 9 { bits } else { u32::MAX }, deadline);
            Some(if to { -110 } else { 0 })
        }
        1 | 10 => {
            s.point(true);
            let mask = if cmd == 10 { bits } else { u32::MAX };
            let mut w: Vec<usize> = (0..s.tasks.len())
                .filter(|i| matches!(s.tasks[*i].st, St::Blocked { addr: a, bits: b, .. } if a == addr && b & mask != 0))
                .collect();
            // which waiters are woken is not specified
            let k = mix(s.cfg.seed ^ s.tasks[s.cur].steps) as usize;
            if !w.is_empty() {
                let l = w.len();
                w.rotate_left(k % l);
            }
            let n = (val as usize).min(w.len());
            for i in &w[..n] {
                s.tasks[*i].st = St::Ready;
                s.tasks[*i].timed_out = false;
            }
            s.point(true);
            Some(n as isize)
        }
        _ => None,
    }
}

impl Sched {
    fn point(&mut self, strong: bool) {
        let c = self.cur;
        self.total += 1;
        self.run_len += 1;
        let t = &mut self.tasks[c];
        t.steps += 1;
        if strong {
            self.out.strong_points += 1;
        }
        let at = t.steps;
        if at >= t.next_at {
            match &self.cfg.strategy {
                Strategy::Replay(_) => {
                    let (_, n) = t.plan[t.plan_pos];
                    t.plan_pos += 1;
                    t.next_at = t.plan.get(t.plan_pos).map_or(u64::MAX, |p| p.0.max(at + 1));
                    let n = n as usize;
                    if n != c && n < self.tasks.len() && self.tasks[n].st == St::Ready {
                        self.switch(n);
                    }
                    return;
                }
                Strategy::Random { weak, .. } => {
                    let g = Self::gap(&mut self.rng, *weak);
                    self.tasks[c].next_at = at.saturating_add(g);
                    self.preempt(false);
                    return;
                }
                Strategy::Pct { .. } => {}
            }
        }
        match self.cfg.strategy {
            Strategy::Random { strong: p, .. } if strong && p > 0.0 => {
                if self.rng.chance(p) {
                    self.preempt(false);
                    return;
                }
            }
            Strategy::Pct { .. } => {
                if self.pct_at.last().is_some_and(|x| self.total >= *x) {
                    self.pct_at.pop();
                    self.low_prio -= 1;
                    self.tasks[c].prio = self.low_prio;
                    self.preempt(false);
                    return;
                }
            }
            _ => {}
        }
        if self.total >= self.limit {
            self.out.livelock = true;
            self.end();
        }
        if self.run_len >= FAIR {
            self.low_prio -= 1;
            self.tasks[c].prio = self.low_prio;
            self.preempt(true);
        }
    }

    fn gap(rng: &mut Rng, mean: u64) -> u64 {
        if mean == 0 {
            return u64::MAX;
        }
        let u = rng.f().max(1e-12);
        1 + (-(u.ln()) * mean as f64) as u64
    }

    fn ready(&self, other_than: usize) -> Vec<usize> {
        let all: Vec<usize> =
            (0..self.tasks.len()).filter(|i| *i != other_than && self.tasks[*i].st == St::Ready).collect();
        let awake: Vec<usize> = all.iter().copied().filter(|i| self.tasks[*i].stalled_until <= self.total).collect();
        if awake.is_empty() {
            all
        } else {
            awake
        }
    }

    fn preempt(&mut self, must: bool) {
        let c = self.cur;
        self.run_len = 0;
        let r = self.ready(c);
        if r.is_empty() {
            return;
        }
        let n = match self.cfg.strategy {
            Strategy::Pct { .. } => {
                let best = *r.iter().max_by_key(|i| self.tasks[**i].prio).unwrap();
                if !must && self.tasks[c].prio > self.tasks[best].prio {
                    return;
                }
                best
            }
            Strategy::Replay(_) => {
                // only reached for yields and fairness: round robin
                *r.iter().find(|i| **i > c).unwrap_or(&r[0])
            }
            _ => *self.rng.pick(&r),
        };
        if self.cfg.stall > 0.0 && !matches!(self.cfg.strategy, Strategy::Replay(_)) && self.rng.chance(self.cfg.stall) {
            let len = *self.rng.pick(&[100u64, 3_000, 100_000]);
            self.tasks[c].stalled_until = self.total + len;
            self.out.stalls += 1;
        }
        self.out.preemptions += 1;
        self.switch(n);
    }

    /// the current task is not runnable any more: somebody else must run
    fn forced(&mut self) -> Option<usize> {
        let c = self.cur;
        self.run_len = 0;
        let mut r = self.ready(c);
        if r.is_empty() {
            // let simulated time pass until the next timeout
            let mut best: Option<(u64, usize)> = None;
            for (i, t) in self.tasks.iter().enumerate() {
                if let St::Blocked { deadline, .. } = t.st {
                    if deadline != u64::MAX && best.is_none_or(|b| deadline < b.0) {
                        best = Some((deadline, i));
                    }
                }
            }
            let (dl, i) = best?;
            NOW.fetch_max(dl, SeqCst);
            self.out.timeouts += 1;
            self.tasks[i].st = St::Ready;
            self.tasks[i].timed_out = true;
            r = vec![i];
        }
        Some(match self.cfg.strategy {
            Strategy::Pct { .. } => *r.iter().max_by_key(|i| self.tasks[**i].prio).unwrap(),
            Strategy::Replay(_) => {
                let t = &mut self.tasks[c];
                let at = t.steps;
                let mut pick = None;
                if let Some((s, n)) = t.plan.get(t.plan_pos).copied() {
                    if s == at {
                        t.plan_pos += 1;
                        t.next_at = t.plan.get(t.plan_pos).map_or(u64::MAX, |p| p.0);
                        if r.contains(&(n as usize)) {
                            pick = Some(n as usize);
                        }
                    }
                }
                pick.unwrap_or(r[0])
            }
            _ => *self.rng.pick(&r),
        })
    }

    fn switch(&mut self, n: usize) {
        let c = self.cur;
        let st = self.tasks[c].steps;
        self.out.switches.push((c as u16, st, n as u16));
        crate::shm::switch(c as u16, st, n as u16);
        self.out.trace_hash = mix(self.out.trace_hash ^ mix(((c as u64) << 56) ^ ((n as u64) << 48) ^ st));
        if n == c {
            return;
        }
        self.cur = n;
        pass(n);
        wait(c);
    }

    fn block(&mut self, addr: usize, bits: u32, deadline: u64) -> bool {
        let c = self.cur;
        self.tasks[c].st = St::Blocked { addr, bits, deadline };
        self.tasks[c].timed_out = false;
        match self.forced() {
            None => {
                let d = self
                    .tasks
                    .iter()
                    .enumerate()
                    .filter(|(_, t)| matches!(t.st, St::Blocked { .. }))
                    .map(|(i, _)| format!("task {i} blocked"))
                    .collect::<Vec<_>>()
                    .join(", ");
                self.out.deadlock = Some(d);
                self.end();
            }
            Some(n) => {
                self.switch(n);
            }
        }
        self.tasks[c].timed_out
    }

    /// stops the simulation: the main thread takes over, this thread never runs again
    fn end(&mut self) -> ! {
        self.over = true;
        ACTIVE.store(false, SeqCst);
        MAIN.store(1, SeqCst);
        futex_wake_raw(&MAIN);
        park()
    }
}

fn pass(n: usize) {
    BATON[n].store(1, SeqCst);
    futex_wake_raw(&BATON[n]);
}
fn wait(c: usize) {
    while BATON[c].swap(0, SeqCst) == 0 {
        futex_wait_raw(&BATON[c], 0);
    }
}
fn park() -> ! {
    let z = AtomicU32::new(0);
    loop {
        futex_wait_raw(&z, 0);
    }
}

/// Runs the tasks under the given configuration. Returns when all are done, or
/// when they deadlock or exceed the step limit; tasks that did not finish stay
/// parked for ever, so the calling process should end soon after.
pub fn run(tasks: Vec<Box<dyn FnOnce() + Send>>, cfg: &Config, limit: u64) -> Outcome {
    let n = tasks.len();
    assert!(n > 0 && n <= MAXT);
    let mut rng = Rng::of(&[cfg.seed, 77]);
    let mut prios: Vec<i64> = (1..=n as i64).collect();
    rng.shuffle(&mut prios);
    let mut pct_at = vec![];
    if let Strategy::Pct { depth, span } = cfg.strategy {
        pct_at = (0..depth).map(|_| 1 + rng.below(span as usize) as u64).collect();
        pct_at.sort_by(|a, b| b.cmp(a));
    }
    let ts = (0..n)
        .map(|i| {
            let plan: Vec<(u64, u16)> = match &cfg.strategy {
                Strategy::Replay(v) => v.iter().filter(|x| x.0 as usize == i).map(|x| (x.1, x.2)).collect(),
                _ => vec![],
            };
            let next_at = match &cfg.strategy {
                Strategy::Random { weak, .. } => Sched::gap(&mut rng, *weak),
                Strategy::Replay(_) => plan.first().map_or(u64::MAX, |p| p.0),
                Strategy::Pct { .. } => u64::MAX,
            };
            Task { st: St::Ready, steps: 0, next_at, waits: 0, timed_out: false, stalled_until: 0, prio: prios[i], plan, plan_pos: 0 }
        })
        .collect::<Vec<_>>();
    let first = match cfg.strategy {
        Strategy::Pct { .. } => (0..n).max_by_key(|i| prios[*i]).unwrap(),
        Strategy::Replay(_) => 0,
        _ => rng.below(n),
    };
    let sched = Box::new(Sched {
        cfg: cfg.clone(),
        rng,
        tasks: ts,
        cur: first,
        total: 0,
        run_len: 0,
        limit,
        pct_at,
        low_prio: 0,
        seq: 0,
        out: Outcome::default(),
        over: false,
    });
    for (i, t) in tasks.into_iter().enumerate() {
        BATON[i].store(0, SeqCst);
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                wait(i);
                TID.with(|c| c.set(i));
                t();
                // done: hand the baton over, and never exit (thread exit is not simulated)
                let s = unsafe { &mut *S };
                s.tasks[i].st = St::Done;
                TID.with(|c| c.set(NONE));
                if s.tasks.iter().all(|t| t.st == St::Done) {
                    s.end();
                }
                match s.forced() {
                    Some(n) => {
                        let st = s.tasks[i].steps;
                        s.out.switches.push((i as u16, st, n as u16));
                        crate::shm::switch(i as u16, st, n as u16);
                        s.cur = n;
                        pass(n);
                        park()
                    }
                    None => {
                        s.out.deadlock = Some("the remaining tasks are blocked".to_string());
                        s.end();
                    }
                }
            })
            .expect("thread");
    }
    unsafe { S = Box::into_raw(sched) };
    MAIN.store(0, SeqCst);
    // the first switch is part of the schedule
    ACTIVE.store(true, SeqCst);
    if !matches!(cfg.strategy, Strategy::Replay(_)) && first != 0 {
        unsafe { (*S).out.switches.push((u16::MAX, 0, first as u16)) };
        crate::shm::switch(u16::MAX, 0, first as u16);
    }
    let mut first = first;
    if let Strategy::Replay(v) = &cfg.strategy {
        if let Some(x) = v.iter().find(|x| x.0 == u16::MAX) {
            first = (x.2 as usize).min(n - 1);
            unsafe {
                (*S).cur = first;
                (*S).out.switches.push((u16::MAX, 0, first as u16));
            }
        }
    }
    pass(first);
    while MAIN.load(SeqCst) == 0 {
        futex_wait_raw(&MAIN, 0);
    }
    unsafe {
        let mut s = Box::from_raw(S);
        s.out.steps = s.total;
        S = std::ptr::null_mut();
        std::mem::take(&mut s.out)
    }
}
