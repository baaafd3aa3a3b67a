//! The scheduler: real threads, parked and released one at a time; it alone decides who runs.
use crate::rng::Rng;
use crate::st::*;
use crate::sysx::raw;
use std::sync::atomic::{AtomicU32, Ordering::*};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TS { Idle, Runnable, Blocked(usize), BlockedTimed(usize), Done }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Policy { Random, Priority, RoundRobin, Park, Explicit }

pub struct Sched {
    pub active: bool,
    pub n: usize,
    pub st: [TS; MAXT],
    pub cur: usize,
    pub yields: u64,
    pub countdown: u64,
    pub policy: Policy,
    pub gap: u64,
    pub rng: Rng,
    pub max_switches: u64,
    pub switches: u64,
    pub explicit: Vec<(u64, u8)>,
    pub exp_i: usize,
    pub record: Vec<(u64, u8)>,
    pub prio: [u64; MAXT],
    pub deadlock: bool,
    pub timed_out: [bool; MAXT],
    pub ihash: u64,
    pub only_kind: u32,
    /// Park: how many points each task may still pass before everybody else goes first (0: no limit)
    pub left: [u64; MAXT],
    pub run_len: u64,
}

static FLAG: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];
const MAIN: usize = MAXT;

impl Sched {
    pub const fn new() -> Sched {
        Sched {
            active: false, n: 0, st: [TS::Idle; MAXT], cur: 0, yields: 0, countdown: 0, policy: Policy::Random, gap: 10,
            rng: Rng::zero(), max_switches: 400, switches: 0, explicit: Vec::new(), exp_i: 0, record: Vec::new(),
            prio: [0; MAXT], deadlock: false, timed_out: [false; MAXT], ihash: 0, only_kind: 0,
            left: [0; MAXT], run_len: 0,
        }
    }
}

fn park(i: usize) {
    while FLAG[i].swap(0, Acquire) == 0 {
        unsafe { raw(202, FLAG[i].as_ptr() as usize, 128, 0, 0, 0, 0); } // FUTEX_WAIT_PRIVATE
    }
}
fn unpark(i: usize) {
    FLAG[i].store(1, Release);
    unsafe { raw(202, FLAG[i].as_ptr() as usize, 129, 1, 0, 0, 0); }
}

fn next_gap(s: &mut Sched) -> u64 {
    match s.policy {
        Policy::Random => 1 + s.rng.below(2 * s.gap),
        Policy::RoundRobin => s.gap,
        Policy::Priority => 1 + s.rng.below(4 * s.gap),
        Policy::Explicit | Policy::Park => u64::MAX,
    }
}

fn pick(skip: Option<usize>) -> Option<usize> {
    let s = &mut sim().sched;
    let mut c = [0usize; MAXT];
    let mut n = 0;
    for i in 0..s.n {
        if s.st[i] == TS::Runnable && Some(i) != skip { c[n] = i; n += 1; }
    }
    if n == 0 { return None; }
    Some(match s.policy {
        Policy::Random => c[s.rng.below(n as u64) as usize],
        Policy::RoundRobin => {
            let cur = s.cur;
            *c[..n].iter().find(|&&x| x > cur).unwrap_or(&c[0])
        }
        Policy::Priority | Policy::Park => {
            let mut b = c[0];
            for &x in &c[..n] { if s.prio[x] > s.prio[b] { b = x; } }
            b
        }
        Policy::Explicit => c[0],
    })
}

/// Explicit schedules: is there an instruction for this yield?
fn scripted() -> Option<usize> {
    let s = &mut sim().sched;
    if s.policy != Policy::Explicit { return None; }
    while s.exp_i < s.explicit.len() && s.explicit[s.exp_i].0 < s.yields { s.exp_i += 1; }
    if s.exp_i < s.explicit.len() && s.explicit[s.exp_i].0 == s.yields {
        let t = s.explicit[s.exp_i].1 as usize;
        s.exp_i += 1;
        if t < s.n && s.st[t] == TS::Runnable { return Some(t); }
    }
    None
}

fn note(t: usize, k: usize) {
    let y = sim().sched.yields;
    mute(|| sim().sched.record.push((y, t as u8)));
    let s = sim();
    s.sched.ihash = fnv(s.sched.ihash, ((t as u64) << 32) | ((k as u64) << 40) | (s.tasks[t].user & 0xffff_ffff)) ^ s.tasks[t].counts[8];
}

fn switch_to(me: usize, t: usize, k: usize) {
    let s = sim();
    note(t, k);
    s.stats[SWITCHES] += 1;
    if s.tasks[me].in_call { s.stats[PREEMPT_IN_CALL] += 1; }
    s.sched.switches += 1;
    s.sched.cur = t;
    check_watches();
    unpark(t);
    park(me);
}

pub fn tick(me: usize, k: Kind) {
    let s = &mut sim().sched;
    s.yields += 1;
    if s.only_kind != 0 && s.only_kind & (1 << k as u32) == 0 && s.policy != Policy::Explicit { return; }
    if s.policy == Policy::Explicit {
        if let Some(t) = scripted() {
            if t != me { switch_to(me, t, k as usize); }
        }
        return;
    }
    if s.policy == Policy::Park {
        s.run_len += 1;
        if s.left[me] > 0 { s.left[me] -= 1; if s.left[me] > 0 { return; } }
        else if s.run_len < 20_000 || s.switches >= s.max_switches { return; }
        // everybody else goes first from here on (or, after a long time, for a while)
        s.run_len = 0;
        s.prio[me] = s.rng.below(500);
        if let Some(t) = pick(None) { if t != me { switch_to(me, t, k as usize); } }
        return;
    }
    if s.countdown > 1 { s.countdown -= 1; return; }
    if s.switches >= s.max_switches { s.countdown = u64::MAX; return; }
    s.countdown = next_gap(s);
    if s.policy == Policy::Priority { s.prio[me] = s.rng.below(1000); }
    let skip = if s.policy == Policy::RoundRobin { Some(me) } else { None };
    if let Some(t) = pick(skip) {
        if t != me { switch_to(me, t, k as usize); }
    }
}

/// The current task cannot continue until `addr` is woken. Returns true when it was a simulated time-out.
pub fn block_on(me: usize, addr: usize, timed: bool) -> bool {
    let s = &mut sim().sched;
    s.st[me] = if timed { TS::BlockedTimed(addr) } else { TS::Blocked(addr) };
    s.timed_out[me] = false;
    s.yields += 1;
    sim().stats[FUTEX_BLOCK] += 1;
    let next = scripted().or_else(|| pick(None));
    match next {
        Some(t) => switch_to(me, t, 6),
        None => {
            // nobody can run: let a timed waiter time out, else this is a deadlock
            let s = &mut sim().sched;
            let mut w = None;
            for i in 0..s.n { if let TS::BlockedTimed(_) = s.st[i] { w = Some(i); break; } }
            match w {
                Some(i) => {
                    s.st[i] = TS::Runnable;
                    s.timed_out[i] = true;
                    if i != me { switch_to(me, i, 6); }
                }
                None if foreign_threads() => {
                    // threads the library started itself may still wake us: report a spurious wake-up, the caller re-checks
                    sim().sched.st[me] = TS::Runnable;
                    let ts = [0u64, 50_000];
                    unsafe { raw(35, ts.as_ptr() as usize, 0, 0, 0, 0, 0); }
                }
                None => {
                    s.deadlock = true;
                    unpark(MAIN);
                    loop { park(me); }
                }
            }
        }
    }
    sim().sched.timed_out[me]
}

fn foreign_threads() -> bool {
    mute(|| {
        let have = std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0);
        let s = &sim().sched;
        have > 1 + (0..s.n).filter(|&i| s.st[i] != TS::Done).count()
    })
}

pub fn wake(addr: usize, n: usize) -> usize {
    let s = &mut sim().sched;
    let mut left = n;
    let mut woke = 0;
    while left > 0 {
        let mut c = [0usize; MAXT];
        let mut k = 0;
        for i in 0..s.n {
            match s.st[i] { TS::Blocked(a) | TS::BlockedTimed(a) if a == addr => { c[k] = i; k += 1; } _ => {} }
        }
        if k == 0 { break; }
        let w = if s.policy == Policy::Explicit { c[0] } else { c[s.rng.below(k as u64) as usize] };
        s.st[w] = TS::Runnable;
        woke += 1;
        left -= 1;
    }
    sim().stats[FUTEX_WAKE] += woke as u64;
    woke
}

pub struct Spec { pub seed: u64, pub policy: Policy, pub gap: u64, pub explicit: Vec<(u64, u8)>, pub max_switches: u64, pub only_kind: u32, pub park: u64 }

/// Run the tasks to completion under the scheduler. Returns false on deadlock.
/// Task i runs `f(i)` on its own thread.
pub fn run_tasks(n: usize, spec: &Spec, f: &(dyn Fn(usize) + Sync)) -> bool {
    assert!(n <= MAXT && n > 0);
    {
        let s = &mut sim().sched;
        s.n = n;
        s.policy = spec.policy;
        s.gap = spec.gap.max(1);
        s.rng = Rng::new(spec.seed);
        s.explicit = spec.explicit.clone();
        s.exp_i = 0;
        s.record.clear();
        s.record.reserve(1024);
        s.yields = 0;
        s.switches = 0;
        s.max_switches = spec.max_switches;
        s.deadlock = false;
        s.ihash = 1;
        s.only_kind = spec.only_kind;
        for i in 0..n { s.st[i] = TS::Runnable; s.prio[i] = s.rng.below(1000); s.timed_out[i] = false; }
        s.left = [0; MAXT];
        s.run_len = 0;
        if spec.policy == Policy::Park {
            // the victim starts and stops at a chosen point; others may stop somewhere too
            for i in 0..n { s.prio[i] += 1000; }
            let v = s.rng.below(n as u64) as usize;
            s.prio[v] = 5000;
            for i in 0..n {
                if i != v && !s.rng.chance(1, 3) { continue; }
                let scale = 1u64 << (2 + s.rng.below(13));
                s.left[i] = if i == v && spec.park > 0 { spec.park } else { 1 + s.rng.below(scale) };
            }
        }
        let g = next_gap(s);
        s.countdown = g;
    }
    for fl in FLAG.iter() { fl.store(0, SeqCst); }
    let fa: &'static (dyn Fn(usize) + Sync) = unsafe { std::mem::transmute(f) };
    let mut hs: Vec<Option<std::thread::JoinHandle<()>>> = Vec::new();
    for i in 0..n {
        hs.push(Some(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    set_task(i);
                    park(i);
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fa(i)));
                    sim().sched.st[i] = TS::Done;
                    unpark(MAIN);
                })
                .expect("spawn"),
        ));
    }
    sim().sched.active = true;
    let mut ok = true;
    loop {
        // choose who runs next (start, and after each task's end)
        sim().sched.yields += 1;
        let next = scripted().or_else(|| pick(None));
        match next {
            Some(t) => {
                note(t, 7);
                sim().sched.cur = t;
                unpark(t);
                park(MAIN);
                if sim().sched.deadlock { ok = false; break; }
                // the task that signalled has ended: wait until its thread is gone
                for i in 0..n {
                    if sim().sched.st[i] == TS::Done {
                        if let Some(h) = hs[i].take() { let _ = h.join(); }
                    }
                }
            }
            None => {
                let s = &mut sim().sched;
                let mut w = None;
                for i in 0..n { if let TS::BlockedTimed(_) = s.st[i] { w = Some(i); break; } }
                if let Some(i) = w { s.st[i] = TS::Runnable; s.timed_out[i] = true; continue; }
                if (0..n).any(|i| matches!(s.st[i], TS::Blocked(_))) { ok = false; }
                break;
            }
        }
    }
    sim().sched.active = false;
    if ok { for h in hs.iter_mut() { if let Some(h) = h.take() { let _ = h.join(); } } }
    else { std::mem::forget(hs); }
    let ih = sim().sched.ihash;
    sim().hashes.push(ih | 1);
    ok
}

/// A spinning task gives way: somebody else must get to run eventually.
pub fn yield_now(me: usize) {
    let s = &mut sim().sched;
    s.yields += 1;
    s.prio[me] = 0;
    // (a shortened explicit schedule may have lost its entry)
    let t = scripted().filter(|&t| t != me).or_else(|| pick(Some(me)));
    if let Some(t) = t { switch_to(me, t, 5); }
}
