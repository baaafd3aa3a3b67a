//! Simulator state, library-call scope, and the yield/fault points.
use crate::alloc::AllocState;
use crate::rng::Rng;
use crate::sched::Sched;
use crate::sysx::Sys;
use std::cell::{Cell, UnsafeCell};

pub const MAXT: usize = 24;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Kind { Elem = 0, Callback = 1, Fmt = 2, Rand = 3, Alloc = 4, Sys = 5, Futex = 6, Clone = 7, Edge = 8, Global = 9 }

/// Faults and limits for one library call.
#[derive(Clone, Copy, Default, Debug)]
pub struct Plan {
    /// panic at the n-th user-code point (1-based, 0 = never)
    pub panic_at: u64,
    pub panic_id: u64,
    /// 0: resume_unwind, 1: panic_any, 2: panic with a String, 3: panic with a &'static str
    pub panic_kind: u8,
    /// and again at every later point
    pub panic_on: bool,
    /// corrupt the result of the n-th element arithmetic operation (1-based), and of `arith_more` further ones spaced by `arith_gap`
    pub arith_at: u64,
    pub arith_kind: u8,
    pub arith_more: u64,
    pub arith_gap: u64,
    /// give wrong answers to the n-th comparison (1-based): 1: to it and to `arith_more` further ones, 2: to every later one, 3: answer "no" from there on
    pub cmp_at: u64,
    pub cmp_kind: u8,
    /// the n-th Debug text is longer (1), shorter (2) than the element's, 3: every later one is of another length
    pub text_at: u64,
    pub text_kind: u8,
    /// panic when more than this many element points were passed (0 = no limit)
    pub budget: u64,
    /// call the re-entry hook at the n-th user-code point (0 = never), then every `reenter_gap`
    pub reenter_at: u64,
    pub reenter_gap: u64,
    pub reenter_max: u64,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct OpState {
    pub plan: Plan,
    pub counts: [u64; 10],
    pub user: u64,
    pub arith: u64,
    pub cmps: u64,
    pub panic_fired: bool,
    pub arith_fired: u64,
    pub reentered: u64,
    pub allocs: u64,
    pub in_call: bool,
    pub depth: u32,
}

/// An observed object: `h` computes a digest of everything a user can see of it.
pub struct Watch { pub obj: *const u8, pub h: unsafe fn(*const u8) -> u64, pub hash: u64, pub name: &'static str }
pub fn watch<T>(o: &T, h: unsafe fn(*const u8) -> u64, name: &'static str) {
    let obj = o as *const T as *const u8;
    let hash = mute(|| unsafe { h(obj) });
    sim().watches.push(Watch { obj, h, hash, name });
}

pub struct SimState {
    pub tasks: [OpState; MAXT],
    pub steps: u64,
    pub loghash: u64,
    pub alloc: AllocState,
    pub sched: Sched,
    pub sys: Sys,
    pub watches: Vec<Watch>,
    pub watch_period: u64,
    pub watch_fail: Option<&'static str>,
    pub uninit_reads: u64,
    pub reenter: Option<fn(usize)>,
    pub stats: [u64; NSTAT],
    pub hashes: Vec<u64>,
    pub misc: Rng,
}

pub struct Global(UnsafeCell<SimState>);
unsafe impl Sync for Global {}

pub static G: Global = Global(UnsafeCell::new(SimState {
    tasks: [OpState {
        plan: Plan { panic_at: 0, panic_id: 0, panic_kind: 0, panic_on: false, arith_at: 0, arith_kind: 0, arith_more: 0, arith_gap: 0, cmp_at: 0, cmp_kind: 0, text_at: 0, text_kind: 0, budget: 0, reenter_at: 0, reenter_gap: 0, reenter_max: 0 },
        counts: [0; 10], user: 0, arith: 0, cmps: 0, panic_fired: false, arith_fired: 0, reentered: 0, allocs: 0, in_call: false, depth: 0,
    }; MAXT],
    steps: 0,
    loghash: 0,
    alloc: AllocState::new(),
    sched: Sched::new(),
    sys: Sys::new(),
    watches: Vec::new(),
    watch_period: 0,
    watch_fail: None,
    uninit_reads: 0,
    reenter: None,
    stats: [0; NSTAT],
    hashes: Vec::new(),
    misc: Rng::zero(),
}));

#[inline(always)]
pub fn sim() -> &'static mut SimState { unsafe { &mut *G.0.get() } }

thread_local! {
    static TASK: Cell<usize> = const { Cell::new(0) };
    static SCOPE: Cell<u32> = const { Cell::new(0) };
    static MUTE: Cell<u32> = const { Cell::new(0) };
}

pub fn set_task(t: usize) { TASK.with(|c| c.set(t)) }
#[inline]
pub fn task() -> usize { TASK.try_with(|c| c.get()).unwrap_or(0) }
/// True while library code is running on this thread under the simulator.
#[inline]
pub fn live() -> bool { SCOPE.try_with(|c| c.get()).unwrap_or(0) > 0 && MUTE.try_with(|c| c.get()).unwrap_or(1) == 0 }

struct Reset(bool);
impl Drop for Reset {
    fn drop(&mut self) {
        if self.0 { SCOPE.with(|c| c.set(c.get() - 1)) } else { MUTE.with(|c| c.set(c.get() - 1)) }
    }
}

/// Run library code: allocations, element operations and system calls inside are the simulator's.
#[inline]
pub fn scope<R>(f: impl FnOnce() -> R) -> R {
    SCOPE.with(|c| c.set(c.get() + 1));
    let _g = Reset(true);
    f()
}
/// Run harness code from inside library code.
#[inline]
pub fn mute<R>(f: impl FnOnce() -> R) -> R {
    MUTE.with(|c| c.set(c.get() + 1));
    let _g = Reset(false);
    f()
}

pub struct Injected(pub u64);
pub const INJ: &str = "simulated failure #";
pub static STATIC_INJ: &str = "simulated static failure";
pub const STATIC_ID: u64 = 424242;
pub struct Budget;

pub fn fnv(mut h: u64, v: u64) -> u64 {
    h ^= v;
    h = h.wrapping_mul(0x100000001b3);
    h ^ (h >> 29)
}

pub fn hash_bytes(p: *const u8, n: usize) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ n as u64;
    let mut i = 0;
    unsafe {
        while i + 8 <= n {
            h = fnv(h, std::ptr::read_unaligned(p.add(i) as *const u64));
            i += 8;
        }
        while i < n { h = fnv(h, *p.add(i) as u64); i += 1; }
    }
    h
}

/// Check every watched region; remembers the first that changed.
pub fn check_watches() {
    let s = sim();
    if s.watch_fail.is_some() { return; }
    mute(|| {
        for w in s.watches.iter() {
            if unsafe { (w.h)(w.obj) } != w.hash { s.watch_fail = Some(w.name); break; }
        }
    })
}

/// A point at which user code or the environment gets control.
#[inline]
pub fn point(k: Kind) {
    if live() { point_slow(k) }
}

fn point_slow(k: Kind) {
    let s = sim();
    let t = task();
    s.steps += 1;
    let user = (k as usize) <= 3;
    {
        let st = &mut s.tasks[t];
        st.counts[k as usize] += 1;
        if user { st.user += 1; }
    }
    s.loghash = fnv(s.loghash, ((t as u64) << 8) | k as u64);
    if s.watch_period > 0 && s.steps % s.watch_period == 0 { check_watches(); }
    if s.sched.active { crate::sched::tick(t, k); }
    if user || k == Kind::Clone {
        let st = &mut sim().tasks[t];
        if st.plan.budget != 0 && st.counts[0] + st.counts[7] > st.plan.budget {
            st.plan.budget = 0;
            let b: Box<Budget> = mute(|| Box::new(Budget));
            std::panic::resume_unwind(b);
        }
    }
    if user {
        let s = sim();
        let st = &mut s.tasks[t];
        if st.plan.panic_at != 0 && (st.user == st.plan.panic_at || st.plan.panic_on && st.user > st.plan.panic_at) {
            st.panic_fired = true;
            let id = st.plan.panic_id;
            s.stats[match k { Kind::Elem => PANIC_ELEM, Kind::Callback => PANIC_CB, Kind::Fmt => PANIC_FMT, _ => PANIC_RAND }] += 1;
            match st.plan.panic_kind {
                1 => mute(|| std::panic::panic_any(Injected(id))),
                2 => mute(|| panic!("{}{}", INJ, id)),
                3 => mute(|| std::panic::panic_any(STATIC_INJ)),
                _ => { let b: Box<Injected> = mute(|| Box::new(Injected(id))); std::panic::resume_unwind(b) }
            }
        }
        if st.plan.reenter_at != 0 && st.user >= st.plan.reenter_at && st.reentered < st.plan.reenter_max {
            st.plan.reenter_at = st.user + st.plan.reenter_gap;
            st.reentered += 1;
            s.stats[REENTER] += 1;
            if let Some(f) = s.reenter {
                let depth = st.depth;
                let saved = *st;
                s.tasks[t] = OpState { depth: depth + 1, ..OpState::default() };
                f(t);
                sim().tasks[t] = saved;
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pan {
    Injected(u64),
    Budget,
    Native(String),
}

pub fn classify(p: Box<dyn std::any::Any + Send>) -> Pan {
    if let Some(i) = p.downcast_ref::<Injected>() { return Pan::Injected(i.0); }
    if p.downcast_ref::<Budget>().is_some() { return Pan::Budget; }
    if let Some(s) = p.downcast_ref::<&'static str>() { if *s == STATIC_INJ { return Pan::Injected(STATIC_ID); } return Pan::Native(s.to_string()); }
    if let Some(s) = p.downcast_ref::<String>() { if let Some(n) = s.strip_prefix(INJ).and_then(|n| n.parse().ok()) { return Pan::Injected(n); } return Pan::Native(s.clone()); }
    Pan::Native("?".into())
}

/// Run `f` (harness code that calls the library inside `scope`) under `plan`.
pub fn run_op<R>(plan: Plan, f: impl FnOnce() -> R) -> (Result<R, Pan>, OpState) {
    let t = task();
    let saved = sim().tasks[t];
    sim().tasks[t] = OpState { plan, in_call: true, depth: saved.depth, ..OpState::default() };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let st = sim().tasks[t];
    sim().tasks[t] = saved;
    sim().stats[OPS] += 1;
    let r = match r {
        Ok(v) => Ok(v),
        Err(p) => {
            let c = classify(p);
            if let Pan::Native(_) = c { sim().stats[NATIVE_PANIC] += 1; }
            Err(c)
        }
    };
    (r, st)
}

macro_rules! stats {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        enum StatIdx { $($n),*, COUNT }
        $(pub const $n: usize = StatIdx::$n as usize;)*
        pub const NSTAT: usize = StatIdx::COUNT as usize;
        pub const STAT_NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
stats!(
    OPS, NATIVE_PANIC, STEPS, SWITCHES, PREEMPT_IN_CALL, FUTEX_BLOCK, FUTEX_WAKE,
    PANIC_ELEM, PANIC_CB, PANIC_FMT, PANIC_RAND, REENTER,
    FILL_ZERO, FILL_ONES, FILL_RANDOM, FILL_STALE, FILL_PLAUSIBLE, FILL_KEEP, BLOCK_REUSED, ALLOC_REFUSED,
    READS, READ_SHORT, READ_EINTR, READ_ERR, OPEN_ERR, OPEN_EINTR, FILE_TRUNC, FILE_REPLACED, BYTE_FLIP, READ_SPLIT_UTF8,
    WRITES, WRITE_SHORT, WRITE_EINTR, WRITE_ERR, SINK_ERR, ENTROPY_CALLS, ENTROPY_EINTR, ENTROPY_SHORT,
    ARITH_NAN, ARITH_INF, ARITH_ZERO, ARITH_SIGN, ARITH_SCALE, ARITH_ULP, ARITH_DENORM, CMP_FLIP, CMP_STUCK, TEXT_CHANGED, DATA_RESIZED,
    CRASH_POINTS, REJECTED_CALLS, OPERAND_OVERWRITTEN, OPERAND_DROPPED, NONTRIVIAL, EVALS,
    P_OOM_ABORT, P_OOM_PANIC, P_OOM_OK, P_BUDGET_HIT, P_CSV_OK, P_CSV_PANIC, P_HIST_FAIL_RESYNC, P_SHAPE_CHANGE,
    P_TASK_FAILED_WHILE_OTHERS_RAN, P_PRINT_CONTENDED, P_BIGFILE, P_INPUT_NONFINITE,
);

/// Undo `mute` for the duration of `f`.
pub fn unmuted<R>(f: impl FnOnce() -> R) -> R {
    struct Back(u32);
    impl Drop for Back { fn drop(&mut self) { MUTE.with(|c| c.set(self.0)) } }
    let m = MUTE.with(|c| c.get());
    MUTE.with(|c| c.set(0));
    let _b = Back(m);
    f()
}
