//! C07: re-entering the library from user code it is calling.
use crate::case::Case;
use crate::cat::*;
use crate::ctx::*;
use crate::props::c02;
use simcore::elem::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::sched;
use simcore::st::*;

pub fn gen(r: &mut Rng, c: &mut Case, thorough: bool, _i: u64) {
    c.set("seed", r.below(1 << 40) as i64);
    c.set("et", *r.pick(&[0, 0, 0, 5]));
    let big = if r.chance(1, 15) { *r.pick(&[12, 24, 24, 72, 140]) } else { 0 };
    c.set("big", if r.chance(1, 4) { rare_big(r, big) } else { big });
    let nt = if r.chance(1, 4) { 2 } else { 1 };
    c.set("tasks", nt);
    c02::sched_params(r, c, thorough);
    c.set("fills", r.below(1 << 30) as i64);
    // deep: a long chain of calls inside each other, often all of one operation
    let deep = r.chance(1, 10);
    let reach = if r.chance(1, 5) { 150 } else { 37 };
    c.set("depth", if deep { 4 + r.below(reach) as i64 } else { 1 + r.below(3) as i64 });
    if deep { c.set("big", 0); }
    c.set("faults", r.chance(1, 4) as i64);
    let et = c.get("et");
    let fops = float_ops::<f64>();
    let nops = num_ops::<i64>();
    let n = if deep && r.chance(1, 2) { 1 } else { 2 + r.below(4) };
    for _ in 0..n {
        let cbs = r.chance(1, 2);
        let (name, mut a) = if et == 0 { gen_call(r, &fops, |d| !cbs || d.fl & (CB | FMT) != 0) } else { gen_call(r, &nops, |d| !cbs || d.fl & (CB | FMT) != 0) };
        a[5] = r.below(1000) as i64;
        c.op(r.below(nt as u64) as u8, name, a);
    }
}

pub fn run(c: &Case) {
    match c.get("et") {
        5 => go::<Fp>(c, num_ops(), |_| {}),
        _ => go::<Sim>(c, float_ops(), |e| { e.decompose(); }),
    }
}

// the nested calls need the run's state from a plain fn hook
struct St { case: Case, env: *const u8, ops: *const u8, alone: Vec<u64>, depth: u32, used: u64 }
static mut ST: Option<St> = None;
fn state() -> &'static mut St { unsafe { ST.as_mut().unwrap() } }

fn hook<T: Elem>(t: usize) {
    mute(|| {
        let s = state();
        s.used += 1;
        let level = sim().tasks[t].depth;
        let mut r = Rng::new(mix(s.case.u("seed") ^ 0x7E, s.used));
        let env = unsafe { &*(s.env as *const Env<T>) };
        let ops = unsafe { &*(s.ops as *const Vec<Def<T>>) };
        let i = r.below(s.case.ops.len() as u64) as usize;
        let o = &s.case.ops[i];
        let f = match find(ops, &o.name) { Some(f) => f, None => return };
        // a nested print would interleave with the outer one by its very nature; its text is not judged here
        let n = s.alone[i * 2 + 1];
        let mut plan = Plan::default();
        if level < s.depth && (s.depth > 3 || r.chance(1, 2)) { plan.reenter_at = 1 + r.below(n.max(1)); if s.depth > 3 && r.chance(1, 2) { plan.reenter_at = 1; } plan.reenter_gap = 1 + n / 2; plan.reenter_max = 1; }
        let fault = s.case.get("faults") > 0 && r.chance(1, 3) && n > 0;
        if fault { plan.panic_at = 1 + r.below(n); plan.panic_id = 5; }
        let used = s.used;
        let (mut res, st) = unmute(|| call(f, env, &o.a, plan));
        eval(true, mix(hash_str(&o.name), mix(level as u64, used)));
        if st.panic_fired { return; }
        let w = hash64(&outcome(&mut res));
        if w != state().alone[i * 2] {
            fail("nested-call-differs", format!("{}::{} {:?} called from user code at depth {} gives another result than un-nested", T::NAME, o.name, o.a, level));
        }
    })
}
/// library code called from inside a muted section is simulated again
fn unmute<R>(f: impl FnOnce() -> R) -> R { simcore::st::unmuted(f) }

fn go<T: Elem>(c: &Case, ops: Vec<Def<T>>, dec: fn(&mut Env<T>)) {
    if c.ops.is_empty() { return; }
    let seed = c.u("seed");
    let d = dims(seed, c.get("big") as usize);
    setup_files(seed);
    let need_dec = c.ops.iter().any(|o| find(&ops, &o.name).map_or(false, |d| d.fl & DEC != 0));
    let nt = (c.u("tasks").max(1) as usize).min(MAXT - 1);
    sample(&format!("{} {}x{}x{} depth {} tasks {}: {}", T::NAME, d.n, d.m, d.k, c.get("depth"), nt, c.ops.iter().map(|o| o.name.as_str()).collect::<Vec<_>>().join(" ")));
    let alone = in_child(|| {
        let mut e = Env::<T>::new(seed, d);
        if need_dec { dec(&mut e); }
        let mut v = Vec::new();
        for o in &c.ops {
            match find(&ops, &o.name) {
                Some(f) => { let (mut r, st) = call(f, &e, &o.a, Plan::default()); v.push(hash64(&outcome(&mut r))); v.push(st.user); }
                None => v.extend([0, 0]),
            }
        }
        v
    });
    let alone = match alone { Ok(v) => v, Err(s) => { fail("crash-alone", s); return; } };
    simcore::alloc::configure(c.u("fills"), 63, c.u("fills") as u32 % 4);
    let mut e = Env::<T>::new(seed, d);
    if need_dec { dec(&mut e); }
    unsafe { ST = Some(St { case: c.clone(), env: &e as *const _ as *const u8, ops: &ops as *const _ as *const u8, alone: alone.clone(), depth: c.get("depth") as u32, used: 0 }); }
    sim().reenter = Some(hook::<T>);
    struct Sh<'a, T>(&'a Env<T>, &'a Vec<Def<T>>, &'a Vec<u64>);
    unsafe impl<'a, T> Sync for Sh<'a, T> {}
    impl<'a, T> Sh<'a, T> { fn get(&self) -> (&'a Env<T>, &'a Vec<Def<T>>, &'a Vec<u64>) { (self.0, self.1, self.2) } }
    let sh = Sh(&e, &ops, &alone);
    // under the scheduler even with one task: a call that would wait for itself is then a detected deadlock
    let ok = sched::run_tasks(nt, &c02::spec(c), &|t| {
        let (e, ops, alone) = sh.get();
        for (i, o) in c.ops.iter().enumerate() {
            if o.t as usize % nt != t { continue; }
            let f = match find(ops, &o.name) { Some(f) => f, None => continue };
            let n = alone[i * 2 + 1];
            if n == 0 { continue; }
            let plan = Plan { reenter_at: 1 + o.a[5] as u64 % 1000 * n / 1000, reenter_gap: 1 + n / 3, reenter_max: 3, ..Default::default() };
            let (mut r, _) = call(f, e, &o.a, plan);
            let w = hash64(&outcome(&mut r));
            eval(true, mix(hash_str(&o.name), mix(o.a[5] as u64, n)));
            if w != alone[i * 2] {
                let x = match &r { Err(p) => pan_name(p), Ok(_) => "another result".into() };
                fail("outer-call-differs", format!("{}::{} {:?}, re-entered from its user code, gives {} instead of what it gives alone", T::NAME, o.name, o.a, x));
            }
        }
    });
    if !ok { fail("deadlock", "a re-entrant call waits forever".into()); }
}
