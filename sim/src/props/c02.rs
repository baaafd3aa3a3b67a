//! C02: tasks sharing matrices and decompositions under a seeded scheduler; every result equals the call run alone.
use crate::case::Case;
use crate::cat::*;
use crate::ctx::*;
use simcore::elem::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::sched::{self, Policy, Spec};
use simcore::st::*;
use std::sync::Mutex;

pub fn gen(r: &mut Rng, c: &mut Case, thorough: bool, _i: u64) {
    c.set("seed", r.below(1 << 40) as i64);
    let et = *r.pick(&[0, 0, 0, 0, 0, 0, 1, 2, 5]);
    c.set("et", et);
    let big = if r.chance(1, 15) { *r.pick(&[12, 12, 40]) } else { 0 };
    c.set("big", rare_big(r, big));
    let rounds = r.chance(1, 4);
    let crowd = !rounds && r.chance(1, 16);
    let nt = if crowd { c.set("big", 0); 8 + r.below(14) } else { 2 + r.below(3) };
    if r.chance(1, 12) { c.set("bye", 1); }
    c.set("tasks", nt as i64);
    sched_params(r, c, thorough);
    c.set("fills", r.below(1 << 30) as i64);
    let fops = float_ops::<f64>();
    let nops = num_ops::<i64>();
    let mut mk = |r: &mut Rng| if r.chance(1, 8) { if et <= 2 { gen_call(r, &fops, |d| d.fl & (FMT | IO) != 0) } else { gen_call(r, &nops, |d| d.fl & (FMT | IO) != 0) } } else if et <= 2 { gen_call(r, &fops, |_| true) } else { gen_call(r, &nops, |_| true) };
    let hot = mk(r);
    if rounds {
        // the same call by all tasks at once on objects nobody has used yet, again and again
        c.set("big", 0);
        c.set("tasks", 2 + r.below(2) as i64);
        c.set("rounds", 6 + r.below(14) as i64);
        for t in 0..3 {
            let mut h = hot;
            if t > 0 && r.chance(1, 3) { for j in 0..5 { h.1[j] = r.below(96) as i64; } }
            c.op(t, h.0, h.1);
        }
        return;
    }
    let hot_mode = if crowd { 1 + r.below(2) } else { r.below(3) };
    let faults = r.chance(1, 3);
    for t in 0..nt {
        for k in 0..if crowd { 1 + r.below(2) } else { 2 + r.below(4) } {
            let (name, mut a) = if hot_mode > 0 && (k == 0 || r.chance(1, 2)) {
                let mut h = hot;
                if hot_mode == 2 { for j in 0..5 { h.1[j] = r.below(96) as i64; } }
                h
            } else { mk(r) };
            if faults && r.chance(1, 4) { a[5] = 1 + r.below(1000) as i64; }
            c.op(t as u8, name, a);
        }
    }
}

pub fn sched_params(r: &mut Rng, c: &mut Case, _thorough: bool) {
    c.set("policy", *r.pick(&[0, 0, 0, 1, 1, 2, 3, 3]));
    c.set("gap", *r.pick(&[1, 2, 3, 5, 9, 20, 60, 200]));
    c.set("sseed", r.below(1 << 30) as i64);
    // all switches where the system is called, memory is asked for, or the user's functions run
    let k = |k: Kind| 1i64 << k as u32;
    if r.chance(1, 5) { c.set("focus", *r.pick(&[k(Kind::Sys) | k(Kind::Futex), k(Kind::Futex), k(Kind::Sys) | k(Kind::Futex) | k(Kind::Alloc), k(Kind::Callback) | k(Kind::Fmt) | k(Kind::Rand)])); }
}
pub fn spec(c: &Case) -> Spec {
    let explicit = c.sched.clone();
    // the instrumented build has many more yield points: spread the switches, or put them all at accesses to static memory
    let (scale, only) = if simcore::cov::on() { [(1, 0), (4, 0), (16, 0), (60, 0), (1, 1 << Kind::Global as u32), (1, 1 << Kind::Edge as u32 | 1 << Kind::Global as u32)][c.u("sseed") as usize % 6] } else { (1, 0) };
    let (scale, only) = if c.get("focus") > 0 { (1, c.u("focus") as u32) } else { (scale, only) };
    Spec {
        seed: c.u("sseed"),
        policy: if explicit.is_some() { Policy::Explicit } else { match c.get("policy") { 1 => Policy::Priority, 2 => Policy::RoundRobin, 3 => Policy::Park, _ => Policy::Random } },
        gap: if only == 1 << Kind::Global as u32 || c.get("focus") > 0 { 1 + c.u("gap") % 3 } else { c.u("gap").max(1) * scale },
        explicit: explicit.unwrap_or_default(),
        max_switches: 600,
        only_kind: only,
        park: 0,
    }
}

pub fn run(c: &Case) {
    probe();
    match c.get("et") {
        1 => go::<f64>(c, float_ops(), |e| { e.decompose(); }),
        2 => go::<f32>(c, float_ops(), |e| { e.decompose(); }),
        5 => go::<Fp>(c, num_ops(), |_| {}),
        _ => go::<Sim>(c, float_ops(), |e| { e.decompose(); }),
    }
}

/// The types must stay shareable: decided at run time so that the harness also builds when they are not.
fn probe() {
    struct P<T>(std::marker::PhantomData<T>);
    trait No { fn send(&self) -> bool { false } fn sync(&self) -> bool { false } }
    impl<T> No for &P<T> {}
    struct S<T>(std::marker::PhantomData<T>);
    trait NoS { fn sync(&self) -> bool { false } }
    impl<T> NoS for &S<T> {}
    impl<T: Send> P<T> { fn send(&self) -> bool { true } }
    impl<T: Sync> S<T> { fn sync(&self) -> bool { true } }
    macro_rules! p { ($($t:ty),*) => { $( {
        if !(&P::<$t>(std::marker::PhantomData)).send() { fail("not-send", format!("{} cannot be sent to another thread", stringify!($t))); }
        if !(&S::<$t>(std::marker::PhantomData)).sync() { fail("not-sync", format!("{} cannot be shared between threads", stringify!($t))); }
    } )* } }
    p!(la::Matrix<f64>, la::LUDecomposition<f64>, la::QRDecomposition<f64>, la::SVD<f64>, la::EigenDecomposition<f64>, la::CholeskyDecomposition<f64>);
}

/// Calls made while a thread is ending: from the destructor of a value of its user's that is older than anything the
/// library may keep for the thread.
fn bye<T: Elem>(c: &Case, ops: &[Def<T>], e: &Env<T>, alone: &[u64]) {
    struct Bye(std::cell::RefCell<Option<Box<dyn FnOnce()>>>);
    impl Drop for Bye { fn drop(&mut self) { if let Some(f) = self.0.borrow_mut().take() { f() } } }
    thread_local!(static BYE: Bye = Bye(std::cell::RefCell::new(None)));
    let all: Mutex<Vec<(usize, bool, u64)>> = Mutex::new(Vec::new());
    let round = |last: bool| for (i, o) in c.ops.iter().enumerate() {
        let f = match find(ops, &o.name) { Some(f) if f.fl & IO == 0 => f, _ => continue };
        let (mut r, _) = call(f, e, &o.a, Plan::default());
        let w = hash64(&outcome(&mut r));
        drop(r);
        mute(|| all.lock().unwrap().push((i, last, w)));
    };
    struct Sh<'a>(&'a dyn Fn(bool));
    unsafe impl<'a> Sync for Sh<'a> {}
    unsafe impl<'a> Send for Sh<'a> {}
    impl<'a> Sh<'a> { fn get(&self) -> &'a dyn Fn(bool) { self.0 } }
    let sh = Sh(&round);
    let sh: Sh<'static> = unsafe { std::mem::transmute(sh) };
    let j = std::thread::spawn(move || {
        let f = sh.get();
        BYE.with(|b| *b.0.borrow_mut() = Some(Box::new(move || f(true))));
        f(false);
    }).join();
    if j.is_err() { fail("thread-failed", "a thread that only calls the library failed".into()); return; }
    for (i, last, w) in all.into_inner().unwrap() {
        let o = &c.ops[i];
        eval(last, mix(hash_str(&o.name), mix(w, last as u64)));
        if w != alone[i * 3] { fail("differs-from-alone", format!("op {} {}::{} {:?}, called {}, gives another result than alone", i, T::NAME, o.name, o.a, if last { "while its thread is ending" } else { "in a thread of its own" })); return; }
    }
}

/// Fresh objects each time, and the first task stopped at another point of its call each time until the others have done theirs.
fn rounds<T: Elem>(c: &Case, ops: &Vec<Def<T>>, seed: u64, d: Dims, need_dec: bool, dec: fn(&mut Env<T>), alone: &[u64]) {
    let nt = (c.u("tasks").max(2) as usize).min(3);
    let n = c.u("rounds");
    let longest = (0..c.ops.len()).map(|i| alone[i * 3 + 2]).max().unwrap_or(0).max(1);
    let n = n.min(1 + 1_500_000 / longest);
    // (each round factorises its operands anew)
    let n = if need_dec { n.min(2 + 500 / (d.n * d.m).max(1) as u64) } else { n };
    let ops_r = Shared(ops);
    for k in 0..n {
        if c.has("pos") && c.u("pos") != k { continue; }
        let mut r = Rng::new(mix(c.u("sseed"), k));
        let mut e = Env::<T>::new(seed, d);
        if need_dec { dec(&mut e); }
        let sh = Shared(&e);
        let mut sp = spec(c);
        sp.seed = r.below(1 << 40);
        if sp.policy != Policy::Explicit && !r.chance(1, 4) {
            sp.policy = Policy::Park;
            sp.only_kind = 0;
            sp.park = 1 + longest * k / n + r.below((longest / n).max(1));
        }
        let ok = sched::run_tasks(nt, &sp, &|t| {
            for (i, o) in c.ops.iter().enumerate() {
                if o.t as usize % nt != t { continue; }
                let f = match find(ops_r.get(), &o.name) { Some(f) => f, None => continue };
                let sw0 = sim().sched.switches;
                let (mut x, _) = call(f, sh.get(), &o.a, Plan::default());
                let w = hash64(&outcome(&mut x));
                eval(sim().sched.switches > sw0, mix(hash_str(&o.name), sim().sched.ihash));
                if w != alone[i * 3] {
                    fail("differs-from-alone", format!("round pos={}: task {} op {} {}::{} {:?}: result differs from the same call run alone", k, t, i, T::NAME, o.name, o.a));
                }
            }
        });
        if !ok { fail("deadlock", format!("round pos={}: all tasks wait forever inside library calls", k)); return; }
        if failed() { return; }
    }
}

struct Shared<'a, T>(&'a T);
unsafe impl<'a, T> Sync for Shared<'a, T> {}
impl<'a, T> Shared<'a, T> { fn get(&self) -> &'a T { self.0 } }

fn go<T: Elem>(c: &Case, ops: Vec<Def<T>>, dec: fn(&mut Env<T>)) {
    let seed = c.u("seed");
    let d = dims(seed, c.get("big") as usize);
    setup_files(seed);
    let nt = (c.u("tasks").max(1) as usize).min(MAXT - 1);
    let need_dec = c.ops.iter().any(|o| find(&ops, &o.name).map_or(false, |d| d.fl & DEC != 0));
    sample(&format!("{} {}x{}x{} tasks {} gap {}: {}", T::NAME, d.n, d.m, d.k, nt, c.get("gap"), c.ops.iter().map(|o| format!("{}:{}", o.t, o.name)).collect::<Vec<_>>().join(" ")));
    // alone: in a forked copy of the process, so that nothing it does can leak into the shared run
    let alone = in_child(|| {
        let mut e = Env::<T>::new(seed, d);
        if need_dec { dec(&mut e); }
        let mut v = Vec::new();
        for o in &c.ops {
            match find(&ops, &o.name) {
                Some(f) => { let (mut r, st) = call(f, &e, &o.a, Plan::default()); v.push(hash64(&outcome(&mut r))); v.push(st.user); v.push(st.counts.iter().sum()); }
                None => { v.extend([0, 0, 0]) }
            }
        }
        v
    });
    let alone = match alone { Ok(v) => v, Err(s) => { fail("crash-alone", s); return; } };
    if c.get("rounds") > 0 { return rounds(c, &ops, seed, d, need_dec, dec, &alone); }
    let seeded = Rng::new(c.u("fills")).below(4) as u32;
    simcore::alloc::configure(c.u("fills"), [1, 36, 12, 63][seeded as usize], seeded);
    let mut e = Env::<T>::new(seed, d);
    if need_dec { dec(&mut e); }
    let sh = Shared(&e);
    let ops_r = Shared(&ops);
    let kept: Mutex<Vec<(usize, Ret<T>, u64)>> = Mutex::new(Vec::new());
    let kept_r = Shared(&kept);
    let alone_r = &alone;
    let fired = [const { std::sync::atomic::AtomicU64::new(0) }; MAXT];
    let ok = sched::run_tasks(nt, &spec(c), &|t| {
        for (i, o) in c.ops.iter().enumerate() {
            if o.t as usize % nt != t { continue; }
            let f = match find(ops_r.get(), &o.name) { Some(f) => f, None => continue };
            let n = alone_r[i * 3 + 1];
            let plan = if o.a[5] > 0 && n > 0 { Plan { panic_at: 1 + (o.a[5] as u64 - 1) % 1000 * n / 1000, panic_id: 7000 + i as u64, ..Default::default() } } else { Plan::default() };
            let sw0 = sim().sched.switches;
            let (mut r, st) = call(f, sh.get(), &o.a, plan);
            let interleaved = sim().sched.switches > sw0;
            if st.panic_fired {
                fired[t].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                eval(interleaved, mix(hash_str(&o.name), sim().sched.ihash));
                continue;
            }
            let w = hash64(&outcome(&mut r));
            eval(interleaved, mix(hash_str(&o.name), sim().sched.ihash));
            if w != alone_r[i * 3] {
                fail("differs-from-alone", format!("task {} op {} {}::{} {:?}: result differs from the same call run alone", t, i, T::NAME, o.name, o.a));
            }
            if let Ok(x) = r { kept_r.get().lock().unwrap().push((i, x, w)); }
        }
    });
    if !ok { fail("deadlock", "all tasks wait forever inside library calls".into()); return; }
    if fired.iter().any(|x| x.load(std::sync::atomic::Ordering::Relaxed) > 0) { stat(P_TASK_FAILED_WHILE_OTHERS_RAN); }
    if c.get("bye") > 0 && !failed() { bye(c, &ops, &e, &alone); }
    // results made in other threads stay good after those threads are gone
    let mut k = std::mem::take(&mut *kept.lock().unwrap());
    for (i, r, w) in k.iter_mut() {
        if hash64(&r.digest()) != *w { fail("result-changed-after-thread-end", format!("op {} {}", i, c.ops[*i].name)); }
    }
}
