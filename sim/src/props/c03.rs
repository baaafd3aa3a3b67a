//! C03: borrowed operands are watched at every moment user code runs, and after a failure at every crash point.
use crate::case::Case;
use crate::cat::*;
use crate::ctx::*;
use crate::props::sweep::positions;
use simcore::elem::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::st::*;

pub fn gen(r: &mut Rng, c: &mut Case, thorough: bool, _i: u64) {
    c.set("seed", r.below(1 << 40) as i64);
    let et = *r.pick(&[0, 0, 0, 0, 0, 1, 5, 5]);
    c.set("et", et);
    let big = if r.chance(1, 20) { *r.pick(&[12, 12, 40]) } else { 0 };
    c.set("big", rare_big(r, big));
    c.set("lim", if thorough { 120 } else { 24 });
    c.set("fills", r.below(1 << 30) as i64);
    let fops = float_ops::<f64>();
    let nops = num_ops::<i64>();
    for _ in 0..3 {
        let (name, a) = if et <= 2 { gen_call(r, &fops, |_| true) } else { gen_call(r, &nops, |_| true) };
        c.op(0, name, a);
    }
}

pub fn run(c: &Case) {
    match c.get("et") {
        1 => go::<f64>(c, float_ops(), |e| { if e.decompose() { watch_decs(e) } }),
        5 => { let mut v = num_ops(); v.extend(div_ops()); go::<Fp>(c, v, |_| {}) }
        _ => go::<Sim>(c, float_ops(), |e| { if e.decompose() { watch_decs(e) } }),
    }
}

fn go<T: Elem>(c: &Case, ops: Vec<Def<T>>, dec: fn(&mut Env<T>)) {
    let seed = c.u("seed");
    let d = dims(seed, c.get("big") as usize);
    setup_files(seed);
    simcore::alloc::configure(c.u("fills"), 63, c.u("fills") as u32 % 4);
    let mut e = Env::<T>::new(seed, d);
    if c.ops.iter().any(|o| find(&ops, &o.name).map_or(false, |d| d.fl & DEC != 0)) { dec(&mut e); }
    watch_env(&e);
    sample(&format!("{} {}x{}x{} {}", T::NAME, d.n, d.m, d.k, c.ops.iter().map(|o| o.name.as_str()).collect::<Vec<_>>().join(",")));
    for o in &c.ops {
        let f = match find(&ops, &o.name) { Some(f) => f, None => continue };
        // undisturbed, watched at every point
        sim().watch_period = 0;
        let (r, st) = call(f, &e, &o.a, Plan::default());
        drop(r);
        check_watches();
        let all: usize = e.m.iter().map(|m| m.get_data().len()).sum();
        let points: u64 = st.counts.iter().sum();
        sim().watch_period = 1 + points * all as u64 / 6_000_000;
        let (mut r, st) = call(f, &e, &o.a, Plan::default());
        check_watches();
        let base = outcome(&mut r);
        drop(r);
        let n = st.user;
        let h0 = mix(hash_str(&o.name), hash64(&base));
        eval(st.user > 0, h0);
        if let Some(w) = sim().watch_fail {
            fail("operand-changed", format!("{}::{} {:?} changed {} during an undisturbed call", T::NAME, o.name, o.a, w));
            return;
        }
        let period = (if n < 150 { 1 } else { 1 + n / 97 }).max(1 + points * all as u64 / 3_000_000);
        sim().watch_period = period;
        for p in positions(c, n, c.u("lim").max(4), seed) {
                if enough() { break; }
            let (r, st) = call(f, &e, &o.a, Plan { panic_at: p, panic_id: p, panic_kind: (p % 4) as u8, ..Default::default() });
            drop(r);
            check_watches();
            stat(CRASH_POINTS);
            eval(st.panic_fired, mix(h0, p));
            if let Some(w) = sim().watch_fail {
                fail("operand-changed", format!("{}::{} {:?} with a user-code failure at pos={} of {} changed {}", T::NAME, o.name, o.a, p, n, w));
                return;
            }
            sim().watch_period = 0;
            let (mut r, _) = call(f, &e, &o.a, Plan::default());
            let again = outcome(&mut r);
            if again != base {
                fail("retry-differs", format!("{}::{} {:?}: repeated after a failure at pos={} of {}, the call gives another result", T::NAME, o.name, o.a, p, n));
                return;
            }
            check_watches();
            if let Some(w) = sim().watch_fail {
                fail("operand-changed", format!("{}::{} {:?} repeated after a failure at pos={} changed {}", T::NAME, o.name, o.a, p, w));
                return;
            }
            sim().watch_period = period;
        }
    }
}
