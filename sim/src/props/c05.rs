//! C05: the caller receives exactly the panic user code raised, from every crash point of every operation.
use crate::case::Case;
use crate::cat::*;
use crate::ctx::*;
use crate::props::sweep::positions;
use la::Matrix;
use simcore::elem::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::st::*;

pub fn gen(r: &mut Rng, c: &mut Case, thorough: bool, _i: u64) {
    c.set("seed", r.below(1 << 40) as i64);
    let big = if r.chance(1, 12) { *r.pick(&[12, 12, 40, 72, 140, 250]) } else { 0 };
    c.set("big", rare_big(r, big));
    c.set("lim", if thorough { 200 } else { 40 });
    c.set("fills", r.below(1 << 30) as i64);
    c.set("on", r.chance(1, 3) as i64);
    // the same failure many times over, to see what failed calls leave behind
    if r.chance(1, 25) { c.set("repeat", 100 + r.below(400) as i64); c.set("big", 0); }
    let mut fops = float_ops::<Sim>();
    fops.extend(extra());
    for _ in 0..3 {
        let (name, mut a) = if r.chance(1, 3) { gen_call(r, &fops, |d| d.fl & (CB | FMT) != 0) } else { gen_call(r, &fops, |_| true) };
        a[5] = r.below(5) as i64;
        c.op(0, name, a);
    }
}

/// operations whose user code is not in the common catalogue
pub fn extra() -> Vec<Def<Sim>> {
    vec![
        Def { name: "random", fl: FMT, f: |e, a, r| { let x = Matrix::<Sim>::random(e.any(a[0]).rows(), e.any(a[1]).cols()); r.mat(x) } },
        Def { name: "fmt_write", fl: FMT, f: |e, a, r| { let mut s = String::new(); use std::fmt::Write; let k = write!(&mut s, "{:?}", e.any(a[0])); r.b(k.is_ok()); r.s(&s) } },
        Def { name: "fmt_alt", fl: FMT, f: |e, a, r| { let s = format!("{:#?}", e.any(a[0])); r.s(&s) } },
        Def { name: "map_state", fl: CB, f: |e, a, r| { let n = std::cell::Cell::new(0u64); let x = e.any(a[0]).map(&|x: &Sim| { n.set(n.get() + 1); cb(); *x }); r.mat(x) } },
    ]
}

pub fn run(c: &Case) {
    let seed = c.u("seed");
    let d = dims(seed, c.get("big") as usize);
    setup_files(seed);
    simcore::alloc::configure(c.u("fills"), 63, c.u("fills") as u32 % 4);
    let mut ops = float_ops::<Sim>();
    ops.extend(extra());
    let mut e = Env::<Sim>::new(seed, d);
    if c.ops.iter().any(|o| find(&ops, &o.name).map_or(false, |d| d.fl & DEC != 0)) { e.decompose(); }
    sample(&format!("{}x{}x{} {}", d.n, d.m, d.k, c.ops.iter().map(|o| o.name.as_str()).collect::<Vec<_>>().join(",")));
    for o in &c.ops {
        let f = match find(&ops, &o.name) { Some(f) => f, None => continue };
        let (mut r, st) = call(f, &e, &o.a, Plan::default());
        let first = hash64(&outcome(&mut r));
        drop(r);
        let n = st.user;
        if c.get("repeat") > 0 && n > 0 {
            let p = 1 + mix(seed, n) % n;
            for i in 0..c.u("repeat").min(1 + 400_000 / n) {
                let id = mix(seed, i) >> 1;
                let (r, st) = call(f, &e, &o.a, Plan { panic_at: p, panic_id: id, panic_kind: modi(o.a[5], 3) as u8, ..Default::default() });
                stat(CRASH_POINTS);
                eval(st.panic_fired, mix(mix(hash_str(&o.name), n), i));
                match r {
                    Err(Pan::Injected(j)) if j == id => {}
                    _ if !st.panic_fired && f.name == "random" => {}
                    Err(x) => { fail("failure-replaced", format!("{} {:?}: the {}th time user code panicked at its point {} of {}, the caller got {}", o.name, o.a, i + 1, p, n, pan_name(&x))); return; }
                    Ok(_) if st.panic_fired => { fail("failure-swallowed", format!("{} {:?}: the {}th time user code panicked at its point {} of {}, the call returned normally", o.name, o.a, i + 1, p, n)); return; }
                    Ok(_) => {}
                }
            }
            if f.fl & IO == 0 && f.name != "random" {
                let (mut r, _) = call(f, &e, &o.a, Plan::default());
                let w = hash64(&outcome(&mut r));
                if w != first { fail("failures-remembered", format!("{} {:?}: after many failed calls an undisturbed one gives another result than the first", o.name, o.a)); return; }
            }
        }
        let h0 = mix(hash_str(&o.name), n);
        for p in positions(c, n, c.u("lim").max(4), seed) {
                if enough() { break; }
            let kind = if o.a[5] >= 4 { (p % 4) as u8 } else { modi(o.a[5], 4) as u8 };
            let id = if kind == 3 { STATIC_ID } else { mix(seed, p) >> 1 };
            // whatever made it fail may still be there when the library looks again
            let on = c.get("on") > 0;
            let (r, st) = call(f, &e, &o.a, Plan { panic_at: p, panic_id: id, panic_kind: kind, panic_on: on, ..Default::default() });
            stat(CRASH_POINTS);
            eval(st.panic_fired, mix(h0, p));
            if !st.panic_fired { continue; }
            match r {
                Err(Pan::Injected(i)) if i == id => {}
                Ok(_) => { fail("failure-swallowed", format!("{} {:?}: user code panicked at pos={} of {} and the call returned normally", o.name, o.a, p, n)); return; }
                Err(x) => { fail("failure-replaced", format!("{} {:?}: user code panicked at pos={} of {} but the caller got {}", o.name, o.a, p, n, pan_name(&x))); return; }
            }
        }
    }
}
