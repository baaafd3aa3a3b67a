//! C01: the same calls under different memory contents, recycling and history give the same bits.
use crate::case::Case;
use crate::cat::*;
use crate::ctx::*;
use simcore::alloc;
use simcore::elem::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::st::*;

pub const ETS: [&str; 6] = ["Sim", "f64", "f32", "i32", "i64", "Fp"];

pub fn gen(r: &mut Rng, c: &mut Case, thorough: bool, _i: u64) {
    c.set("seed", r.below(1 << 40) as i64);
    let et = *r.pick(&[0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5]);
    c.set("et", et);
    let big = if r.chance(1, if thorough { 6 } else { 12 }) { *r.pick(&[20, 20, 72, 140]) } else { 0 };
    c.set("big", rare_big(r, big));
    c.set("fills", r.below(1 << 30) as i64);
    c.set("variants", 3 + r.below(3) as i64);
    let n = if c.get("big") >= 300 { 3 } else { 3 + r.below(10) };
    // now and then the first call again and again: what calls leave behind may need many to show
    if r.chance(1, 40) { c.set("repeat", if crate::build() == "rel" && r.chance(1, 20) { 70_000 } else { 200 + r.below(1000) as i64 }); c.set("big", 0); }
    if r.chance(1, 12) { c.set("bend", 1 + r.below(1 << 20) as i64); }
    let fops = float_ops::<f64>();
    let nops = num_ops::<i64>();
    for _ in 0..n {
        let bent = c.get("bend") > 0;
        let (name, a) = if et <= 2 { gen_call(r, &fops, |d| !bent || !elementwise(d.name)) } else { gen_call(r, &nops, |d| !bent || !elementwise(d.name)) };
        c.op(0, name, a);
    }
}

pub fn run(c: &Case) {
    match c.get("et") {
        1 => go::<f64>(c, float_ops(), |e| { e.decompose(); }),
        2 => go::<f32>(c, float_ops(), |e| { e.decompose(); }),
        3 => go::<i32>(c, num_ops(), |_| {}),
        4 => go::<i64>(c, num_ops(), |_| {}),
        5 => { let mut v = num_ops(); v.extend(div_ops()); go::<Fp>(c, v, |_| {}) }
        _ => go::<Sim>(c, float_ops(), |e| { e.decompose(); }),
    }
}

/// what one variant's environment does with memory
fn regime(fills: u64, v: u64) -> (u32, u32) {
    if v == 0 { return (alloc::F_ZERO, 0); }
    let mut r = Rng::new(mix(fills, v));
    let modes = match r.below(5) {
        0 => alloc::F_RANDOM,
        1 => alloc::F_STALE | alloc::F_KEEP,
        2 => alloc::F_PLAUSIBLE,
        3 => alloc::F_ONES,
        _ => alloc::F_RANDOM | alloc::F_STALE | alloc::F_PLAUSIBLE | alloc::F_KEEP | alloc::F_ZERO,
    };
    (modes, r.below(4) as u32)
}

/// what the process may have computed before: the same calls, and decompositions, of another element type
fn past<S: Elem>(c: &Case, ops: Vec<Def<S>>, dec: fn(&mut Env<S>), v: u64) {
    let seed = mix(c.u("seed"), v);
    let mut e = Env::<S>::new(seed, dims(seed, 0));
    if v % 2 == 1 { dec(&mut e); }
    for o in c.ops.iter() {
        if let Some(f) = find(&ops, &o.name) { if f.fl & DEC == 0 || v % 2 == 1 { let _ = call(f, &e, &o.a, Plan::default()); } }
    }
}

fn other_types(c: &Case, skip: &str, v: u64) {
    let k = v % 4;
    for i in 0..4 {
        match (i + k) % 4 {
            0 if skip != "f32" => past::<f32>(c, float_ops(), |e| { e.decompose(); }, v),
            1 if skip != "f64" => past::<f64>(c, float_ops(), |e| { e.decompose(); }, v),
            2 if skip != "Sim" => past::<Sim>(c, float_ops(), |e| { e.decompose(); }, v),
            3 if skip != "i32" => past::<i32>(c, num_ops(), |_| {}, v),
            _ => {}
        }
    }
}

/// The first call, many times over in one process.
fn repeat<T: Elem>(c: &Case, ops: &[Def<T>]) {
    let seed = c.u("seed");
    let d = dims(seed, c.get("big") as usize);
    let f = match c.ops.first().and_then(|o| find(ops, &o.name)) { Some(f) => f, None => return };
    let (o, k) = (&c.ops[0], if f.fl & HEAVY != 0 { c.u("repeat").min(150) } else { c.u("repeat") });
    if f.fl & DEC != 0 || k > 2000 && f.fl & IO != 0 { return; }
    let r = in_child(|| {
        alloc::configure(mix(c.u("fills"), 5), regime(c.u("fills"), 2).0, c.u("fills") as u32 % 4);
        let e = Env::<T>::new(seed, d);
        // at regular intervals the same operation on other matrices
        let p = [u64::MAX, 100, 256, 256, 65_536][mix(seed, k) as usize % 5];
        let mut alt = o.a;
        for x in alt[..3].iter_mut() { *x += 1 + (mix(seed, *x as u64) % 40) as i64; }
        let mut firsts = [0, 0];
        let from = sim().steps;
        for i in 0..k {
            let other = (i % p == p - 1 || i == 0 && p < k) as usize;
            let out0 = sim().sys.out.len();
            let (mut r, _) = call(f, &e, if other > 0 { &alt } else { &o.a }, Plan::default());
            let mut w = outcome(&mut r);
            if f.fl & IO != 0 { w.push(hash_str(&String::from_utf8_lossy(&sim().sys.out[out0..]))); }
            let h = hash64(&w) | 1;
            if firsts[other] == 0 { firsts[other] = h; }
            if h != firsts[other] { return vec![i + 1]; }
            if sim().steps - from > 3_000_000 { break; }
        }
        vec![0]
    });
    match r {
        Ok(v) if v[0] == 0 => eval(true, mix(hash_str(&o.name), mix(seed, k))),
        Ok(v) => fail("result-depends-on-history", format!("{}::{} {:?} gives another result the {}th time it is called than the first time", T::NAME, o.name, o.a, v[0])),
        Err(s) => fail("crash-when-repeated", format!("{}::{} {:?} called again and again: {}", T::NAME, o.name, o.a, s)),
    }
}

fn go<T: Elem>(c: &Case, ops: Vec<Def<T>>, dec: fn(&mut Env<T>)) {
    let seed = c.u("seed");
    let d = dims(seed, c.get("big") as usize);
    setup_files(seed);
    let need_dec = c.ops.iter().any(|o| find(&ops, &o.name).map_or(false, |d| d.fl & DEC != 0));
    let mut base: Vec<Vec<u64>> = Vec::new();
    sample(&format!("{} {}x{}x{} {}", T::NAME, d.n, d.m, d.k, c.ops.iter().map(|o| o.name.as_str()).collect::<Vec<_>>().join(",")));
    // in a process that has worked with other element types before
    if c.get("repeat") > 0 { repeat(c, &ops); }
    let after_others = if c.u("fills") % 3 == 0 { in_child(|| {
        let v = 1 + 2 * (c.u("fills") / 3 % 8) + (c.u("fills") / 24 % 4 == 0) as u64;
        alloc::configure(mix(c.u("fills"), 7), alloc::F_ZERO, 0);
        other_types(c, T::NAME, v);
        let _ = dims(seed, c.get("big") as usize);
        let mut e = Env::<T>::new(seed, d);
        if need_dec { dec(&mut e); }
        if c.get("bend") > 0 { bend(&mut e, c.u("bend")); }
        let mut h = Vec::new();
        for o in &c.ops {
            let f = match find(&ops, &o.name) { Some(f) => f, None => { h.push(0); continue } };
            let out0 = sim().sys.out.len();
            let (mut r, _) = call(f, &e, &o.a, Plan::default());
            let mut w = outcome(&mut r);
            if f.fl & IO != 0 { w.push(hash_str(&String::from_utf8_lossy(&sim().sys.out[out0..]))); }
            h.push(hash64(&w));
        }
        h
    }).ok() } else { None };
    for v in 0..c.u("variants").max(2) {
        let (modes, reuse) = regime(c.u("fills"), v);
        alloc::configure(mix(c.u("fills"), 77 + v), modes, reuse);
        let mut order: Vec<usize> = (0..c.ops.len()).collect();
        if v > 0 {
            // a different past: other matrices, other calls
            let other = Env::<T>::new(mix(seed, v), if v % 2 == 0 { d } else { dims(mix(seed, v), 0) });
            for o in c.ops.iter().rev().take(4) {
                if let Some(f) = find(&ops, &o.name) { if f.fl & DEC == 0 { let _ = call(f, &other, &o.a, Plan::default()); } }
            }
            drop(other);
            let _ = dims(seed, c.get("big") as usize);
            if v % 2 == 1 { order.reverse(); } else if !order.is_empty() { let k = v as usize % order.len(); order.rotate_left(k); }
        }
        let mut e = Env::<T>::new(seed, d);
        if need_dec { dec(&mut e); }
        if c.get("bend") > 0 { bend(&mut e, c.u("bend")); }
        if v > 0 && mix(c.u("fills"), v) % 3 == 0 {
            // the same matrices, in the same places, with other elements: used, then given the elements they should have
            let mut r = Rng::new(mix(c.u("fills"), v ^ 0x9));
            let mut saved: Vec<Vec<T>> = Vec::new();
            mute(|| for x in e.m.iter_mut() {
                let d = x.get_mut_data();
                saved.push(d.clone());
                if d.is_empty() { continue; }
                let (i, j) = (r.below(d.len() as u64) as usize, r.below(d.len() as u64) as usize);
                if r.chance(1, 2) && d[i] != d[j] { d.swap(i, j); } else { d[i] = T::of(d[i].val() + 1.0 + r.below(3) as f64); }
            });
            for o in c.ops.iter() {
                if let Some(f) = find(&ops, &o.name) { if f.fl & DEC == 0 { let _ = call(f, &e, &o.a, Plan::default()); } }
            }
            mute(|| for (x, d) in e.m.iter_mut().zip(saved) { x.get_mut_data().copy_from_slice(&d); });
        }
        let mut res: Vec<Vec<u64>> = vec![Vec::new(); c.ops.len()];
        for (step, &i) in order.iter().enumerate() {
            let o = &c.ops[i];
            let f = match find(&ops, &o.name) { Some(f) => f, None => continue };
            let u0 = sim().uninit_reads;
            let out0 = sim().sys.out.len();
            let reused = sim().stats[BLOCK_REUSED];
            let (mut r, st) = call(f, &e, &o.a, Plan::default());
            let mut w = outcome(&mut r);
            if f.fl & IO != 0 {
                let s = sim();
                w.push(hash_str(&String::from_utf8_lossy(&s.sys.out[out0..])));
            }
            let nontrivial = v > 0 && st.allocs > 0 && (modes != alloc::F_ZERO || sim().stats[BLOCK_REUSED] > reused);
            eval(nontrivial, mix(mix(hash_str(&o.name), modes as u64), mix(hash64(&w), reuse as u64)));
            if sim().uninit_reads > u0 {
                fail("used-uncomputed-element", format!("{}::{} {:?} (variant {}, step {}) computed with an element nobody had computed", T::NAME, o.name, o.a, v, step));
            }
            if let Ok(x) = &r {
                if x.bad { fail("returned-uncomputed-element", format!("{}::{} {:?} (variant {}) returned an element nobody had computed", T::NAME, o.name, o.a, v)); }
            }
            if v > 0 && w != base[i] {
                let at = w.iter().zip(base[i].iter()).position(|(a, b)| a != b).unwrap_or(w.len().min(base[i].len()));
                fail("result-depends-on-memory-or-history", format!("{}::{} {:?}: word {} of the result differs between variant 0 (zeroed memory, first use) and variant {} (fill modes {:#x}, recycling {}): {:x?} / {:x?}", T::NAME, o.name, o.a, at, v, modes, reuse, base[i].get(at), w.get(at)));
            }
            res[i] = w;
            if failed() { return; }
        }
        if v == 0 {
            if let Some(h) = &after_others {
                for (i, o) in c.ops.iter().enumerate() {
                    if h.get(i).map_or(false, |x| *x != 0 && *x != hash64(&res[i])) {
                        fail("result-depends-on-history", format!("{}::{} {:?} gives another result in a process that has worked with other element types before", T::NAME, o.name, o.a));
                        return;
                    }
                    eval(true, mix(hash_str(&o.name), mix(hash64(&res[i]), 3)));
                }
            }
            base = res;
        }
    }
}
