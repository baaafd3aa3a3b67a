//! C08: results keep their value while operands are overwritten, updated, dropped and their memory reused.
use crate::case::Case;
use crate::cat::*;
use crate::ctx::*;
use simcore::elem::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::st::*;

pub fn gen(r: &mut Rng, c: &mut Case, _thorough: bool, _i: u64) {
    c.set("seed", r.below(1 << 40) as i64);
    let et = *r.pick(&[0, 0, 1, 2, 3, 5]);
    c.set("et", et);
    let big = if r.chance(1, 10) { *r.pick(&[20, 20, 72, 140]) } else { 0 };
    c.set("big", rare_big(r, big));
    c.set("fills", r.below(1 << 30) as i64);
    let fops = float_ops::<f64>();
    let nops = num_ops::<i64>();
    for _ in 0..3 + r.below(6) {
        let (name, mut a) = if et <= 2 { gen_call(r, &fops, |_| true) } else { gen_call(r, &nops, |_| true) };
        a[5] = r.below(1 << 20) as i64;
        c.op(0, name, a);
    }
}

pub fn run(c: &Case) {
    match c.get("et") {
        1 => go::<f64>(c, float_ops(), |e| { e.decompose(); }),
        2 => go::<f32>(c, float_ops(), |e| { e.decompose(); }),
        3 => go::<i32>(c, num_ops(), |_| {}),
        5 => { let mut v = num_ops(); v.extend(div_ops()); go::<Fp>(c, v, |_| {}) }
        _ => go::<Sim>(c, float_ops(), |e| { e.decompose(); }),
    }
}

/// Overwrite a matrix by one of the ways a user has: every in-place operation there is, complete or failing half-way.
fn scribble<T: NElem>(m: &mut la::Matrix<T>, how: u64, v: f64) {
    let other = |m: &la::Matrix<T>| { let n = m.get_data().len(); let mut d: Vec<T> = Vec::with_capacity(n); for k in 0..n { d.push(T::of(v + (k % 2) as f64)); } la::Matrix::new(m.rows(), m.cols(), d) };
    match how % 15 {
        0 => { let x = T::of(v); for e in m.get_mut_data().iter_mut() { *e = x; } }
        1 => { for i in 0..m.rows() { for j in 0..m.cols() { m.set(i, j, T::of(v + (i % 3) as f64)); } } }
        2 => { for i in 0..m.rows() { for j in 0..m.cols() { *m.get_mref(i, j) = T::of(v - (j % 3) as f64); } } }
        3 => { m.mmap(&|_| T::of(v)); }
        4 => { m.mt(); let x = T::of(v); m.mmap(&|_| x); m.mneg(); }
        5 => { m.mscale(T::of(v)); }
        6 => { let o = other(m); m.madd(&o); }
        7 => { let o = other(m); m.msub(&o); }
        8 => { let o = other(m); m.melem_mul(&o); }
        10 if m.rows() * m.cols() * m.cols() <= 20_000 => { let c = m.cols(); let d = la::Matrix::<T>::one_vector(c * c); let o = la::Matrix::new(c, c, d.get_data().clone()); m.mmul(&o); }
        9 | 10 => { m.mneg(); }
        11 => { m.mt(); }
        12 => { let o = other(m); *m = o; }
        13 => { let o = other(m); m.clone_from(&o); }
        _ => {
            let left = std::cell::Cell::new(1 + m.get_data().len() / 2);
            let _ = run_op(Plan::default(), || m.mmap(&|_| { left.set(left.get() - 1); if left.get() == 0 { mute(|| std::panic::panic_any(Injected(8))) } T::of(v) }));
        }
    }
}

fn go<T: NElem>(c: &Case, ops: Vec<Def<T>>, dec: fn(&mut Env<T>)) {
    let seed = c.u("seed");
    let d = dims(seed, c.get("big") as usize);
    setup_files(seed);
    simcore::alloc::configure(c.u("fills"), 63, 1 + c.u("fills") as u32 % 3);
    let mut e = Env::<T>::new(seed, d);
    if c.ops.iter().any(|o| find(&ops, &o.name).map_or(false, |d| d.fl & DEC != 0)) { dec(&mut e); }
    sample(&format!("{} {}x{}x{} {}", T::NAME, d.n, d.m, d.k, c.ops.iter().map(|o| o.name.as_str()).collect::<Vec<_>>().join(",")));
    let mut rhs = Env::<T>::new(mix(seed, 5), d);
    let mut r = Rng::new(seed ^ 0xC08);
    let mut kept: Vec<(usize, Ret<T>, Vec<u64>)> = Vec::new();
    for (i, o) in c.ops.iter().enumerate() {
        let f = match find(&ops, &o.name) { Some(f) => f, None => continue };
        let (res, _) = call(f, &e, &o.a, Plan::default());
        if let Ok(mut x) = res {
            let w = x.digest();
            kept.push((i, x, w));
        }
        // twice: two results of the same operands must not be connected either
        if o.a[5] % 3 == 0 {
            let (res, _) = call(f, &e, &o.a, Plan::default());
            if let Ok(mut x) = res { let w = x.digest(); kept.push((i, x, w)); }
        }
        // change one earlier result; operands and all others must stay
        if o.a[5] % 2 == 0 && !kept.is_empty() {
            let k = r.below(kept.len() as u64) as usize;
            let (eh, dh) = (env_hash(&e), dec_digest(&mut e, &mut rhs, &ops));
            let nm = kept[k].1.mats.len().max(1) as u64;
            if let Some(m) = kept[k].1.mats.get_mut(r.below(nm) as usize) {
                scope(|| scribble(m, r.next(), 1.75));
                stat(OPERAND_OVERWRITTEN);
                let w = kept[k].1.digest();
                kept[k].2 = w;
                let name = c.ops[kept[k].0].name.clone();
                if env_hash(&e) != eh { fail("operand-tied-to-result", format!("{}::{}: modifying its result changed an operand", T::NAME, name)); return; }
                if dec_digest(&mut e, &mut rhs, &ops) != dh { fail("decomposition-tied-to-result", format!("{}::{}: modifying its result changed a decomposition", T::NAME, name)); return; }
            }
            if !all_good::<T>(&mut kept, c, "another result was modified") { return; }
        }
    }
    // overwrite the operands one by one
    let decd = dec_digest(&mut e, &mut rhs, &ops);
    for s in 0..NSLOT {
        let how = r.next();
        scope(|| scribble(&mut e.m[s], how, -2.25));
        stat(OPERAND_OVERWRITTEN);
        if !all_good(&mut kept, c, "an operand was overwritten") { return; }
    }
    if dec_digest(&mut e, &mut rhs, &ops) != decd { fail("decomposition-tied-to-operand", format!("{}: a decomposition changed when its input was overwritten", T::NAME)); return; }
    // drop them and let the memory be used again
    scope(|| drop(std::mem::take(&mut e.m)));
    stat(OPERAND_DROPPED);
    if !all_good(&mut kept, c, "the operands were dropped") { return; }
    let again = Env::<T>::new(mix(seed, 99), d);
    if !all_good(&mut kept, c, "the operands' memory was reused") { return; }
    if dec_digest(&mut e, &mut rhs, &ops) != decd { fail("decomposition-tied-to-operand", format!("{}: a decomposition changed when its input was dropped and the memory reused", T::NAME)); return; }
    scope(|| drop(e.d.take()));
    drop(again);
    let junk: Vec<Env<T>> = (0..2).map(|i| Env::<T>::new(mix(seed, 100 + i), d)).collect();
    if !all_good(&mut kept, c, "decompositions were dropped and memory reused") { return; }
    drop(junk);
    // results can be taken apart in any order
    while !kept.is_empty() {
        let k = r.below(kept.len() as u64) as usize;
        let x = kept.swap_remove(k);
        scope(|| drop(x));
        if !all_good(&mut kept, c, "another result was dropped") { return; }
    }
    if !simcore::alloc::check_heap() { fail("heap-corrupted", "a block was freed twice or written out of bounds".into()); }
}

fn env_hash<T: Elem>(e: &Env<T>) -> u64 { let mut h = 0; for m in &e.m { h = fnv(h, unsafe { mat_hash::<T>(m as *const _ as *const u8) }); } h }

/// everything the shared decompositions answer, with right-hand sides of their own that nothing else touches
fn dec_digest<T: Elem>(e: &mut Env<T>, rhs: &mut Env<T>, ops: &[Def<T>]) -> Vec<u64> {
    if e.d.is_none() { return Vec::new(); }
    std::mem::swap(&mut e.d, &mut rhs.d);
    let mut v = Vec::new();
    for d in ops.iter().filter(|d| d.fl & DEC != 0) {
        for s in 0..4 { let (mut r, _) = call(d, rhs, &[s, [V1, R, V2, B][modi(s, 4)] as i64, s, s, 0, 0], Plan::default()); v.extend(outcome(&mut r)); }
    }
    std::mem::swap(&mut e.d, &mut rhs.d);
    v
}

fn all_good<T: Elem>(kept: &mut Vec<(usize, Ret<T>, Vec<u64>)>, c: &Case, after: &str) -> bool {
    for (i, r, w) in kept.iter_mut() {
        let o = &c.ops[*i];
        eval(!w.is_empty(), mix(hash_str(&o.name), mix(hash_str(after), hash64(w))));
        if r.digest() != *w {
            fail("result-not-a-snapshot", format!("{}::{} {:?}: its result changed after {}", T::NAME, o.name, o.a, after));
            return false;
        }
    }
    true
}
