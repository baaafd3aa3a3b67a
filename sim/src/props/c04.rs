//! C04: in-place updates cut off at every crash point.
use crate::case::Case;
use crate::cat::*;
use crate::ctx::*;
use crate::props::sweep::positions;
use la::Matrix;
use simcore::elem::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::st::*;

pub const OPS: [&str; 9] = ["mneg", "mscale", "madd", "msub", "melem_mul", "melem_div", "mmul", "mmap", "mt"];

pub fn gen(r: &mut Rng, c: &mut Case, thorough: bool, _i: u64) {
    c.set("seed", r.below(1 << 40) as i64);
    c.set("et", *r.pick(&[0, 0, 0, 5, 5, 1]));
    let big = if r.chance(1, 10) { *r.pick(&[14, 40, 72]) } else { 0 };
    c.set("big", rare_big(r, big));
    c.set("lim", if thorough { 300 } else { 60 });
    c.set("fills", r.below(1 << 30) as i64);
    for _ in 0..1 + r.below(4) {
        let name = *r.pick(&OPS);
        c.op(0, name, [r.below(96) as i64, r.below(96) as i64, r.below(96) as i64, 0, 0, if r.chance(1, 4) { 1 } else { 0 }]);
    }
}

pub fn run(c: &Case) {
    match c.get("et") {
        1 => go::<f64>(c),
        5 => go::<Fp>(c),
        _ => go::<Sim>(c),
    }
}

/// apply in-place operation `name` on `m` with operand `o`
pub fn apply<T: NElem>(name: &str, m: &mut Matrix<T>, o: &Matrix<T>, arg: i64) {
    match name {
        "mneg" => m.mneg(),
        "mscale" => m.mscale(T::of(1.5 + (arg % 3) as f64)),
        "madd" => m.madd(o),
        "msub" => m.msub(o),
        "melem_mul" => m.melem_mul(o),
        "melem_div" => m.melem_div(o),
        "mmul" => m.mmul(o),
        "mmap" => match arg % 3 {
            0 => m.mmap(&|x: &T| { cb(); *x * *x + T::of(0.5) }),
            1 => m.mmap(&|x: &T| { let y = *x + T::of(1.0); cb(); y }),
            _ => m.mmap(&|_| { cb(); T::of(3.0) }),
        },
        _ => m.mt(),
    }
}

fn bits<T: Elem>(m: &Matrix<T>) -> Vec<u64> { m.get_data().iter().map(|x| if x.ok() { x.bits() } else { 0xBAD0_BAD0_BAD0_BAD0 }).collect() }

fn go<T: NElem>(c: &Case) {
    let seed = c.u("seed");
    let d = dims(seed, c.get("big") as usize);
    simcore::alloc::configure(c.u("fills"), 63, c.u("fills") as u32 % 4);
    let e = Env::<T>::new(seed, d);
    sample(&format!("{} {}x{}x{} {}", T::NAME, d.n, d.m, d.k, c.ops.iter().map(|o| o.name.as_str()).collect::<Vec<_>>().join(",")));
    for o in &c.ops {
        let s = modi(o.a[0], NSLOT);
        let os = if o.name == "mmul" { e.right(s, o.a[1]) } else { e.same(s, o.a[1]) };
        if os == NSLOT { continue; }
        let oth = &e.m[os];
        // (a tall matrix by a wide one is a matter of memory)
        if o.name == "mmul" && (e.m[s].rows() * oth.cols() > 250_000 || e.m[s].rows() * oth.cols() * oth.rows() > 20_000_000) { continue; }
        let mut full = scope(|| e.m[s].clone());
        let (r, st) = run_op(Plan::default(), || scope(|| apply(&o.name, &mut full, oth, o.a[2])));
        if r.is_err() { continue; }
        let n = st.user;
        let old = bits(&e.m[s]);
        let new = bits(&full);
        let shape = (e.m[s].rows(), e.m[s].cols());
        let nshape = (full.rows(), full.cols());
        let h0 = mix(hash_str(&o.name), hash64(&new));
        eval(false, h0);
        for p in positions(c, n, c.u("lim").max(4), seed) {
                if enough() { break; }
            let mut t = scope(|| e.m[s].clone());
            let (r, st) = run_op(Plan { panic_at: p, panic_id: p, ..Default::default() }, || scope(|| apply(&o.name, &mut t, oth, o.a[2])));
            if !st.panic_fired { continue; }
            stat(CRASH_POINTS);
            eval(true, mix(h0, p));
            if let Err(x) = judge(&t, &old, &new, shape, nshape, &o.name, r.is_err()) {
                fail(&x.0, format!("{}::{} on {}x{}, user code failing at pos={} of {}: {}", T::NAME, o.name, shape.0, shape.1, p, n, x.1));
                return;
            }
            // still fully usable
            let before = bits(&t);
            let (r, _) = run_op(Plan::default(), || scope(|| { t.mneg(); t.mneg(); let u = t.t(); t.mt(); let same = t.get_data().iter().zip(u.get_data().iter()).all(|(a, b)| a.bits() == b.bits()) && t.rows() == u.rows(); t.mt(); same }));
            if r != Ok(true) || bits(&t) != before || (t.rows(), t.cols()) != shape {
                fail("unusable-after-failure", format!("{}::{} pos={}: the matrix misbehaves afterwards", T::NAME, o.name, p));
                return;
            }
            'second: { if o.a[5] > 0 && o.name != "mmul" && o.name != "mt" {
                // a second attempt on the half-updated matrix, cut off somewhere else
                let cur = bits(&t);
                let mut full2 = scope(|| t.clone());
                let (r2, st2) = run_op(Plan::default(), || scope(|| apply(&o.name, &mut full2, oth, o.a[2])));
                if r2.is_err() || st2.user == 0 { break 'second; }
                let new2 = bits(&full2);
                let p2 = 1 + mix(seed, p) % st2.user;
                let (r3, st3) = run_op(Plan { panic_at: p2, panic_id: p2, ..Default::default() }, || scope(|| apply(&o.name, &mut t, oth, o.a[2])));
                if !st3.panic_fired { break 'second; }
                stat(CRASH_POINTS);
                eval(true, mix(mix(h0, p), p2));
                if let Err(x) = judge(&t, &cur, &new2, shape, shape, &o.name, r3.is_err()) {
                    fail(&x.0, format!("{}::{}: first failure at pos={}, second attempt failing at {}: {}", T::NAME, o.name, p, p2, x.1));
                    return;
                }
            } }
            // given its elements again, the same operation succeeds and does what it should
            if (p + seed) % 3 == 0 || p == n {
                t.get_mut_data().copy_from_slice(e.m[s].get_data());
                let (r4, _) = run_op(Plan::default(), || scope(|| apply(&o.name, &mut t, oth, o.a[2])));
                if r4.is_err() || bits(&t) != new || (t.rows(), t.cols()) != nshape {
                    fail("unusable-after-failure", format!("{}::{} pos={}: the same operation on the same elements afterwards {}", T::NAME, o.name, p, if let Err(x) = &r4 { format!("ends with {}", pan_name(x)) } else { "gives something else".into() }));
                    return;
                }
            }
        }
    }
}

fn judge<T: Elem>(t: &Matrix<T>, old: &[u64], new: &[u64], shape: (usize, usize), nshape: (usize, usize), name: &str, failed: bool) -> Result<(), (String, String)> {
    let len = t.get_data().len();
    if t.rows() == 0 || len == 0 || t.rows() * t.cols() != len {
        return Err(("invalid-shape".into(), format!("{} rows but {} elements", t.rows(), len)));
    }
    let now = bits(t);
    if !failed {
        // the failure was swallowed (C05 judges that); the contents must still be one or the other
        if now == old || now == new { return Ok(()); }
    }
    if name == "mmul" || name == "mt" {
        if (t.rows(), t.cols()) == shape && now == old { return Ok(()); }
        let _ = nshape;
        return Err(("not-all-or-nothing".into(), format!("the target is now {}x{} and {} of its elements differ from before", t.rows(), t.cols(), now.iter().zip(old).filter(|(a, b)| a != b).count())));
    }
    if (t.rows(), t.cols()) != shape { return Err(("shape-changed".into(), format!("now {}x{}", t.rows(), t.cols()))); }
    for i in 0..len {
        if now[i] != old[i] && now[i] != new[i] {
            return Err(("torn-element".into(), format!("element {} holds {:x}, neither the old {:x} nor the new {:x}", i, now[i], old[i], new[i])));
        }
    }
    Ok(())
}
