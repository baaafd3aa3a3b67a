//! C09: histories of operations over several matrices against the plain definition, rejected and cut-off calls included.
use crate::case::{Case, Op};
use crate::ctx::*;
use crate::model::*;
use la::Matrix;
use simcore::elem::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::st::*;
use std::fmt::Debug;
use std::ops::Neg;

const STRUCT: [&str; 40] = [
    "new", "vector", "row_vector", "get", "get_ref", "index", "get_mref", "set", "shape", "map", "mmap", "reduce", "clone", "clone_from", "eq", "nothing", "cr", "cb", "bitor", "t", "t", "mt", "mt", "mt", "minor", "sub_matrix", "sub_matrix", "get_column", "permute_rows", "permute_columns",
    "filter_rows", "filter_columns", "select_rows", "select_columns", "get_mut_data", "drop", "swap", "round_trip", "macro", "macro",
];
const ARITH: [&str; 34] = [
    "id", "zero", "diag", "block_diag", "zero_vector", "one_vector", "mneg", "neg", "neg_own", "scale", "mscale", "madd", "msub", "add", "add_ro", "add_or", "add_oo", "sub", "sub_ro", "sub_or", "sub_oo", "elem_mul", "melem_mul", "elem_div", "melem_div", "mmul", "mmul", "mul", "mul_ro",
    "mul_or", "mul_oo", "pure_vs_in_place", "pure_vs_in_place", "mmul",
];
/// operations of the catalogue's float part whose argument checks belong to this property
const FCHECK: [&str; 4] = ["f_square", "f_vector", "f_solve", "f_shape"];
const NREG: usize = 5;
const CAP: usize = 12_000;

pub fn gen(r: &mut Rng, c: &mut Case, thorough: bool, _i: u64) {
    c.set("seed", r.below(1 << 40) as i64);
    let et = *r.pick(&[0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 4]);
    c.set("et", et);
    let big = r.chance(1, if thorough { 8 } else { 16 });
    let long = r.chance(1, 200);
    let wide = if r.chance(1, 12) { 280 } else { 60 };
    c.set("big", if long { *r.pick(&[1200, 5000, if crate::build() == "rel" { 66_000 } else { 2_000 }]) } else if big { 20 + r.below(wide) as i64 } else { 0 });
    let big = big || long;
    c.set("fills", r.below(1 << 30) as i64);
    let faults = r.chance(1, 3);
    let kinds = if et >= 2 { 40 } else if et == 1 { 78 } else { 74 };
    let opname = |k: usize| if k < 40 { STRUCT[k] } else if k < 74 { ARITH[k - 40] } else { FCHECK[k - 74] };
    // now and then hundreds of calls of few kinds: what a call leaves behind for the next one may need many to show
    let many = !big && r.chance(1, 60);
    let faults = faults && !many;
    c.set("many", many as i64);
    if many && r.chance(1, 2) {
        // one kind of call on one small matrix, and at regular intervals on a larger one
        c.set("many", 2);
        let p = *r.pick(&[256, 256, 256, 255, 128, 64, 100, 33]);
        let k = r.below(kinds) as usize;
        for i in 0..2 * p + 3 {
            let mut a = [4, if i % p == 0 { 1 } else { 0 }, 2, r.below(1 << 16) as i64, 0, 0];
            if r.chance(1, 3000) { a[1] = 3; }
            c.op(0, opname(k), a);
        }
        return;
    }
    let fav: Vec<u64> = (0..1 + r.below(3)).map(|_| r.below(kinds)).collect();
    let n = if big { 6 + r.below(6) } else if many { 300 + r.below(400) } else { 8 + r.below(if thorough { 60 } else { 30 }) };
    for i in 0..n {
        let k = if many && i % 16 != 0 { *r.pick(&fav) } else { r.below(kinds) } as usize;
        let name = opname(k);
        let mut a = [0i64; 6];
        for x in a.iter_mut() { *x = r.below(1 << 16) as i64; }
        a[5] = if faults && r.chance(1, 5) { 1 + r.below(1000) as i64 } else { 0 };
        // a[4] decides whether this call is meant to be rejected
        a[4] = if r.chance(1, 6) { 1 + r.below(1000) as i64 } else { 0 };
        c.op(0, name, a);
    }
}

pub trait S9: Copy + PartialEq + Debug + Send + Sync + 'static {
    const N: &'static str;
    fn mk(v: u64) -> Self;
    fn rep(&self) -> u64;
    fn good(&self) -> bool { true }
    fn gen(r: &mut Rng) -> u64;
}
impl S9 for Fp {
    const N: &'static str = "Fp";
    fn mk(v: u64) -> Fp { Fp::new(v) }
    fn rep(&self) -> u64 { self.bits() }
    fn good(&self) -> bool { self.ok() }
    fn gen(r: &mut Rng) -> u64 { match r.below(6) { 0 => 0, 1 => 1, 2 => P - 1, _ => r.next() % P } }
}
impl S9 for f64 {
    const N: &'static str = "f64";
    fn mk(v: u64) -> f64 { f64::from_bits(v) }
    fn rep(&self) -> u64 { cf(*self) }
    fn gen(r: &mut Rng) -> u64 { match r.below(40) { 0 => cf(-0.0), 1 => 0, 2 => cf(f64::INFINITY), 3 => cf(f64::NAN), 4 => cf(1e-310), _ => cf(r.range(-400, 400) as f64 / 16.0) } }
}
impl S9 for u8 {
    const N: &'static str = "u8";
    fn mk(v: u64) -> u8 { v as u8 }
    fn rep(&self) -> u64 { *self as u64 }
    fn gen(r: &mut Rng) -> u64 { r.below(256) }
}
/// large, strictly aligned
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(32))]
pub struct Wide { a: u64, b: [u8; 40], c: u64 }
impl S9 for Wide {
    const N: &'static str = "Wide";
    fn mk(v: u64) -> Wide { Wide { a: v, b: [v as u8; 40], c: !v } }
    fn rep(&self) -> u64 { self.a }
    fn good(&self) -> bool { self.c == !self.a && self.b.iter().all(|x| *x == self.a as u8) && (self as *const Wide as usize) % 32 == 0 }
    fn gen(r: &mut Rng) -> u64 { r.next() }
}
/// nothing at all
impl S9 for () {
    const N: &'static str = "()";
    fn mk(_: u64) -> () { () }
    fn rep(&self) -> u64 { 0 }
    fn gen(_: &mut Rng) -> u64 { 0 }
}

pub fn run(c: &Case) {
    match c.get("et") {
        3 => go::<Wide>(c, None, |_, _, _, _| None, |_, _, _, _| None),
        4 => go::<()>(c, None, |_, _, _, _| None, |_, _, _, _| None),
        1 => go::<f64>(c, Some(ar_f64()), step_arith::<f64>, step_float),
        2 => go::<u8>(c, None, |_, _, _, _| None, |_, _, _, _| None),
        _ => go::<Fp>(c, Some(ar_fp()), step_arith::<Fp>, |_, _, _, _| None),
    }
}

enum Exp {
    /// the call must panic and change nothing
    Reject,
    /// the result
    Val(M),
    /// the result, or a panic (the definition of the range is the caller's business)
    ValOrPanic(M),
    /// register becomes
    InPlace(usize, M),
    InPlaceWhole(usize, M),
    Nums(Vec<u64>),
    /// the answer, or a panic
    NumsOrPanic(Vec<u64>),
    Nothing,
}
enum Out<T> { Mat(Matrix<T>), Nums(Vec<u64>), Unit }
struct World<T> { regs: Vec<Matrix<T>>, mods: Vec<M>, ar: Option<Ar>, big: usize, slack: Option<Vec<f64>> }
type Step<T> = fn(&Op, &mut World<T>, &mut Rng, Plan) -> Option<(Exp, Result<Out<T>, Pan>, OpState)>;

fn shape(r: &mut Rng, big: usize) -> (usize, usize) {
    if big < 1000 { return (dim(r, big), dim(r, big)); }
    let (a, b) = (if r.chance(1, 2) { big - 1 - r.below(30) as usize } else { 1 + r.below(big as u64) as usize }, 1 + r.below(3) as usize);
    match r.below(3) { 0 => (a, b), 1 => (b, a), _ => (dim(r, 0), dim(r, 0)) }
}
fn dim(r: &mut Rng, big: usize) -> usize { if big > 0 && big < 1000 && r.chance(2, 3) { 1 + r.below(big as u64) as usize } else { match r.below(12) { 0..=2 => 1, 3..=4 => 2, 5..=6 => 3, 7 => 4, 8 => 5, 9 => 6, 10 => 7, _ => 8 + r.below(3) as usize } } }

/// shapes whose element count overflows, to nothing or to a few
fn huge(r: &mut Rng) -> (usize, usize) { match r.below(3) { 0 => (1 << 32, 1 << 32), 1 => (1 << 63, 2 + 2 * r.below(3) as usize), _ => ((1 << 62) + 1, 4) } }

fn build<T: S9>(m: &M) -> Matrix<T> {
    scope(|| { let mut v = Vec::with_capacity(m.d.len()); for x in &m.d { v.push(T::mk(*x)); } Matrix::new(m.r, m.c, v) })
}
fn rnd<T: S9>(r: &mut Rng, rows: usize, cols: usize) -> M { M { r: rows, c: cols, d: (0..rows * cols).map(|_| T::gen(r)).collect() } }

/// A matrix with some regularity: what code may be tempted to treat apart.
fn shaped<T: S9>(r: &mut Rng, a: usize, b: usize, one: u64) -> M {
    let m = rnd::<T>(r, a, b);
    let k = r.below(a.max(b) as u64) as usize;
    let v = T::gen(r);
    match r.below(24) {
        0 => M::of(a, b, |i, j| if i >= b || j >= a || i < j { m.at(i, j) } else { m.at(j, i) }),
        1 => M::of(a, b, |_, _| v),
        2 => M::of(a, b, |i, j| if i == j { m.at(i, j) } else { 0 }),
        3 => M::of(a, b, |_, _| 0),
        4 => M::of(a, b, |i, j| if i == j { one } else { 0 }),
        5 => M::of(a, b, |i, j| m.at(i % (1 + k % a), j)),
        6 => M::of(a, b, |i, j| m.at(i, j % (1 + k % b))),
        7 => M::of(a, b, |i, j| if j == (i + k) % b { one } else { 0 }),
        8 => M::of(a, b, |i, j| if i > j { 0 } else { m.at(i, j) }),
        9 => M::of(a, b, |_, _| one),
        _ => m,
    }
}

/// A second operand: often one related to the first.
fn partner<T: S9>(r: &mut Rng, x: &M, a: usize, b: usize, ar: &Ar) -> M {
    let same = x.r == a && x.c == b;
    match r.below(12) {
        0 if same => x.clone(),
        1 if same => { let mut y = x.clone(); let k = r.below(y.d.len() as u64) as usize; y.d[k] = T::gen(r); y }
        2 if same => x.map(ar.neg),
        3 if x.r == b && x.c == a => x.t(),
        // elements that occur in the first operand
        4 => M { r: a, c: b, d: (0..a * b).map(|_| x.d[r.below(x.d.len() as u64) as usize]).collect() },
        5..=7 => shaped::<T>(r, a, b, ar.one),
        _ => rnd::<T>(r, a, b),
    }
}

/// a factor: often one with which something special might be done
fn factor<T: S9>(r: &mut Rng, ar: &Ar) -> u64 { match r.below(8) { 0 => ar.zero, 1 => ar.one, 2 => (ar.neg)(ar.one), 3 => (ar.add)(ar.one, ar.one), _ => T::gen(r) } }

fn same_as<T: S9>(x: &Matrix<T>, m: &M) -> Result<(), String> {
    let d = x.get_data();
    let (r, c) = (x.rows(), if x.rows() == 0 { 0 } else { x.cols() });
    if r != m.r || c != m.c { return Err(format!("is {}x{}, should be {}x{}", r, c, m.r, m.c)); }
    if d.len() != m.d.len() { return Err(format!("has {} elements, should have {}", d.len(), m.d.len())); }
    for i in 0..d.len() {
        if !d[i].good() { return Err(format!("element ({},{}) was never computed", i / m.c, i % m.c)); }
        if d[i].rep() != m.d[i] { return Err(format!("element ({},{}) of the {}x{} matrix is {:x}, should be {:x}", i / m.c, i % m.c, m.r, m.c, d[i].rep(), m.d[i])); }
    }
    Ok(())
}

fn go<T: S9>(c: &Case, ar: Option<Ar>, arith: Step<T>, float: Step<T>) {
    let seed = c.u("seed");
    simcore::alloc::configure(c.u("fills"), 63, c.u("fills") as u32 % 4);
    let mut w = World::<T> { regs: Vec::new(), mods: Vec::new(), ar, big: c.u("big") as usize, slack: None };
    let cap = if c.get("many") > 0 { 64 } else { CAP };
    let mut r0 = Rng::new(seed ^ 0xC09);
    for k in 0..NREG {
        let (mut a, mut b) = shape(&mut r0, w.big);
        if c.get("many") == 2 { let n = [1, 4, 2, 6, 1][k]; a = n + r0.below(3) as usize; b = n + r0.below(4) as usize; }
        let m = shaped::<T>(&mut r0, a, b, w.ar.as_ref().map_or(T::mk(1).rep(), |a| a.one));
        w.regs.push(build(&m));
        w.mods.push(m);
    }
    sample(&format!("{} {}", T::N, c.ops.iter().map(|o| o.name.as_str()).collect::<Vec<_>>().join(",")));
    for (i, o) in c.ops.iter().enumerate() {
        w.slack = None;
        let before = w.mods.clone();
        // a cut-off call fails at a fraction of the points the same call passes undisturbed
        let mut plan = Plan::default();
        if o.a[5] > 0 {
            let n = in_child(|| { let mut r = Rng::new(mix(seed, o.a[3] as u64)); let st = one(o, &mut w, &mut r, Plan::default(), arith, float).map_or(0, |x| x.2.user); vec![st] });
            if let Ok(n) = n { if n[0] > 0 { plan.panic_at = 1 + (o.a[5] as u64 - 1) % 1000 * n[0] / 1000; plan.panic_id = 77; } }
        }
        let mut r = Rng::new(mix(seed, o.a[3] as u64));
        let (exp, res, st) = match one(o, &mut w, &mut r, plan, arith, float) { Some(x) => x, None => continue };
        let h = mix(hash_str(&o.name), w.mods.iter().fold(0, |h, m| mix(h, mix((m.r * 1000 + m.c) as u64, *m.d.first().unwrap_or(&0)))));
        eval(i > 0, h);
        let what = |s: String| format!("{}::{} {:?} (call {}): {}", T::N, o.name, o.a, i, s);
        if st.panic_fired && res.is_err() {
            // every target is untouched, or (in place) element by element old or new
            stat(CRASH_POINTS);
            if let Exp::InPlace(k, new) = &exp {
                let x = &w.regs[*k];
                let old = &before[*k];
                if x.rows() != old.r || x.get_data().len() != old.d.len() { fail("wrong-shape-after-failed-call", what(format!("register {} is now {} rows, {} elements", k, x.rows(), x.get_data().len()))); return; }
                let mut d = Vec::new();
                for (j, e) in x.get_data().iter().enumerate() {
                    if !e.good() || (e.rep() != old.d[j] && e.rep() != new.d[j]) { fail("wrong-element-after-failed-call", what(format!("register {} element {} is neither old nor new", k, j))); return; }
                    d.push(e.rep());
                }
                stat(P_HIST_FAIL_RESYNC);
                w.mods[*k].d = d;
            }
        } else {
            match (exp, res) {
                (Exp::Reject, Err(Pan::Native(_))) | (Exp::Reject, Err(Pan::Injected(_))) => stat(REJECTED_CALLS),
                (Exp::Reject, _) => { fail("misuse-accepted", what("should have panicked, but returned".into())); return; }
                (Exp::ValOrPanic(_), Err(Pan::Native(_))) | (Exp::NumsOrPanic(_), Err(Pan::Native(_))) => {}
                (_, Err(p)) => { fail("unexpected-panic", what(format!("panicked: {}", pan_name(&p)))); return; }
                (Exp::Val(m), Ok(Out::Mat(x))) | (Exp::ValOrPanic(m), Ok(Out::Mat(x))) => {
                    let mut m = m;
                    if let Err(s) = close(&mut m, &x, &w.slack) { fail("wrong-result", what(s)); return; }
                    let k = modi(o.a[0], NREG);
                    if m.d.len() <= if w.big >= 1000 { 250_000 } else { cap.max(w.big * w.big) } { scope(|| w.regs[k] = x); w.mods[k] = m; } else { scope(|| drop(x)); }
                }
                (Exp::Nums(v), Ok(Out::Nums(u))) | (Exp::NumsOrPanic(v), Ok(Out::Nums(u))) => if v != u { fail("wrong-answer", what(format!("answered {:x?}, should be {:x?}", u, v))); return; },
                (Exp::InPlace(k, m), Ok(_)) | (Exp::InPlaceWhole(k, m), Ok(_)) => {
                    if (m.r, m.c) != (before[k].r, before[k].c) { stat(P_SHAPE_CHANGE); }
                    let mut m = m;
                    if let Err(s) = close(&mut m, &w.regs[k], &w.slack) { fail("wrong-result", what(format!("register {} {}", k, s))); return; }
                    w.mods[k] = m;
                }
                (Exp::Nothing, Ok(Out::Mat(x))) => scope(|| drop(x)),
                _ => {}
            }
        }
        for k in 0..w.regs.len() {
            if let Err(s) = same_as(&w.regs[k], &w.mods[k]) {
                fail("matrix-differs-from-definition", what(format!("afterwards register {} {}", k, s)));
                return;
            }
        }
    }
}

/// Equal to the model; where sums may round differently, close to it (and then the model follows the library).
fn close<T: S9>(m: &mut M, x: &Matrix<T>, slack: &Option<Vec<f64>>) -> Result<(), String> {
    if let Some(s) = slack {
        if x.rows() == m.r && x.get_data().len() == m.d.len() && s.len() == m.d.len() {
            for (i, e) in x.get_data().iter().enumerate() {
                let (a, b) = (f64::from_bits(e.rep()), f64::from_bits(m.d[i]));
                // beyond 1e285 the order of summation decides whether it overflows
                if (a - b).abs() <= s[i] + 1e-300 || s[i] > 1e285 { m.d[i] = e.rep(); }
            }
        }
    }
    same_as(x, m)
}

fn one<T: S9>(o: &Op, w: &mut World<T>, r: &mut Rng, p: Plan, a: Step<T>, f: Step<T>) -> Option<(Exp, Result<Out<T>, Pan>, OpState)> {
    step_struct(o, w, r, p).or_else(|| a(o, w, r, p)).or_else(|| f(o, w, r, p))
}

/// an index outside 0..n, of the kinds people produce
fn outside(r: &mut Rng, n: usize) -> usize { match r.below(4) { 0 | 1 => n, 2 => n + 1 + r.below(20) as usize, _ => usize::MAX } }

fn step_struct<T: S9>(o: &Op, w: &mut World<T>, r: &mut Rng, p: Plan) -> Option<(Exp, Result<Out<T>, Pan>, OpState)> {
    let (ra, rb) = (modi(o.a[1], NREG), modi(o.a[2], NREG));
    let bad = o.a[4] > 0;
    let x = w.mods[ra].clone();
    let ok = |(e, (r, s)): (Exp, (Result<Out<T>, Pan>, OpState))| Some((e, r, s));
    macro_rules! lib { ($b:expr) => { run_op(p, || scope(|| $b)) } }
    match o.name.as_str() {
        "new" => {
            let (mut a, mut b) = shape(r, w.big);
            let n = a * b;
            if bad { match r.below(4) { 0 => { a = 0; b = if r.chance(1, 2) { 0 } else { b } } 1 => b = 0, 2 => a += 1, _ => b += 1 + r.below(3) as usize } }
            let v: Vec<u64> = (0..if bad && (a == 0 || b == 0) && r.chance(1, 2) { 0 } else { n }).map(|_| T::gen(r)).collect();
            // a shape whose element count does not fit any integer, but is the data's length modulo 2^64
            let huge = bad && r.chance(1, 8);
            let v = if huge { a = 1 << 33; b = 1 << 31; vec![] } else { v };
            let good = !huge && a > 0 && b > 0 && a * b == v.len();
            let data: Vec<T> = scope(|| v.iter().map(|x| T::mk(*x)).collect());
            ok((if good { Exp::Val(M { r: a, c: b, d: v }) } else { Exp::Reject }, lib!(Out::Mat(Matrix::new(a, b, data)))))
        }
        "vector" | "row_vector" => {
            let n = if bad { 0 } else if w.big >= 1000 { let (a, b) = shape(r, w.big); a.max(b) } else { dim(r, w.big) };
            let v: Vec<u64> = (0..n).map(|_| T::gen(r)).collect();
            let data: Vec<T> = scope(|| v.iter().map(|x| T::mk(*x)).collect());
            let row = o.name == "row_vector";
            let e = if n == 0 { Exp::Reject } else if row { Exp::Val(M { r: 1, c: n, d: v }) } else { Exp::Val(M { r: n, c: 1, d: v }) };
            ok((e, lib!(Out::Mat(if row { Matrix::row_vector(data) } else { Matrix::vector(data) }))))
        }
        "get" | "get_ref" | "index" | "get_mref" | "set" => {
            let (mut i, mut j) = (r.below(x.r as u64) as usize, r.below(x.c as u64) as usize);
            if bad { if r.chance(1, 2) { i = outside(r, x.r) } else { j = outside(r, x.c) } }
            let good = i < x.r && j < x.c;
            let v = T::gen(r);
            match o.name.as_str() {
                "get" => ok((if good { Exp::Nums(vec![x.at(i, j)]) } else { Exp::Reject }, lib!(Out::Nums(mute_vec(w.regs[ra].get(i, j).rep()))))),
                "get_ref" => ok((if good { Exp::Nums(vec![x.at(i, j)]) } else { Exp::Reject }, lib!(Out::Nums(mute_vec(w.regs[ra].get_ref(i, j).rep()))))),
                "index" => ok((if good { Exp::Nums(vec![x.at(i, j)]) } else { Exp::Reject }, lib!(Out::Nums(mute_vec(w.regs[ra][(i, j)].rep()))))),
                _ => {
                    let mut y = x.clone();
                    if good { y.d[i * x.c + j] = v; }
                    let m = &mut w.regs[ra];
                    let e = if good { Exp::InPlace(ra, y) } else { Exp::Reject };
                    if o.name == "set" { ok((e, lib!({ m.set(i, j, T::mk(v)); Out::Unit }))) } else { ok((e, lib!({ *m.get_mref(i, j) = T::mk(v); Out::Unit }))) }
                }
            }
        }
        "shape" => ok((Exp::Nums(vec![x.r as u64, x.c as u64, (x.r == x.c) as u64, (x.r != x.c) as u64, x.d.len() as u64]), lib!({
            let m = &w.regs[ra];
            let v = [m.rows() as u64, m.cols() as u64, m.is_square() as u64, m.is_not_square() as u64, m.get_data().len() as u64];
            Out::Nums(mute(|| v.to_vec()))
        }))),
        // the callback permutes values in a way both sides can compute: it returns one of two values by parity
        "map" | "mmap" => {
            let (u, v) = (T::gen(r), T::gen(r));
            let y = x.map(|e| if e & 1 == 0 { u } else if e & 2 == 0 { v } else { e });
            let f = move |e: &T| { crate::cat::cb(); let b = e.rep(); if b & 1 == 0 { T::mk(u) } else if b & 2 == 0 { T::mk(v) } else { *e } };
            if o.name == "map" { ok((Exp::Val(y), lib!(Out::Mat(w.regs[ra].map(&f))))) } else { let m = &mut w.regs[ra]; ok((Exp::InPlace(ra, y), lib!({ m.mmap(&f); Out::Unit }))) }
        }
        "reduce" => {
            let n = if bad { if r.chance(1, 2) { x.c + 1 } else { x.c - 1 } } else { x.c };
            let init: Vec<u64> = (0..n).map(|_| r.next()).collect();
            // a fold in which order matters
            let f = |a: u64, e: u64| mix(a.rotate_left(7), e);
            let e = if n != x.c { Exp::Reject } else { Exp::Nums((0..n).map(|j| (0..x.r).fold(init[j], |a, i| f(a, x.at(i, j)))).collect()) };
            ok((e, lib!({ let m = w.regs[ra].reduce(&init, &|a: &u64, e: &T| { crate::cat::cb(); f(*a, e.rep()) }); Out::Nums(mute(|| { let v = m.get_data().clone(); if m.rows() == 1 { v } else { vec![0xBAD] } })) })))
        }
        "clone" => ok((Exp::Val(x), lib!(Out::Mat(w.regs[ra].clone())))),
        "clone_from" => {
            if ra == rb { return ok((Exp::Nothing, lib!(Out::Unit))); }
            let y = w.mods[rb].clone();
            let (m, s) = two(&mut w.regs, ra, rb);
            ok((Exp::InPlace(ra, y), lib!({ m.clone_from(s); Out::Unit })))
        }
        "eq" => {
            let f: fn(u64, u64) -> bool = match &w.ar { Some(a) => a.eq, None => |a, b| a == b };
            let mut y = w.mods[rb].clone();
            // usually something nearly equal
            match r.below(5) {
                0 => {}
                1 => y = x.clone(),
                2 => { y = x.clone(); let k = r.below(y.d.len() as u64) as usize; y.d[k] = T::gen(r); }
                3 => { y = M { r: x.c, c: x.r, d: x.d.clone() } }
                _ => { y = x.clone(); let k = y.d.len() - 1; y.d[k] = T::gen(r); }
            }
            let alias = y == x && r.chance(1, 2);
            let z = if alias { None } else { Some(build::<T>(&y)) };
            let e = x.r == y.r && x.c == y.c && x.d.iter().zip(y.d.iter()).all(|(a, b)| f(*a, *b));
            let res = lib!({ let (m, z) = (&w.regs[ra], z.as_ref().unwrap_or(&w.regs[ra])); let v = [(*m == *z) as u64, (*z == *m) as u64, (*m != *z) as u64]; Out::Nums(mute(|| v.to_vec())) });
            scope(|| drop(z));
            ok((Exp::Nums(vec![e as u64, e as u64, !e as u64]), res))
        }
        "cr" | "bitor" | "cb" => {
            let down = o.name == "cb";
            let y = if bad { w.mods[rb].clone() } else { let k = dim(r, w.big); if down { rnd::<T>(r, k, x.c) } else { rnd::<T>(r, x.r, k) } };
            let z = build::<T>(&y);
            let good = if down { x.c == y.c } else { x.r == y.r };
            let e = if !good { Exp::Reject } else if down { Exp::Val(M::of(x.r + y.r, x.c, |i, j| if i < x.r { x.at(i, j) } else { y.at(i - x.r, j) })) } else { Exp::Val(M::of(x.r, x.c + y.c, |i, j| if j < x.c { x.at(i, j) } else { y.at(i, j - x.c) })) };
            let own = if o.name == "bitor" { Some(scope(|| w.regs[ra].clone())) } else { None };
            let res = lib!(Out::Mat(match own { Some(m) => m | &z, None if down => w.regs[ra].cb(&z), None => w.regs[ra].cr(&z) }));
            scope(|| drop(z));
            ok((e, res))
        }
        "t" => ok((Exp::Val(x.t()), lib!(Out::Mat(w.regs[ra].t())))),
        "mt" => { let m = &mut w.regs[ra]; ok((Exp::InPlaceWhole(ra, x.t()), lib!({ m.mt(); Out::Unit }))) }
        "minor" => {
            let (mut i, mut j) = (r.below(x.r as u64) as usize, r.below(x.c as u64) as usize);
            if bad { if r.chance(1, 2) { i = outside(r, x.r) } else { j = outside(r, x.c) } }
            let e = if i >= x.r || j >= x.c || x.r < 2 || x.c < 2 { Exp::Reject } else { Exp::Val(M::of(x.r - 1, x.c - 1, |a, b| x.at(if a < i { a } else { a + 1 }, if b < j { b } else { b + 1 }))) };
            ok((e, lib!(Out::Mat(w.regs[ra].minor(i, j)))))
        }
        "sub_matrix" => {
            let (i, j) = (r.below(x.r as u64) as usize, r.below(x.c as u64) as usize);
            let (mut k, mut l) = (i + 1 + r.below((x.r - i) as u64) as usize, j + 1 + r.below((x.c - j) as u64) as usize);
            let (mut i, mut j) = (i, j);
            if bad {
                match r.below(8) {
                    0 => k = x.r + 1 + r.below(2) as usize,
                    1 => l = x.c + 1 + r.below(2) as usize,
                    2 => k = i,
                    3 => l = j,
                    4 => { std::mem::swap(&mut i, &mut k); }
                    5 => { std::mem::swap(&mut j, &mut l); }
                    6 => { j += x.c; l += x.c; }
                    _ => { i += x.r; k += x.r; }
                }
            }
            let e = if i >= k || j >= l || k > x.r || l > x.c { Exp::Reject } else {
                let m = M::of(k - i, l - j, |a, b| x.at(i + a, j + b));
                // the library refuses ranges as high or as wide as the matrix; either answer is fine there
                if k - i == x.r || l - j == x.c { Exp::ValOrPanic(m) } else { Exp::Val(m) }
            };
            ok((e, lib!(Out::Mat(w.regs[ra].sub_matrix(i, j, k, l)))))
        }
        "get_column" => {
            let j = if bad { outside(r, x.c) } else { r.below(x.c as u64) as usize };
            ok((if j < x.c { Exp::Val(x.cols(&[j])) } else { Exp::Reject }, lib!(Out::Mat(w.regs[ra].get_column(j)))))
        }
        "permute_rows" | "permute_columns" => {
            let byrow = o.name == "permute_rows";
            let n = if byrow { x.r } else { x.c };
            let len = 1 + r.below(n as u64 + 2) as usize;
            let mut ix: Vec<usize> = (0..len).map(|_| r.below(n as u64) as usize).collect();
            if r.chance(1, 3) { ix = (0..n).collect(); r.shuffle(&mut ix); }
            if bad { let k = r.below(ix.len() as u64) as usize; ix[k] = outside(r, n); }
            let good = ix.iter().all(|i| *i < n);
            let e = if !good { Exp::Reject } else { Exp::Val(if byrow { x.rows(&ix) } else { x.cols(&ix) }) };
            ok((e, lib!(Out::Mat(if byrow { w.regs[ra].permute_rows(&ix) } else { w.regs[ra].permute_columns(&ix) }))))
        }
        "filter_rows" | "filter_columns" | "select_rows" | "select_columns" => {
            let byrow = o.name.ends_with("rows");
            let n = if byrow { x.r } else { x.c };
            let mut mask: Vec<bool> = (0..n).map(|_| r.chance(1, 2)).collect();
            if !mask.iter().any(|b| *b) { let k = r.below(n as u64) as usize; mask[k] = true; }
            let ix: Vec<usize> = (0..n).filter(|i| mask[*i]).collect();
            let y = if byrow { x.rows(&ix) } else { x.cols(&ix) };
            if o.name.starts_with("filter") {
                return ok((Exp::Val(y), lib!(Out::Mat(if byrow { w.regs[ra].filter_rows(&|_, i| { crate::cat::cb(); mask[i] }) } else { w.regs[ra].filter_columns(&|_, i| { crate::cat::cb(); mask[i] }) }))));
            }
            // a selector of another length is incompatible whatever it says
            if bad { match r.below(4) { 0 => mask.push(true), 1 => mask.push(false), 2 => { mask.push(false); mask.push(true) } _ => { mask.pop(); } } }
            let good = mask.len() == n;
            ok((if good { Exp::Val(y) } else { Exp::Reject }, lib!(Out::Mat(if byrow { w.regs[ra].select_rows(&mask) } else { w.regs[ra].select_columns(&mask) }))))
        }
        // nothing chosen: nothing left, in as many rows (or columns) as there were
        "nothing" => {
            let (kind, byrow) = (r.below(3), r.chance(1, 2));
            let mask = vec![false; if byrow { x.r } else { x.c }];
            let e = Exp::NumsOrPanic(if byrow { vec![0, 0] } else { vec![x.r as u64, 0, 0] });
            ok((e, lib!({
                let m = &w.regs[ra];
                let y = match (kind, byrow) {
                    (0, true) => m.permute_rows(&[]), (0, _) => m.permute_columns(&[]),
                    (1, true) => m.select_rows(&mask), (1, _) => m.select_columns(&mask),
                    (_, true) => m.filter_rows(&|_, _| { crate::cat::cb(); false }), _ => m.filter_columns(&|_, _| { crate::cat::cb(); false }),
                };
                let mut v = [y.rows() as u64, y.get_data().len() as u64, 0];
                let n = if byrow { 2 } else { v[2] = y.cols() as u64; 3 };
                Out::Nums(mute(|| v[..n].to_vec()))
            })))
        }
        "get_mut_data" => {
            let k = r.below(x.d.len() as u64) as usize;
            let v = T::gen(r);
            let mut y = x.clone();
            y.d[k] = v;
            let m = &mut w.regs[ra];
            ok((Exp::InPlace(ra, y), lib!({ m.get_mut_data()[k] = T::mk(v); Out::Unit })))
        }
        "drop" => {
            let m = { let (a, b) = shape(r, w.big); shaped::<T>(r, a, b, w.ar.as_ref().map_or(T::mk(1).rep(), |a| a.one)) };
            let z = build(&m);
            scope(|| w.regs[ra] = z);
            w.mods[ra] = m;
            ok((Exp::Nothing, lib!(Out::Unit)))
        }
        "swap" => { w.regs.swap(ra, rb); w.mods.swap(ra, rb); ok((Exp::Nothing, lib!(Out::Unit))) }
        "macro" => {
            // the literal notation
            let v: Vec<u64> = (0..16).map(|_| T::gen(r)).collect();
            let forms = mute(|| literals::<T>());
            let ((a, b), f) = forms[r.below(forms.len() as u64) as usize];
            ok((Exp::Val(M { r: a, c: b, d: v[..a * b].to_vec() }), lib!(Out::Mat(f(&v)))))
        }
        "round_trip" => {
            // transposing twice in place is the identity whatever the shape
            let m = &mut w.regs[ra];
            ok((Exp::InPlaceWhole(ra, x), lib!({ m.mt(); m.mt(); Out::Unit })))
        }
        _ => None,
    }
}

type Lit<T> = ((usize, usize), fn(&[u64]) -> Matrix<T>);
fn literals<T: S9>() -> Vec<Lit<T>> {
    fn e<T: S9>(v: &[u64], k: usize) -> T { T::mk(v[k]) }
    let v: Vec<Lit<T>> = vec![
        ((1, 1), |v| m!(e::<T>(v, 0))),
        ((1, 2), |v| m!(e::<T>(v, 0), e(v, 1))),
        ((1, 5), |v| m!(e::<T>(v, 0), e(v, 1), e(v, 2), e(v, 3), e(v, 4))),
        ((2, 1), |v| m!(e::<T>(v, 0); e(v, 1))),
        ((4, 1), |v| m!(e::<T>(v, 0); e(v, 1); e(v, 2); e(v, 3))),
        ((2, 2), |v| m!(e::<T>(v, 0), e(v, 1); e(v, 2), e(v, 3))),
        ((2, 3), |v| m!(e::<T>(v, 0), e(v, 1), e(v, 2); e(v, 3), e(v, 4), e(v, 5))),
        ((3, 2), |v| m!(e::<T>(v, 0), e(v, 1); e(v, 2), e(v, 3); e(v, 4), e(v, 5))),
        ((5, 3), |v| m!(e::<T>(v, 0), e(v, 1), e(v, 2); e(v, 3), e(v, 4), e(v, 5); e(v, 6), e(v, 7), e(v, 8); e(v, 9), e(v, 10), e(v, 11); e(v, 12), e(v, 13), e(v, 14))),
        ((4, 4), |v| m!(e::<T>(v, 0), e(v, 1), e(v, 2), e(v, 3); e(v, 4), e(v, 5), e(v, 6), e(v, 7); e(v, 8), e(v, 9), e(v, 10), e(v, 11); e(v, 12), e(v, 13), e(v, 14), e(v, 15))),
        ((2, 8), |v| m!(e::<T>(v, 0), e(v, 1), e(v, 2), e(v, 3), e(v, 4), e(v, 5), e(v, 6), e(v, 7); e(v, 8), e(v, 9), e(v, 10), e(v, 11), e(v, 12), e(v, 13), e(v, 14), e(v, 15))),
    ];
    v
}

fn mute_vec(v: u64) -> Vec<u64> { mute(|| vec![v]) }
fn two<T>(v: &mut Vec<Matrix<T>>, a: usize, b: usize) -> (&mut Matrix<T>, &Matrix<T>) {
    if a < b { let (x, y) = v.split_at_mut(b); (&mut x[a], &y[0]) } else { let (x, y) = v.split_at_mut(a); (&mut y[0], &x[b]) }
}

fn step_arith<T: S9 + num::Num + Neg<Output = T>>(o: &Op, w: &mut World<T>, r: &mut Rng, p: Plan) -> Option<(Exp, Result<Out<T>, Pan>, OpState)> {
    let (ra, rb) = (modi(o.a[1], NREG), modi(o.a[2], NREG));
    let bad = o.a[4] > 0;
    let x = w.mods[ra].clone();
    let ok = |(e, (r, s)): (Exp, (Result<Out<T>, Pan>, OpState))| Some((e, r, s));
    macro_rules! lib { ($b:expr) => { run_op(p, || scope(|| $b)) } }
    let ar = w.ar.take()?;
    let res = (|| match o.name.as_str() {
        "id" if bad => { let (a, b) = huge(r); ok((Exp::Reject, lib!(Out::Mat(Matrix::<T>::id(a, b))))) }
        "zero" if bad => { let (a, b) = huge(r); ok((Exp::Reject, lib!(Out::Mat(Matrix::<T>::zero(a, b))))) }
        "id" => { let (a, b) = shape(r, w.big); ok((Exp::Val(M::of(a, b, |i, j| if i == j { ar.one } else { ar.zero })), lib!(Out::Mat(Matrix::id(a, b))))) }
        "zero" => { let (a, b) = shape(r, w.big); ok((Exp::Val(M::of(a, b, |_, _| ar.zero)), lib!(Out::Mat(Matrix::zero(a, b))))) }
        "zero_vector" => { let a = dim(r, w.big); ok((Exp::Val(M::of(a, 1, |_, _| ar.zero)), lib!(Out::Mat(Matrix::zero_vector(a))))) }
        "one_vector" => { let a = dim(r, w.big); ok((Exp::Val(M::of(a, 1, |_, _| ar.one)), lib!(Out::Mat(Matrix::one_vector(a))))) }
        "diag" => {
            let n = if bad { 0 } else { dim(r, w.big) };
            let v: Vec<u64> = (0..n).map(|_| T::gen(r)).collect();
            let data: Vec<T> = scope(|| v.iter().map(|x| T::mk(*x)).collect());
            ok((if n == 0 { Exp::Reject } else { Exp::Val(M::of(n, n, |i, j| if i == j { v[i] } else { ar.zero })) }, lib!(Out::Mat(Matrix::diag(data)))))
        }
        "block_diag" => {
            let (a, b) = shape(r, w.big);
            let n = a.min(b);
            let n = if bad { if r.chance(1, 2) { n + 1 } else { n - 1 } } else { n };
            let v: Vec<u64> = (0..n).map(|_| T::gen(r)).collect();
            let data: Vec<T> = scope(|| v.iter().map(|x| T::mk(*x)).collect());
            ok((if n != a.min(b) { Exp::Reject } else { Exp::Val(M::of(a, b, |i, j| if i == j { v[i] } else { ar.zero })) }, lib!(Out::Mat(Matrix::block_diag(a, b, data)))))
        }
        "neg" => ok((Exp::Val(x.map(ar.neg)), lib!(Out::Mat(-&w.regs[ra])))),
        "neg_own" => { let m = scope(|| w.regs[ra].clone()); ok((Exp::Val(x.map(ar.neg)), lib!(Out::Mat(-m)))) }
        "mneg" => { let m = &mut w.regs[ra]; ok((Exp::InPlace(ra, x.map(ar.neg)), lib!({ m.mneg(); Out::Unit }))) }
        "scale" | "mscale" => {
            let f = factor::<T>(r, &ar);
            let y = x.map(|e| (ar.mul)(f, e));
            if o.name == "scale" { ok((Exp::Val(y), lib!(Out::Mat(w.regs[ra].scale(T::mk(f)))))) } else { let m = &mut w.regs[ra]; ok((Exp::InPlace(ra, y), lib!({ m.mscale(T::mk(f)); Out::Unit }))) }
        }
        "madd" | "msub" | "melem_mul" | "melem_div" | "elem_mul" | "elem_div" | "add" | "add_ro" | "add_or" | "add_oo" | "sub" | "sub_ro" | "sub_or" | "sub_oo" => {
            let y = if bad { match r.below(3) { 0 => w.mods[rb].clone(), 1 => rnd::<T>(r, x.c, x.r), _ => rnd::<T>(r, x.r, x.c + 1) } } else { partner::<T>(r, &x, x.r, x.c, &ar) };
            let good = x.same(&y);
            let base = o.name.trim_start_matches('m').split('_').next().unwrap().to_string();
            let f = match (base.as_str(), o.name.as_str()) { ("add", _) => ar.add, ("sub", _) => ar.sub, (_, "melem_mul") | (_, "elem_mul") => ar.mul, _ => ar.div };
            let z = build::<T>(&y);
            let v = if good { x.zip(&y, f) } else { x.clone() };
            let inplace = o.name.starts_with('m');
            if inplace {
                let m = &mut w.regs[ra];
                let res = lib!({ match o.name.as_str() { "madd" => m.madd(&z), "msub" => m.msub(&z), "melem_mul" => m.melem_mul(&z), _ => m.melem_div(&z) } Out::Unit });
                scope(|| drop(z));
                return ok((if good { Exp::InPlace(ra, v) } else { Exp::Reject }, res));
            }
            let m = &w.regs[ra];
            let own = scope(|| m.clone());
            // both operands the very same object
            let z = if y == x && r.chance(2, 3) && ["add", "sub", "elem_mul", "elem_div"].contains(&o.name.as_str()) { scope(|| drop(z)); None } else { Some(z) };
            let own_z = ["add_ro", "add_oo", "sub_ro", "sub_oo"].contains(&o.name.as_str());
            let (z, zo) = if own_z { (None, z) } else { (z, None) };
            let res = { let z = z.as_ref().unwrap_or(m); lib!(Out::Mat(match o.name.as_str() {
                "add" => m + z, "add_ro" => m + zo.unwrap(), "add_or" => own + z, "add_oo" => own + zo.unwrap(),
                "sub" => m - z, "sub_ro" => m - zo.unwrap(), "sub_or" => own - z, "sub_oo" => own - zo.unwrap(),
                "elem_mul" => m.elem_mul(z), _ => m.elem_div(z),
            })) };
            scope(|| drop(z));
            ok((if good { Exp::Val(v) } else { Exp::Reject }, res))
        }
        "mul" | "mul_ro" | "mul_or" | "mul_oo" | "mmul" => {
            let k = dim(r, w.big);
            let y = if bad { match r.below(3) { 0 => w.mods[rb].clone(), 1 => rnd::<T>(r, x.c + 1, k), _ => rnd::<T>(r, x.r, x.c) } } else { let k = if r.chance(1, 4) && x.c <= 30 { x.c } else { k }; partner::<T>(r, &x, x.c, k, &ar) };
            let good = x.c == y.r;
            if good && x.r * y.c > CAP { return ok((Exp::Nothing, lib!(Out::Unit))); }
            let v = if good { ar.product(&x, &y) } else { x.clone() };
            if good && ar.rounds { w.slack = Some(ar.slack(&x, &y)); }
            let z = build::<T>(&y);
            if o.name == "mmul" {
                let m = &mut w.regs[ra];
                let res = lib!({ m.mmul(&z); Out::Unit });
                scope(|| drop(z));
                return ok((if good { Exp::InPlaceWhole(ra, v) } else { Exp::Reject }, res));
            }
            let m = &w.regs[ra];
            let own = scope(|| m.clone());
            let alias = o.name == "mul" && y == x && r.chance(2, 3);
            let res = lib!(Out::Mat(match o.name.as_str() { "mul" if alias => m * m, "mul" => m * &z, "mul_ro" => m * z, "mul_or" => own * &z, _ => own * z }));
            ok((if good { Exp::Val(v) } else { Exp::Reject }, res))
        }
        "pure_vs_in_place" => {
            // the same step in both forms, on the same operands
            let y = partner::<T>(r, &x, x.r, x.c, &ar);
            let k = if r.chance(1, 4) && x.c <= 30 { x.c } else { dim(r, 0) };
            let sq = partner::<T>(r, &x, x.c, k, &ar);
            let (z, q) = (build::<T>(&y), build::<T>(&sq));
            let f = T::mk(factor::<T>(r, &ar));
            let kind = r.below(8);
            let m = &w.regs[ra];
            let mut own = scope(|| m.clone());
            let pr = run_op(p, || scope(|| {
                let pure = match kind { 0 => -m, 1 => m.scale(f), 2 => m + &z, 3 => m - &z, 4 => m.elem_mul(&z), 5 => m.elem_div(&z), 6 => m * &q, _ => m.t() };
                match kind { 0 => own.mneg(), 1 => own.mscale(f), 2 => own.madd(&z), 3 => own.msub(&z), 4 => own.melem_mul(&z), 5 => own.melem_div(&z), 6 => own.mmul(&q), _ => own.mt() }
                let same = mute(|| pure.rows() == own.rows() && pure.get_data().len() == own.get_data().len() && pure.get_data().iter().zip(own.get_data().iter()).all(|(a, b)| {
                    if a.rep() == b.rep() { return true; }
                    // a rounded sum may be taken in another order
                    kind == 6 && ar.rounds && { let (a, b) = (f64::from_bits(a.rep()), f64::from_bits(b.rep())); !a.is_finite() || !b.is_finite() || (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs())) }
                }));
                Out::Nums(mute_vec(same as u64))
            }));
            scope(|| { drop(z); drop(q); drop(own); });
            ok((Exp::Nums(vec![1]), pr))
        }
        _ => None,
    })();
    w.ar = Some(ar);
    res
}

/// argument checks of operations on floating point matrices
fn step_float(o: &Op, w: &mut World<f64>, r: &mut Rng, p: Plan) -> Option<(Exp, Result<Out<f64>, Pan>, OpState)> {
    let d = 1 + r.below(6) as usize;
    macro_rules! lib { ($b:expr) => { run_op(p, || scope(|| $b)) } }
    let fin = |r: &mut Rng, a: usize, b: usize| M::of(a, b, |_, _| 0).map(|_| 0).zip(&rnd::<u8>(r, a, b), |_, v| cf(v as f64 / 16.0 - 7.0));
    let (e, (res, st)) = match o.name.as_str() {
        "f_square" => {
            let e = d + 1 + r.below(3) as usize;
            let (a, b) = if r.chance(1, 2) { (d, e) } else { (e, d) };
            let m = build::<f64>(&fin(r, a, b));
            let k = r.below(4);
            let x = lib!({ match k { 0 => { m.det(); } 1 => { m.inverse(); } 2 => { m.is_singular(); } _ => { m.is_non_singular(); } } Out::Unit });
            scope(|| drop(m));
            (Exp::Reject, x)
        }
        "f_vector" => {
            let c = 2 + r.below(4) as usize;
            let m = build::<f64>(&fin(r, d, c));
            let k = r.below(6);
            let x = lib!({ match k { 0 => m.vector_euclidean_norm(), 1 => m.length(), 2 => m.vector_1_norm(), 3 => m.vector_2_norm(), 4 => m.vector_p_norm(3.0), _ => m.vector_inf_norm() }; Out::Unit });
            scope(|| drop(m));
            (Exp::Reject, x)
        }
        "f_solve" => {
            let mut y = fin(r, d, d);
            for i in 0..d { y.d[i * d + i] = cf(100.0 + i as f64); }
            let a = build::<f64>(&y);
            let n = if r.chance(1, 2) { d + 1 + r.below(3) as usize } else { d.saturating_sub(1).max(1) };
            if n == d { return None; }
            let b = build::<f64>(&fin(r, n, 2));
            let k = r.below(3);
            let x = lib!({ match k { 0 => { a.solve(&b); } 1 => { la::LUDecomposition::new(&a).solve(&b); } _ => { la::QRDecomposition::new(&a).solve(&b); } } Out::Unit });
            scope(|| { drop(a); drop(b); });
            (Exp::Reject, x)
        }
        "f_shape" => {
            // comparison up to rounding of different shapes is false, of equal ones true
            let c = 1 + r.below(5) as usize;
            let y = fin(r, d, c);
            let m = build::<f64>(&y);
            let t = build::<f64>(&M { r: c, c: d, d: y.d.clone() });
            let x = lib!({ let v = [m.approx_eq(&m) as u64, m.approx_eq(&t) as u64]; Out::Nums(mute(|| v.to_vec())) });
            scope(|| { drop(m); drop(t); });
            (Exp::Nums(vec![1, (c == d) as u64]), x)
        }
        _ => return None,
    };
    let _ = w;
    Some((e, res, st))
}
