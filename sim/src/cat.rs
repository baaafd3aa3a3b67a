//! The catalogue: every public operation of the library, over a pool of matrices of assorted shapes.
use crate::ctx::{modi, stat};
use la::{CholeskyDecomposition, EigenDecomposition, LUDecomposition, Matrix, QRDecomposition, SVD};
use num::traits::Float;
use simcore::elem::*;
use simcore::rng::Rng;
use simcore::st::*;
use std::ops::{Add, Mul, Neg, Sub};

pub const A: usize = 0; // n x n
pub const B: usize = 1; // n x n
pub const SPD: usize = 2;
pub const SYM: usize = 3;
pub const SING: usize = 4;
pub const T1: usize = 5; // m x n, m > n
pub const T2: usize = 6;
pub const W1: usize = 7; // n x m
pub const W2: usize = 8;
pub const V1: usize = 9; // n x 1
pub const V2: usize = 10;
pub const VM: usize = 11; // m x 1
pub const R: usize = 12; // n x k
pub const RM: usize = 13; // m x k
pub const ROW: usize = 14; // 1 x n
pub const ONE: usize = 15; // 1 x 1
pub const NSLOT: usize = 16;

pub struct Decs<T> {
    pub lu: LUDecomposition<T>,
    pub lus: LUDecomposition<T>,
    pub lut: LUDecomposition<T>,
    pub luw: LUDecomposition<T>,
    pub qr: QRDecomposition<T>,
    pub qrt: QRDecomposition<T>,
    pub qrw: QRDecomposition<T>,
    pub svd: SVD<T>,
    pub svdt: SVD<T>,
    pub svdw: SVD<T>,
    pub eig: EigenDecomposition<T>,
    pub eigs: EigenDecomposition<T>,
    pub chol: CholeskyDecomposition<T>,
}

pub struct Env<T> {
    pub m: Vec<Matrix<T>>,
    pub d: Option<Box<Decs<T>>>,
}

#[derive(Clone, Copy, Debug)]
pub struct Dims { pub n: usize, pub m: usize, pub k: usize }

static BIG_N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub fn dims(seed: u64, big: usize) -> Dims {
    let mut r = Rng::new(seed ^ 0xD1D1);
    let mut n = match r.below(20) {
        0..=1 => 1,
        2..=5 => 2,
        6..=10 => 3,
        11..=14 => 4,
        15..=16 => 5,
        17 => 6,
        18 => 7 + r.below(3) as usize,
        _ => 5,
    };
    let mut m = n + 1 + r.below(3) as usize;
    if big >= 1000 {
        // long and narrow: past every width of integer and block size a loop may be tempted to use
        n = 1 + r.below(2) as usize;
        m = (*r.pick(&[257usize, 1025, 4097, 16385, 65537, 65537]) + r.below(40) as usize).min(big);
    } else if big > 8 {
        let b = big as u64;
        match r.below(10) {
            0..=2 => { n = 8 + r.below(b.min(20) - 7) as usize; m = n + 1 + r.below(3) as usize }
            3..=6 => { n = (b - b / 3) as usize + r.below(b / 3 + 1) as usize; m = n + 1 + r.below(3) as usize }
            7..=8 => { n = 1 + r.below(6) as usize; m = 9 + r.below(3 * b) as usize }
            // around the sizes code likes to switch at
            _ => { let k = *r.pick(&[8usize, 16, 32, 64, 128]); n = (k + r.below(3) as usize - 1).min(big); m = n + 1 + r.below(3) as usize }
        }
    }
    BIG_N.store(m, std::sync::atomic::Ordering::Relaxed);
    Dims { n, m, k: 1 + r.below(3) as usize }
}

/// now and then something much larger
/// (the unoptimised builds take a smaller step)
pub fn rare_big(r: &mut Rng, big: i64) -> i64 {
    let fast = crate::build() == "rel";
    if r.chance(1, 250) { if fast { 300 } else { 150 } } else if r.chance(1, 250) { if fast { 66_000 } else { 4_200 } } else { big }
}

/// operations whose cost grows with the third power
const CUBIC: [&str; 24] = ["lu_odd", "qr_odd", "odd_float", "mul", "mul_ro", "mul_or", "mul_oo", "mmul", "chain", "det", "solve", "inverse", "is_singular", "is_non_singular", "pinverse", "lu", "lu_sq", "lu_solve_t", "qr", "qr_sq", "cholesky", "svd", "eigen", "svd_direct"];

/// leave the costly operations to small matrices
fn fits<T>(d: &Def<T>) -> bool {
    let m = BIG_N.load(std::sync::atomic::Ordering::Relaxed);
    // built-in element types run at full speed; simulated ones cost a step per operation
    let native = ["f64", "f32"].contains(&std::any::type_name::<T>());
    if m > 450 && (CUBIC.contains(&d.name) || ["id", "zero", "block_diag", "random", "odd"].contains(&d.name)) { return false; }
    if d.fl & (HEAVY | DEC) != 0 { return m <= if native { 76 } else { 40 }; }
    m <= if native { 150 } else { 80 } || !CUBIC.contains(&d.name)
}

pub fn value(r: &mut Rng, style: u64) -> f64 {
    match style % 5 {
        0 => (r.range(-32, 32) as f64) / 8.0,
        1 => if r.chance(1, 2) { 0.0 } else { (r.range(-32, 32) as f64) / 8.0 },
        2 => r.range(-3, 3) as f64,
        3 => (r.unit() - 0.5) * 8.0,
        _ => (r.unit() - 0.5) * 2f64.powi(r.range(-12, 12) as i32),
    }
}

/// The elements of every slot, as f64.
pub fn plain(seed: u64, d: Dims) -> Vec<(usize, usize, Vec<f64>)> {
    let mut r = Rng::new(seed ^ 0xDA7A);
    let style = r.below(5);
    let (n, m, k) = (d.n, d.m, d.k);
    let shapes = [(n, n), (n, n), (n, n), (n, n), (n, n), (m, n), (m, n), (n, m), (n, m), (n, 1), (n, 1), (m, 1), (n, k), (m, k), (1, n), (1, 1)];
    let mut v: Vec<(usize, usize, Vec<f64>)> = shapes.iter().map(|&(a, b)| (a, b, (0..a * b).map(|_| value(&mut r, style)).collect())).collect();
    // zeros in places where algorithms branch on them
    if r.chance(1, 3) { for s in 0..NSLOT { if r.chance(1, 3) { let (a, b) = (v[s].0, v[s].1); structure(&mut r, a, b, &mut v[s].2); } } }
    // a dominant diagonal keeps A and B comfortably non-singular in most runs
    if r.chance(2, 3) { for s in [A, B] { for i in 0..n { v[s].2[i * n + i] += if i % 2 == 0 { 6.0 } else { -6.0 }; } } }
    for i in 0..n { for j in 0..i { v[SYM].2[i * n + j] = v[SYM].2[j * n + i]; } }
    let g = v[SPD].2.clone();
    for i in 0..n { for j in 0..n {
        let mut s = if i == j { n as f64 + 1.0 } else { 0.0 };
        for q in 0..n { s += g[i * n + q] * g[j * n + q]; }
        v[SPD].2[i * n + j] = s;
    } }
    for i in 0..n { for j in 0..i { v[SPD].2[i * n + j] = v[SPD].2[j * n + i]; } }
    if n == 1 { v[SING].2[0] = 0.0; } else { for j in 0..n { v[SING].2[(n - 1) * n + j] = v[SING].2[j]; } }
    v
}

/// Give a matrix a shape of zeros or repetitions.
fn structure(r: &mut Rng, a: usize, b: usize, v: &mut Vec<f64>) {
    let k = r.below(a.max(b) as u64) as usize;
    match r.below(11) {
        0 => for i in 0..a { v[i * b + k % b] = 0.0 },
        1 => for j in 0..b { v[k % a * b + j] = 0.0 },
        2 => for i in 0..a { for j in 0..b { if i > j { v[i * b + j] = 0.0 } } },
        3 => for i in 0..a { for j in 0..b { if i < j { v[i * b + j] = 0.0 } } },
        4 => for i in 0..a { for j in 0..b { if i != j { v[i * b + j] = 0.0 } } },
        5 => for i in 0..a { for j in 0..b { if i > j + 1 || j > i + 1 { v[i * b + j] = 0.0 } } },
        6 => for i in 0..a { for j in 0..b { if i > j + 1 { v[i * b + j] = 0.0 } } },
        7 => for i in 0..a { for j in 0..b { v[i * b + j] = (j == (i + k) % b) as u8 as f64 } },
        8 => for x in v.iter_mut() { *x = 0.0 },
        9 => { let x = v[0]; for y in v.iter_mut() { *y = x } }
        // two diagonal blocks
        _ => for i in 0..a { for j in 0..b { if (i < k) != (j < k) { v[i * b + j] = 0.0 } } },
    }
}

/// Now and then elements no ordinary computation likes.
fn extremes(seed: u64, p: &mut Vec<(usize, usize, Vec<f64>)>) {
    let mut r = Rng::new(seed ^ 0xE87);
    if !r.chance(1, 30) { return; }
    let kind = r.below(6);
    for x in p.iter_mut() {
        let n = x.2.len();
        if n > 150 || r.chance(1, 2) { continue; }
        match kind {
            0 => { let f = 2f64.powi(r.range(-1000, 1000) as i32); for e in x.2.iter_mut() { *e *= f } }
            1 => { let f = 2f64.powi(r.range(-140, 120) as i32); for e in x.2.iter_mut() { *e *= f } }
            _ => for _ in 0..1 + r.below(2) { let k = r.below(n as u64) as usize; x.2[k] = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 1e300, 4e-320, f64::MAX]) },
        }
    }
}

impl<T: Elem> Env<T> {
    /// Build the pool. Matrices are created by library code under the simulator, so their memory is the simulator's.
    pub fn new(seed: u64, d: Dims) -> Env<T> {
        let mut p = plain(seed, d);
        if ["Sim", "f64", "f32"].contains(&T::NAME) { extremes(seed, &mut p); }
        let m = p.into_iter().map(|(r, c, v)| {
            scope(|| {
                let mut data: Vec<T> = Vec::with_capacity(r * c);
                for x in v { data.push(T::of(x)); }
                Matrix::new(r, c, data)
            })
        }).collect();
        Env { m, d: None }
    }
    pub fn any(&self, a: i64) -> &Matrix<T> { &self.m[modi(a, NSLOT)] }
    /// a slot of the same shape as slot `s`
    pub fn same(&self, s: usize, a: i64) -> usize {
        self.filter(a, |i| self.m[i].rows() == self.m[s].rows() && self.m[i].cols() == self.m[s].cols())
    }
    /// a slot that can be multiplied from the right to slot `s`
    pub fn right(&self, s: usize, a: i64) -> usize { self.filter(a, |i| self.m[i].rows() == self.m[s].cols()) }
    pub fn rows_as(&self, s: usize, a: i64) -> usize { self.filter(a, |i| self.m[i].rows() == self.m[s].rows()) }
    pub fn cols_as(&self, s: usize, a: i64) -> usize { self.filter(a, |i| self.m[i].cols() == self.m[s].cols()) }
    pub fn square(&self, a: i64) -> usize { [A, B, SPD, SYM, SING, ONE][modi(a, 6)] }
    fn filter(&self, a: i64, f: impl Fn(usize) -> bool) -> usize {
        mute(|| {
            let c: Vec<usize> = (0..NSLOT).filter(|&i| f(i)).collect();
            if c.is_empty() { NSLOT } else { c[modi(a, c.len())] }
        })
    }
}

/// exponents for the p-norm, sensible and not
const POWERS: [f64; 12] = [4.0, 1.0, 2.0, 3.0, 0.5, 1.5, 0.0, -1.0, f64::INFINITY, f64::NAN, 1e300, f64::NEG_INFINITY];

/// factors for scaling
fn factor<T: Elem>(a: i64) -> T {
    let float = ["Sim", "f64", "f32"].contains(&T::NAME);
    T::of(match modi(a, 16) { 0 => 0.0, 1 => 1.0, 2 => -1.0, 3 => 2.0, 4 if float => f64::NAN, 5 if float => f64::INFINITY, 6 if float => -0.0, 7 if float => 1e-310, 8 if float => 1e300, _ => 1.5 })
}

/// Operations that walk the element vector itself, whatever shape it has. On vectors of another length than the shape's, a
/// walk by rows and columns may see fewer elements; which of the two an implementation does is its own business.
pub fn elementwise(name: &str) -> bool {
    ["map", "map_type", "mmap", "scale", "mscale", "mneg", "neg", "neg_own", "cb", "t", "mt", "chain", "pinverse", "odd", "vector", "row_vector", "clone", "clone_from"].contains(&name)
        || ["add", "sub_", "madd", "msub", "elem_", "melem_", "mul"].iter().any(|p| name.starts_with(p)) && name != "sub_matrix" || name == "sub" || name == "mmul"
}

/// What `get_mut_data` allows anybody to do: give some of the matrices more or fewer elements than their shape has.
pub fn bend<T: Elem>(e: &mut Env<T>, seed: u64) {
    let mut r = Rng::new(seed ^ 0xBE4D);
    for x in e.m.iter_mut() {
        if !r.chance(2, 3) { continue; }
        let kind = r.below(10);
        let k = 1 + r.below(2 * x.rows() as u64 + 3) as usize;
        stat(DATA_RESIZED);
        scope(|| {
            let d = x.get_mut_data();
            match kind {
                0..=4 => for i in 0..k { d.push(T::of(i as f64 / 4.0 - 1.0)); },
                5..=8 => { let n = d.len(); d.truncate(n - k.min(n)); }
                _ => d.clear(),
            }
        });
    }
}

impl<T: FElem> Env<T> {
    pub fn decompose(&mut self) -> bool {
        let m = &self.m;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            scope(|| Decs {
                lu: LUDecomposition::new(&m[A]),
                lus: LUDecomposition::new(&m[SING]),
                lut: LUDecomposition::new(&m[T1]),
                luw: LUDecomposition::new(&m[W1]),
                qr: QRDecomposition::new(&m[A]),
                qrt: QRDecomposition::new(&m[T1]),
                qrw: QRDecomposition::new(&m[W1]),
                svd: SVD::new(&m[A]),
                svdt: SVD::new(&m[T1]),
                svdw: SVD::new(&m[W1]),
                eig: EigenDecomposition::new(&m[A]),
                eigs: EigenDecomposition::new(&m[SYM]),
                chol: CholeskyDecomposition::new(&m[SPD]).unwrap(),
            })
        }));
        match r { Ok(d) => { self.d = Some(Box::new(d)); true } Err(_) => false }
    }
}

/// What an operation returned: matrices kept as they are, everything else as numbers.
pub struct Ret<T> { pub mats: Vec<Matrix<T>>, pub v: Vec<u64>, pub bad: bool }

impl<T: Elem> Ret<T> {
    pub fn new() -> Ret<T> { Ret { mats: Vec::new(), v: Vec::new(), bad: false } }
    pub fn mat(&mut self, m: Matrix<T>) { mute(|| self.mats.push(m)) }
    pub fn flat(&mut self, m: &Matrix<T>) { mute(|| flat(m, &mut self.v, &mut self.bad)) }
    pub fn flat_of<S: Elem>(&mut self, m: &Matrix<S>) { mute(|| flat(m, &mut self.v, &mut self.bad)) }
    pub fn el(&mut self, x: T) { mute(|| { if !x.ok() { self.bad = true; } self.v.push(x.bits()) }) }
    pub fn els(&mut self, x: &[T]) { mute(|| { for e in x { if !e.ok() { self.bad = true; } self.v.push(e.bits()) } }) }
    pub fn u(&mut self, x: usize) { mute(|| self.v.push(x as u64)) }
    pub fn b(&mut self, x: bool) { mute(|| self.v.push(x as u64)) }
    pub fn s(&mut self, s: &str) { mute(|| { self.v.push(s.len() as u64); self.v.push(simcore::rng::hash_str(s)) }) }
    pub fn opt(&mut self, m: Option<Matrix<T>>) { match m { Some(x) => { self.u(1); self.mat(x) } None => self.u(0) } }
    /// All of it as numbers.
    pub fn digest(&mut self) -> Vec<u64> {
        mute(|| {
            let mut o = self.v.clone();
            let mut bad = false;
            for m in &self.mats { flat(m, &mut o, &mut bad); }
            if bad { self.bad = true; }
            o
        })
    }
}

pub fn flat<S: Elem>(m: &Matrix<S>, o: &mut Vec<u64>, bad: &mut bool) {
    let d = m.get_data();
    let r = m.rows();
    let c = if r == 0 { 0 } else { m.cols() };
    o.push(r as u64);
    o.push(c as u64);
    o.push(d.len() as u64);
    if r * c != d.len() { o.push(0xBAD5_4A9E); }
    for e in d.iter() { if !e.ok() { *bad = true; } o.push(e.bits()); }
}

/// digest of everything visible of a matrix, for watches
pub unsafe fn mat_hash<T: Elem>(p: *const u8) -> u64 {
    let m = &*(p as *const Matrix<T>);
    let d = m.get_data();
    let mut h = fnv(0xcbf29ce484222325, m.rows() as u64);
    h = fnv(h, d.len() as u64);
    for e in d.iter() { h = fnv(h, e.bits() ^ (!e.ok() as u64) << 63); }
    h
}

pub unsafe fn dec_hash<T: FElem>(p: *const u8) -> u64 {
    let d = &*(p as *const Decs<T>);
    let mut h = 1u64;
    for l in [&d.lu, &d.lus, &d.lut, &d.luw] { for x in l.get_piv() { h = fnv(h, *x as u64); } }
    for s in [&d.svd, &d.svdt, &d.svdw] { for m in [s.get_u(), s.get_s(), s.get_v()] { h = fnv(h, mat_hash::<T>(m as *const _ as *const u8)); } }
    for e in [&d.eig, &d.eigs] {
        h = fnv(h, mat_hash::<T>(e.get_v() as *const _ as *const u8));
        for x in e.get_real_eigenvalues() { h = fnv(h, x.bits()); }
        for x in e.get_imag_eigenvalues() { h = fnv(h, x.bits()); }
    }
    fnv(h, mat_hash::<T>(d.chol.get_l() as *const _ as *const u8))
}

pub fn watch_env<T: Elem>(e: &Env<T>) {
    const N: [&str; NSLOT] = ["A (n x n)", "B (n x n)", "SPD", "SYM", "SING", "T1 (m x n)", "T2", "W1 (n x m)", "W2", "V1", "V2", "VM", "R (n x k)", "RM", "ROW", "ONE"];
    for i in 0..NSLOT { watch(&e.m[i], mat_hash::<T>, N[i]); }
}
pub fn watch_decs<T: FElem>(e: &Env<T>) {
    if let Some(d) = &e.d { watch(&**d, dec_hash::<T>, "a shared decomposition"); }
}

pub const CB: u32 = 1; // takes a user callback
pub const MUT: u32 = 2; // works in place on a private copy
pub const DEC: u32 = 4; // uses the shared decompositions
pub const FMT: u32 = 8;
pub const IO: u32 = 16;
pub const HEAVY: u32 = 32;
pub const FLT: u32 = 64;

pub struct Def<T> { pub name: &'static str, pub fl: u32, pub f: fn(&Env<T>, &[i64; 6], &mut Ret<T>) }

macro_rules! defs { ($v:ident; $($name:ident $fl:expr, |$e:ident, $a:ident, $r:ident| $body:expr;)*) => { $( $v.push(Def { name: stringify!($name), fl: $fl, f: |$e, $a, $r| { let _ = (&$e, &$a); $body } }); )* }; }

pub fn cb() { point(Kind::Callback) }

fn perm(a: &[i64; 6], n: usize, len: usize) -> Vec<usize> {
    let mut r = Rng::new(a[1] as u64 ^ 0x9E12);
    mute(|| (0..len.max(1)).map(|_| r.below(n as u64) as usize).collect())
}
fn mask(a: &[i64; 6], n: usize) -> Vec<bool> {
    mute(|| mask0(a, n))
}
fn mask0(a: &[i64; 6], n: usize) -> Vec<bool> {
    let mut r = Rng::new(a[1] as u64 ^ 0x3A5C);
    let mut v: Vec<bool> = (0..n).map(|_| r.chance(1, 2)).collect();
    if n > 0 && !v.iter().any(|x| *x) { let k = r.below(n as u64) as usize; v[k] = true; }
    v
}
/// clone of a slot as an in-place target
macro_rules! tgt { ($e:ident, $s:expr) => { $e.m[$s].clone() } }

/// Operations that need only ring arithmetic.
pub fn num_ops<T: NElem>() -> Vec<Def<T>> {
    let mut v: Vec<Def<T>> = Vec::new();
    defs! { v;
        get 0, |e, a, r| { let m = e.any(a[0]); let x = m.get(modi(a[1], m.rows()), modi(a[2], m.cols())); r.el(x) };
        get_ref 0, |e, a, r| { let m = e.any(a[0]); let x = *m.get_ref(modi(a[1], m.rows()), modi(a[2], m.cols())); r.el(x) };
        index 0, |e, a, r| { let m = e.any(a[0]); let x = m[(modi(a[1], m.rows()), modi(a[2], m.cols()))]; r.el(x) };
        shape 0, |e, a, r| { let m = e.any(a[0]); r.u(m.rows()); r.u(m.cols()); r.b(m.is_square()); r.b(m.is_not_square()) };
        set MUT, |e, a, r| { let mut m = tgt!(e, modi(a[0], NSLOT)); let (i, j) = (modi(a[1], m.rows()), modi(a[2], m.cols())); m.set(i, j, T::of(2.5)); r.mat(m) };
        get_mref MUT, |e, a, r| { let mut m = tgt!(e, modi(a[0], NSLOT)); let (i, j) = (modi(a[1], m.rows()), modi(a[2], m.cols())); *m.get_mref(i, j) = T::of(2.5); r.mat(m) };
        map CB, |e, a, r| { let m = e.any(a[0]); let x = m.map(&|x: &T| { cb(); *x + *x }); r.mat(x) };
        map_type CB, |e, a, r| { let m = e.any(a[0]); let x: Matrix<i64> = m.map(&|x: &T| { cb(); (x.bits() % 1000) as i64 }); r.flat_of(&x) };
        mmap CB | MUT, |e, a, r| { let mut m = tgt!(e, modi(a[0], NSLOT)); m.mmap(&|x: &T| { cb(); *x * *x }); r.mat(m) };
        reduce CB, |e, a, r| { let m = e.any(a[0]); let mut i = Vec::with_capacity(m.cols()); for j in 0..m.cols() { i.push(T::of(j as f64 / 8.0)); } let x = m.reduce(&i, &|p: &T, x: &T| { cb(); *p + *x }); r.mat(x) };
        id 0, |e, a, r| { let (m, n) = (e.any(a[0]).rows(), e.any(a[1]).cols()); let x = Matrix::<T>::id(m, n); r.mat(x) };
        zero 0, |e, a, r| { let (m, n) = (e.any(a[0]).rows(), e.any(a[1]).cols()); let x = Matrix::<T>::zero(m, n); r.mat(x) };
        diag 0, |e, a, r| { let d = e.any(a[0]).get_data(); let k = d.len().min(8); let x = Matrix::diag(d[..k].to_vec()); r.mat(x) };
        block_diag 0, |e, a, r| { let (m, n) = (e.any(a[0]).rows(), e.any(a[1]).cols()); let mut d = Vec::new(); for i in 0..m.min(n) { d.push(T::of(1.0 + i as f64 / 4.0)); } let x = Matrix::block_diag(m, n, d); r.mat(x) };
        zero_vector 0, |e, a, r| { let x = Matrix::<T>::zero_vector(e.any(a[0]).rows()); r.mat(x) };
        one_vector 0, |e, a, r| { let x = Matrix::<T>::one_vector(e.any(a[0]).rows()); r.mat(x) };
        vector 0, |e, a, r| { let x = Matrix::vector(e.any(a[0]).get_data().clone()); r.mat(x) };
        row_vector 0, |e, a, r| { let x = Matrix::row_vector(e.any(a[0]).get_data().clone()); r.mat(x) };
        new 0, |e, a, r| { let m = e.any(a[0]); let x = Matrix::new(m.cols(), m.rows(), m.get_data().clone()); r.mat(x) };
        clone 0, |e, a, r| { let x = e.any(a[0]).clone(); r.mat(x) };
        clone_from MUT, |e, a, r| { let mut m = tgt!(e, modi(a[0], NSLOT)); m.clone_from(e.any(a[1])); r.mat(m) };
        eq 0, |e, a, r| { let x = e.any(a[0]) == e.any(a[1]); r.b(x) };
        mneg MUT, |e, a, r| { let mut m = tgt!(e, modi(a[0], NSLOT)); m.mneg(); r.mat(m) };
        scale 0, |e, a, r| { let x = e.any(a[0]).scale(factor::<T>(a[1])); r.mat(x) };
        mscale MUT, |e, a, r| { let mut m = tgt!(e, modi(a[0], NSLOT)); m.mscale(factor::<T>(a[1])); r.mat(m) };
        madd MUT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.same(s, a[1]); let mut m = tgt!(e, s); m.madd(&e.m[o]); r.mat(m) };
        msub MUT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.same(s, a[1]); let mut m = tgt!(e, s); m.msub(&e.m[o]); r.mat(m) };
        elem_mul 0, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.same(s, a[1]); let x = e.m[s].elem_mul(&e.m[o]); r.mat(x) };
        melem_mul MUT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.same(s, a[1]); let mut m = tgt!(e, s); m.melem_mul(&e.m[o]); r.mat(m) };
        mmul MUT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.right(s, a[1]); if o == NSLOT { return; } let mut m = tgt!(e, s); m.mmul(&e.m[o]); r.mat(m) };
        cr 0, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.rows_as(s, a[1]); let x = e.m[s].cr(&e.m[o]); r.mat(x) };
        cb 0, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.cols_as(s, a[1]); let x = e.m[s].cb(&e.m[o]); r.mat(x) };
        bitor MUT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.rows_as(s, a[1]); let m = tgt!(e, s); let x = m | &e.m[o]; r.mat(x) };
        t 0, |e, a, r| { let x = e.any(a[0]).t(); r.mat(x) };
        mt MUT, |e, a, r| { let mut m = tgt!(e, modi(a[0], NSLOT)); m.mt(); r.mat(m) };
        minor 0, |e, a, r| { let m = e.any(a[0]); if m.rows() < 2 || m.cols() < 2 { return; } let x = m.minor(modi(a[1], m.rows()), modi(a[2], m.cols())); r.mat(x) };
        sub_matrix 0, |e, a, r| { let m = e.any(a[0]); if m.rows() < 2 || m.cols() < 2 { return; }
            let h = 1 + modi(a[1], m.rows() - 1); let w = 1 + modi(a[2], m.cols() - 1);
            let (i, j) = (modi(a[3], m.rows() - h + 1), modi(a[4], m.cols() - w + 1));
            let x = m.sub_matrix(i, j, i + h, j + w); r.mat(x) };
        get_column 0, |e, a, r| { let m = e.any(a[0]); let x = m.get_column(modi(a[1], m.cols())); r.mat(x) };
        permute_rows 0, |e, a, r| { let m = e.any(a[0]); let p = perm(a, m.rows(), modi(a[2], m.rows() + 2)); let x = m.permute_rows(&p); r.mat(x) };
        permute_columns 0, |e, a, r| { let m = e.any(a[0]); let p = perm(a, m.cols(), modi(a[2], m.cols() + 2)); let x = m.permute_columns(&p); r.mat(x) };
        select_rows 0, |e, a, r| { let m = e.any(a[0]); let p = mask(a, m.rows()); let x = m.select_rows(&p); r.mat(x) };
        select_columns 0, |e, a, r| { let m = e.any(a[0]); let p = mask(a, m.cols()); let x = m.select_columns(&p); r.mat(x) };
        filter_rows CB, |e, a, r| { let m = e.any(a[0]); let p = mask(a, m.rows()); let x = m.filter_rows(&|_, i| { cb(); p[i] }); r.mat(x) };
        filter_columns CB, |e, a, r| { let m = e.any(a[0]); let p = mask(a, m.cols()); let x = m.filter_columns(&|_, i| { cb(); p[i] }); r.mat(x) };
        neg 0, |e, a, r| { let x = e.any(a[0]).neg(); r.mat(x) };
        neg_own MUT, |e, a, r| { let m = tgt!(e, modi(a[0], NSLOT)); let x = -m; r.mat(x) };
        add 0, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.same(s, a[1]); let x = (&e.m[s]).add(&e.m[o]); r.mat(x) };
        add_ro MUT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.same(s, a[1]); let m = tgt!(e, o); let x = &e.m[s] + m; r.mat(x) };
        add_or MUT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.same(s, a[1]); let m = tgt!(e, s); let x = m + &e.m[o]; r.mat(x) };
        add_oo MUT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.same(s, a[1]); let m = tgt!(e, s); let k = tgt!(e, o); let x = m + k; r.mat(x) };
        sub 0, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.same(s, a[1]); let x = (&e.m[s]).sub(&e.m[o]); r.mat(x) };
        sub_ro MUT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.same(s, a[1]); let m = tgt!(e, o); let x = &e.m[s] - m; r.mat(x) };
        sub_or MUT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.same(s, a[1]); let m = tgt!(e, s); let x = m - &e.m[o]; r.mat(x) };
        sub_oo MUT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.same(s, a[1]); let m = tgt!(e, s); let k = tgt!(e, o); let x = m - k; r.mat(x) };
        mul 0, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.right(s, a[1]); if o == NSLOT { return; } let x = (&e.m[s]).mul(&e.m[o]); r.mat(x) };
        mul_ro MUT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.right(s, a[1]); if o == NSLOT { return; } let m = tgt!(e, o); let x = &e.m[s] * m; r.mat(x) };
        mul_or MUT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.right(s, a[1]); if o == NSLOT { return; } let m = tgt!(e, s); let x = m * &e.m[o]; r.mat(x) };
        mul_oo MUT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.right(s, a[1]); if o == NSLOT { return; } let m = tgt!(e, s); let k = tgt!(e, o); let x = m * k; r.mat(x) };
        chain 0, |e, a, r| { let s = e.square(a[0]); let o = e.same(s, a[1]); let x = (&e.m[s] * &e.m[o]).t() + &(&e.m[o]).scale(T::of(0.5)); r.mat(x) };
        odd 0, |e, a, r| { let (m, n) = (e.any(a[0]), e.any(a[1])); match modi(a[2], 11) {
            0 => { let x = m + n; r.mat(x) } 1 => { let x = m - n; r.mat(x) } 2 => { let x = m * n; r.mat(x) } 3 => { let x = m.elem_mul(n); r.mat(x) } 4 => { let x = m.cr(n); r.mat(x) } 5 => { let x = m.cb(n); r.mat(x) }
            6 => { let x = m.get(modi(a[3], m.rows() + 2), modi(a[4], m.cols() + 2)); r.el(x) }
            7 => { let x = m.minor(modi(a[3], m.rows() + 2), modi(a[4], m.cols() + 2)); r.mat(x) }
            8 => { let x = m.sub_matrix(modi(a[3], 4), modi(a[4], 4), modi(a[3] / 4, 9), modi(a[4] / 4, 9)); r.mat(x) }
            9 => { let x = m.get_column(modi(a[3], m.cols() + 2)); r.mat(x) }
            _ => { let p = mask(&[0, a[3], 0, 0, 0, 0], modi(a[4], 9)); let x = if a[4] % 2 == 0 { m.select_rows(&p) } else { m.select_columns(&p) }; r.mat(x) }
        } };
        fmt FMT, |e, a, r| { let m = e.any(a[0]); let s = format!("{:?}", m); r.s(&s) };
        print FMT | IO, |e, a, r| { e.any(a[0]).print(); r.u(1) };
        read_csv CB | IO, |_e, a, r| { let f = if modi(a[0], 2) == 0 { "/la-sim-vfs/cat0.csv" } else { "/la-sim-vfs/cat1.csv" }; let x = la::util::read_csv::<T>(f, &|s: &str| { cb(); T::of(mute(|| s.parse::<f64>().unwrap_or(-1.0))) }); r.mat(x) };
    }
    v
}

/// Element-wise division needs invertible elements; kept apart because integers divide by zero.
pub fn div_ops<T: NElem>() -> Vec<Def<T>> {
    let mut v: Vec<Def<T>> = Vec::new();
    defs! { v;
        elem_div 0, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.same(s, a[1]); let x = e.m[s].elem_div(&e.m[o]); r.mat(x) };
        melem_div MUT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.same(s, a[1]); let mut m = tgt!(e, s); m.melem_div(&e.m[o]); r.mat(m) };
    }
    v
}

macro_rules! dec { ($e:ident) => { match &$e.d { Some(d) => d, None => return } } }

/// Operations on floating point matrices.
pub fn float_ops<T: FElem>() -> Vec<Def<T>> {
    let mut v: Vec<Def<T>> = num_ops::<T>();
    v.extend(div_ops::<T>());
    defs! { v;
        trace FLT, |e, a, r| { let x = e.any(a[0]).trace(); r.el(x) };
        det FLT, |e, a, r| { let x = e.m[e.square(a[0])].det(); r.el(x) };
        solve FLT, |e, a, r| { let s = e.square(a[0]); let o = e.rows_as(s, a[1]); let x = e.m[s].solve(&e.m[o]); r.opt(x) };
        inverse FLT, |e, a, r| { let x = e.m[e.square(a[0])].inverse(); r.opt(x) };
        is_singular FLT, |e, a, r| { let x = e.m[e.square(a[0])].is_singular(); r.b(x) };
        is_non_singular FLT, |e, a, r| { let x = e.m[e.square(a[0])].is_non_singular(); r.b(x) };
        pinverse FLT, |e, a, r| { let x = e.m[[A, B, SPD, T1, T2, V1, VM][modi(a[0], 7)]].pinverse(); r.mat(x) };
        euclid FLT, |e, a, r| { let x = e.m[[V1, V2, VM][modi(a[0], 3)]].vector_euclidean_norm(); r.el(x) };
        length FLT, |e, a, r| { let x = e.m[[V1, V2, VM][modi(a[0], 3)]].length(); r.el(x) };
        norm1 FLT, |e, a, r| { let x = e.m[[V1, V2, VM][modi(a[0], 3)]].vector_1_norm(); r.el(x) };
        norm2 FLT, |e, a, r| { let x = e.m[[V1, V2, VM][modi(a[0], 3)]].vector_2_norm(); r.el(x) };
        normp FLT, |e, a, r| { let x = e.m[[V1, V2, VM][modi(a[0], 3)]].vector_p_norm(T::of(POWERS[modi(a[1], 12)])); r.el(x) };
        norminf FLT, |e, a, r| { let x = e.m[[V1, V2, VM][modi(a[0], 3)]].vector_inf_norm(); r.el(x) };
        frobenius FLT, |e, a, r| { let x = e.any(a[0]).frobenius_norm(); r.el(x) };
        is_symmetric FLT, |e, a, r| { let x = e.any(a[0]).is_symmetric(); r.b(x) };
        is_non_symmetric FLT, |e, a, r| { let x = e.any(a[0]).is_non_symmetric(); r.b(x) };
        approx_eq FLT, |e, a, r| { let s = modi(a[0], NSLOT); let o = e.same(s, a[1]); let x = e.m[s].approx_eq(&e.m[o]); r.b(x) };
        approx_eq_self FLT, |e, a, r| { let x = e.any(a[0]).approx_eq(e.any(a[0])); r.b(x) };
        lu FLT, |e, a, r| { let d = LUDecomposition::new(&e.m[[A, B, SPD, SING, T1, W1, V1, ROW][modi(a[0], 8)]]); let (l, u, p) = (d.get_l(), d.get_u(), d.get_p()); for i in d.get_piv() { r.u(*i); } r.mat(l); r.mat(u); r.mat(p) };
        lu_sq FLT, |e, a, r| { let s = e.square(a[0]); let d = LUDecomposition::new(&e.m[s]); r.el(d.det()); r.b(d.is_singular()); r.b(d.is_non_singular()); let x = d.solve(&e.m[e.rows_as(s, a[1])]); r.opt(x) };
        lu_solve_t FLT, |e, a, r| { let d = LUDecomposition::new(&e.m[T1]); let x = d.solve(&e.m[[VM, RM][modi(a[0], 2)]]); r.opt(x) };
        qr FLT, |e, a, r| { let d = QRDecomposition::new(&e.m[[A, B, SING, T1, T2, W1, V1][modi(a[0], 7)]]); let (q, rr, h) = (d.get_q(), d.get_r(), d.get_h()); r.mat(q); r.mat(rr); r.mat(h) };
        qr_sq FLT, |e, a, r| { let s = e.square(a[0]); let d = QRDecomposition::new(&e.m[s]); r.b(d.is_full_rank()); let x = d.solve(&e.m[e.rows_as(s, a[1])]); r.opt(x) };
        svd FLT | HEAVY, |e, a, r| { let d = SVD::new(&e.m[[A, B, SPD, SYM, SING, T1, T2, W1, W2, V1, ROW, ONE][modi(a[0], 12)]]); r.flat(d.get_u()); r.flat(d.get_s()); r.flat(d.get_v()) };
        svd_rank FLT | HEAVY, |e, a, r| { let d = SVD::new(&e.m[[A, B, SING, W1, ROW][modi(a[0], 5)]]); r.u(d.rank()) };
        svd_direct FLT | HEAVY, |e, a, r| { let d = SVD::direct(&e.m[[A, B, SPD, T1, W1][modi(a[0], 5)]]); r.flat(d.get_u()); r.flat(d.get_s()); r.flat(d.get_v()) };
        eigen FLT | HEAVY, |e, a, r| { let d = EigenDecomposition::new(&e.m[e.square(a[0])]); r.flat(d.get_v()); r.els(d.get_real_eigenvalues()); r.els(d.get_imag_eigenvalues()); let x = d.get_d(); r.mat(x) };
        cholesky FLT, |e, a, r| { match CholeskyDecomposition::new(&e.m[[SPD, SPD, SPD, SYM, A, T1][modi(a[0], 6)]]) { Some(d) => { r.u(1); r.flat(d.get_l()); if d.get_l().rows() == e.m[A].rows() { let x = d.solve(&e.m[e.rows_as(A, a[1])]); r.mat(x) } } None => r.u(0) } };
        // the calls their authors did not have in mind
        lu_odd FLT, |e, a, r| { let d = LUDecomposition::new(&e.m[[T1, T2, W1, W2, V1, ROW][modi(a[0], 6)]]); match modi(a[1], 4) { 0 => r.b(d.is_non_singular()), 1 => r.b(d.is_singular()), 2 => r.el(d.det()), _ => { let x = d.solve(e.any(a[2])); r.opt(x) } } };
        qr_odd FLT, |e, a, r| { let d = QRDecomposition::new(&e.m[[T1, T2, W1, W2, V1, ROW][modi(a[0], 6)]]); match modi(a[1], 3) { 0 => r.b(d.is_full_rank()), 1 => { let x = d.solve(&e.m[[VM, RM][modi(a[2], 2)]]); r.opt(x) } _ => { let x = d.solve(e.any(a[2])); r.opt(x) } } };
        svd_odd FLT | HEAVY, |e, a, r| { let d = SVD::new(&e.m[[T1, T2, V1, VM, RM, R][modi(a[0], 6)]]); r.u(d.rank()) };
        direct_odd FLT | HEAVY, |e, a, r| { let d = SVD::direct(&e.m[[SING, SYM, V1, ROW, ONE, VM][modi(a[0], 6)]]); r.flat(d.get_u()); r.flat(d.get_s()); r.flat(d.get_v()) };
        odd_float FLT, |e, a, r| { let (m, n) = (e.any(a[0]), e.any(a[1])); match modi(a[2], 9) {
            0 => { let x = m.solve(n); r.opt(x) } 1 => { let x = m.inverse(); r.opt(x) } 2 => { let x = m.det(); r.el(x) } 3 => r.b(m.is_singular()), 4 => { let x = m.vector_2_norm(); r.el(x) } 5 => { let x = m.vector_inf_norm(); r.el(x) }
            6 => { let x = m.vector_p_norm(T::of(3.0)); r.el(x) } 7 => r.b(m.approx_eq(n)), _ => { let x = m.vector_euclidean_norm(); r.el(x) }
        } };
        d_lu_l FLT | DEC, |e, a, r| { let d = dec!(e); let x = [&d.lu, &d.lus, &d.lut, &d.luw][modi(a[0], 4)].get_l(); r.mat(x) };
        d_lu_u FLT | DEC, |e, a, r| { let d = dec!(e); let x = [&d.lu, &d.lus, &d.lut, &d.luw][modi(a[0], 4)].get_u(); r.mat(x) };
        d_lu_p FLT | DEC, |e, a, r| { let d = dec!(e); let x = [&d.lu, &d.lus, &d.lut, &d.luw][modi(a[0], 4)].get_p(); r.mat(x) };
        d_lu_det FLT | DEC, |e, a, r| { let d = dec!(e); let x = [&d.lu, &d.lus][modi(a[0], 2)].det(); r.el(x) };
        d_lu_solve FLT | DEC, |e, a, r| { let d = dec!(e); let x = [&d.lu, &d.lus][modi(a[0], 2)].solve(&e.m[e.rows_as(A, a[1])]); r.opt(x) };
        d_lu_sing FLT | DEC, |e, a, r| { let d = dec!(e); let l = [&d.lu, &d.lus][modi(a[0], 2)]; r.b(l.is_singular()); r.b(l.is_non_singular()) };
        d_qr_q FLT | DEC, |e, a, r| { let d = dec!(e); let x = [&d.qr, &d.qrt, &d.qrw][modi(a[0], 3)].get_q(); r.mat(x) };
        d_qr_r FLT | DEC, |e, a, r| { let d = dec!(e); let x = [&d.qr, &d.qrt, &d.qrw][modi(a[0], 3)].get_r(); r.mat(x) };
        d_qr_h FLT | DEC, |e, a, r| { let d = dec!(e); let x = [&d.qr, &d.qrt, &d.qrw][modi(a[0], 3)].get_h(); r.mat(x) };
        d_qr_solve FLT | DEC, |e, a, r| { let d = dec!(e); r.b(d.qr.is_full_rank()); let x = d.qr.solve(&e.m[e.rows_as(A, a[1])]); r.opt(x) };
        d_svd_rank FLT | DEC, |e, a, r| { let d = dec!(e); let x = [&d.svd, &d.svdw][modi(a[0], 2)].rank(); r.u(x) };
        d_svd_get FLT | DEC, |e, a, r| { let d = dec!(e); let s = [&d.svd, &d.svdt, &d.svdw][modi(a[0], 3)]; r.flat(s.get_u()); r.flat(s.get_s()); r.flat(s.get_v()) };
        d_svd_mul FLT | DEC, |e, a, r| { let d = dec!(e); let s = [&d.svd, &d.svdt, &d.svdw][modi(a[0], 3)]; let x = s.get_u() * s.get_s() * s.get_v().t(); r.mat(x) };
        d_eig_get FLT | DEC, |e, a, r| { let d = dec!(e); let s = [&d.eig, &d.eigs][modi(a[0], 2)]; r.flat(s.get_v()); r.els(s.get_real_eigenvalues()); r.els(s.get_imag_eigenvalues()); let x = s.get_d(); r.mat(x) };
        d_chol_solve FLT | DEC, |e, a, r| { let d = dec!(e); let x = d.chol.solve(&e.m[e.rows_as(A, a[1])]); r.mat(x) };
        d_chol_l FLT | DEC, |e, a, r| { let d = dec!(e); let x = d.chol.get_l() * d.chol.get_l().t(); r.mat(x) };
    }
    v
}

pub fn find<'a, T>(ops: &'a [Def<T>], name: &str) -> Option<&'a Def<T>> { ops.iter().find(|d| d.name == name && fits(d)) }

/// Call an operation as a user would, under `plan`.
pub fn call<T: Elem>(d: &Def<T>, e: &Env<T>, a: &[i64; 6], plan: Plan) -> (Result<Ret<T>, Pan>, OpState) {
    run_op(plan, || {
        let mut r = Ret::new();
        scope(|| (d.f)(e, a, &mut r));
        r
    })
}

/// Outcome as numbers: the result, or the fact that it panicked by itself / by injection.
pub fn outcome<T: Elem>(r: &mut Result<Ret<T>, Pan>) -> Vec<u64> {
    match r {
        Ok(r) => r.digest(),
        Err(Pan::Injected(i)) => vec![0xE1, *i],
        Err(Pan::Budget) => vec![0xE2],
        Err(Pan::Native(_)) => vec![0xE3],
    }
}

/// Files read_csv in the catalogue reads.
pub fn setup_files(seed: u64) {
    let mut r = Rng::new(seed ^ 0xC5);
    let s = sim();
    for i in 0..2 {
        let (rows, cols) = (1 + r.below(4), 1 + r.below(4));
        let mut t = String::new();
        for _ in 0..rows {
            for c in 0..cols { if c > 0 { t += ","; } t += &format!(" {}", r.range(-20, 20) as f64 / 4.0); }
            t += "\n";
        }
        s.sys.nodes.push(simcore::sysx::Node { name: format!("cat{}.csv", i).into_bytes(), data: t.into_bytes(), open_plan: vec![], plans: vec![], opens: 0, attempts: 0, default_chunk: 1 + r.below(40) as usize, size_lie: 0 });
    }
}

/// a random call of the catalogue
pub fn gen_call<T>(r: &mut Rng, ops: &[Def<T>], want: impl Fn(&Def<T>) -> bool) -> (&'static str, [i64; 6]) {
    loop {
        let d = &ops[r.below(ops.len() as u64) as usize];
        if !want(d) { continue; }
        return (d.name, [r.below(96) as i64, r.below(96) as i64, r.below(96) as i64, r.below(96) as i64, r.below(96) as i64, 0]);
    }
}

/// dispatch on the element type number
#[macro_export]
macro_rules! with_float { ($et:expr, $f:ident ( $($x:expr),* )) => { match $et { 1 => $f::<f64>($($x),*), 2 => $f::<f32>($($x),*), _ => $f::<simcore::elem::Sim>($($x),*) } }; }

#[allow(unused)]
fn _unused<T: Float>() {}
