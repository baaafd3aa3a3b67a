//! The plain definition: matrices as lists of rows of numbers, nothing shared with the library.
#[derive(Clone, Debug, PartialEq)]
pub struct M { pub r: usize, pub c: usize, pub d: Vec<u64> }

impl M {
    pub fn of(r: usize, c: usize, f: impl Fn(usize, usize) -> u64) -> M {
        let mut d = Vec::with_capacity(r * c);
        for i in 0..r { for j in 0..c { d.push(f(i, j)); } }
        M { r, c, d }
    }
    pub fn at(&self, i: usize, j: usize) -> u64 { self.d[i * self.c + j] }
    pub fn map(&self, f: impl Fn(u64) -> u64) -> M { M { r: self.r, c: self.c, d: self.d.iter().map(|x| f(*x)).collect() } }
    pub fn zip(&self, o: &M, f: impl Fn(u64, u64) -> u64) -> M { M { r: self.r, c: self.c, d: self.d.iter().zip(o.d.iter()).map(|(a, b)| f(*a, *b)).collect() } }
    pub fn t(&self) -> M { M::of(self.c, self.r, |i, j| self.at(j, i)) }
    pub fn rows(&self, ix: &[usize]) -> M { M::of(ix.len(), self.c, |i, j| self.at(ix[i], j)) }
    pub fn cols(&self, ix: &[usize]) -> M { M::of(self.r, ix.len(), |i, j| self.at(i, ix[j])) }
    pub fn same(&self, o: &M) -> bool { self.r == o.r && self.c == o.c }
}

/// Arithmetic on the representation.
pub struct Ar {
    pub add: fn(u64, u64) -> u64,
    pub sub: fn(u64, u64) -> u64,
    pub mul: fn(u64, u64) -> u64,
    pub div: fn(u64, u64) -> u64,
    pub neg: fn(u64) -> u64,
    pub eq: fn(u64, u64) -> bool,
    pub zero: u64,
    pub one: u64,
    /// sums may be taken in any order, so products are compared within rounding
    pub rounds: bool,
}
pub fn cf(x: f64) -> u64 { if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() } }
fn f(a: u64) -> f64 { f64::from_bits(a) }
use simcore::elem::{padd, pinv, pmul, pneg};
pub fn ar_fp() -> Ar { Ar { add: padd, sub: |a, b| padd(a, pneg(b)), mul: pmul, div: |a, b| pmul(a, pinv(b)), neg: pneg, eq: |a, b| a == b, zero: 0, one: 1, rounds: false } }
pub fn ar_f64() -> Ar {
    Ar { add: |a, b| cf(f(a) + f(b)), sub: |a, b| cf(f(a) - f(b)), mul: |a, b| cf(f(a) * f(b)), div: |a, b| cf(f(a) / f(b)), neg: |a| cf(-f(a)), eq: |a, b| f(a) == f(b), zero: 0, one: 1f64.to_bits(), rounds: true }
}
impl Ar {
    pub fn product(&self, x: &M, y: &M) -> M {
        M::of(x.r, y.c, |i, j| { let mut s = self.zero; for k in 0..x.c { s = (self.add)(s, (self.mul)(x.at(i, k), y.at(k, j))); } s })
    }
    /// how far off a rounded product may be
    pub fn slack(&self, x: &M, y: &M) -> Vec<f64> {
        let mut v = Vec::new();
        for i in 0..x.r { for j in 0..y.c { 
            let (mut s, mut odd) = (0.0, false);
            for k in 0..x.c { let t = (f(x.at(i, k)) * f(y.at(k, j))).abs(); if t.is_finite() { s += t } else { odd = true } }
            // an infinite or undefined term decides the sum, in whatever order it is taken
            v.push(if odd { if s < 1e280 { 0.0 } else { 1e300 } } else { s * 1e-12 });
        } }
        v
    }
}
