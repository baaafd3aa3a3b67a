//! Element types. `Sim` is an f64 whose every operation is a simulator point and which can recognise memory nobody
//! computed; `Fp` is exact arithmetic modulo 2^61-1, so that any correct order of summation gives the same value.
use crate::rng::mix;
use crate::st::*;
use num::traits::{Float, Num, NumCast, Signed, ToPrimitive};
use num::{One, Zero};
use rand::{Rand, Rng};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

/// What the harness needs to know about an element type.
pub trait Elem: Copy + 'static + fmt::Debug + PartialEq + Send + Sync {
    const NAME: &'static str;
    fn of(v: f64) -> Self;
    fn bits(&self) -> u64;
    /// false: these bytes were never produced by a computation
    fn ok(&self) -> bool { true }
    fn val(&self) -> f64;
}
pub trait NElem: Elem + Num + Neg<Output = Self> {}
pub trait FElem: NElem + Float + Signed + la::ApproxEq<Self> + Rand {}

macro_rules! prim {
    ($t:ty, $n:expr, |$v:ident| $of:expr, |$s:ident| $b:expr) => {
        impl Elem for $t {
            const NAME: &'static str = $n;
            fn of($v: f64) -> $t { $of }
            fn bits(&self) -> u64 { let $s = *self; $b }
            fn val(&self) -> f64 { *self as f64 }
        }
        impl NElem for $t {}
    };
}
prim!(f64, "f64", |v| v, |s| if s.is_nan() { f64::NAN.to_bits() } else { s.to_bits() });
prim!(f32, "f32", |v| v as f32, |s| if s.is_nan() { f32::NAN.to_bits() as u64 } else { s.to_bits() as u64 });
// integers in -3..3: products of a few never overflow
prim!(i32, "i32", |v| { let x = (v * 8.0) as i64 % 4; x as i32 }, |s| s as u32 as u64);
prim!(i64, "i64", |v| (v * 8.0) as i64 % 4, |s| s as u64);
impl FElem for f64 {}
impl FElem for f32 {}

// ---------------------------------------------------------------- Sim

pub struct Sim { v: f64, tag: u64 }

const SALT: u64 = 0x7A60_57A1_E5ED_0001;
#[inline]
fn tagof(v: f64) -> u64 { mix(v.to_bits(), SALT) }
#[inline]
fn raw(v: f64) -> Sim { Sim { v, tag: tagof(v) } }

impl Copy for Sim {}
impl Clone for Sim {
    #[inline]
    fn clone(&self) -> Sim { point(Kind::Clone); Sim { v: self.v, tag: self.tag } }
}

impl Sim {
    /// read the value for a computation
    #[inline]
    fn g(&self) -> f64 {
        if self.tag != tagof(self.v) { sim().uninit_reads += 1; }
        self.v
    }
    pub fn f(&self) -> f64 { self.v }
    pub fn valid(&self) -> bool { self.tag == tagof(self.v) }
}

/// A result leaves the arithmetic unit: here it can be corrupted.
#[inline]
fn res(v: f64) -> Sim {
    if !live() { return raw(v); }
    let s = sim();
    let st = &mut s.tasks[task()];
    st.arith += 1;
    if st.plan.arith_at != 0 && st.arith == st.plan.arith_at {
        let mut v = v;
        let k = st.plan.arith_kind % 7;
        match k {
            0 => { v = f64::NAN; s.stats[ARITH_NAN] += 1; }
            1 => { v = if v < 0.0 { f64::NEG_INFINITY } else { f64::INFINITY }; s.stats[ARITH_INF] += 1; }
            2 => { v = 0.0; s.stats[ARITH_ZERO] += 1; }
            3 => { v = -v; s.stats[ARITH_SIGN] += 1; }
            4 => { v *= 1.0e9; s.stats[ARITH_SCALE] += 1; }
            5 => { v = f64::from_bits(v.to_bits() ^ 1); s.stats[ARITH_ULP] += 1; }
            _ => { v = 4.0e-320; s.stats[ARITH_DENORM] += 1; }
        }
        st.arith_fired += 1;
        if st.plan.arith_more > 0 {
            st.plan.arith_more -= 1;
            st.plan.arith_at = st.arith + st.plan.arith_gap.max(1);
        }
        return raw(v);
    }
    raw(v)
}

/// An answer leaves the comparison unit: here it can be wrong.
#[inline]
fn ans(b: bool) -> bool {
    if !live() { return b; }
    let s = sim();
    let st = &mut s.tasks[task()];
    st.cmps += 1;
    if st.plan.cmp_at == 0 || st.cmps < st.plan.cmp_at { return b; }
    match st.plan.cmp_kind {
        2 => { s.stats[CMP_STUCK] += 1; st.arith_fired += 1; !b }
        3 => { s.stats[CMP_STUCK] += 1; st.arith_fired += 1; false }
        4 => { s.stats[CMP_STUCK] += 1; st.arith_fired += 1; true }
        _ => {
            s.stats[CMP_FLIP] += 1;
            st.arith_fired += 1;
            if st.plan.arith_more > 0 { st.plan.arith_more -= 1; st.plan.cmp_at = st.cmps + st.plan.arith_gap.max(1); } else { st.plan.cmp_at = 0; }
            !b
        }
    }
}
fn ord(o: Option<Ordering>) -> Option<Ordering> {
    if ans(true) { return o; }
    match o { Some(Ordering::Less) => Some(Ordering::Greater), Some(Ordering::Equal) => None, Some(Ordering::Greater) => Some(Ordering::Less), None => Some(Ordering::Equal) }
}

impl Elem for Sim {
    const NAME: &'static str = "Sim";
    fn of(v: f64) -> Sim { raw(v) }
    fn bits(&self) -> u64 { self.v.bits() }
    fn ok(&self) -> bool { self.valid() }
    fn val(&self) -> f64 { self.v }
}
impl NElem for Sim {}
impl FElem for Sim {}

impl fmt::Debug for Sim {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        point(Kind::Fmt);
        let v = self.g();
        if live() {
            let s = sim();
            let st = &mut s.tasks[task()];
            let n = st.counts[Kind::Fmt as usize];
            if st.plan.text_at != 0 && (n == st.plan.text_at || (n > st.plan.text_at && st.plan.text_kind >= 3)) {
                s.stats[TEXT_CHANGED] += 1;
                st.arith_fired += 1;
                return match st.plan.text_kind { 1 => write!(f, "{:?} and a good deal more", v), 2 => f.write_str(""), _ => write!(f, "{:>1$}", "x", 1 + (crate::rng::mix(n, 3) % 40) as usize) };
            }
        }
        fmt::Debug::fmt(&v, f)
    }
}
impl PartialEq for Sim {
    #[inline]
    fn eq(&self, o: &Sim) -> bool { point(Kind::Elem); ans(self.g() == o.g()) }
}
impl PartialOrd for Sim {
    #[inline]
    fn partial_cmp(&self, o: &Sim) -> Option<Ordering> { point(Kind::Elem); ord(self.g().partial_cmp(&o.g())) }
}
macro_rules! bin {
    ($($tr:ident $m:ident $op:tt),*) => { $(impl $tr for Sim {
        type Output = Sim;
        #[inline]
        fn $m(self, o: Sim) -> Sim { point(Kind::Elem); res(self.g() $op o.g()) }
    })* };
}
bin!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
impl Neg for Sim { type Output = Sim; #[inline] fn neg(self) -> Sim { point(Kind::Elem); res(-self.g()) } }
impl Zero for Sim {
    fn zero() -> Sim { raw(0.0) }
    fn is_zero(&self) -> bool { point(Kind::Elem); ans(self.g() == 0.0) }
}
impl One for Sim { fn one() -> Sim { raw(1.0) } }
impl Num for Sim {
    type FromStrRadixErr = num::traits::ParseFloatError;
    fn from_str_radix(s: &str, r: u32) -> Result<Sim, Self::FromStrRadixErr> { f64::from_str_radix(s, r).map(raw) }
}
impl ToPrimitive for Sim {
    fn to_i64(&self) -> Option<i64> { self.g().to_i64() }
    fn to_u64(&self) -> Option<u64> { self.g().to_u64() }
    fn to_f64(&self) -> Option<f64> { Some(self.g()) }
    fn to_f32(&self) -> Option<f32> { Some(self.g() as f32) }
}
impl NumCast for Sim {
    fn from<T: ToPrimitive>(n: T) -> Option<Sim> { n.to_f64().map(raw) }
}
impl Signed for Sim {
    fn abs(&self) -> Sim { point(Kind::Elem); res(self.g().abs()) }
    fn abs_sub(&self, o: &Sim) -> Sim { point(Kind::Elem); res(if self.g() <= o.g() { 0.0 } else { self.g() - o.g() }) }
    fn signum(&self) -> Sim { point(Kind::Elem); res(self.g().signum()) }
    fn is_positive(&self) -> bool { point(Kind::Elem); ans(self.g() > 0.0) }
    fn is_negative(&self) -> bool { point(Kind::Elem); ans(self.g() < 0.0) }
}
impl la::ApproxEq<Sim> for Sim {
    fn approx_epsilon() -> Sim { raw(1.0e-6) }
    fn approx_eq(&self, o: &Sim) -> bool { point(Kind::Elem); ans((self.g() - o.g()).abs() < 1.0e-6) }
    fn approx_eq_eps(&self, o: &Sim, e: &Sim) -> bool { point(Kind::Elem); ans((self.g() - o.g()).abs() < e.g()) }
}
impl Rand for Sim {
    fn rand<R: Rng>(rng: &mut R) -> Sim { point(Kind::Rand); let v: f64 = rng.gen(); raw(v) }
}
macro_rules! un { ($($m:ident),*) => { $(fn $m(self) -> Sim { point(Kind::Elem); res(self.g().$m()) })* }; }
macro_rules! pred { ($($m:ident),*) => { $(fn $m(self) -> bool { point(Kind::Elem); ans(self.g().$m()) })* }; }
impl Float for Sim {
    fn nan() -> Sim { raw(f64::NAN) }
    fn infinity() -> Sim { raw(f64::INFINITY) }
    fn neg_infinity() -> Sim { raw(f64::NEG_INFINITY) }
    fn neg_zero() -> Sim { raw(-0.0) }
    fn min_value() -> Sim { raw(f64::MIN) }
    fn min_positive_value() -> Sim { raw(f64::MIN_POSITIVE) }
    fn epsilon() -> Sim { raw(f64::EPSILON) }
    fn max_value() -> Sim { raw(f64::MAX) }
    pred!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
    fn classify(self) -> std::num::FpCategory { point(Kind::Elem); self.g().classify() }
    un!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    fn mul_add(self, a: Sim, b: Sim) -> Sim { point(Kind::Elem); res(self.g().mul_add(a.g(), b.g())) }
    fn powi(self, n: i32) -> Sim { point(Kind::Elem); res(self.g().powi(n)) }
    fn powf(self, n: Sim) -> Sim { point(Kind::Elem); res(self.g().powf(n.g())) }
    fn log(self, b: Sim) -> Sim { point(Kind::Elem); res(self.g().log(b.g())) }
    fn max(self, o: Sim) -> Sim { point(Kind::Elem); res(self.g().max(o.g())) }
    fn min(self, o: Sim) -> Sim { point(Kind::Elem); res(self.g().min(o.g())) }
    fn abs_sub(self, o: Sim) -> Sim { point(Kind::Elem); res(if self.g() <= o.g() { 0.0 } else { self.g() - o.g() }) }
    fn hypot(self, o: Sim) -> Sim { point(Kind::Elem); res(self.g().hypot(o.g())) }
    fn atan2(self, o: Sim) -> Sim { point(Kind::Elem); res(self.g().atan2(o.g())) }
    fn sin_cos(self) -> (Sim, Sim) { point(Kind::Elem); let (a, b) = self.g().sin_cos(); (res(a), res(b)) }
    fn integer_decode(self) -> (u64, i16, i8) { point(Kind::Elem); Float::integer_decode(self.g()) }
}

// ---------------------------------------------------------------- Fp

pub struct Fp { v: u64, tag: u64 }
pub const P: u64 = (1 << 61) - 1;
#[inline]
fn rawp(v: u64) -> Fp { Fp { v, tag: mix(v, SALT ^ 0xF00) } }
pub fn padd(a: u64, b: u64) -> u64 { let s = a + b; if s >= P { s - P } else { s } }
pub fn pmul(a: u64, b: u64) -> u64 {
    let x = a as u128 * b as u128;
    let r = (x & P as u128) as u64 + (x >> 61) as u64;
    if r >= P { r - P } else { r }
}
pub fn pneg(a: u64) -> u64 { if a == 0 { 0 } else { P - a } }
pub fn pinv(a: u64) -> u64 {
    let (mut e, mut b, mut r) = (P - 2, a, 1u64);
    while e > 0 { if e & 1 == 1 { r = pmul(r, b); } b = pmul(b, b); e >>= 1; }
    r
}
impl Fp {
    pub fn new(v: u64) -> Fp { rawp(v % P) }
    #[inline]
    fn g(&self) -> u64 {
        if self.tag != mix(self.v, SALT ^ 0xF00) { sim().uninit_reads += 1; return self.v % P; }
        self.v
    }
}
impl Copy for Fp {}
impl Clone for Fp { #[inline] fn clone(&self) -> Fp { point(Kind::Clone); Fp { v: self.v, tag: self.tag } } }
impl Elem for Fp {
    const NAME: &'static str = "Fp";
    fn of(v: f64) -> Fp { let x = (v * 64.0).round() as i64; rawp(if x < 0 { P - ((-x) as u64 % P) } else { x as u64 % P }) }
    fn bits(&self) -> u64 { self.v }
    fn ok(&self) -> bool { self.tag == mix(self.v, SALT ^ 0xF00) }
    fn val(&self) -> f64 { self.v as f64 }
}
impl NElem for Fp {}
impl PartialEq for Fp { #[inline] fn eq(&self, o: &Fp) -> bool { point(Kind::Elem); self.g() == o.g() } }
impl fmt::Debug for Fp {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { point(Kind::Fmt); let v = self.g(); fmt::Debug::fmt(&v, f) }
}
impl Add for Fp { type Output = Fp; #[inline] fn add(self, o: Fp) -> Fp { point(Kind::Elem); rawp(padd(self.g(), o.g())) } }
impl Sub for Fp { type Output = Fp; #[inline] fn sub(self, o: Fp) -> Fp { point(Kind::Elem); rawp(padd(self.g(), pneg(o.g()))) } }
impl Mul for Fp { type Output = Fp; #[inline] fn mul(self, o: Fp) -> Fp { point(Kind::Elem); rawp(pmul(self.g(), o.g())) } }
impl Div for Fp { type Output = Fp; #[inline] fn div(self, o: Fp) -> Fp { point(Kind::Elem); rawp(pmul(self.g(), pinv(o.g()))) } }
impl Rem for Fp { type Output = Fp; fn rem(self, _o: Fp) -> Fp { point(Kind::Elem); rawp(0) } }
impl Neg for Fp { type Output = Fp; #[inline] fn neg(self) -> Fp { point(Kind::Elem); rawp(pneg(self.g())) } }
impl Zero for Fp { fn zero() -> Fp { rawp(0) } fn is_zero(&self) -> bool { self.g() == 0 } }
impl One for Fp { fn one() -> Fp { rawp(1) } }
impl Num for Fp {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Fp, ()> { Err(()) }
}

/// Copy-only element with user-code points in random generation; used where no arithmetic is wanted.
#[derive(Clone, Copy, PartialEq)]
pub struct Draw { pub a: u64, pub tag: u64 }
impl Draw { pub fn ok(&self) -> bool { self.tag == mix(self.a, SALT ^ 0xD0) } pub fn mk(a: u64) -> Draw { Draw { a, tag: mix(a, SALT ^ 0xD0) } } }
impl fmt::Debug for Draw { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.a) } }
