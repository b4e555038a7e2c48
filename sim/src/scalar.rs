//! The caller's scalar and point types: plain f64 arithmetic, but every operator call is a point at which the simulator
//! may switch callers, run a nested call, panic, or (kinds permitting) replace the result.
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use simrt::{kind, op, Fault};
use std::cmp::Ordering;
use std::iter::Sum;
use std::ops::*;
use stroke::Point;

#[derive(Clone, Copy, Debug, Default)]
pub struct SimScalar(pub f64);

#[inline]
fn w(k: u8, x: f64) -> SimScalar {
    match op(k) {
        Fault::Nan => SimScalar(f64::NAN),
        Fault::Bits(b) => SimScalar(f64::from_bits(b)),
        _ => SimScalar(x),
    }
}
#[inline]
fn a(x: f64) -> SimScalar {
    w(kind::ARITH, x)
}
#[inline]
fn f(x: f64) -> SimScalar {
    w(kind::SFUN, x)
}
#[inline]
fn pred(x: bool) -> bool {
    match op(kind::PRED) {
        Fault::Lie => !x,
        Fault::Yes => true,
        Fault::No => false,
        _ => x,
    }
}
fn told(f: Fault, r: bool) -> bool {
    match f {
        Fault::Lie => !r,
        Fault::Yes => true,
        Fault::No => false,
        _ => r,
    }
}
fn lie_ord(o: Option<Ordering>) -> Option<Ordering> {
    match o {
        Some(Ordering::Less) => Some(Ordering::Greater),
        Some(Ordering::Greater) => Some(Ordering::Equal),
        Some(Ordering::Equal) => None,
        None => Some(Ordering::Less),
    }
}
impl PartialEq for SimScalar {
    fn eq(&self, o: &Self) -> bool {
        match op(kind::CMP) {
            Fault::Lie => self.0 != o.0,
            Fault::Yes => true,
            Fault::No => false,
            _ => self.0 == o.0,
        }
    }
}
impl PartialOrd for SimScalar {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        let r = self.0.partial_cmp(&o.0);
        match op(kind::CMP) {
            Fault::Lie => lie_ord(r),
            Fault::Yes => Some(Ordering::Equal),
            Fault::No => None,
            _ => r,
        }
    }
    fn lt(&self, o: &Self) -> bool {
        let r = self.0 < o.0;
        told(op(kind::CMP), r)
    }
    fn le(&self, o: &Self) -> bool {
        let r = self.0 <= o.0;
        told(op(kind::CMP), r)
    }
    fn gt(&self, o: &Self) -> bool {
        let r = self.0 > o.0;
        told(op(kind::CMP), r)
    }
    fn ge(&self, o: &Self) -> bool {
        let r = self.0 >= o.0;
        told(op(kind::CMP), r)
    }
}
macro_rules! bin {
    ($($t:ident $m:ident $op:tt),*) => {$(
        impl $t for SimScalar { type Output = SimScalar; fn $m(self, o: SimScalar) -> SimScalar { a(self.0 $op o.0) } }
        impl $t<f64> for SimScalar { type Output = SimScalar; fn $m(self, o: f64) -> SimScalar { a(self.0 $op o) } }
    )*};
}
bin!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
impl Neg for SimScalar {
    type Output = SimScalar;
    fn neg(self) -> SimScalar {
        a(-self.0)
    }
}
impl From<f64> for SimScalar {
    fn from(x: f64) -> SimScalar {
        w(kind::CONV, x)
    }
}
impl From<SimScalar> for f64 {
    fn from(x: SimScalar) -> f64 {
        w(kind::CONV, x.0).0
    }
}
impl Sum<f64> for SimScalar {
    fn sum<I: Iterator<Item = f64>>(i: I) -> SimScalar {
        a(i.sum())
    }
}
impl Sum<SimScalar> for SimScalar {
    fn sum<I: Iterator<Item = SimScalar>>(i: I) -> SimScalar {
        a(i.map(|x| x.0).sum())
    }
}
impl Zero for SimScalar {
    fn zero() -> Self {
        w(kind::CONV, 0.0)
    }
    fn is_zero(&self) -> bool {
        pred(self.0 == 0.0)
    }
}
impl One for SimScalar {
    fn one() -> Self {
        w(kind::CONV, 1.0)
    }
}
impl Num for SimScalar {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl ToPrimitive for SimScalar {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for SimScalar {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        n.to_f64().map(|x| w(kind::CONV, x))
    }
}
macro_rules! consts { ($($n:ident),*) => { $( fn $n() -> Self { w(kind::CONV, <f64 as Float>::$n()) } )* } }
macro_rules! un { ($($n:ident),*) => { $( fn $n(self) -> Self { f(<f64 as Float>::$n(self.0)) } )* } }
macro_rules! bi { ($($n:ident),*) => { $( fn $n(self, o: Self) -> Self { f(<f64 as Float>::$n(self.0, o.0)) } )* } }
macro_rules! pr { ($($n:ident),*) => { $( fn $n(self) -> bool { pred(<f64 as Float>::$n(self.0)) } )* } }
#[allow(deprecated)]
impl Float for SimScalar {
    consts!(nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, epsilon, max_value);
    pr!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
    un!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin,
        acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh, to_degrees, to_radians);
    bi!(powf, log, max, min, abs_sub, hypot, atan2, copysign);
    fn classify(self) -> std::num::FpCategory {
        self.0.classify()
    }
    fn mul_add(self, x: Self, y: Self) -> Self {
        f(<f64 as Float>::mul_add(self.0, x.0, y.0))
    }
    fn powi(self, n: i32) -> Self {
        f(<f64 as Float>::powi(self.0, n))
    }
    fn sin_cos(self) -> (Self, Self) {
        (f(<f64 as Float>::sin(self.0)), f(<f64 as Float>::cos(self.0)))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        <f64 as Float>::integer_decode(self.0)
    }
}

/// A caller-supplied point type with its own scalar.
#[derive(Clone, Copy, Debug)]
pub struct SimPoint<const N: usize>(pub [f64; N]);

fn pw<const N: usize>(mut v: [f64; N]) -> SimPoint<N> {
    match op(kind::PARITH) {
        Fault::Axis(i, b) if N > 0 => v[i as usize % N] = f64::from_bits(b),
        Fault::Nan => v = [f64::NAN; N],
        _ => {}
    }
    SimPoint(v)
}
impl<const N: usize> Default for SimPoint<N> {
    fn default() -> Self {
        let _ = op(kind::PDEF);
        SimPoint([0.0; N])
    }
}
impl<const N: usize> PartialEq for SimPoint<N> {
    fn eq(&self, o: &Self) -> bool {
        let r = self.0 == o.0;
        told(op(kind::PEQ), r)
    }
}
impl<const N: usize> Add for SimPoint<N> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let mut r = self.0;
        for i in 0..N {
            r[i] = self.0[i] + o.0[i];
        }
        pw(r)
    }
}
impl<const N: usize> Sub for SimPoint<N> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        let mut r = self.0;
        for i in 0..N {
            r[i] = self.0[i] - o.0[i];
        }
        pw(r)
    }
}
impl<const N: usize> Mul<f64> for SimPoint<N> {
    type Output = Self;
    fn mul(self, s: f64) -> Self {
        let mut r = self.0;
        for i in 0..N {
            r[i] = self.0[i] * s;
        }
        pw(r)
    }
}
impl<const N: usize> Mul<SimScalar> for SimPoint<N> {
    type Output = Self;
    fn mul(self, s: SimScalar) -> Self {
        let mut r = self.0;
        for i in 0..N {
            r[i] = self.0[i] * s.0;
        }
        pw(r)
    }
}
pub struct SimIter<const N: usize>([f64; N], usize);
impl<const N: usize> Iterator for SimIter<N> {
    type Item = SimScalar;
    fn next(&mut self) -> Option<SimScalar> {
        let _ = op(kind::PITER);
        if self.1 < N {
            self.1 += 1;
            Some(SimScalar(self.0[self.1 - 1]))
        } else {
            None
        }
    }
}
impl<const N: usize> IntoIterator for SimPoint<N> {
    type Item = SimScalar;
    type IntoIter = SimIter<N>;
    fn into_iter(self) -> SimIter<N> {
        let _ = op(kind::PITER);
        SimIter(self.0, 0)
    }
}
impl<const N: usize> Point for SimPoint<N> {
    type Scalar = SimScalar;
    const DIM: usize = N;
    fn axis(&self, i: usize) -> SimScalar {
        let x = self.0[i];
        w(kind::PAXIS, x)
    }
    fn squared_length(&self) -> SimScalar {
        let mut s = 0.0;
        for x in self.0 {
            s += x * x;
        }
        w(kind::PLEN, s)
    }
}

/// What the harness needs of a point type to feed and read it (used outside of library calls).
pub trait HPoint: Point + std::fmt::Debug + 'static {
    const D: usize;
    const FAM: u8;
    fn mk(v: &[f64]) -> Self;
    fn get(&self, o: &mut Vec<u64>);
    fn poke(&mut self, axis: usize, v: f64);
}
pub const FAM_F64: u8 = 0;
pub const FAM_PS: u8 = 1;
pub const FAM_SP: u8 = 2;
pub const FAM_CELL: u8 = 3;

pub fn canon(x: f64) -> u64 {
    if x.is_nan() {
        0x7ff8_0000_0000_0000
    } else {
        x.to_bits()
    }
}
impl<const N: usize> HPoint for stroke::PointN<f64, N> {
    const D: usize = N;
    const FAM: u8 = FAM_F64;
    fn mk(v: &[f64]) -> Self {
        let mut a = [0.0; N];
        a.copy_from_slice(&v[..N]);
        stroke::PointN::new(a)
    }
    fn get(&self, o: &mut Vec<u64>) {
        for x in self.into_iter() {
            o.push(canon(x));
        }
    }
    fn poke(&mut self, axis: usize, v: f64) {
        *self.into_iter().nth(axis % N).unwrap() = v;
    }
}
impl<const N: usize> HPoint for stroke::PointN<SimScalar, N> {
    const D: usize = N;
    const FAM: u8 = FAM_PS;
    fn mk(v: &[f64]) -> Self {
        let mut a = [SimScalar(0.0); N];
        for i in 0..N {
            a[i] = SimScalar(v[i]);
        }
        stroke::PointN::new(a)
    }
    fn get(&self, o: &mut Vec<u64>) {
        for x in self.into_iter() {
            o.push(canon(x.0));
        }
    }
    fn poke(&mut self, axis: usize, v: f64) {
        *self.into_iter().nth(axis % N).unwrap() = SimScalar(v);
    }
}
impl<const N: usize> HPoint for SimPoint<N> {
    const D: usize = N;
    const FAM: u8 = FAM_SP;
    fn mk(v: &[f64]) -> Self {
        let mut a = [0.0; N];
        a.copy_from_slice(&v[..N]);
        SimPoint(a)
    }
    fn get(&self, o: &mut Vec<u64>) {
        for x in self.0 {
            o.push(canon(x));
        }
    }
    fn poke(&mut self, axis: usize, v: f64) {
        self.0[axis % N] = v;
    }
}
