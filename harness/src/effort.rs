//! A number type that counts the differences and the comparisons it is asked for.
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use ordered_float::NotNan;
use std::cell::Cell;
use std::cmp::Ordering;
use std::num::FpCategory;
use std::ops::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub static SUBS: AtomicU64 = AtomicU64::new(0);
pub static CMPS: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, Debug)]
#[repr(transparent)]
pub struct Cnt(pub f64);

macro_rules! bin {
    ($($t:ident $f:ident),*) => {$(
        impl $t for Cnt {
            type Output = Cnt;
            fn $f(self, o: Cnt) -> Cnt { Cnt(self.0.$f(o.0)) }
        }
    )*};
}
bin!(Add add, Mul mul, Div div, Rem rem);

thread_local! { static LAST: Cell<(u64, u64)> = const { Cell::new((0, 0)) }; }
/// a difference asked for again right away, as in (a - b) * (a - b), counts once
fn difference(a: f64, b: f64) {
    let p = if a < b { (a.to_bits(), b.to_bits()) } else { (b.to_bits(), a.to_bits()) };
    if LAST.with(|l| l.replace(p)) != p {
        SUBS.fetch_add(1, Relaxed);
    }
}
impl Sub for Cnt {
    type Output = Cnt;
    fn sub(self, o: Cnt) -> Cnt {
        difference(self.0, o.0);
        Cnt(self.0 - o.0)
    }
}
impl Neg for Cnt {
    type Output = Cnt;
    fn neg(self) -> Cnt {
        Cnt(-self.0)
    }
}
impl AddAssign for Cnt {
    fn add_assign(&mut self, o: Cnt) {
        self.0 += o.0
    }
}
impl PartialEq for Cnt {
    fn eq(&self, o: &Cnt) -> bool {
        self.0 == o.0
    }
}
impl PartialOrd for Cnt {
    fn partial_cmp(&self, o: &Cnt) -> Option<Ordering> {
        CMPS.fetch_add(1, Relaxed);
        self.0.partial_cmp(&o.0)
    }
}
impl Zero for Cnt {
    fn zero() -> Cnt {
        Cnt(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for Cnt {
    fn one() -> Cnt {
        Cnt(1.0)
    }
}
impl Num for Cnt {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Cnt, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(Cnt)
    }
}
impl ToPrimitive for Cnt {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for Cnt {
    fn from<T: ToPrimitive>(n: T) -> Option<Cnt> {
        n.to_f64().map(Cnt)
    }
}
macro_rules! constants { ($($f:ident),*) => {$( fn $f() -> Cnt { Cnt(<f64 as Float>::$f()) } )*}; }
macro_rules! unary { ($($f:ident),*) => {$( fn $f(self) -> Cnt { Cnt(Float::$f(self.0)) } )*}; }
macro_rules! binary { ($($f:ident),*) => {$( fn $f(self, o: Cnt) -> Cnt { Cnt(Float::$f(self.0, o.0)) } )*}; }
macro_rules! tests { ($($f:ident),*) => {$( fn $f(self) -> bool { Float::$f(self.0) } )*}; }
impl Float for Cnt {
    constants!(nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, max_value);
    tests!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
    unary!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos,
        tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    binary!(powf, log, hypot, atan2);
    fn max(self, o: Cnt) -> Cnt {
        CMPS.fetch_add(1, Relaxed);
        Cnt(self.0.max(o.0))
    }
    fn min(self, o: Cnt) -> Cnt {
        CMPS.fetch_add(1, Relaxed);
        Cnt(self.0.min(o.0))
    }
    fn abs_sub(self, o: Cnt) -> Cnt {
        difference(self.0, o.0);
        Cnt((self.0 - o.0).max(0.0))
    }
    fn classify(self) -> FpCategory {
        self.0.classify()
    }
    fn mul_add(self, a: Cnt, b: Cnt) -> Cnt {
        Cnt(Float::mul_add(self.0, a.0, b.0))
    }
    fn powi(self, n: i32) -> Cnt {
        Cnt(Float::powi(self.0, n))
    }
    fn sin_cos(self) -> (Cnt, Cnt) {
        let (a, b) = Float::sin_cos(self.0);
        (Cnt(a), Cnt(b))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        Float::integer_decode(self.0)
    }
}

/// differences and comparisons made while f runs
pub fn counted<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let (a, b) = (SUBS.load(Relaxed), CMPS.load(Relaxed));
    let r = f();
    (r, SUBS.load(Relaxed) - a, CMPS.load(Relaxed) - b)
}

/// differences per axis that one distance costs, as the crate's helpers compute it
pub fn per_axis() -> u64 {
    let p = |x: [f64; 3]| x.map(|v| NotNan::new(Cnt(v)).unwrap());
    let (a, lo, hi) = (p([0.25, 5.5, 19.0]), p([1.5, 3.0, 7.75]), p([2.5, 9.0, 8.0]));
    let most = [
        counted(|| fnntw::distance::squared_euclidean(&a, &lo)).1,
        counted(|| fnntw::distance::squared_euclidean_axis(&a, &lo, 1).0).1,
        counted(|| fnntw::distance::calc_dist_sq_to_space(&a, &lo, &hi)).1,
        counted(|| fnntw::distance::calc_dist_sq_to_space(&hi, &lo, &a)).1,
    ];
    (most.iter().max().unwrap() + 2) / 3
}
