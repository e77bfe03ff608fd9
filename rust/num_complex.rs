//! The part of num_complex which the generator may need (no crates are available offline).
use std::iter::{Product, Sum};
use std::ops::*;
#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct Complex<T> { pub re: T, pub im: T }
pub type Complex64 = Complex<f64>;
pub type Complex32 = Complex<f32>;
impl<T> Complex<T> { pub const fn new(re: T, im: T) -> Self { Self { re, im } } }
pub fn c64(re: f64, im: f64) -> Complex64 { Complex { re, im } }
macro_rules! imp { ($f:ty) => {
impl Complex<$f> {
  pub const I: Self = Self { re: 0.0, im: 1.0 };
  pub const ZERO: Self = Self { re: 0.0, im: 0.0 };
  pub const ONE: Self = Self { re: 1.0, im: 0.0 };
  pub const fn i() -> Self { Self { re: 0.0, im: 1.0 } }
  pub fn conj(&self) -> Self { Self { re: self.re, im: -self.im } }
  pub fn exp(self) -> Self { Self::from_polar(self.re.exp(), self.im) }
  pub fn from_polar(r: $f, t: $f) -> Self { Self { re: r * t.cos(), im: r * t.sin() } }
  pub fn cis(t: $f) -> Self { Self::from_polar(1.0, t) }
  pub fn to_polar(self) -> ($f, $f) { (self.norm(), self.arg()) }
  pub fn norm_sqr(&self) -> $f { self.re * self.re + self.im * self.im }
  pub fn norm(self) -> $f { self.re.hypot(self.im) }
  pub fn abs(self) -> $f { self.norm() }
  pub fn arg(self) -> $f { self.im.atan2(self.re) }
  pub fn scale(&self, t: $f) -> Self { Self { re: self.re * t, im: self.im * t } }
  pub fn unscale(&self, t: $f) -> Self { Self { re: self.re / t, im: self.im / t } }
  pub fn sqrt(self) -> Self { let (r, t) = self.to_polar(); Self::from_polar(r.sqrt(), t / 2.0) }
  pub fn inv(&self) -> Self { let n = self.norm_sqr(); Self { re: self.re / n, im: -self.im / n } }
  pub fn powi(&self, n: i32) -> Self { let mut o = Self::ONE; for _ in 0..n.abs() { o = o * *self; } if n < 0 { o.inv() } else { o } }
  pub fn powf(self, n: $f) -> Self { let (r, t) = self.to_polar(); Self::from_polar(r.powf(n), t * n) }
  pub fn ln(self) -> Self { Self { re: self.norm().ln(), im: self.arg() } }
  pub fn is_finite(self) -> bool { self.re.is_finite() && self.im.is_finite() }
  pub fn is_nan(self) -> bool { self.re.is_nan() || self.im.is_nan() }
}
impl From<$f> for Complex<$f> { fn from(re: $f) -> Self { Self { re, im: 0.0 } } }
impl Neg for Complex<$f> { type Output = Self; fn neg(self) -> Self { Self { re: -self.re, im: -self.im } } }
impl Neg for &Complex<$f> { type Output = Complex<$f>; fn neg(self) -> Complex<$f> { -*self } }
imp!(@op $f, Add, add, AddAssign, add_assign, |a, b| Complex { re: a.re + b.re, im: a.im + b.im });
imp!(@op $f, Sub, sub, SubAssign, sub_assign, |a, b| Complex { re: a.re - b.re, im: a.im - b.im });
imp!(@op $f, Mul, mul, MulAssign, mul_assign, |a, b| Complex { re: a.re * b.re - a.im * b.im, im: a.re * b.im + a.im * b.re });
imp!(@op $f, Div, div, DivAssign, div_assign, |a, b| { let n = b.re * b.re + b.im * b.im; Complex { re: (a.re * b.re + a.im * b.im) / n, im: (a.im * b.re - a.re * b.im) / n } });
impl Sum for Complex<$f> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::default(), |a, b| a + b) } }
impl<'a> Sum<&'a Complex<$f>> for Complex<$f> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::default(), |a, b| a + *b) } }
impl Product for Complex<$f> { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * b) } }
};
(@op $f:ty, $t:ident, $m:ident, $ta:ident, $ma:ident, |$a:ident, $b:ident| $e:expr) => {
impl $t<Complex<$f>> for Complex<$f> { type Output = Complex<$f>; fn $m(self, o: Complex<$f>) -> Complex<$f> { let ($a, $b) = (self, o); $e } }
impl<'b> $t<&'b Complex<$f>> for Complex<$f> { type Output = Complex<$f>; fn $m(self, o: &'b Complex<$f>) -> Complex<$f> { $t::$m(self, *o) } }
impl<'a> $t<Complex<$f>> for &'a Complex<$f> { type Output = Complex<$f>; fn $m(self, o: Complex<$f>) -> Complex<$f> { $t::$m(*self, o) } }
impl<'a, 'b> $t<&'b Complex<$f>> for &'a Complex<$f> { type Output = Complex<$f>; fn $m(self, o: &'b Complex<$f>) -> Complex<$f> { $t::$m(*self, *o) } }
impl $t<$f> for Complex<$f> { type Output = Complex<$f>; fn $m(self, o: $f) -> Complex<$f> { $t::$m(self, Complex::<$f>::from(o)) } }
impl<'b> $t<&'b $f> for Complex<$f> { type Output = Complex<$f>; fn $m(self, o: &'b $f) -> Complex<$f> { $t::$m(self, *o) } }
impl<'a> $t<$f> for &'a Complex<$f> { type Output = Complex<$f>; fn $m(self, o: $f) -> Complex<$f> { $t::$m(*self, o) } }
impl<'a, 'b> $t<&'b $f> for &'a Complex<$f> { type Output = Complex<$f>; fn $m(self, o: &'b $f) -> Complex<$f> { $t::$m(*self, *o) } }
impl $t<Complex<$f>> for $f { type Output = Complex<$f>; fn $m(self, o: Complex<$f>) -> Complex<$f> { $t::$m(Complex::<$f>::from(self), o) } }
impl<'b> $t<&'b Complex<$f>> for $f { type Output = Complex<$f>; fn $m(self, o: &'b Complex<$f>) -> Complex<$f> { $t::$m(self, *o) } }
impl<'a> $t<Complex<$f>> for &'a $f { type Output = Complex<$f>; fn $m(self, o: Complex<$f>) -> Complex<$f> { $t::$m(*self, o) } }
impl<'a, 'b> $t<&'b Complex<$f>> for &'a $f { type Output = Complex<$f>; fn $m(self, o: &'b Complex<$f>) -> Complex<$f> { $t::$m(*self, *o) } }
impl $ta<Complex<$f>> for Complex<$f> { fn $ma(&mut self, o: Complex<$f>) { *self = $t::$m(*self, o); } }
impl<'b> $ta<&'b Complex<$f>> for Complex<$f> { fn $ma(&mut self, o: &'b Complex<$f>) { *self = $t::$m(*self, *o); } }
impl $ta<$f> for Complex<$f> { fn $ma(&mut self, o: $f) { *self = $t::$m(*self, o); } }
};
}
imp!(f64);
imp!(f32);
