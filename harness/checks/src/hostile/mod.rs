//! Hostile values and the bookkeeping shared by the C33 laws.
pub use checks::util::*;
pub use core::hint::black_box as bb;
pub use multicalc::linear_algebra::*;
pub use multicalc::scalar::*;
pub use multicalc::spatial::*;
pub use std::cell::Cell;
pub use vk::*;
/// A source of arguments: `r` in 16 of them hostile, the rest moderate.
pub struct H<'a> { pub g: &'a mut G, pub r: u64 }
pub fn hx(g: &mut G) -> H<'_> { let r = g.pick(&[0u64, 1, 2, 5, 16]); if r > 0 { g.nontrivial(); } H { g, r } }
impl H<'_> {
    pub fn d(&mut self) -> f64 {
        if self.r > 0 && self.g.chance(self.r, 16) { match self.g.below(4) { 0 => self.g.hostile(), 1 => self.g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0]), 2 => self.g.pick(&[f64::MAX, -f64::MAX, f64::MIN_POSITIVE, 5e-324, -5e-324, 1e-300, 1e300, -1e300, 1e154, 1e-160, 3.4e38, 1.2e-38, 1e-45, -1e19, 9.3e18, 4.3e9]), _ => self.g.slog10(-40.0, 40.0) } }
        else { match self.g.below(4) { 0 => self.g.pick(&[0.0, 1.0, -1.0, 0.5, 2.0]), _ => self.g.f(-3.0, 3.0) } }
    }
    /// The same, usually positive.
    pub fn p(&mut self) -> f64 { let x = self.d(); if self.g.chance(7, 8) { x.abs() } else { x } }
    pub fn x<T: Fx>(&mut self) -> T { T::c(self.d()) }
    pub fn px<T: Fx>(&mut self) -> T { T::c(self.p()) }
    pub fn a<const N: usize, T: Fx>(&mut self) -> [T; N] { core::array::from_fn(|_| self.x()) }
    pub fn v<const N: usize, T: Fx>(&mut self) -> Vector<N, T> { Vector::from_fn(|_| self.x()) }
    pub fn m<const A: usize, const B: usize, T: Fx>(&mut self) -> Matrix<A, B, T> { match self.g.below(5) { 0 => Matrix::zeros(), _ => { let mut m = Matrix::from_fn(|_, _| self.x()); if A > 1 && self.g.chance(1, 4) { for j in 0..B { m[(A - 1, j)] = m[(0, j)]; } } m } } }
    /// Usually symmetric and positive definite, then spoiled as often as other arguments are.
    pub fn spd<const N: usize, T: Fx>(&mut self) -> Matrix<N, N, T> { let b: [[f64; N]; N] = core::array::from_fn(|_| core::array::from_fn(|_| self.g.f(-1.0, 1.0))); let s = if self.g.chance(1, 4) { self.p() } else { 1.0 }; let mut m = Matrix::from_fn(|i, j| T::c(s * ((0..N).map(|k| b[i][k] * b[j][k]).sum::<f64>() + if i == j { 0.3 } else { 0.0 }))); if N > 0 && self.r > 0 && self.g.chance(self.r, 16) { let (i, j) = (self.g.below(N), self.g.below(N)); let x = self.x(); m[(i, j)] = x; if self.g.bool() { m[(j, i)] = x; } } m }
    pub fn q<T: Fx>(&mut self) -> Quaternion<T> { let [w, x, y, z] = self.a(); Quaternion::new(w, x, y, z) }
    pub fn so3<T: Fx>(&mut self) -> SO3<T> { match self.g.below(4) { 0 => SO3::identity(), 1 => SO3::exp(self.v()), 2 => { let q = self.q(); SO3::from_quaternion(q) } _ => { let q = self.q(); SO3::try_from_quaternion(q).unwrap_or_else(SO3::identity) } } }
    pub fn so2<T: Fx>(&mut self) -> SO2<T> { SO2::from_angle(self.x()) }
    pub fn se3<T: Fx>(&mut self) -> SE3<T> { let r = self.so3(); SE3::from_parts(r, self.v()) }
    pub fn se2<T: Fx>(&mut self) -> SE2<T> { let r = self.so2(); SE2::from_parts(r, self.v()) }
    pub fn tw<T: Fx>(&mut self) -> Twist<T> { Twist::from_array(self.a()) }
    pub fn wr<T: Fx>(&mut self) -> Wrench<T> { Wrench::from_array(self.a()) }
    /// A count or index: mostly small, sometimes absurd.
    pub fn n(&mut self, hi: usize) -> usize { if self.r > 0 && self.g.chance(self.r, 32) { self.g.pick(&[0, usize::MAX, usize::MAX / 2, 1 << 32, 1 << 20]) } else { self.g.below(hi + 2) } }
}
/// A refused call has to leave the object as it was.
macro_rules! keep { ($o:ident, $c:expr, $w:expr) => {{ let before = format!("{:?}", $o); let r = $c; if r.is_err() { let after = format!("{:?}", $o); ensure!(after == before, "{}: refused with {:?}, yet changed", $w, r.err()); } r }} }
/// A call that succeeded on arguments it promises to refuse.
macro_rules! finite_only { ($r:expr, $w:expr, $($x:expr),*) => {{ let r = $r; if r.is_ok() { $( ensure!(Nums::fin(&$x), "{}: accepted {} = {:?}", $w, stringify!($x), $x); )* } r }} }
pub trait Fx: Fl + Nums {}
impl Fx for f64 {}
impl Fx for f32 {}
pub trait Nums { fn fin(&self) -> bool; }
impl Nums for f64 { fn fin(&self) -> bool { self.is_finite() } }
impl Nums for f32 { fn fin(&self) -> bool { self.is_finite() } }
impl<const N: usize, T: Fx> Nums for Vector<N, T> { fn fin(&self) -> bool { self.is_finite() } }
impl<const A: usize, const B: usize, T: Fx> Nums for Matrix<A, B, T> { fn fin(&self) -> bool { self.is_finite() } }
impl<const N: usize, T: Nums> Nums for [T; N] { fn fin(&self) -> bool { self.iter().all(|x| x.fin()) } }
/// A function of one argument that counts its calls.
pub struct Fun<'a> { pub k: usize, pub c: f64, pub n: &'a Cell<u64>, pub cap: u64 }
pub const KINDS: usize = 14;
pub fn body<S: Numeric>(k: usize, c: f64, x: S) -> S {
    let c = S::from_f64(c);
    match k { 0 => x * x - c, 1 => x.recip(), 2 => x.log(), 3 => x.sqrt() - c, 4 => S::from_f64(f64::NAN), 5 => S::from_f64(f64::INFINITY), 6 => x.tan(), 7 => x.abs() - c, 8 => x * x * x - x - c, 9 => x.exp() - c, 10 => S::ZERO, 11 => c, 12 => if x < c { S::from_f64(f64::NAN) } else { x }, _ => (x - c).sin() / (x * x + S::ONE) }
}
impl Fun<'_> { pub fn count(&self) { self.n.set(self.n.get() + 1); if self.n.get() > self.cap { panic!("a callback was called more than {} times", self.cap); } } }
impl ScalarFn for Fun<'_> { fn eval<S: Numeric>(&self, x: S) -> S { self.count(); body(self.k, self.c, x) } }
impl<const N: usize> ScalarFnN<N> for Fun<'_> { fn eval<S: Numeric>(&self, p: &[S; N]) -> S { self.count(); let mut s = S::ZERO; for (i, x) in p.iter().enumerate() { s = s + body((self.k + i) % KINDS, self.c, *x) * p[(i + 1) % N]; } s } }
impl<const N: usize, const M: usize> VectorFn<N, M> for Fun<'_> { fn eval<S: Numeric>(&self, p: &[S; N]) -> [S; M] { self.count(); core::array::from_fn(|i| body((self.k + i) % KINDS, self.c, p[i % N]) + p[(i + 1) % N] * S::from_f64(0.5)) } }
pub fn fun<'a>(h: &mut H, n: &'a Cell<u64>, cap: u64) -> Fun<'a> { let k = if h.r == 0 { h.g.pick(&[0usize, 7, 8, 9, 13]) } else { h.g.below(KINDS) }; Fun { k, c: h.d(), n, cap } }
