//! C34 engine: one formula run at f64 and at every autodiff scalar.
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::{Dual, HyperDual, Jet, Numeric, Primal};
use vk::*;
pub mod est;
pub mod kin;
pub mod linear;
pub mod poly;
pub mod space;

/// A computation over library algorithms: `c` are constants, `x` the inputs it is differentiated in.
/// None is a refusal by the library.
pub trait Fun { fn run<T: Numeric + Primal>(c: &[f64], x: &[T]) -> Option<Vec<T>>; }
#[macro_export]
macro_rules! fun { ($name:ident, $c:ident, $x:ident, $body:expr) => { pub struct $name; impl $crate::carry::Fun for $name { #[allow(unused_variables)] fn run<T: multicalc::Numeric + multicalc::Primal>($c: &[f64], $x: &[T]) -> Option<Vec<T>> { $body } } }; }
pub fn k<T: Numeric>(v: f64) -> T { T::from_f64(v) }
pub fn mv<const A: usize, const B: usize, T: Numeric>(m: Matrix<A, B, T>) -> Vec<T> { m.into_array().into_iter().flatten().collect() }
pub fn vv<const A: usize, T: Numeric>(v: Vector<A, T>) -> Vec<T> { v.as_array().to_vec() }
/// The next A*B inputs as a matrix / the next A as a vector.
pub fn mat<const A: usize, const B: usize, T: Numeric>(x: &[T], at: usize) -> Matrix<A, B, T> { Matrix::from_fn(|i, j| x[at + i * B + j]) }
pub fn vec<const A: usize, T: Numeric>(x: &[T], at: usize) -> Vector<A, T> { Vector::from_fn(|i| x[at + i]) }
pub fn cmat<const A: usize, const B: usize, T: Numeric>(c: &[f64], at: usize) -> Matrix<A, B, T> { Matrix::from_fn(|i, j| k(c[at + i * B + j])) }
pub fn cvec<const A: usize, T: Numeric>(c: &[f64], at: usize) -> Vector<A, T> { Vector::from_fn(|i| k(c[at + i])) }
/// A symmetric positive definite matrix from A*A inputs: B Bᵀ + shift I.
pub fn spd<const A: usize, T: Numeric>(x: &[T], at: usize, shift: f64) -> Matrix<A, A, T> { let b = mat::<A, A, T>(x, at); (b * b.transpose() + Matrix::identity().scale(k(shift))).symmetrized() }
pub fn sym<const A: usize, T: Numeric>(x: &[T], at: usize) -> Matrix<A, A, T> { Matrix::from_fn(|i, j| x[at + i.min(j) * A + i.max(j)]) }

/// The derivative of each output along `u` by repeated extrapolation of central differences of `f`,
/// with an error estimate; None where the function refuses nearby.
fn slope(f: &dyn Fn(f64) -> Option<Vec<f64>>, h: f64) -> Option<Vec<(f64, f64)>> {
    let mut d = vec![]; let mut size = vec![];
    for l in 0..5 { let s = h / 2f64.powi(l); let (a, b) = (f(s)?, f(-s)?); if a.len() != b.len() { return None; } if size.is_empty() { size = a.iter().zip(&b).map(|(x, y)| x.abs().max(y.abs())).collect(); } if a.len() != size.len() { return None; } d.push(a.iter().zip(&b).map(|(x, y)| (x - y) / (2.0 * s)).collect::<Vec<_>>()); }
    // one-sided slopes: a corner exactly at the point leaves every central difference consistent
    let s = h / 16.0; let (z, p1, p2, m1, m2) = (f(0.0)?, f(s)?, f(2.0 * s)?, f(-s)?, f(-2.0 * s)?); if [&z, &p2, &m2].iter().any(|v| v.len() != size.len()) { return None; }
    let corner: Vec<f64> = (0..size.len()).map(|i| ((4.0 * p1[i] - p2[i] - 3.0 * z[i]) - (3.0 * z[i] + m2[i] - 4.0 * m1[i])).abs() / (2.0 * s)).collect();
    Some((0..size.len()).map(|i| { let r: Vec<f64> = (0..4).map(|l| (4.0 * d[l + 1][i] - d[l][i]) / 3.0).collect(); let q: Vec<f64> = (0..3).map(|l| (16.0 * r[l + 1] - r[l]) / 15.0).collect(); let e = (q[2] - q[1]).abs().max((q[1] - q[0]).abs()).max((q[1] - r[2]).abs().min((q[2] - r[2]).abs())) + 1e-15 * size[i] / h * 16.0 + 0.1 * corner[i]; (q[1], e) }).collect())
}
/// `tol`: relative agreement asked for between the autodiff derivative and the true one (the
/// difference quotient's own uncertainty is added); `h`: the difference step.
pub fn check<F: Fun>(g: &mut G, c: &[f64], x: &[f64], tol: f64, h: f64) -> R { check_from::<F>(g, c, x, tol, h, 1) }
/// `orders`: 1 checks first derivatives only, 2 also the second ones.
pub fn check_from<F: Fun>(g: &mut G, c: &[f64], x: &[f64], tol: f64, h: f64, orders: usize) -> R {
    let n = x.len(); let sparse = g.chance(1, 3); let one = g.below(n); let u: Vec<f64> = (0..n).map(|i| { let v = g.f(-1.0, 1.0); if sparse && i != one { 0.0 } else if sparse { 1.0 } else { v } }).collect();
    g.note("constants", &c); g.note("inputs", &x); g.note("direction", &u);
    let at = |t: f64| -> Option<Vec<f64>> { let p: Vec<f64> = (0..n).map(|i| x[i] + t * u[i]).collect(); F::run::<f64>(c, &p).filter(|v| v.iter().all(|y| y.is_finite())) };
    let du = |t: f64| -> Option<Vec<Dual<f64>>> { let p: Vec<Dual<f64>> = (0..n).map(|i| Dual::new(x[i] + t * u[i], u[i])).collect(); F::run(c, &p) };
    let v0 = F::run::<f64>(c, x); let d0 = du(0.0);
    ensure!(v0.is_some() == d0.is_some(), "refused at one scalar only: f64 {v0:?}, autodiff {d0:?}");
    let (Some(v0), Some(d0)) = (v0, d0) else { g.label("refused"); discard!() };
    ensure!(v0.len() == d0.len(), "{} outputs at f64, {} at Dual", v0.len(), d0.len());
    if v0.iter().any(|y| !y.is_finite()) { discard!(); }
    let big = v0.iter().fold(1e-3f64, |a, b| a.max(b.abs()));
    if big > 1e5 { g.label("near singular"); discard!(); }
    for i in 0..v0.len() { close!(g, d0[i].value, v0[i], 1e-9f64.max(tol * 1e-2) * big, "output {i}: value at Dual against f64"); }
    let Some(s) = slope(&at, h) else { g.label("edge"); discard!() };
    if s.len() != v0.len() { discard!(); }
    let top = s.iter().fold(0.0f64, |a, b| a.max(b.0.abs())); let mut n_ok = 0;
    for i in 0..v0.len() { let (want, e) = s[i]; let scale = want.abs() + 0.05 * top + 1e-3 * big; if e > 1e-5 * scale { g.label("kink"); continue; } n_ok += 1; let got = d0[i].deriv; close!(g, got, want, 30.0 * e + tol * scale, "output {i} (value {}): derivative", v0[i]); }
    if n_ok == 0 { discard!(); } g.nontrivial_if(top > 1e-6);
    // the other autodiff scalars carry the same first derivative
    let hy: Vec<HyperDual<f64>> = (0..n).map(|i| HyperDual::new(x[i], u[i], u[i], 0.0)).collect(); let je: Vec<Jet<f64, 3>> = (0..n).map(|i| Jet::new([x[i], u[i], 0.0])).collect(); let dd: Vec<Dual<Dual<f64>>> = (0..n).map(|i| Dual::new(Dual::new(x[i], u[i]), Dual::new(u[i], 0.0))).collect();
    let (Some(hy), Some(je), Some(dd)) = (F::run(c, &hy), F::run(c, &je), F::run(c, &dd)) else { bad!("refused at one autodiff scalar only") };
    ensure!(hy.len() == v0.len() && je.len() == v0.len() && dd.len() == v0.len());
    for i in 0..v0.len() { let scale = d0[i].deriv.abs() + 0.05 * top + 1e-3 * big; let t = tol.max(1e-9) * scale; close!(g, hy[i].eps1, d0[i].deriv, t, "output {i}: HyperDual against Dual"); close!(g, hy[i].eps2, d0[i].deriv, t, "output {i}: HyperDual (second part) against Dual"); close!(g, je[i].derivative(1), d0[i].deriv, t, "output {i}: Jet against Dual"); close!(g, dd[i].deriv.value, d0[i].deriv, t, "output {i}: nested Dual against Dual"); close!(g, dd[i].value.deriv, d0[i].deriv, t, "output {i}: nested Dual (inner) against Dual"); }
    if orders < 2 { return Ok(()); }
    let at2 = |t: f64| -> Option<Vec<f64>> { du(t).map(|v| v.iter().map(|y| y.deriv).collect::<Vec<_>>()).filter(|v| v.iter().all(|y: &f64| y.is_finite())) };
    let Some(s2) = slope(&at2, h) else { return Ok(()) }; if s2.len() != v0.len() { return Ok(()); }
    let top2 = s2.iter().fold(0.0f64, |a, b| a.max(b.0.abs()));
    for i in 0..v0.len() { let (want, e) = s2[i]; let scale = want.abs() + 0.05 * top2 + 0.05 * top + 1e-3 * big; if e > 1e-5 * scale { continue; } let t = 30.0 * e + tol.max(1e-8) * scale; g.label("second order"); close!(g, dd[i].deriv.deriv, want, t, "output {i}: second derivative at nested Dual (HyperDual {}, Jet {})", hy[i].eps1eps2, je[i].derivative(2)); close!(g, hy[i].eps1eps2, want, t, "output {i}: second derivative at HyperDual"); close!(g, je[i].derivative(2), want, t, "output {i}: second derivative at Jet"); }
    Ok(())
}
