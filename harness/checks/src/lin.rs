//! Shared generators and helpers for linear-algebra checks.
use crate::util::*;
use multicalc::linear_algebra::{Matrix, Vector};
use vk::dd::DD;
use vk::mat::M as DM;
use vk::G;

pub fn dm<const R: usize, const C: usize, T: Fl>(a: &Matrix<R, C, T>) -> DM { DM::from_fn(R, C, |i, j| a[(i, j)].g()) }
pub fn dv<const N: usize, T: Fl>(a: &Vector<N, T>) -> DM { DM::from_fn(N, 1, |i, _| a[i].g()) }
pub fn lib<const R: usize, const C: usize, T: Fl>(m: &DM) -> Matrix<R, C, T> { Matrix::from_fn(|i, j| T::c(m.f(i, j))) }
pub fn vgen<const N: usize, T: Fl>(g: &mut G, lo: f64, hi: f64) -> Vector<N, T> { Vector::from_fn(|_| T::c(g.f(lo, hi))) }
pub fn mgen<const R: usize, const C: usize, T: Fl>(g: &mut G, lo: f64, hi: f64) -> Matrix<R, C, T> { Matrix::from_fn(|_, _| T::c(g.f(lo, hi))) }
/// A random orthogonal n x n matrix: a product of Givens rotations, some skipped.
pub fn orth(g: &mut G, n: usize) -> DM {
    let mut q = DM::eye(n);
    for i in 0..n { for j in i + 1..n {
        let th = if g.chance(1, 6) { 0.0 } else { g.u(-3.2, 3.2) }; let (s, c) = th.sin_cos(); let (mut c, mut s) = (DD::new(c), DD::new(s)); let r = (c * c + s * s).sqrt(); c = c / r; s = s / r;
        for k in 0..n { let (x, y) = (q.at(k, i), q.at(k, j)); q.set(k, i, c * x - s * y); q.set(k, j, s * x + c * y); }
    } }
    if n > 0 && g.bool() { for k in 0..n { let v = -q.at(k, 0); q.set(k, 0, v); } }
    q
}
/// A matrix with prescribed singular values (descending), rows >= cols.
pub fn with_sv(g: &mut G, r: usize, c: usize, sv: &[f64]) -> DM {
    let u = orth(g, r); let v = orth(g, c); let mut d = DM::zeros(r, c); for (i, &s) in sv.iter().enumerate() { d.set(i, i, DD::new(s)); } u.mul(&d).mul(&v.t())
}
/// A symmetric matrix with prescribed eigenvalues.
pub fn with_eigs(g: &mut G, ev: &[f64]) -> DM { let n = ev.len(); let v = orth(g, n); let mut d = DM::zeros(n, n); for (i, &s) in ev.iter().enumerate() { d.set(i, i, DD::new(s)); } let a = v.mul(&d).mul(&v.t()); DM::from_fn(n, n, |i, j| if i <= j { a.f(i, j) } else { a.f(j, i) }) }
/// Well conditioned by construction (condition <= 10^lc), scaled by 10^[-ls, ls].
pub fn sv_list(g: &mut G, n: usize, lc: f64, ls: f64) -> Vec<f64> {
    let s = g.log10(-ls, ls); let mut v: Vec<f64> = (0..n).map(|_| g.log10(-lc, 0.0) * s).collect(); if g.chance(1, 4) && n > 1 { let x = v[0]; v[1] = x; } if n > 0 { v[0] = s; } v.sort_by(|a, b| b.partial_cmp(a).unwrap()); v
}
pub fn well<const N: usize, T: Fl>(g: &mut G, lc: f64, ls: f64) -> Matrix<N, N, T> { let v = sv_list(g, N, lc, ls); lib(&with_sv(g, N, N, &v)) }
/// Random matrix of assorted structure.
pub fn any_mat<const R: usize, const C: usize, T: Fl>(g: &mut G) -> Matrix<R, C, T> {
    let sc = if g.chance(1, 3) { if T::IS32 { g.log10(-6.0, 6.0) } else { g.log10(-40.0, 40.0) } } else { 1.0 };
    match g.below(6) {
        0 => Matrix::from_fn(|_, _| T::c(g.int(-4, 4) as f64 * sc)),
        1 => Matrix::from_fn(|_, _| T::c(g.f(-3.0, 3.0) * sc)),
        2 => { let p = g.raw(3) + 1; Matrix::from_fn(|_, _| T::c(if g.raw(4) < p { 0.0 } else { g.f(-2.0, 2.0) * sc })) }
        3 => { let rs: Vec<f64> = (0..R).map(|_| g.log10(-3.0, 3.0)).collect(); Matrix::from_fn(|i, _| T::c(g.f(-2.0, 2.0) * rs[i] * sc)) }
        4 => { let cs: Vec<f64> = (0..C).map(|_| g.log10(-3.0, 3.0)).collect(); Matrix::from_fn(|_, j| T::c(g.f(-2.0, 2.0) * cs[j] * sc)) }
        _ => { let sv = sv_list(g, R.min(C), if T::IS32 { 2.5 } else { 6.0 }, 0.5); if R >= C { lib(&with_sv(g, R, C, &sv).scale(sc)) } else { lib(&with_sv(g, C, R, &sv).t().scale(sc)) } }
    }
}
/// max-norm condition estimate |A| |A^-1| (infinity norms) in double-double; None when singular.
pub fn cond(a: &DM) -> Option<(f64, DM)> { let inv = a.inv()?; let k = a.t().norm1() * inv.t().norm1(); if k.is_finite() { Some((k, inv)) } else { None } }
pub fn max_diff(a: &DM, b: &DM) -> f64 { a.sub(b).max_abs() }
#[macro_export]
macro_rules! dims { ($g:expr, $f:ident, $t:ty, $($n:literal),+) => {{ let opts: &[fn(&mut vk::G) -> vk::R] = &[$($f::<$n, $t>),+]; let k = $g.below(opts.len()); opts[k]($g) }}; }
#[macro_export]
macro_rules! dims2 { ($g:expr, $f:ident, $t:ty, $(($m:literal, $n:literal)),+) => {{ let opts: &[fn(&mut vk::G) -> vk::R] = &[$($f::<$m, $n, $t>),+]; let k = $g.below(opts.len()); opts[k]($g) }}; }
