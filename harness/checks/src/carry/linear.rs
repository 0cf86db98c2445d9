//! Matrix algorithms.
use super::*;
use crate::fun;
use multicalc::discretization::*;
use multicalc::linear_algebra::*;

fun!(LuAll, c, x, { let a = mat::<4, 4, T>(x, 0); let f = a.lu_decompose().ok()?; let mut o = mv(f.lower()); o.extend(mv(f.upper())); o.push(f.determinant()); o.extend(vv(f.solve(vec(x, 16)))); o.extend(mv(f.inverse())); o.extend(mv(f.solve_matrix(mat::<4, 2, T>(x, 12)))); Some(o) });
fun!(Inv2, c, x, { let a = mat::<2, 2, T>(x, 0); let mut o = mv(a.inverse().ok()?); o.push(a.determinant()); o.extend(vv(a.solve(vec(x, 2)).ok()?)); Some(o) });
fun!(Inv3, c, x, { let a = mat::<3, 3, T>(x, 0); let mut o = mv(a.inverse().ok()?); o.push(a.determinant()); o.extend(vv(a.solve(vec(x, 5)).ok()?)); o.push(a.trace()); o.push(a.frobenius_norm()); Some(o) });
fun!(Inv4, c, x, { let a = mat::<4, 4, T>(x, 0); let mut o = mv(a.inverse().ok()?); o.push(a.determinant()); Some(o) });
fun!(Qr, c, x, { let q = PivotedQr::decompose(mat::<5, 3, T>(x, 0)).ok()?; let mut o = mv(q.triangular()); o.extend(mv(q.orthogonal())); o.extend(vv(q.solve_least_squares(vec(x, 15)).ok()?)); Some(o) });
fun!(Damped, c, x, { let q = PivotedQr::decompose(mat::<4, 3, T>(x, 0)).ok()?.into_damped(vec(x, 12)); let d: [T; 3] = [x[16], x[17], x[18]]; let (s, f) = q.solve_with_diagonal(&d); let mut o = vv(s); o.extend(f.solve([x[12], x[13], x[14]])); o.push(q.a_x_norm(&vec(x, 13))); Some(o) });
fun!(Chol, c, x, { let a = spd::<4, T>(x, 0, 0.3); let f = a.cholesky().ok()?; let mut o = mv(f.lower()); o.push(f.determinant()); o.extend(vv(f.solve(vec(x, 16)))); o.extend(mv(f.inverse())); Some(o) });
fun!(SvdVals, c, x, { let s = mat::<4, 3, T>(x, 0).svd().ok()?; let mut o = vv(s.singular_values()); o.push(s.condition_number()); Some(o) });
fun!(SvdUse, c, x, { let a = mat::<4, 3, T>(x, 0); let s = a.svd().ok()?; let mut o = mv(s.pseudo_inverse()); o.extend(vv(s.solve(vec(x, 12)))); let (u, v) = (s.left(), s.right()); for i in 0..3 { for r in 0..4 { for q in 0..3 { o.push(u[(r, i)] * v[(q, i)]); } } } Some(o) });
fun!(EigVals, c, x, { let e = sym::<4, T>(x, 0).symmetric_eigendecomposition().ok()?; let mut o = vv(e.eigenvalues()); o.push(e.determinant()); Some(o) });
fun!(EigProj, c, x, { let e = sym::<4, T>(x, 0).symmetric_eigendecomposition().ok()?; let v = e.eigenvectors(); let mut o = mv(e.clamped(k(c[0]))); for i in 0..4 { for r in 0..4 { for q in 0..=r { o.push(v[(r, i)] * v[(q, i)]); } } } Some(o) });
fun!(Expm, c, x, Some(mv(mat::<3, 3, T>(x, 0).scale(k(c[0])).expm().ok()?)));
fun!(Lyap, c, x, Some(mv(solve_discrete_lyapunov(mat::<3, 3, T>(x, 0).scale(k(c[0])), spd::<3, T>(x, 9, 0.1)).ok()?)));
fun!(Ricc, c, x, Some(mv(solve_discrete_riccati(mat::<3, 3, T>(x, 0).scale(k(c[0])), mat::<3, 2, T>(x, 9), spd::<3, T>(x, 15, 0.2), spd::<2, T>(x, 24, 0.3)).ok()?)));
fun!(Zoh, c, x, { let (a, b) = zoh::<3, 2, 5, T>(mat(x, 0), mat(x, 9), x[15]).ok()?; let mut o = mv(a); o.extend(mv(b)); Some(o) });
fun!(Loan, c, x, { let (a, b) = van_loan::<2, 4, T>(mat(x, 0), spd::<2, T>(x, 4, 0.1), x[8]).ok()?; let mut o = mv(a); o.extend(mv(b)); o.extend(mv(q_discrete_white_noise::<3, T>(x[8], x[7] * x[7]))); Some(o) });
fun!(Norms, c, x, { let (a, b) = (vec::<3, T>(x, 0), vec::<3, T>(x, 3)); let mut o = vec![a.norm(), a.dot(b), mat::<2, 3, T>(x, 0).frobenius_norm()]; o.extend(vv(a.cross(b))); o.extend(mv(mat::<2, 3, T>(x, 0) * mat::<3, 2, T>(x, 0))); Some(o) });

fn well(g: &mut G, n: usize, shift: f64) -> Vec<f64> { let mut x = open(g, n * n, 1.0); for i in 0..n { let s = g.sign(); x[i * n + i] += s * shift; } x }
pub fn lu(g: &mut G) -> R { let mut x = well(g, 4, 1.0); x.extend(g.vec(8, -1.0, 1.0)); check_from::<LuAll>(g, &[], &x, 1e-8, 1e-3, 2) }
pub fn inverse(g: &mut G) -> R { match g.below(3) { 0 => { let x = well(g, 2, 0.7); check_from::<Inv2>(g, &[], &x, 1e-8, 1e-3, 2) } 1 => { let x = well(g, 3, 0.7); check_from::<Inv3>(g, &[], &x, 1e-8, 1e-3, 2) } _ => { let x = well(g, 4, 0.7); check_from::<Inv4>(g, &[], &x, 1e-8, 1e-3, 2) } } }
pub fn qr(g: &mut G) -> R { let mut x = open(g, 20, 1.5); if g.bool() { check_from::<Qr>(g, &[], &x, 1e-7, 1e-3, 2) } else { for i in 16..19 { x[i] = g.f(0.2, 2.0); } check_from::<Damped>(g, &[], &x[..19], 1e-7, 1e-3, 2) } }
pub fn cholesky(g: &mut G) -> R { let x = g.vec(20, -1.0, 1.0); check_from::<Chol>(g, &[], &x, 1e-8, 1e-3, 2) }
pub fn svd(g: &mut G) -> R { let x = open(g, 16, 1.5); if g.bool() { check::<SvdVals>(g, &[], &x, 1e-6, 1e-3) } else { check::<SvdUse>(g, &[], &x, 1e-5, 1e-3) } }
pub fn eigen(g: &mut G) -> R { let x = open(g, 16, 1.5); if g.bool() { check::<EigVals>(g, &[], &x, 1e-6, 1e-3) } else { let c = g.f(-1.0, 1.0); check::<EigProj>(g, &[c], &x, 1e-5, 1e-3) } }
pub fn expm(g: &mut G) -> R { let x = if g.chance(1, 8) { vec![0.0; 9] } else { g.vec(9, -1.0, 1.0) }; let s = g.pick(&[0.01, 0.3, 1.0, 3.0]); check_from::<Expm>(g, &[s], &x, 1e-8, 1e-3, 2) }
pub fn equations(g: &mut G) -> R { if g.bool() { let x = g.vec(18, -1.0, 1.0); let s = g.f(0.05, 0.4); check::<Lyap>(g, &[s], &x, 1e-6, 1e-3) } else { let x = g.vec(28, -1.0, 1.0); let s = g.f(0.3, 1.2); check::<Ricc>(g, &[s], &x, 1e-6, 1e-3) } }
pub fn discretise(g: &mut G) -> R { if g.bool() { let mut x = g.vec(15, -1.0, 1.0); x.push(g.log10(-2.0, 0.0)); check_from::<Zoh>(g, &[], &x, 1e-8, 1e-4, 2) } else { let mut x = g.vec(8, -1.0, 1.0); x.push(g.log10(-2.0, 0.0)); check_from::<Loan>(g, &[], &x, 1e-8, 1e-4, 2) } }
pub fn norms(g: &mut G) -> R { let x = open(g, 6, 1.0); check_from::<Norms>(g, &[], &x, 1e-8, 1e-4, 2) }
/// Inputs without exact zeros or ties: where an algorithm skips a zero entry or breaks a tie between
/// pivots its result is not smooth, and no derivative is claimed.
pub fn open(g: &mut G, n: usize, w: f64) -> Vec<f64> { (0..n).map(|_| { let v = g.u(-w, w); if v.abs() < 1e-3 { v + 0.01 } else { v } }).collect() }
