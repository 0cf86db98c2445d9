//! C06: matrix exponential, discretisation, Lyapunov and Riccati equations against double-double references.
use checks::lin::*;
use checks::util::*;
use checks::{dims, dims2};
use multicalc::discretization::{q_discrete_white_noise, van_loan, zoh};
use multicalc::error::LinalgError as E;
use multicalc::linear_algebra::{solve_discrete_lyapunov, solve_discrete_riccati, Matrix};
use multicalc::Dual;
use vk::mat::M as DM;
use vk::*;

fn bad_entry<const A: usize, const B: usize, T: Fl>(g: &mut G, m: &Matrix<A, B, T>) -> Matrix<A, B, T> { let mut b = *m; let (i, j) = (g.below(A), g.below(B)); b[(i, j)] = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])); b }
/// A matrix with 1-norm about `nrm`, of assorted structure.
fn sysmat<const N: usize, T: Fl>(g: &mut G, nrm: f64) -> Matrix<N, N, T> {
    let k = g.below(6); let m = DM::from_fn(N, N, |i, j| match k { 0 | 1 => g.f(-1.0, 1.0), 2 => if j == i + 1 { 1.0 } else { 0.0 }, 3 => if j >= i { g.f(-1.0, 1.0) } else { 0.0 }, 4 => if i == j { g.f(-1.0, 1.0) } else { 0.0 }, _ => if g.chance(1, 2) { 0.0 } else { g.int(-2, 2) as f64 } });
    let n1 = m.norm1(); if n1 == 0.0 { lib(&m) } else { lib(&m.scale(nrm / n1)) }
}
fn expm<const N: usize, T: Fl>(g: &mut G) -> R {
    let nrm = match g.below(4) { 0 => g.log10(-12.0, -1.0), 1 => 2f64.powi(g.int(-3, 3) as i32), _ => g.u(0.05, if T::IS32 { 5.0 } else { 9.0 }) };
    let a: Matrix<N, N, T> = sysmat(g, nrm); g.note("a", &a); let da = dm(&a); let n1 = da.norm1(); let n = N as f64;
    let e = match a.expm() { Ok(e) => e, Err(er) => bad!("finite matrix of norm {n1:e} rejected: {er:?}") };
    let w = da.expm(); let tol = T::EPS * (30.0 * n * (1.0 + 2.0 * n1)) * n1.exp(); close!(g, max_diff(&dm(&e), &w), 0.0, tol, "expm, norm {n1}");
    let m = match (-a).expm() { Ok(e) => e, Err(er) => bad!("negated matrix rejected: {er:?}") }; close!(g, max_diff(&dm(&(e * m)), &DM::eye(N)), 0.0, tol * n1.exp() * 3.0, "exp(A)exp(-A)");
    let t = a.transpose().expm().unwrap(); close!(g, max_diff(&dm(&t), &w.t()), 0.0, tol, "transpose");
    ensure!(bad_entry(g, &a).expm() == Err(E::NonFinite), "non-finite entry");
    let z = Matrix::<N, N, T>::zeros().expm(); ensure!(z == Ok(Matrix::identity()), "exp(0) = {z:?}");
    g.nontrivial_if(n1 > 0.5 && N > 1); Ok(())
}
fn expm_all(g: &mut G) -> R { dims!(g, expm, f64, 1, 2, 3, 4, 5, 7, 10) }
fn expm_all32(g: &mut G) -> R { dims!(g, expm, f32, 1, 2, 3, 4, 6) }
/// Large norms where the exponential itself stays modest: skew-symmetric, negative definite, nilpotent; overflow is an error.
fn expm_large<const N: usize, T: Fl>(g: &mut G) -> R {
    let n = N as f64; let big = if T::IS32 { 3.0 } else { 6.0 }; let s = g.log10(0.0, big);
    match g.below(4) {
        0 => { let m = DM::from_fn(N, N, |_, _| g.u(-1.0, 1.0)); let k = m.sub(&m.t()); let k1 = k.norm1().max(1e-3); let a: Matrix<N, N, T> = lib(&k.scale(s / k1)); let da = dm(&a); g.note("skew", &a); let e = a.expm(); ensure!(e.is_ok(), "{e:?}"); let e = e.unwrap(); let tol = T::EPS * 40.0 * n * (1.0 + s); if tol < 0.05 { close!(g, max_diff(&dm(&e), &da.expm()), 0.0, tol, "skew exponential"); g.nontrivial_if(N > 1); } }
        1 => { let ev: Vec<f64> = (0..N).map(|_| -s * g.log10(-2.0, 0.0)).collect(); let m = with_eigs(g, &ev); let a: Matrix<N, N, T> = lib(&m); g.note("negdef", &a); let e = a.expm(); ensure!(e.is_ok(), "{e:?}"); let tol = T::EPS * 40.0 * n * n * (1.0 + s); if tol < 0.05 { close!(g, max_diff(&dm(&e.unwrap()), &dm(&a).expm()), 0.0, tol, "negative definite exponential"); g.nontrivial_if(N > 1); } }
        2 => { let mut a = Matrix::<N, N, T>::zeros(); let x = T::c(g.slog10(-30.0, 30.0)); a[(0, N - 1)] = if N > 1 { x } else { T::ZERO }; let e = a.expm(); g.note("nilpotent", &a); ensure!(e.is_ok()); let e = e.unwrap(); for i in 0..N { for j in 0..N { let w = (if i == j { 1.0 } else { 0.0 }) + a[(i, j)].g(); close!(g, e[(i, j)].g(), w, w.abs() * T::EPS * 400.0, "I + A for a nilpotent A"); } } g.nontrivial_if(N > 1); }
        _ => { let mut a = Matrix::<N, N, T>::zeros(); let top = if T::IS32 { 3e38 } else { 1.7e308 }; let v = if g.bool() { top } else { g.log10(3.0, if T::IS32 { 38.0 } else { 308.0 }) }; for i in 0..N { a[(i, i)] = T::c(v); if g.bool() { for j in 0..N { if j != i { a[(i, j)] = T::c(v * g.u(0.0, 1.0)); } } } } g.note("overflow", &a); ensure!(a.expm() == Err(E::NonFinite), "overflowing exponential: {:?}", a.expm()); g.nontrivial(); }
    }
    Ok(())
}
fn expm_large_all(g: &mut G) -> R { dims!(g, expm_large, f64, 1, 2, 3, 4, 6) }
fn expm_large_all32(g: &mut G) -> R { dims!(g, expm_large, f32, 1, 2, 3, 4) }
/// Directional derivative through Dual scalars equals the block-triangular exponential.
fn expm_dual<const N: usize>(g: &mut G) -> R {
    let nrm = g.u(0.05, 4.0); let a: Matrix<N, N, f64> = sysmat(g, nrm); let e: Matrix<N, N, f64> = mgen(g, -1.0, 1.0); g.note("a", &a); g.note("e", &e);
    let d = Matrix::<N, N, Dual<f64>>::from_fn(|i, j| Dual::new(a[(i, j)], e[(i, j)])).expm(); ensure!(d.is_ok()); let d = d.unwrap();
    let blk = DM::from_fn(2 * N, 2 * N, |i, j| if i < N && j < N { a[(i, j)] } else if i < N { e[(i, j - N)] } else if j >= N { a[(i - N, j - N)] } else { 0.0 }).expm();
    let tol = 2e-14 * (N as f64) * nrm.exp() * (1.0 + nrm) * (1.0 + dm(&e).norm1()); for i in 0..N { for j in 0..N { close!(g, d[(i, j)].value, blk.f(i, j), tol, "value"); close!(g, d[(i, j)].deriv, blk.f(i, N + j), tol, "derivative {i},{j}"); } } g.nontrivial_if(N > 1); Ok(())
}
fn expm_dual_all(g: &mut G) -> R { let k = g.below(4); [expm_dual::<1>, expm_dual::<2>, expm_dual::<3>, expm_dual::<5>][k](g) }

fn zoh_law<const N: usize, const M: usize, const NM: usize, T: Fl>(g: &mut G) -> R {
    let dt = g.log10(-4.0, 1.0); let nrm = g.u(0.0, 3.0) / dt; let a: Matrix<N, N, T> = sysmat(g, nrm); let b: Matrix<N, M, T> = mgen(g, -2.0, 2.0); let dt = if g.chance(1, 10) { T::ZERO } else { T::c(dt) }; g.note("a", &a); g.note("b", &b); g.note("dt", &dt);
    let r = zoh::<N, M, NM, T>(a, b, dt); ensure!(r.is_ok(), "{r:?}"); let (f, gm) = r.unwrap();
    let h = dt.g(); let aug = DM::from_fn(NM, NM, |i, j| if i < N && j < N { a[(i, j)].g() } else if i < N { b[(i, j - N)].g() } else { 0.0 }).scale(h); let w = aug.expm(); let n1 = dm(&a).norm1() * h; let sc = T::EPS * 20.0 * NM as f64 * (1.0 + aug.norm1()) * (1.0 + aug.norm1()) * n1.exp();
    for i in 0..N { for j in 0..N { close!(g, f[(i, j)].g(), w.f(i, j), sc, "F {i},{j}"); } for j in 0..M { close!(g, gm[(i, j)].g(), w.f(i, N + j), sc * (h + 0.001).max(aug.norm1().min(1.0)), "G {i},{j}"); } }
    if dt == T::ZERO { ensure!(f == Matrix::identity() && gm == Matrix::zeros(), "zero step"); }
    let half = dt * T::HALF; let (f1, g1) = zoh::<N, M, NM, T>(a, b, half).unwrap(); let ff = f1 * f1; let gg = f1 * g1 + g1; close!(g, max_diff(&dm(&ff), &dm(&f)), 0.0, sc * 4.0, "two half steps, F"); close!(g, max_diff(&dm(&gg), &dm(&gm)), 0.0, sc * 4.0 * (1.0 + aug.norm1()), "two half steps, G");
    let bad = T::c(g.pick(&[-1e-300, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1e-3])); if !(bad == T::ZERO) { ensure!(zoh::<N, M, NM, T>(a, b, bad) == Err(E::InvalidTimestep), "timestep {bad:?}"); }
    if dt > T::ZERO { ensure!(zoh::<N, M, NM, T>(bad_entry(g, &a), b, dt) == Err(E::NonFinite)); ensure!(zoh::<N, M, NM, T>(a, bad_entry(g, &b), dt) == Err(E::NonFinite)); }
    g.nontrivial_if(dt > T::ZERO && N > 1); Ok(())
}
fn zoh_all(g: &mut G) -> R { let k = g.below(6); [zoh_law::<1, 1, 2, f64>, zoh_law::<2, 1, 3, f64>, zoh_law::<3, 2, 5, f64>, zoh_law::<4, 1, 5, f64>, zoh_law::<2, 3, 5, f64>, zoh_law::<3, 1, 4, f32>][k](g) }

/// Reference process noise by the vectorised linear ODE q' = (A (x) I + I (x) A) q + vec(Qc).
fn qd_ref(a: &DM, qc: &DM, h: f64) -> DM {
    let n = a.r; let m = n * n + 1; let mut l = DM::zeros(m, m);
    for i in 0..n { for j in 0..n { let row = i * n + j; for k in 0..n { let v = l.at(row, k * n + j) + a.at(i, k); l.set(row, k * n + j, v); let v = l.at(row, i * n + k) + a.at(j, k); l.set(row, i * n + k, v); } l.set(row, m - 1, qc.at(i, j)); } }
    let e = l.scale(h).expm(); DM::from_fn(n, n, |i, j| e.f(i * n + j, m - 1))
}
fn vl<const N: usize, const N2: usize, T: Fl>(g: &mut G) -> R {
    let dt = g.log10(-3.0, 0.7); let nrm = g.u(0.0, 2.0) / dt; let a: Matrix<N, N, T> = sysmat(g, nrm); let rank = g.size(1, N); let rt = DM::from_fn(N, N, |_, j| if j < rank { g.f(-1.0, 1.0) } else { 0.0 }); let qc: Matrix<N, N, T> = lib::<N, N, T>(&rt.mul(&rt.t())).symmetrized(); let dt = if g.chance(1, 12) { T::ZERO } else { T::c(dt) }; g.note("a", &a); g.note("qc", &qc); g.note("dt", &dt);
    let r = van_loan::<N, N2, T>(a, qc, dt); ensure!(r.is_ok(), "{r:?}"); let (f, qd) = r.unwrap(); let h = dt.g(); let da = dm(&a); let n1 = (da.norm1().max(da.t().norm1())) * h;
    let q1 = dm(&qc).norm1(); let sc = T::EPS * 40.0 * N2 as f64 * (1.0 + n1 + h * q1) * (2.0 * n1).exp() * (1.0 + h * q1);
    close!(g, max_diff(&dm(&f), &da.scale(h).expm()), 0.0, sc, "F"); let w = qd_ref(&da, &dm(&qc), h); close!(g, max_diff(&dm(&qd), &w), 0.0, sc * n1.exp(), "discrete noise");
    close!(g, max_diff(&dm(&qd), &dm(&qd).t()), 0.0, sc * n1.exp(), "symmetric"); let low = dm(&qd.symmetrized()).sym_eigs()[0]; ensure!(low >= -sc * n1.exp() * N as f64, "discrete noise has eigenvalue {low:e}");
    if dt == T::ZERO { ensure!(f == Matrix::identity() && qd == Matrix::zeros(), "zero step"); }
    let (f1, q1_) = van_loan::<N, N2, T>(a, qc, dt * T::HALF).unwrap(); close!(g, max_diff(&dm(&(f1 * q1_ * f1.transpose() + q1_)), &dm(&qd)), 0.0, sc * 8.0 * (2.0 * n1).exp(), "two half steps");
    let bad = T::c(g.pick(&[-1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1e-3])); ensure!(van_loan::<N, N2, T>(a, qc, bad) == Err(E::InvalidTimestep)); if dt > T::ZERO { ensure!(van_loan::<N, N2, T>(bad_entry(g, &a), qc, dt) == Err(E::NonFinite)); ensure!(van_loan::<N, N2, T>(a, bad_entry(g, &qc), dt) == Err(E::NonFinite)); }
    g.nontrivial_if(dt > T::ZERO && N > 1); Ok(())
}
fn vl_all(g: &mut G) -> R { let k = g.below(5); [vl::<1, 2, f64>, vl::<2, 4, f64>, vl::<3, 6, f64>, vl::<4, 8, f64>, vl::<2, 4, f32>][k](g) }
fn white<T: Fl>(g: &mut G) -> R {
    let (dt, va) = (T::c(g.log10(-3.0, 1.0)), T::c(g.log10(-3.0, 3.0))); g.note("dt", &dt); g.note("variance", &va); let h = dt.g();
    fn chk<const D: usize, T: Fl>(g: &mut G, dt: T, va: T, w: [f64; D]) -> R { let q = q_discrete_white_noise::<D, T>(dt, va); for i in 0..D { for j in 0..D { let e = w[i] * w[j] * va.g(); close!(g, q[(i, j)].g(), e, e.abs() * T::EPS * 12.0, "dim {D} entry {i},{j}"); ensure!(q[(i, j)] == q[(j, i)]); } } Ok(()) }
    chk::<2, T>(g, dt, va, [h * h / 2.0, h])?; chk::<3, T>(g, dt, va, [h * h / 2.0, h, 1.0])?; chk::<4, T>(g, dt, va, [h * h * h / 6.0, h * h / 2.0, h, 1.0])?; g.nontrivial(); Ok(())
}

/// V diag-block V^-1 with spectral radius rho, V a mild shear of an orthogonal matrix. Returns the matrix.
fn radius(g: &mut G, n: usize, rho: f64) -> DM {
    let mut t = DM::zeros(n, n); let mut i = 0; let mut first = true;
    while i < n { let r = if first { rho } else { rho * g.unit() }; first = false; if i + 1 < n && g.bool() { let th = g.u(0.0, 3.14159); t.set(i, i, (r * th.cos()).into()); t.set(i + 1, i + 1, (r * th.cos()).into()); t.set(i, i + 1, (r * th.sin()).into()); t.set(i + 1, i, (-r * th.sin()).into()); i += 2; } else { t.set(i, i, (r * g.sign()).into()); i += 1; } }
    let ns = if g.bool() { g.u(0.0, 1.0) } else { 0.0 }; let mut k = 0; while k < n { for j in k + 1..n { if t.f(j, k) == 0.0 && t.f(k, j) == 0.0 && (j > k + 1 || t.f(k + 1, k) == 0.0) && (j + 1 >= n || t.f(j + 1, j) == 0.0) && t.f(j, j - 1) == 0.0 { t.set(k, j, (ns * g.u(-1.0, 1.0)).into()); } } k += 1; }
    let q = orth(g, n); q.mul(&t).mul(&q.t())
}
fn lyap<const N: usize, T: Fl>(g: &mut G) -> R {
    let unstable = g.chance(1, 4); let rho = if unstable { g.u(1.02, 3.0) } else if g.bool() { g.u(0.0, 0.95) } else { 1.0 - g.log10(-3.0, 0.0) };
    let m = radius(g, N, rho); let a: Matrix<N, N, T> = lib(&m); let qm = DM::from_fn(N, N, |_, _| g.f(-1.5, 1.5)); let psd = unstable || g.bool(); let qs = g.log10(-1.0, 2.0); let q: Matrix<N, N, T> = lib::<N, N, T>(&(if psd { qm.mul(&qm.t()).add(&DM::eye(N).scale(0.1)) } else { qm.add(&qm.t()) }).scale(qs)).symmetrized(); g.note("a", &a); g.note("q", &q); g.note("rho", &rho);
    let r = solve_discrete_lyapunov(a, q);
    ensure!(solve_discrete_lyapunov(bad_entry(g, &a), q) == Err(E::NonFinite) && solve_discrete_lyapunov(a, bad_entry(g, &q)) == Err(E::NonFinite), "non-finite input");
    if N > 1 { let mut ns = q; ns[(0, N - 1)] = ns[(0, N - 1)] * T::c(1.5) + T::c(1.0); if !ns.is_symmetric() { ensure!(solve_discrete_lyapunov(a, ns) == Err(E::NotSymmetric)); } }
    if unstable { ensure!(matches!(r, Err(E::DidNotConverge { .. })), "radius {rho} gave {r:?}"); g.label("unstable"); return Ok(()); }
    ensure!(r.is_ok(), "radius {rho}: {r:?}"); let p = r.unwrap(); ensure!(p == p.transpose(), "symmetric");
    let (da, dq) = (dm(&a), dm(&q)); // exact solution: (I - At (x) At) vec P = vec Q
    let n2 = N * N; let k = DM::from_fn(n2, n2, |r, c| { let (i, j, k, l) = (r / N, r % N, c / N, c % N); (if r == c { 1.0 } else { 0.0 }) - 0.0 * (i + j + k + l) as f64 }); let mut k = k; for r in 0..n2 { for c in 0..n2 { let (i, j, kk, l) = (r / N, r % N, c / N, c % N); let v = k.at(r, c) - da.at(kk, i) * da.at(l, j); k.set(r, c, v); } }
    let rhs = DM { r: n2, c: 1, d: dq.d.clone() }; let Some(w) = k.solve(&rhs) else { discard!() }; let Some((kc, _)) = cond(&k) else { discard!() };
    let sol = DM { r: N, c: N, d: w.d }; let sc = sol.max_abs().max(1.0); let dp = dm(&p); let tol = T::EPS * 2000.0 * n2 as f64 * kc * sc; if tol < 0.02 * sc { close!(g, max_diff(&dp, &sol), 0.0, tol, "solution"); g.nontrivial_if(N > 1); }
    if psd { let low = dp.sym_eigs()[0]; ensure!(low > -tol, "positive definite cost gave eigenvalue {low:e}"); }
    Ok(())
}
fn lyap_all(g: &mut G) -> R { dims!(g, lyap, f64, 1, 2, 3, 4, 6) }
fn lyap_all32(g: &mut G) -> R { dims!(g, lyap, f32, 1, 2, 3) }

fn ricc<const N: usize, const M: usize, T: Fl>(g: &mut G) -> R {
    let rho = g.u(0.1, 1.6); let am = radius(g, N, rho); let a: Matrix<N, N, T> = lib(&am); let b: Matrix<N, M, T> = mgen(g, -1.5, 1.5); let qm = DM::from_fn(N, N, |_, _| g.f(-1.0, 1.0)); let q: Matrix<N, N, T> = lib::<N, N, T>(&qm.mul(&qm.t()).add(&DM::eye(N).scale(0.05))).symmetrized(); let rm = DM::from_fn(M, M, |_, _| g.f(-1.0, 1.0)); let r: Matrix<M, M, T> = lib::<M, M, T>(&rm.mul(&rm.t()).add(&DM::eye(M).scale(0.2))).symmetrized();
    g.note("a", &a); g.note("b", &b); g.note("q", &q); g.note("r", &r); let (da, db, dq, dr) = (dm(&a), dm(&b), dm(&q), dm(&r));
    ensure!(solve_discrete_riccati(bad_entry(g, &a), b, q, r) == Err(E::NonFinite) && solve_discrete_riccati(a, bad_entry(g, &b), q, r) == Err(E::NonFinite) && solve_discrete_riccati(a, b, bad_entry(g, &q), r) == Err(E::NonFinite) && solve_discrete_riccati(a, b, q, bad_entry(g, &r)) == Err(E::NonFinite), "non-finite input");
    if N > 1 { let mut x = q; x[(0, 1)] = x[(0, 1)] + T::c(3.0); ensure!(solve_discrete_riccati(a, b, x, r) == Err(E::NotSymmetric)); } if M > 1 { let mut x = r; x[(1, 0)] = x[(1, 0)] + T::c(3.0); ensure!(solve_discrete_riccati(a, b, q, x) == Err(E::NotSymmetric)); }
    let mut ri = r; let i = g.below(M); ri[(i, i)] = T::c(-g.u(0.0, 2.0)); ensure!(solve_discrete_riccati(a, b, q, ri) == Err(E::NotPositiveDefinite), "indefinite input cost");
    // reference: value iteration from zero in double-double
    let step = |p: &DM| -> Option<DM> { let s = dr.add(&db.t().mul(p).mul(&db)); let c = db.t().mul(p).mul(&da); let k = s.solve(&c)?; let n = da.t().mul(p).mul(&da).sub(&c.t().mul(&k)).add(&dq); Some(n.add(&n.t()).scale(0.5)) };
    let mut p = DM::zeros(N, N); let mut ok = false; for _ in 0..400 { let Some(n) = step(&p) else { discard!() }; let d = max_diff(&n, &p); p = n; if p.max_abs() > if T::IS32 { 60.0 } else { 1e4 } { break; } if d < 1e-20 * p.max_abs() { ok = true; break; } }
    let res = solve_discrete_riccati(a, b, q, r);
    if !ok { match res { Ok(x) => { let dx = dm(&x); let n = step(&dx).unwrap(); // the solver judges its residual at its own precision, which loses what cancels in B'PB and B'PA
            let s = dr.add(&db.t().mul(&dx).mul(&db)); let Some(k) = s.solve(&db.t().mul(&dx).mul(&da)) else { discard!() }; let u = T::EPS * 20.0 * N as f64 * dx.frob() * db.frob(); let slack = 2.0 * k.frob() * u * da.frob() + k.frob().powi(2) * u * db.frob();
            ensure!(max_diff(&n, &dx) <= T::EPS.sqrt() * 2.0 * dx.frob().max(1.0) + slack, "reported solution does not satisfy the equation"); } Err(e) => ensure!(matches!(e, E::DidNotConverge { .. } | E::Singular | E::IllConditioned | E::NotPositiveDefinite), "{e:?}") } g.label("hard"); return Ok(()); }
    ensure!(res.is_ok(), "reference converged (cost {:e}) but the solver said {res:?}", p.max_abs()); let x = res.unwrap(); ensure!(x == x.transpose(), "symmetric"); let dx = dm(&x);
    // closed loop contracts
    let s = dr.add(&db.t().mul(&dx).mul(&db)); let kk = s.solve(&db.t().mul(&dx).mul(&da)).unwrap(); let mut cl = da.sub(&db.mul(&kk)); let nc = cl.norm1(); let mut sum = 1.0; let mut pw = cl.clone(); for _ in 0..200 { sum += pw.norm1().powi(2); pw = pw.mul(&cl); } for _ in 0..12 { cl = cl.mul(&cl); } ensure!(cl.max_abs() < 1e-3, "closed loop of the solution does not contract: {:e}", cl.max_abs());
    let sc = p.max_abs().max(1.0); let tol = T::EPS * 4000.0 * (N * N) as f64 * sc * sum * (1.0 + nc) * sc; close!(g, max_diff(&dx, &p), 0.0, tol.min(1e-3 * sc), "solution"); let low = dx.sym_eigs()[0]; ensure!(low > -tol, "eigenvalue {low:e}"); g.nontrivial_if(N > 1); Ok(())
}
fn ricc_all(g: &mut G) -> R { dims2!(g, ricc, f64, (1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (4, 2), (6, 2)) }
fn ricc_all32(g: &mut G) -> R { dims2!(g, ricc, f32, (1, 1), (2, 1), (2, 2)) }
/// An unreachable unstable mode has no stabilising solution.
fn unreachable(g: &mut G) -> R {
    let mut a: Matrix<3, 3> = mgen(g, -0.6, 0.6); let b0: [f64; 2] = g.arr(-1.0, 1.0); a[(2, 0)] = 0.0; a[(2, 1)] = 0.0; a[(2, 2)] = g.sign() * g.u(1.05, 2.0); let b = Matrix::<3, 1>::new([[b0[0]], [b0[1]], [0.0]]); g.note("a", &a); g.note("b", &b);
    let r = solve_discrete_riccati(a, b, Matrix::identity(), Matrix::<1, 1>::identity()); ensure!(r.is_err(), "an unreachable unstable mode has no steady cost, got {r:?}"); g.nontrivial(); Ok(())
}
fn main() {
    run("C06", &["references: double-double Taylor scaling-and-squaring, Kronecker linear systems, double-double value iteration", "Lyapunov and Riccati tolerances are absolute at unit cost scale, as the solvers' stopping rules are"], &[
        law!("expm", 30_000, expm_all, "norm above 1/2, size above 1"), law!("expm_f32", 15_000, expm_all32, "norm above 1/2, size above 1"), law!("expm_large", 12_000, expm_large_all, "size above 1"), law!("expm_large_f32", 8_000, expm_large_all32, "size above 1"), law!("expm_dual", 12_000, expm_dual_all, "size above 1"),
        law!("zoh", 25_000, zoh_all, "positive step, size above 1"), law!("van_loan", 6_000, vl_all, "positive step, size above 1"), law!("white_noise", 10_000, white::<f64>, "all"), law!("white_noise_f32", 5_000, white::<f32>, "all"),
        law!("lyapunov", 20_000, lyap_all, "stable, size above 1"), law!("lyapunov_f32", 10_000, lyap_all32, "stable, size above 1"), law!("riccati", 6_000, ricc_all, "value iteration converged, size above 1"), law!("riccati_f32", 3_000, ricc_all32, "value iteration converged, size above 1"), law!("unreachable", 5_000, unreachable, "all"),
    ]);
}
