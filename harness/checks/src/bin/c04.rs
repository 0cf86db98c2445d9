//! C04: LU, Cholesky, pivoted QR, SVD, symmetric eigendecomposition.
use checks::lin::*;
use checks::util::*;
use checks::{dims, dims2};
use multicalc::error::LinalgError as E;
use multicalc::linear_algebra::{Matrix, PivotedQr, Vector};
use vk::dd::DD;
use vk::mat::M as DM;
use vk::*;

fn abs(m: &DM) -> DM { DM::from_fn(m.r, m.c, |i, j| m.f(i, j).abs()) }
fn is_perm(p: &[usize]) -> bool { let mut s = p.to_vec(); s.sort_unstable(); s.iter().enumerate().all(|(i, &v)| i == v) }
fn kmax<T: Fl>() -> f64 { if T::IS32 { 2e3 } else { 1e9 } }
fn orthonormal(g: &mut G, q: &DM, cols: usize, tol: f64, what: &str) -> R { let p = q.t().mul(q); for i in 0..cols { for j in 0..cols { close!(g, p.f(i, j), if i == j { 1.0 } else { 0.0 }, tol, "{what} column {i}.{j}"); } } Ok(()) }

fn lu<const N: usize, T: Fl>(g: &mut G) -> R {
    let a: Matrix<N, N, T> = any_mat(g); let b: Vector<N, T> = vgen(g, -3.0, 3.0); g.note("a", &a); g.note("b", &b);
    let (da, db) = (dm(&a), dv(&b)); let amax = da.max_abs(); let n = N as f64;
    let zero_line = (0..N).any(|i| (0..N).all(|j| a[(i, j)] == T::ZERO) || (0..N).all(|j| a[(j, i)] == T::ZERO));
    let det = da.det().f(); let lim = kmax::<T>();
    let f = match a.lu_decompose() {
        Ok(f) => { ensure!(!zero_line, "a matrix with a zero row or column factorised"); f }
        Err(e) => {
            ensure!(matches!(e, E::Singular | E::IllConditioned), "{e:?}"); if zero_line { ensure!(e == E::Singular, "zero line gave {e:?}"); }
            if let Some((k, _)) = cond(&da) { ensure!(k > lim, "condition {k:e} rejected with {e:?}"); }
            ensure!(a.solve(b) == Err(e)); g.label("rejected"); return Ok(());
        }
    };
    let (l, u, p) = (f.lower(), f.upper(), f.permutation()); ensure!(is_perm(&p), "permutation {p:?}");
    for i in 0..N { for j in 0..N { if j > i { ensure!(l[(i, j)] == T::ZERO); } if i == j { ensure!(l[(i, i)] == T::ONE); } if j < i { ensure!(u[(i, j)] == T::ZERO); ensure!(l[(i, j)].abs() <= T::ONE, "multiplier above one at {i},{j}"); } } }
    let (dl, du) = (dm(&l), dm(&u)); let pr = dl.mul(&du); let gr = abs(&dl).mul(&abs(&du));
    for i in 0..N { for j in 0..N { close!(g, pr.f(i, j), da.f(p[i], j), T::EPS * (2.0 * n * gr.f(i, j)) + 1e-300, "LU product {i},{j}"); } }
    // backward error of the determinant: |E| <= n eps |L||U|; compare through the product of pivots in exact arithmetic of U and the sign of P
    let mut sg = DD::ONE; for i in 0..N { for j in i + 1..N { if p[i] > p[j] { sg = -sg; } } } let mut du_ = sg; for i in 0..N { du_ = du_ * du.at(i, i); }
    if du_.f().is_finite() && du_.f().abs() > 1e-250 && du_.f().abs() < 1e250 && (!T::IS32 || (du_.f().abs() > 1e-35 && du_.f().abs() < 1e35)) {
        close!(g, f.determinant().g(), du_.f(), T::EPS * 4.0 * n * du_.f().abs(), "lu determinant");
    }
    let x = f.solve(b); let Some((k, inv)) = cond(&da) else { return Ok(()) }; if k > lim { return Ok(()); }
    let tol_of = |x: &DM| { let g_ = gr.mul(&abs(x)); g_.max_abs() * T::EPS * 6.0 * n };
    let dx = dv(&x); let r = da.mul(&dx).sub(&db); close!(g, r.max_abs(), 0.0, tol_of(&dx) + 1e-300, "solve residual");
    let x2 = a.solve(b).unwrap(); ensure!(x2 == x, "Matrix::solve");
    let bm: Matrix<N, 3, T> = mgen(g, -2.0, 2.0); let xm = f.solve_matrix(bm); let dxm = dm(&xm); close!(g, da.mul(&dxm).sub(&dm(&bm)).max_abs(), 0.0, tol_of(&dxm) + 1e-300, "solve_matrix residual");
    let iv = dm(&f.inverse()); close!(g, da.mul(&iv).sub(&DM::eye(N)).max_abs(), 0.0, tol_of(&iv), "inverse residual");
    if det != 0.0 && det.abs() < 1e200 && det.abs() > 1e-200 && (!T::IS32 || (det.abs() > 1e-34 && det.abs() < 1e34)) { let t = T::EPS * 8.0 * n * (gr.max_abs() / amax) * k * n; close!(g, f.determinant().g() / det, 1.0, t, "determinant"); }
    close!(g, iv.sub(&inv).max_abs() / inv.max_abs(), 0.0, T::EPS * 8.0 * n * n * k * (gr.max_abs() / amax), "inverse");
    g.nontrivial_if(N > 1 && p.iter().enumerate().any(|(i, &v)| i != v)); g.label_if(amax < 1e-3 || amax > 1e3, "scaled"); Ok(())
}
fn lu_all(g: &mut G) -> R { dims!(g, lu, f64, 1, 2, 3, 4, 5, 6, 8, 12) }
fn lu_all32(g: &mut G) -> R { dims!(g, lu, f32, 1, 2, 3, 4, 5, 6) }

fn chol<const N: usize, T: Fl>(g: &mut G) -> R {
    let (lc, sc) = if T::IS32 { (3.0, 6.0) } else { (9.0, 60.0) }; let mut ev = sv_list(g, N, lc, sc); let kind = g.below(4); let neg = kind == 0;
    if neg { let i = g.below(N); let s = ev[0]; ev[i] = -s * g.log10(-2.0, 0.0); }
    let m = with_eigs(g, &ev); let a: Matrix<N, N, T> = lib(&m); g.note("a", &a); g.note("eigenvalues", &ev);
    if neg { ensure!(matches!(a.cholesky(), Err(E::NotPositiveDefinite)), "indefinite accepted"); g.label("indefinite"); return Ok(()); }
    if kind == 1 { let mut bad = a; let (i, j) = (g.below(N), g.below(N)); let (i, j) = (i.max(j), i.min(j)); bad[(i, j)] = T::NAN; ensure!(matches!(bad.cholesky(), Err(E::NotPositiveDefinite)), "NaN accepted"); let mut z = a; let i = g.below(N); for j in 0..N { z[(i, j)] = T::ZERO; z[(j, i)] = T::ZERO; } ensure!(matches!(z.cholesky(), Err(E::NotPositiveDefinite)), "zero row accepted"); return Ok(()); }
    let da = dm(&a); let s = da.max_abs(); let n = N as f64;
    let f = match a.cholesky() { Ok(f) => f, Err(e) => bad!("positive definite rejected: {e:?}") }; let l = f.lower();
    for i in 0..N { ensure!(l[(i, i)] > T::ZERO); for j in i + 1..N { ensure!(l[(i, j)] == T::ZERO); } }
    let dl = dm(&l); close!(g, dl.mul(&dl.t()).sub(&da).max_abs(), 0.0, T::EPS * s * 3.0 * (n + 1.0), "L Lt");
    let mut junk = a; for i in 0..N { for j in i + 1..N { junk[(i, j)] = T::c(g.f(-9.0, 9.0)); } } ensure!(junk.cholesky().unwrap().lower() == l, "upper triangle read");
    let det = da.det().f(); let Some((k, inv)) = cond(&da) else { return Ok(()) };
    if det.abs() < 1e200 && det.abs() > 1e-200 && (!T::IS32 || (det > 1e-34 && det < 1e34)) { close!(g, f.determinant().g() / det, 1.0, T::EPS * 8.0 * n * n * k, "determinant"); }
    let b: Vector<N, T> = vgen(g, -3.0, 3.0); let x = f.solve(b); let dx = dv(&x); let w = abs(&dl).mul(&abs(&dl.t())).mul(&abs(&dx)).max_abs();
    close!(g, da.mul(&dx).sub(&dv(&b)).max_abs(), 0.0, T::EPS * 6.0 * n * w + 1e-300, "solve residual");
    let bm: Matrix<N, 2, T> = mgen(g, -2.0, 2.0); let dxm = dm(&f.solve_matrix(bm)); let w = abs(&dl).mul(&abs(&dl.t())).mul(&abs(&dxm)).max_abs(); close!(g, da.mul(&dxm).sub(&dm(&bm)).max_abs(), 0.0, T::EPS * 6.0 * n * w + 1e-300, "solve_matrix residual");
    close!(g, dm(&f.inverse()).sub(&inv).max_abs() / inv.max_abs(), 0.0, T::EPS * 10.0 * n * n * k, "inverse");
    g.nontrivial_if(N > 1); g.label_if(k > 1e5, "condition above 1e5"); Ok(())
}
fn chol_all(g: &mut G) -> R { dims!(g, chol, f64, 1, 2, 3, 4, 5, 6, 9, 13) }
fn chol_all32(g: &mut G) -> R { dims!(g, chol, f32, 1, 2, 3, 4, 6) }

fn ls_solve(a: &DM, b: &DM, d: &[f64]) -> Option<DM> { let mut n = a.t().mul(a); for i in 0..n.r { let v = n.at(i, i) + DD::new(d[i]) * DD::new(d[i]); n.set(i, i, v); } n.solve(&a.t().mul(b)) }
fn qr<const M: usize, const N: usize, T: Fl>(g: &mut G) -> R {
    let mut a: Matrix<M, N, T> = any_mat(g); let def = g.chance(1, 5); if def { let j = g.below(N); if g.bool() && N > 1 { let s = (j + 1) % N; for i in 0..M { a[(i, j)] = a[(i, s)]; } } else { for i in 0..M { a[(i, j)] = T::ZERO; } } }
    let b: Vector<M, T> = vgen(g, -3.0, 3.0); g.note("a", &a); g.note("b", &b);
    let (da, db) = (dm(&a), dv(&b)); let s = da.frob(); let n = (M * N) as f64;
    let f = match PivotedQr::decompose(a) { Ok(f) => f, Err(e) => bad!("decompose: {e:?}") };
    let (q, r, p) = (f.orthogonal(), f.triangular(), f.permutation()); ensure!(is_perm(&p));
    let (dq, dr) = (dm(&q), dm(&r)); orthonormal(g, &dq, N, T::EPS * 12.0 * n.max(4.0), "Q")?;
    for i in 0..N { for j in 0..i { ensure!(r[(i, j)] == T::ZERO); } if i > 0 { ensure!(dr.f(i, i).abs() <= dr.f(i - 1, i - 1).abs() * (1.0 + if T::IS32 { 5e-2 } else { 1e-3 }) + T::EPS * s * 10.0, "diagonal of R grows at {i}"); } }
    let ap = DM::from_fn(M, N, |i, j| da.f(i, p[j])); close!(g, dq.mul(&dr).sub(&ap).max_abs(), 0.0, T::EPS * s * 12.0 * n.max(4.0) + 1e-300, "QR product");
    let mut diag: [T; N] = core::array::from_fn(|_| T::ZERO); if g.bool() { for d in diag.iter_mut() { *d = T::c(g.f(0.0, 2.0) * s); } }
    let full_n = da.t().mul(&da); let kk = cond(&full_n).map(|c| c.0.sqrt()).unwrap_or(f64::INFINITY);
    let damped = f.into_damped(b); let zero_col = (0..N).any(|j| (0..M).all(|i| a[(i, j)] == T::ZERO));
    match f.solve_least_squares(b) {
        Ok(x) => {
            ensure!(!zero_col, "zero column solved"); let dx = dv(&x);
            if kk < if T::IS32 { 3e2 } else { 1e6 } {
                let w = ls_solve(&da, &db, &[0.0; N]).unwrap(); let res = da.mul(&w).sub(&db).frob();
                let tol = T::EPS * 20.0 * n.max(4.0) * (kk * w.frob() + kk * kk * res / s + kk * db.frob() / s); close!(g, dx.sub(&w).frob(), 0.0, tol, "least squares (cond {kk:e})"); g.nontrivial_if(M > N || N > 1); g.label_if(M > N, "tall");
                close!(g, damped.a_x_norm(&x).g(), da.mul(&dx).frob(), T::EPS * 20.0 * n.max(4.0) * s * dx.frob() + 1e-300, "a_x_norm");
                ensure!(damped.is_non_singular(), "is_non_singular");
            }
        }
        Err(e) => { ensure!(e == E::Singular && kk > if T::IS32 { 1e5 } else { 1e12 }, "condition {kk:e}: {e:?}"); g.label("rank deficient"); if zero_col { ensure!(!damped.is_non_singular(), "zero column called non-singular"); } }
    }
    // damped problem: (AtA + D^2) x = At b
    let dd: Vec<f64> = diag.iter().map(|d| d.g()).collect(); let mut nm = full_n.clone(); for i in 0..N { let v = nm.at(i, i) + DD::new(dd[i]) * DD::new(dd[i]); nm.set(i, i, v); }
    if let Some((kn, ninv)) = cond(&nm) { let kd = kn.sqrt(); if kd < if T::IS32 { 3e2 } else { 1e6 } {
        let w = nm.solve(&da.t().mul(&db)).unwrap(); let (x, fac) = damped.solve_with_diagonal(&diag); let res = da.mul(&w).sub(&db).frob() + dd.iter().enumerate().map(|(i, d)| d * w.f(i, 0).abs()).sum::<f64>(); let sn = s + dd.iter().sum::<f64>();
        let tol = T::EPS * 30.0 * n.max(4.0) * (kd * w.frob() + kd * kd * res / sn + kd * db.frob() / sn); close!(g, dv(&x).sub(&w).frob(), 0.0, tol, "damped solution");
        if dd.iter().all(|&d| d == 0.0) { let (x0, _) = damped.solve_with_zero_diagonal(); ensure!(x0 == x, "zero diagonal"); }
        let rhs: [T; N] = core::array::from_fn(|_| T::c(g.f(-2.0, 2.0))); let y = fac.solve(rhs); let y2: f64 = y.iter().map(|v| v.g() * v.g()).sum();
        // internal order: rhs entry j belongs to variable permutation[j]
        let mut rp = DM::zeros(N, 1); for j in 0..N { rp.set(p[j], 0, DD::new(rhs[j].g())); } let q2 = rp.t().mul(&ninv).mul(&rp).f(0, 0);
        close!(g, y2 / q2.max(1e-300), if q2 > 0.0 { 1.0 } else { 0.0 }, T::EPS * 40.0 * n.max(4.0) * kd, "factor solve");
        g.label_if(dd.iter().any(|&d| d != 0.0), "damped");
    } }
    let bn = db.frob(); if bn > 0.0 { let mut w = 0.0f64; let atb = da.t().mul(&db); for j in 0..N { let cn = (0..M).map(|i| da.f(i, j).powi(2)).sum::<f64>().sqrt(); if cn > 0.0 { w = w.max((atb.f(j, 0) / cn / bn).abs()); } } let colmin = (0..N).map(|j| (0..M).map(|i| da.f(i, j).powi(2)).sum::<f64>().sqrt()).filter(|&c| c > 0.0).fold(f64::INFINITY, f64::min);
        if colmin.is_finite() { close!(g, damped.max_a_t_b_scaled(T::c(bn)).g(), w, T::EPS * 20.0 * n.max(4.0) * (s / colmin), "max_a_t_b_scaled"); } }
    ensure!(damped.max_a_t_b_scaled(T::ZERO) == T::ZERO);
    Ok(())
}
fn qr_all(g: &mut G) -> R { dims2!(g, qr, f64, (1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (5, 3), (4, 4), (6, 4), (8, 5), (6, 6), (9, 9), (12, 3)) }
fn qr_all32(g: &mut G) -> R { dims2!(g, qr, f32, (1, 1), (2, 2), (3, 2), (3, 3), (5, 3), (4, 4), (6, 4)) }

fn svd<const M: usize, const N: usize, T: Fl>(g: &mut G) -> R {
    let kind = g.below(4); let mut rank = N;
    let a: Matrix<M, N, T> = match kind { 0 if N > 1 => { rank = g.size(1, N - 1); let (mut u, mut v) = (vec![], vec![]); for _ in 0..M * rank { u.push(g.int(-3, 3) as f64); } for _ in 0..N * rank { v.push(g.int(-3, 3) as f64); } Matrix::from_fn(|i, j| T::c((0..rank).map(|k| u[i * rank + k] * v[j * rank + k]).sum())) } _ => any_mat(g) };
    g.note("a", &a); let da = dm(&a); let s = da.frob(); let n = (M * N) as f64;
    let f = match a.svd() { Ok(f) => f, Err(e) => bad!("svd: {e:?}") }; let (u, sv, v) = (f.left(), f.singular_values(), f.right()); let (du, dvv) = (dm(&u), dm(&v));
    let mut ev = da.t().mul(&da).sym_eigs(); ev.reverse(); let want: Vec<f64> = ev.iter().map(|e| e.max(0.0).sqrt()).collect();
    for k in 0..N { ensure!(sv[k] >= T::ZERO); if k > 0 { ensure!(sv[k] <= sv[k - 1], "descending"); } close!(g, sv[k].g(), want[k], T::EPS * s * 10.0 * n.max(4.0) + 1e-14 * s * (1.0 - (T::IS32 as u8 as f64)), "singular value {k}"); }
    orthonormal(g, &dvv, N, T::EPS * 20.0 * n.max(4.0), "V")?;
    let r = N; orthonormal(g, &du, r, T::EPS * 20.0 * n.max(4.0), "U")?;
    let d = Matrix::<N, N, T>::from_diagonal(sv.into_array()); close!(g, du.mul(&dm(&d)).mul(&dvv.t()).sub(&da).max_abs(), 0.0, T::EPS * s * 12.0 * n.max(4.0) + 1e-300, "U S Vt");
    let t = g.f(0.0, 1.2) * sv[0].g(); let tt = T::c(t); ensure!(f.rank(tt) == (0..N).filter(|&k| sv[k] > tt).count(), "rank");
    let cn = f.condition_number().g(); if sv[N - 1] == T::ZERO { ensure!(cn == f64::INFINITY); } else { close!(g, cn, sv[0].g() / sv[N - 1].g(), cn * T::EPS * 2.0, "condition number"); }
    if sv[0] == T::ZERO { return Ok(()); }
    // pseudo-inverse: Penrose conditions with a cutoff in a clear gap
    let cut = sv[0].g() * if T::IS32 { 1e-4 } else { 1e-9 }; let gap = (0..N).all(|k| want[k] > cut * 10.0 || want[k] < cut * 0.03);
    if gap {
        let rk = want.iter().filter(|&&w| w > cut).count(); if kind == 0 && N > 1 { ensure!(rk <= rank); } ensure!(f.rank(T::c(cut)) == rk, "rank {rk}");
        let k = want[0] / want[rk - 1]; let full = rk == N && k < if T::IS32 { 3e2 } else { 1e6 };
        if k < if T::IS32 { 3e2 } else { 1e6 } {
            let pi = if full { f.pseudo_inverse() } else { f.pseudo_inverse_tol(T::c(cut)) }; let dp = dm(&pi); let pm = 1.0 / want[rk - 1];
            let tol = T::EPS * 30.0 * n.max(4.0) * k; let ap = da.mul(&dp); let pa = dp.mul(&da);
            close!(g, ap.mul(&da).sub(&da).max_abs() / s, 0.0, tol, "A P A"); close!(g, pa.mul(&dp).sub(&dp).max_abs() / pm, 0.0, tol * k, "P A P"); close!(g, ap.sub(&ap.t()).max_abs(), 0.0, tol * k, "A P symmetric"); close!(g, pa.sub(&pa.t()).max_abs(), 0.0, tol * k, "P A symmetric");
            if full { let b: Vector<M, T> = vgen(g, -2.0, 2.0); close!(g, dv(&f.solve(b)).sub(&dp.mul(&dv(&b))).max_abs() * want[rk - 1], 0.0, tol * 4.0, "solve"); ensure!(a.pseudo_inverse().unwrap() == f.pseudo_inverse(), "Matrix::pseudo_inverse"); let w = a.transpose().pseudo_inverse().unwrap(); close!(g, dm(&w).t().sub(&dp).max_abs() / pm, 0.0, tol * k, "wide pseudo-inverse"); g.nontrivial_if(N > 1); }
            g.label_if(!full, "rank deficient"); g.label_if(M > N, "tall");
        }
    }
    if M > N { ensure!(matches!(a.transpose().svd(), Err(E::Underdetermined))); }
    let mut bad = a; let (i, j) = (g.below(M), g.below(N)); bad[(i, j)] = if g.bool() { T::NAN } else { T::INFINITY }; ensure!(matches!(bad.svd(), Err(E::NonFinite)) && bad.pseudo_inverse() == Err(E::NonFinite), "non-finite accepted"); ensure!(bad.transpose().pseudo_inverse() == Err(E::NonFinite), "wide non-finite");
    Ok(())
}
fn svd_all(g: &mut G) -> R { dims2!(g, svd, f64, (1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (5, 3), (4, 4), (6, 4), (6, 6), (8, 8), (11, 3)) }
fn svd_all32(g: &mut G) -> R { dims2!(g, svd, f32, (1, 1), (2, 2), (3, 2), (3, 3), (5, 3), (4, 4)) }

fn eig<const N: usize, T: Fl>(g: &mut G) -> R {
    let sc = if g.bool() { 1.0 } else if T::IS32 { g.log10(-6.0, 6.0) } else { g.log10(-40.0, 40.0) };
    let a: Matrix<N, N, T> = match g.below(4) {
        0 => { let m = with_eigs(g, &vec![1.0; N]); let _ = m; let ev: Vec<f64> = (0..N).map(|_| g.int(-3, 3) as f64 * sc).collect(); lib(&with_eigs(g, &ev)) }
        1 => { let ev: Vec<f64> = (0..N).map(|_| g.slog10(-6.0, 0.0) * sc).collect(); lib(&with_eigs(g, &ev)) }
        2 => { let m: Matrix<N, N, T> = Matrix::from_fn(|_, _| T::c(g.int(-4, 4) as f64)); (m + m.transpose()).scale(T::c(sc)) }
        _ => { let m: Matrix<N, N, T> = Matrix::from_fn(|_, _| T::c(g.f(-2.0, 2.0) * sc)); m.symmetrized() }
    };
    g.note("a", &a); let da = dm(&a); let s = da.frob(); let n = (N * N) as f64; let tol = T::EPS * 12.0 * n.max(4.0);
    let f = match a.symmetric_eigendecomposition() { Ok(f) => f, Err(e) => bad!("{e:?}") }; let (l, v) = (f.eigenvalues(), f.eigenvectors()); let dvv = dm(&v);
    let mut want = da.sym_eigs(); want.reverse(); for k in 0..N { close!(g, l[k].g(), want[k], tol * s, "eigenvalue {k}"); if k > 0 { ensure!(l[k] <= l[k - 1], "order"); } }
    orthonormal(g, &dvv, N, tol * 2.0, "V")?; let d = dm(&Matrix::<N, N, T>::from_diagonal(l.into_array())); close!(g, dvv.mul(&d).mul(&dvv.t()).sub(&da).max_abs(), 0.0, tol * s * 2.0 + 1e-300, "V D Vt"); close!(g, da.mul(&dvv).sub(&dvv.mul(&d)).max_abs(), 0.0, tol * s * 2.0 + 1e-300, "A v = l v");
    let mut pd = 1.0; for k in 0..N { pd *= l[k].g(); } if pd.abs() < 1e200 && pd.abs() > 1e-200 && (!T::IS32 || (pd.abs() > 1e-34 && pd.abs() < 1e34)) { close!(g, f.determinant().g(), pd, pd.abs() * T::EPS * 2.0 * N as f64, "determinant"); }
    let mags: Vec<f64> = (0..N).map(|k| l[k].g().abs()).collect(); let (hi, lo) = (mags.iter().cloned().fold(0.0, f64::max), mags.iter().cloned().fold(f64::INFINITY, f64::min)); if lo == 0.0 { ensure!(f.condition_number().g() == f64::INFINITY); } else if hi / lo < 1e30 { close!(g, f.condition_number().g(), hi / lo, hi / lo * T::EPS * 2.0, "condition"); }
    if want[N - 1] > tol * s { ensure!(f.is_positive_definite(), "positive definite"); } if want[N - 1] < -tol * s { ensure!(!f.is_positive_definite(), "indefinite called positive definite"); }
    let m = g.f(-2.0, 2.0) * s / N as f64; let m = rnd::<T>(m); let c = f.clamped(T::c(m)); for i in 0..N { for j in 0..N { ensure!(c[(i, j)] == c[(j, i)], "clamped symmetric"); } } let dc = dm(&c);
    let mut ce = dc.sym_eigs(); ce.reverse(); let sm = s + m.abs() * N as f64; for k in 0..N { close!(g, ce[k], want[k].max(m), tol * sm * 4.0 + 1e-300, "clamped eigenvalue {k}"); }
    let low = want[N - 1] < m; if !low { close!(g, dc.sub(&da).max_abs(), 0.0, tol * sm * 4.0 + 1e-300, "clamp with nothing to raise"); } let comm = dc.mul(&da).sub(&da.mul(&dc)).max_abs(); close!(g, comm, 0.0, tol * sm * sm * 8.0 + 1e-300, "clamped keeps the directions");
    if N > 1 { let mut b = a; let i = g.below(N - 1); let j = g.size(i + 1, N - 1); let big = (0..N).flat_map(|i| (0..N).map(move |j| (i, j))).map(|(i, j)| a[(i, j)].g().abs()).fold(1.0, f64::max); b[(i, j)] = T::c(a[(i, j)].g() + big * g.slog10(-4.0, 0.0)); ensure!(matches!(b.symmetric_eigendecomposition(), Err(E::NotSymmetric)), "asymmetric accepted"); }
    let mut b = a; let (i, j) = (g.below(N), g.below(N)); let bv = if g.bool() { T::NAN } else { T::NEG_INFINITY }; b[(i, j)] = bv; if g.bool() { b[(j, i)] = bv; } ensure!(matches!(b.symmetric_eigendecomposition(), Err(E::NonFinite)), "non-finite accepted");
    g.nontrivial_if(N > 1 && s > 0.0); g.label_if(low, "clamp raises"); Ok(())
}
fn eig_all(g: &mut G) -> R { dims!(g, eig, f64, 1, 2, 3, 4, 5, 6, 9, 12) }
fn eig_all32(g: &mut G) -> R { dims!(g, eig, f32, 1, 2, 3, 4, 6) }
/// Entries so large or so small that their squares leave the number range: factorisations are still exact up to a power of two.
fn extremes<const N: usize, T: Fl>(g: &mut G) -> R {
    let e = if T::IS32 { g.int(25, 100) } else { g.int(120, 900) } as i32 * if g.bool() { 1 } else { -1 }; let e = e / 2 * 2; let up = 2f64.powi(e);
    let down = |m: &DM, by: i32| { let s = 2f64.powi(by); DM::from_fn(m.r, m.c, |i, j| m.f(i, j) * s) };
    let n = N as f64; let base: Matrix<N, N, T> = if g.bool() { mgen(g, -2.0, 2.0) } else { well(g, 2.0, 0.0) }; let a: Matrix<N, N, T> = Matrix::from_fn(|i, j| T::c(base[(i, j)].g() * up)); g.note("a", &a); g.note("power", &e);
    let d0 = down(&dm(&a), -e); let b0: Vector<N, T> = vgen(g, -3.0, 3.0); let b: Vector<N, T> = Vector::from_fn(|i| T::c(b0[i].g() * up)); let db = down(&dv(&b), -e); let Some((k, inv)) = cond(&d0) else { return Ok(()) }; let s = d0.frob(); let lim = if T::IS32 { 3e2 } else { 1e6 };
    if k < lim {
        let w = inv.mul(&db); let tol = T::EPS * 60.0 * n * n.max(4.0) * k * w.frob().max(1e-3) * 4.0;
        match a.lu_decompose() { Ok(f) => { let (l, u, p) = (dm(&f.lower()), down(&dm(&f.upper()), -e), f.permutation()); let pr = l.mul(&u); for i in 0..N { for j in 0..N { close!(g, pr.f(i, j), d0.f(p[i], j), T::EPS * 4.0 * n * abs(&l).mul(&abs(&u)).f(i, j) + 1e-300, "LU {i},{j}"); } } close!(g, dv(&f.solve(b)).sub(&w).frob(), 0.0, tol * 4.0, "LU solve"); } Err(x) => bad!("LU refused a matrix of condition {k:e}: {x:?}") }
        match PivotedQr::decompose(a) { Ok(f) => { let (q, r, p) = (dm(&f.orthogonal()), down(&dm(&f.triangular()), -e), f.permutation()); orthonormal(g, &q, N, T::EPS * 12.0 * (n * n).max(4.0), "Q")?; let ap = DM::from_fn(N, N, |i, j| d0.f(i, p[j])); close!(g, q.mul(&r).sub(&ap).max_abs(), 0.0, T::EPS * s * 12.0 * (n * n).max(4.0), "QR product"); match f.solve_least_squares(b) { Ok(x) => close!(g, dv(&x).sub(&w).frob(), 0.0, tol, "QR solve"), Err(x) => bad!("QR solve at condition {k:e}: {x:?}") } } Err(x) => bad!("QR: {x:?}") }
        match a.svd() { Ok(f) => { let (u, v, sv) = (dm(&f.left()), dm(&f.right()), f.singular_values()); orthonormal(g, &u, N, T::EPS * 20.0 * (n * n).max(4.0), "U")?; orthonormal(g, &v, N, T::EPS * 20.0 * (n * n).max(4.0), "V")?; let d = down(&dm(&Matrix::<N, N, T>::from_diagonal(sv.into_array())), -e); close!(g, u.mul(&d).mul(&v.t()).sub(&d0).max_abs(), 0.0, T::EPS * s * 12.0 * (n * n).max(4.0), "U S Vt"); for i in 1..N { ensure!(sv[i] <= sv[i - 1] && sv[i] >= T::ZERO, "order"); }
            close!(g, dv(&f.solve(b)).sub(&w).frob(), 0.0, tol, "SVD solve"); close!(g, down(&dm(&f.pseudo_inverse()), e).sub(&inv).max_abs(), 0.0, T::EPS * 60.0 * (n * n).max(4.0) * k * inv.max_abs(), "pseudo-inverse"); close!(g, f.condition_number().g() * d.f(N - 1, N - 1) / d.f(0, 0), 1.0, T::EPS * 4.0, "condition number"); } Err(x) => bad!("SVD: {x:?}") }
        g.nontrivial_if(N > 1); g.label_if(e > 0, "large"); g.label_if(e < 0, "small");
    }
    let sy: Matrix<N, N, T> = Matrix::from_fn(|i, j| T::c((base[(i, j)].g() + base[(j, i)].g()) * up)); let ds = down(&dm(&sy), -e); let ss = ds.frob();
    match sy.symmetric_eigendecomposition() { Ok(f) => { let v = dm(&f.eigenvectors()); let l = down(&dm(&Matrix::<N, N, T>::from_diagonal(f.eigenvalues().into_array())), -e); orthonormal(g, &v, N, T::EPS * 24.0 * (n * n).max(4.0), "V")?; close!(g, v.mul(&l).mul(&v.t()).sub(&ds).max_abs(), 0.0, T::EPS * 24.0 * (n * n).max(4.0) * ss, "V D Vt"); } Err(x) => bad!("eigen: {x:?}") }
    let sv = sv_list(g, N, 2.0, 0.0); let pd0 = with_eigs(g, &sv); let pd: Matrix<N, N, T> = Matrix::from_fn(|i, j| T::c(rnd::<T>(pd0.f(i, j)) * up)); let dp = down(&dm(&pd), -e);
    match pd.cholesky() { Ok(f) => { let l = down(&dm(&f.lower()), -e / 2); close!(g, l.mul(&l.t()).sub(&dp).max_abs(), 0.0, T::EPS * dp.frob() * 3.0 * (n + 1.0), "L Lt"); let x = dv(&f.solve(b)); if let Some((k, inv)) = cond(&dp) { let w = inv.mul(&db); close!(g, x.sub(&w).frob(), 0.0, T::EPS * 60.0 * n * n * k * w.frob().max(1e-3), "Cholesky solve"); } } Err(x) => bad!("Cholesky refused a positive definite matrix: {x:?}") }
    Ok(())
}
fn extremes_all(g: &mut G) -> R { dims!(g, extremes, f64, 1, 2, 3, 4, 6) }
fn extremes_all32(g: &mut G) -> R { dims!(g, extremes, f32, 1, 2, 3, 4, 6) }
/// Wrong shapes are refused.
fn shapes(g: &mut G) -> R {
    let a: Matrix<2, 3, f64> = any_mat(g); g.note("a", &a); ensure!(matches!(PivotedQr::decompose(a), Err(E::Underdetermined)) && matches!(a.svd(), Err(E::Underdetermined)));
    let b: Matrix<3, 5, f32> = any_mat(g); ensure!(matches!(PivotedQr::decompose(b), Err(E::Underdetermined)) && matches!(b.svd(), Err(E::Underdetermined))); g.nontrivial(); Ok(())
}
fn main() {
    run("C04", &["references are computed in double-double", "entries stay within 1e-40..1e40 (f64) and 1e-6..1e6 (f32), and in the extremes laws within 2^-900..2^900 (f64) and 2^-100..2^100 (f32)", "accuracy of solves is claimed up to condition 1e6..1e9 (f64), 3e2..2e3 (f32)"], &[
        law!("lu", 20_000, lu_all, "rows were exchanged"), law!("lu_f32", 10_000, lu_all32, "rows were exchanged"),
        law!("cholesky", 16_000, chol_all, "size above 1"), law!("cholesky_f32", 8_000, chol_all32, "size above 1"),
        law!("qr", 16_000, qr_all, "full rank solve"), law!("qr_f32", 8_000, qr_all32, "full rank solve"),
        law!("svd", 12_000, svd_all, "full rank, size above 1"), law!("svd_f32", 6_000, svd_all32, "full rank, size above 1"),
        law!("eigen", 12_000, eig_all, "size above 1"), law!("eigen_f32", 6_000, eig_all32, "size above 1"), law!("extremes", 12_000, extremes_all, "well conditioned, size above 1"), law!("extremes_f32", 8_000, extremes_all32, "well conditioned, size above 1"), law!("shapes", 200, shapes, "all"),
    ]);
}
