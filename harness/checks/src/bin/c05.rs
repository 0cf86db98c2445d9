//! C05: matrix and vector algebra against elementwise definitions.
use checks::lin::*;
use checks::util::*;
use checks::{dims, dims2};
use multicalc::error::LinalgError as E;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::{matrix, vector};
use vk::dd::DD;
use vk::mat::M as DM;
use vk::*;

fn elem<T: Fl>(g: &mut G) -> T { T::c(if g.chance(1, 6) { g.slog10(-12.0, 12.0) } else { g.f(-5.0, 5.0) }) }
fn mat<const A: usize, const B: usize, T: Fl>(g: &mut G) -> Matrix<A, B, T> { Matrix::from_fn(|_, _| elem(g)) }
fn vecg<const N: usize, T: Fl>(g: &mut G) -> Vector<N, T> { Vector::from_fn(|_| elem(g)) }
fn close_dot<T: Fl>(g: &mut G, got: T, terms: &[(T, T)], what: &str) -> R {
    let mut s = DD::ZERO; let mut a = 0.0; for (x, y) in terms { s += DD::new(x.g()) * DD::new(y.g()); a += (x.g() * y.g()).abs(); }
    close!(g, got.g(), s.f(), T::EPS * a * (terms.len() as f64 + 1.0) + 1e-300, "{what}"); Ok(())
}
fn same<T: Fl>(a: T, b: T) -> bool { a == b || (a.is_nan() && b.is_nan()) }

fn mm<const A: usize, const B: usize, T: Fl>(g: &mut G) -> R {
    let (x, y): (Matrix<A, B, T>, Matrix<A, B, T>) = (mat(g), mat(g)); let z: Matrix<B, 3, T> = mat(g); let v: Vector<B, T> = vecg(g); let s: T = if g.chance(1, 8) { T::ZERO } else { elem(g) };
    g.note("x", &x); g.note("y", &y); g.note("z", &z); g.note("v", &v); g.note("s", &s);
    let (add, sub, neg, sc, mu, dv_, tr) = (x + y, x - y, -x, x.scale(s), x * s, x / s, x.transpose());
    let mut aa = x; aa += y; let mut sa = x; sa -= y;
    for i in 0..A { for j in 0..B {
        let (p, q) = (x[(i, j)], y[(i, j)]);
        ensure!(add[(i, j)] == p + q && aa[(i, j)] == p + q, "sum {i},{j}"); ensure!(sub[(i, j)] == p - q && sa[(i, j)] == p - q, "difference {i},{j}"); ensure!(neg[(i, j)] == -p, "negation"); ensure!(sc[(i, j)] == p * s && mu[(i, j)] == p * s, "scaling");
        let w = if s == T::ZERO { if p == T::ZERO { T::NAN } else if p > T::ZERO { T::INFINITY } else { T::NEG_INFINITY } } else { p / s }; ensure!(same(dv_[(i, j)], w) || (dv_[(i, j)].g() - w.g()).abs() <= w.g().abs() * T::EPS * 2.0, "division {i},{j}: {:?} want {w:?}", dv_[(i, j)]);
        ensure!(tr[(j, i)] == p, "transpose"); ensure!(x.get(i, j) == Some(&p) && x.as_slice_rows()[i][j] == p && x.into_array()[i][j] == p, "accessors");
    } }
    let pz = x * z; for i in 0..A { for j in 0..3 { let t: Vec<(T, T)> = (0..B).map(|k| (x[(i, k)], z[(k, j)])).collect(); close_dot(g, pz[(i, j)], &t, "product")?; } }
    let xv = x * v; for i in 0..A { let t: Vec<(T, T)> = (0..B).map(|k| (x[(i, k)], v[k])).collect(); close_dot(g, xv[i], &t, "matrix vector")?; }
    let mut fr = DD::ZERO; for i in 0..A { for j in 0..B { fr += DD::new(x[(i, j)].g()) * DD::new(x[(i, j)].g()); } } close!(g, x.frobenius_norm().g(), fr.sqrt().f(), T::EPS * fr.sqrt().f() * (A * B) as f64 + 1e-300, "frobenius");
    for i in 0..A + 2 { let r = x.try_row(i); ensure!(r.is_some() == (i < A)); if let Some(r) = r { for j in 0..B { ensure!(r[j] == x[(i, j)], "row"); } } }
    for j in 0..B + 2 { let c = x.try_column(j); ensure!(c.is_some() == (j < B)); if let Some(c) = c { for i in 0..A { ensure!(c[i] == x[(i, j)], "column"); } } }
    let (oi, oj) = (g.size(0, A + 2), g.size(0, B + 2)); let mut xm = x; ensure!(x.get(oi, oj).is_some() == (oi < A && oj < B)); match xm.get_mut(oi, oj) { Some(e) => { *e = s; ensure!(oi < A && oj < B && xm[(oi, oj)] == s); for i in 0..A { for j in 0..B { ensure!((i, j) == (oi, oj) || xm[(i, j)] == x[(i, j)]); } } } None => ensure!(oi >= A || oj >= B) }
    let flat: Vec<T> = (0..A * B).map(|k| x[(k / B, k % B)]).collect(); ensure!(Matrix::<A, B, T>::try_from_row_slice(&flat) == Some(x)); let cut = g.size(0, A * B + 2); let mut f2 = flat.clone(); f2.resize(cut, T::ONE); ensure!(Matrix::<A, B, T>::try_from_row_slice(&f2).is_some() == (cut == A * B), "row slice length");
    ensure!(Matrix::<A, B, T>::new(x.into_array()) == x && Matrix::from(x.into_array()) == x); xm = x; xm.as_mut_slice_rows()[A - 1][B - 1] = s; ensure!(xm[(A - 1, B - 1)] == s); xm[(0, 0)] = s; ensure!(xm[(0, 0)] == s);
    ensure!(x.is_finite()); let (i, j) = (g.below(A), g.below(B)); xm[(i, j)] = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])); ensure!(!xm.is_finite(), "is_finite"); let zz = Matrix::<A, B, T>::zeros(); for i in 0..A { for j in 0..B { ensure!(zz[(i, j)] == T::ZERO); } }
    g.nontrivial_if(A > 1 && B > 1 && A != B); Ok(())
}
fn mm_all(g: &mut G) -> R { dims2!(g, mm, f64, (1, 1), (1, 4), (2, 3), (3, 2), (3, 3), (4, 4), (5, 2), (6, 6), (9, 7), (3, 12)) }
fn mm_all32(g: &mut G) -> R { dims2!(g, mm, f32, (1, 2), (2, 3), (3, 3), (4, 2), (5, 5)) }

fn square<const N: usize, T: Fl>(g: &mut G) -> R {
    let mut x: Matrix<N, N, T> = any_mat(g); if g.chance(1, 4) { x = x.symmetrized(); } g.note("x", &x); let dx = dm(&x); let n = N as f64;
    let d = x.diagonal(); let mut tr = T::ZERO; for i in 0..N { ensure!(d[i] == x[(i, i)]); tr = tr + x[(i, i)]; } let sa: f64 = d.iter().map(|v| v.g().abs()).sum(); close!(g, x.trace().g(), tr.g(), T::EPS * sa * n, "trace");
    let fd = Matrix::<N, N, T>::from_diagonal(d); let id = Matrix::<N, N, T>::identity(); for i in 0..N { for j in 0..N { ensure!(fd[(i, j)] == if i == j { d[i] } else { T::ZERO }); ensure!(id[(i, j)] == if i == j { T::ONE } else { T::ZERO }); } }
    let sy = x.symmetrized(); for i in 0..N { for j in 0..N { ensure!(sy[(i, j)] == sy[(j, i)], "symmetrized symmetric"); close!(g, sy[(i, j)].g(), (x[(i, j)].g() + x[(j, i)].g()) / 2.0, T::EPS * 2.0 * (x[(i, j)].g().abs() + x[(j, i)].g().abs()), "symmetrized"); } } ensure!(sy.is_symmetric());
    if N > 1 { let mut b = sy; let i = g.below(N - 1); let j = g.size(i + 1, N - 1); let base = b[(i, j)].g().abs().max(1.0); b[(i, j)] = T::c(b[(i, j)].g() + base * g.slog10(if T::IS32 { -4.5 } else { -12.0 }, 2.0)); ensure!(!b.is_symmetric(), "asymmetric at {i},{j}"); ensure!(!b.transpose().is_symmetric()); }
    // determinant: cofactor-sum error bound via the permanent of |A|
    let per = { let a = DM::from_fn(N, N, |i, j| dx.f(i, j).abs()); permanent(&a) }; let det = dx.det().f();
    let small = per > if T::IS32 { 1e-30 } else { 1e-250 } && per < if T::IS32 { 1e30 } else { 1e250 };
    let amax = dx.max_abs(); let scale_pow = amax.powi(N as i32); let pow_ok = scale_pow > if T::IS32 { 1e-30 } else { 1e-250 } && scale_pow < if T::IS32 { 1e30 } else { 1e250 };
    let got = x.determinant(); if small { let tol = if N <= 4 { T::EPS * per * 8.0 } else { T::EPS * per.max(scale_pow) * 64.0 * n }; close!(g, got.g(), det, tol, "determinant"); }
    if !pow_ok { return Ok(()); }
    let r = x.inverse();
    if N <= 4 {
        let thr = T::EPS * n * scale_pow; let err = T::EPS * per * 8.0; if det.abs() > thr + err { ensure!(r.is_ok(), "det {det:e} above the threshold {thr:e} rejected"); } else if det.abs() + err < thr { ensure!(r == Err(E::Singular), "det {det:e} below the threshold {thr:e} accepted"); g.label("singular"); }
    } else { match &r { Ok(_) => {} Err(e) => ensure!(matches!(e, E::Singular | E::IllConditioned)) } if let Some((k, _)) = cond(&dx) { if k < if T::IS32 { 1e4 } else { 1e11 } { ensure!(r.is_ok(), "condition {k:e} rejected"); } } }
    if let (Ok(inv), Some((k, w))) = (r, cond(&dx)) {
        let tol = if N <= 4 { T::EPS * 40.0 * scale_pow / det.abs() * (w.max_abs() + 1.0 / amax) } else { T::EPS * 100.0 * n * n * k * w.max_abs() };
        if tol < 0.01 * w.max_abs() { close!(g, max_diff(&dm(&inv), &w), 0.0, tol + 1e-300, "inverse"); g.nontrivial_if(N > 1 && det != 0.0); g.label("inverse compared"); }
    }
    Ok(())
}
fn permanent(a: &DM) -> f64 { // small sizes only
    let n = a.r; let mut t = 0.0; let full = 1u32 << n; // Ryser would cancel; use the subset dynamic programme, all terms positive
    let mut dp = vec![0.0; full as usize]; dp[0] = 1.0; for m in 0..full { let i = m.count_ones() as usize; if i < n { for j in 0..n { if m & (1 << j) == 0 { dp[(m | (1 << j)) as usize] += dp[m as usize] * a.f(i, j); } } } } t += dp[(full - 1) as usize]; t
}
fn sq_all(g: &mut G) -> R { dims!(g, square, f64, 1, 2, 3, 4, 5, 6, 8) }
fn sq_all32(g: &mut G) -> R { dims!(g, square, f32, 1, 2, 3, 4, 5) }

fn vecs<const N: usize, T: Fl>(g: &mut G) -> R {
    let (a, b): (Vector<N, T>, Vector<N, T>) = (vecg(g), vecg(g)); let s: T = if g.chance(1, 8) { T::ZERO } else { elem(g) }; g.note("a", &a); g.note("b", &b); g.note("s", &s);
    let (add, sub, neg, sc, mu, di) = (a + b, a - b, -a, a.scale(s), a * s, a / s); let mut aa = a; aa += b; let mut sa = a; sa -= b; let mp = a.map(|v| v.g() * 2.0 + 1.0);
    for i in 0..N { let (p, q) = (a[i], b[i]); ensure!(add[i] == p + q && aa[i] == p + q); ensure!(sub[i] == p - q && sa[i] == p - q); ensure!(neg[i] == -p && sc[i] == p * s && mu[i] == p * s); let w = if s == T::ZERO { if p == T::ZERO { T::NAN } else if p > T::ZERO { T::INFINITY } else { T::NEG_INFINITY } } else { p / s }; ensure!(same(di[i], w) || (di[i].g() - w.g()).abs() <= w.g().abs() * T::EPS * 2.0, "division"); ensure!(mp[i] == p.g() * 2.0 + 1.0); ensure!(a.get(i) == Some(&p) && a.as_array()[i] == p && a.as_slice()[i] == p && a.into_array()[i] == p); }
    let t: Vec<(T, T)> = (0..N).map(|i| (a[i], b[i])).collect(); close_dot(g, a.dot(b), &t, "dot")?; let t: Vec<(T, T)> = (0..N).map(|i| (a[i], a[i])).collect(); close_dot(g, a.norm_squared(), &t, "norm squared")?;
    let nn = t.iter().map(|v| DD::new(v.0.g()) * DD::new(v.0.g())).fold(DD::ZERO, |x, y| x + y).sqrt().f(); close!(g, a.norm().g(), nn, T::EPS * nn * (N as f64 + 1.0), "norm");
    if nn > 1e-10 { let u = a.normalized(); let mut m = a; m.normalize(); let tn = a.try_normalized(); let mut m2 = a; ensure!(m2.try_normalize() == Some(())); ensure!(tn == Some(u) && m == u && m2 == u, "normalising variants differ"); for i in 0..N { close!(g, u[i].g(), a[i].g() / nn, T::EPS * (N as f64 + 3.0), "unit"); } }
    let z = Vector::<N, T>::zeros(); for i in 0..N { ensure!(z[i] == T::ZERO); } ensure!(z.try_normalized().is_none()); let mut zm = z; ensure!(zm.try_normalize().is_none() && zm == z, "zero vector"); let mut bad = a; let i = g.below(N); bad[i] = T::NAN; ensure!(bad.try_normalized().is_none() && !bad.is_finite()); ensure!(bad.try_normalize().is_none()); bad[i] = T::INFINITY; ensure!(!bad.is_finite() && a.is_finite());
    let o = g.size(0, N + 3); ensure!(a.get(o).is_some() == (o < N)); let mut am = a; if let Some(e) = am.get_mut(o) { *e = s; } for i in 0..N { ensure!(am[i] == if i == o { s } else { a[i] }); } am = a; am.as_mut_slice()[N - 1] = s; ensure!(am[N - 1] == s); am[0] = s; ensure!(am[0] == s);
    let mut sl = a.as_slice().to_vec(); ensure!(Vector::<N, T>::try_from_slice(&sl) == Some(a)); sl.resize(o, T::ONE); ensure!(Vector::<N, T>::try_from_slice(&sl).is_some() == (o == N)); ensure!(Vector::from(a.into_array()) == a && Vector::from_fn(|i| a[i]) == a);
    g.nontrivial_if(N > 1); Ok(())
}
fn v_all(g: &mut G) -> R { dims!(g, vecs, f64, 1, 2, 3, 4, 6, 9, 17) }
fn v_all32(g: &mut G) -> R { dims!(g, vecs, f32, 1, 2, 3, 5) }

fn cross<T: Fl>(g: &mut G) -> R {
    let (a, b, c): (Vector<3, T>, Vector<3, T>, Vector<3, T>) = (vecg(g), vecg(g), vecg(g)); g.note("a", &a); g.note("b", &b); g.note("c", &c); let x = a.cross(b);
    for i in 0..3 { let (j, k) = ((i + 1) % 3, (i + 2) % 3); close_dot(g, x[i], &[(a[j], b[k]), (-a[k], b[j])], "cross")?; }
    let y = b.cross(a); for i in 0..3 { ensure!(y[i] == -x[i], "anticommutative"); }
    let det = DM::from_fn(3, 3, |i, j| [a, b, c][i][j].g()).det().f(); let per = permanent(&DM::from_fn(3, 3, |i, j| [a, b, c][i][j].g().abs())); close!(g, a.scalar_triple(b, c).g(), det, T::EPS * per * 6.0 + 1e-300, "triple");
    let (p, q): (Vector<2, T>, Vector<2, T>) = (vecg(g), vecg(g)); close_dot(g, p.cross(q), &[(p[0], q[1]), (-p[1], q[0])], "planar cross")?; g.nontrivial(); Ok(())
}
/// The vector! and matrix! macros place components where they are written.
fn macros(g: &mut G) -> R {
    let v: [f64; 6] = g.arr(-5.0, 5.0); g.note("v", &v); let a = vector![v[0], v[1], v[2]]; ensure!(a == Vector::new([v[0], v[1], v[2]])); ensure!(vector![v[0]; 4] == Vector::new([v[0]; 4]));
    let m = matrix![[v[0], v[1], v[2]], [v[3], v[4], v[5]]]; for i in 0..2 { for j in 0..3 { ensure!(m[(i, j)] == v[i * 3 + j]); } } let m2 = matrix![[v[0], v[1]]; 3]; for i in 0..3 { ensure!(m2[(i, 0)] == v[0] && m2[(i, 1)] == v[1]); } let m3 = matrix![[v[2]; 4]; 2]; for i in 0..2 { for j in 0..4 { ensure!(m3[(i, j)] == v[2]); } }
    let e: [f64; 9] = g.arr(-3.0, 3.0); let s = Matrix::<3, 3>::symmetric_positive_definite(&e); let f = DM::from_fn(3, 3, |i, j| e[i * 3 + j]); let w = f.mul(&f.t()).add(&DM::eye(3).scale(0.25)); close!(g, max_diff(&dm(&s), &w), 0.0, 1e-13, "symmetric_positive_definite"); ensure!(s.cholesky().is_ok()); g.nontrivial(); Ok(())
}
/// Ring identities that tie the operators together.
fn ring(g: &mut G) -> R {
    let (a, b): (Matrix<3, 4>, Matrix<4, 2>) = (mgen(g, -3.0, 3.0), mgen(g, -3.0, 3.0)); let c: Matrix<4, 2> = mgen(g, -3.0, 3.0); let v: Vector<2> = vgen(g, -3.0, 3.0); g.note("a", &a); g.note("b", &b);
    let d = |x: &DM, y: &DM| max_diff(x, y); close!(g, d(&dm(&(a * b).transpose()), &dm(&(b.transpose() * a.transpose()))), 0.0, 1e-13, "transpose of a product"); close!(g, d(&dm(&(a * (b + c))), &dm(&(a * b + a * c))), 0.0, 4e-13, "distributive"); close!(g, d(&dv(&((a * b) * v)), &dv(&(a * (b * v)))), 0.0, 2e-12, "associative"); ensure!(a * Matrix::<4, 4>::identity() == a && Matrix::<3, 3>::identity() * a == a, "identity");
    let p: Matrix<3, 3> = mgen(g, -2.0, 2.0); let q: Matrix<3, 3> = mgen(g, -2.0, 2.0); close!(g, (p * q).determinant(), p.determinant() * q.determinant(), 1e-11, "det of product"); close!(g, (p * q).trace(), (q * p).trace(), 1e-13, "trace cyclic");
    // autodiff scalars go through the same code: derivative of det at p along q is tr(adj(p) q)
    let pd = Matrix::<3, 3, multicalc::Dual<f64>>::from_fn(|i, j| multicalc::Dual::new(p[(i, j)], q[(i, j)])); let dd = pd.determinant(); let eps = 1e-3; let f = |t: f64| (p + q * t).determinant(); let num = (f(eps) - f(-eps)) / (2.0 * eps); let cub = q.determinant() * eps * eps; close!(g, dd.deriv, num - cub, 1e-9, "dual determinant"); close!(g, dd.value, p.determinant(), 1e-12, "dual value");
    g.nontrivial(); Ok(())
}
/// A well-conditioned matrix of very large or very small entries still has its inverse.
fn inv_extremes<const N: usize, T: Fl>(g: &mut G) -> R {
    let e = if T::IS32 { g.int(4, 100) } else { g.int(50, 900) } as i32 * if g.bool() { 1 } else { -1 }; let up = 2f64.powi(e);
    let base: Matrix<N, N, T> = well(g, if T::IS32 { 0.7 } else { 2.0 }, 0.0); let a: Matrix<N, N, T> = Matrix::from_fn(|i, j| T::c(base[(i, j)].g() * up)); g.note("a", &a); g.note("power", &e);
    let d0 = DM::from_fn(N, N, |i, j| a[(i, j)].g() / up); let Some((k, inv)) = cond(&d0) else { return Ok(()) }; let det = d0.det().f().abs(); let n = N as f64; let m = d0.max_abs(); let per = permanent(&DM::from_fn(N, N, |i, j| d0.f(i, j).abs()));
    if det < 1e3 * T::EPS * (n * m.powi(N as i32)).max(per) { return Ok(()); }
    let got = match a.inverse() { Ok(x) => x, Err(x) => bad!("condition {k:e} refused: {x:?}") };
    let dg = DM::from_fn(N, N, |i, j| got[(i, j)].g() * up); close!(g, dg.sub(&inv).max_abs() / inv.max_abs(), 0.0, T::EPS * 64.0 * n * n * k * (per / det).max(1.0), "inverse"); g.nontrivial_if(N > 1); g.label_if(e > 0, "large"); g.label_if(e < 0, "small"); Ok(())
}
fn ie_all(g: &mut G) -> R { dims!(g, inv_extremes, f64, 1, 2, 3, 4, 5, 6) }
fn ie_all32(g: &mut G) -> R { dims!(g, inv_extremes, f32, 1, 2, 3, 4, 5) }
fn main() {
    run("C05", &["references are elementwise definitions and double-double sums", "the closed-form inverse is compared where its documented threshold accepts the matrix"], &[
        law!("matrix_ops", 20_000, mm_all, "non-square"), law!("matrix_ops_f32", 10_000, mm_all32, "non-square"), law!("square", 30_000, sq_all, "inverse compared, size above 1"), law!("square_f32", 15_000, sq_all32, "inverse compared, size above 1"),
        law!("inverse_extremes", 15_000, ie_all, "size above 1"), law!("inverse_extremes_f32", 10_000, ie_all32, "size above 1"),
        law!("vectors", 20_000, v_all, "length above 1"), law!("vectors_f32", 10_000, v_all32, "length above 1"), law!("cross", 20_000, cross::<f64>, "all"), law!("cross_f32", 10_000, cross::<f32>, "all"), law!("macros", 5_000, macros, "all"), law!("ring", 20_000, ring, "all"),
    ]);
}
