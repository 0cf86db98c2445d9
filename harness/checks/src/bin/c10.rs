//! C10: polynomial algebra, interpolation and fitting, piecewise curves and multivariate polynomials obey the laws of polynomials.
#![allow(unused_comparisons)]
use checks::util::*;
use checks::{dims, dims2};
use multicalc::error::PolynomialError as E;
use multicalc::linear_algebra::Vector;
use multicalc::scalar::Jet;
use multicalc::{MultivariatePolynomial as MP, MultivariateTerm as MT, PiecewisePolynomial as PW, Polynomial as P};
use std::collections::BTreeMap;
use vk::dd::DD;
use vk::mat::M as DM;
use vk::*;

fn dd(x: f64) -> DD { DD::new(x) }
fn c64<const N: usize, T: Fl>(p: &P<N, T>) -> Vec<f64> { p.coefficients().iter().map(|c| c.g()).collect() }
/// value of a coefficient list and the sum of absolute terms, in double-double
fn hv(c: &[f64], x: f64) -> (f64, f64) { let (mut a, mut m) = (DD::ZERO, 0.0); for &k in c.iter().rev() { a = a * dd(x) + dd(k); m = m * x.abs() + k.abs(); } (a.f(), m) }
fn dmul(a: &[DD], b: &[DD]) -> Vec<DD> { if a.is_empty() || b.is_empty() { return vec![]; } let mut r = vec![DD::ZERO; a.len() + b.len() - 1]; for i in 0..a.len() { for j in 0..b.len() { r[i + j] += a[i] * b[j]; } } r }
fn up(a: &[f64]) -> Vec<DD> { a.iter().map(|&x| dd(x)).collect() }
fn babs(a: &[f64], b: &[f64]) -> Vec<f64> { if a.is_empty() || b.is_empty() { return vec![]; } let mut r = vec![0.0; a.len() + b.len() - 1]; for i in 0..a.len() { for j in 0..b.len() { r[i + j] += (a[i] * b[j]).abs(); } } r }
fn dif(c: &[f64]) -> Vec<f64> { (1..c.len()).map(|i| c[i] * i as f64).collect() }
fn pgen<const N: usize, T: Fl>(g: &mut G) -> P<N, T> {
    let kind = g.below(4); let s = if g.chance(1, 5) { if T::IS32 { g.log10(-6.0, 6.0) } else { g.log10(-30.0, 30.0) } } else { 1.0 }; let zt = if g.chance(1, 3) { g.below(N + 1) } else { 0 };
    P::new(core::array::from_fn(|i| if i + zt >= N && zt > 0 { T::ZERO } else { T::c(match kind { 0 => g.int(-5, 5) as f64, 1 => if g.chance(1, 2) { 0.0 } else { g.f(-3.0, 3.0) }, _ => g.f(-3.0, 3.0) } * s) }))
}
fn xgen<T: Fl>(g: &mut G) -> T { T::c(match g.below(4) { 0 => g.f(-1.0, 1.0), 1 => g.f(-4.0, 4.0), 2 => g.slog10(-3.0, 1.0), _ => g.int(-3, 3) as f64 }) }

fn algebra<const N: usize, T: Fl>(g: &mut G) -> R {
    let (p, q) = (pgen::<N, T>(g), pgen::<N, T>(g)); let x = xgen::<T>(g); let s = xgen::<T>(g); g.note("p", &p); g.note("q", &q); g.note("x,s", &(x, s)); let (cp, cq) = (c64(&p), c64(&q)); let e = T::EPS; let n = N as f64 + 1.0;
    // shape
    let deg = (0..N).rev().find(|&i| cp[i] != 0.0); ensure!(p.degree() == deg); ensure!(p.is_zero() == deg.is_none()); ensure!(p.leading_coefficient() == deg.map(|d| p.coefficients()[d])); for i in 0..N + 2 { ensure!(p.coefficient(i) == p.coefficients().get(i).copied()); }
    ensure!(p.is_finite()); ensure!(P::<N, T>::default() == P::zeros() && P::<N, T>::zeros().is_zero());
    if N > 0 { let k = g.below(N); let mut a = *p.coefficients(); a[k] = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])); ensure!(!P::new(a).is_finite()); }
    let (v, m) = hv(&cp, x.g()); close!(g, p.evaluate(x).g(), v, e * 2.0 * n * m, "evaluate");
    // derivatives in one pass, as polynomials, and beyond the degree
    let d: [T; 9] = p.evaluate_with_derivatives(x); let mut c = cp.clone(); let mut nd = p; for k in 0..9 { let (v, m) = hv(&c, x.g()); close!(g, d[k].g(), v, e * (4.0 * n + 8.0) * m, "derivative {k}"); let pn = p.nth_derivative(k); for i in 0..N { let w = c.get(i).copied().unwrap_or(0.0); close!(g, pn.coefficient(i).unwrap().g(), w, e * 4.0 * (k as f64) * w.abs(), "nth_derivative({k}) coefficient {i}"); ensure!(nd.coefficient(i).map(|v| (v.g() - w).abs() <= e * 4.0 * k as f64 * w.abs()).unwrap()); } c = dif(&c); nd = nd.derivative(); }
    let empty: [T; 0] = p.evaluate_with_derivatives(x); ensure!(empty.is_empty()); ensure!(p.nth_derivative(N + g.below(3)).is_zero() && p.nth_derivative(usize::MAX).is_zero());
    // integral
    let (a, b) = (xgen::<T>(g), xgen::<T>(g)); let anti: Vec<f64> = (0..N).map(|i| cp[i] / (i as f64 + 1.0)).collect(); let i = |x: f64| { let (v, m) = hv(&anti, x); (v * x, m * x.abs()) }; let (ia, ib) = (i(a.g()), i(b.g())); close!(g, p.definite_integral(a, b).g(), ib.0 - ia.0, e * 4.0 * n * (ia.1 + ib.1) + e * 4.0 * n * (ia.0.abs() + ib.0.abs()), "definite_integral"); ensure!(p.definite_integral(a, a) == T::ZERO); close!(g, p.definite_integral(b, a).g(), -p.definite_integral(a, b).g(), 0.0, "reversed integral");
    // vector-space operations are coefficient-wise
    for i in 0..N { let (u, w) = (p.coefficients()[i], q.coefficients()[i]); ensure!((p + q).coefficients()[i] == u + w && (p - q).coefficients()[i] == u - w && (-p).coefficients()[i] == -u && p.scale(s).coefficients()[i] == u * s && (p * s).coefficients()[i] == u * s); if s != T::ZERO { let z = (p / s).coefficients()[i]; close!(g, z.g(), u.g() / s.g(), e * 2.0 * z.g().abs() + f64::MIN_POSITIVE, "p / s"); } ensure!(p.reverse().coefficients()[i] == p.coefficients()[N - 1 - i]); }
    // p(x + h) and p(k x)
    let sh = p.shift_argument(s); let (w, m) = hv(&cp, x.g() + s.g()); let mm = hv(&cp.iter().map(|v| v.abs()).collect::<Vec<_>>(), x.g().abs() + s.g().abs()).0; let _ = m; let xs = x.g() + s.g(); let _ = xs; close!(g, hv(&c64(&sh), x.g()).0, w, e * 6.0 * n * n * mm, "shift_argument at x"); ensure!(sh.degree() == deg || deg.is_none() || sh.coefficient(deg.unwrap()) == p.coefficient(deg.unwrap())); if let Some(d) = deg { ensure!(sh.coefficient(d) == p.coefficient(d), "shift changed the leading coefficient"); for i in d + 1..N { ensure!(sh.coefficients()[i] == T::ZERO); } }
    let sc = p.scale_argument(s); for i in 0..N { let w = cp[i] * s.g().powi(i as i32); close!(g, sc.coefficients()[i].g(), w, e * 2.0 * n * w.abs() + 1e-300, "scale_argument"); }
    // resize
    macro_rules! rs { ($k:literal) => {{ let r = p.try_resize::<$k>(); let lost = (0..N).any(|i| i >= $k && cp[i] != 0.0); ensure!(r.is_none() == lost, "try_resize::<{}> gave {r:?}", $k); if let Some(r) = r { for i in 0..$k { ensure!(r.coefficients()[i] == p.coefficient(i).unwrap_or(T::ZERO)); } } }}; } rs!(0); rs!(1); rs!(3); rs!(5); rs!(9);
    g.nontrivial_if(deg.unwrap_or(0) >= 2); Ok(())
}
fn algebra_all(g: &mut G) -> R { dims!(g, algebra, f64, 0, 1, 2, 3, 4, 5, 8, 13) }
fn algebra_all32(g: &mut G) -> R { dims!(g, algebra, f32, 1, 3, 5, 8) }

fn products<const A: usize, const B: usize, T: Fl>(g: &mut G) -> R {
    let (p, q) = (pgen::<A, T>(g), pgen::<B, T>(g)); g.note("p", &p); g.note("q", &q); let (cp, cq) = (c64(&p), c64(&q)); let e = T::EPS; let w = dmul(&up(&cp), &up(&cq)); let m = babs(&cp, &cq);
    macro_rules! mu { ($o:literal) => {{ let over = (0..A).any(|i| (0..B).any(|j| i + j >= $o && (p.coefficients()[i] * q.coefficients()[j]) != T::ZERO)); match p.multiply_into::<B, $o>(&q) { Ok(r) => { ensure!(!over, "a term past the end was dropped"); for k in 0..$o { let (v, t) = if k < w.len() { (w[k].f(), m[k]) } else { (0.0, 0.0) }; close!(g, r.coefficients()[k].g(), v, e * (A + B) as f64 * t + if T::IS32 { 1e-44 } else { 1e-300 }, "product coefficient {k}"); } } Err(x) => ensure!(x == E::DegreeOverflow && over, "{x:?} though everything fits") } }}; } mu!(0); mu!(2); mu!(4); mu!(6); mu!(12);
    // composition p(q(x))
    let mut acc: Vec<DD> = vec![]; let mut am: Vec<f64> = vec![]; for &k in cp.iter().rev() { acc = dmul(&acc, &up(&cq)); am = babs(&am, &cq); if acc.is_empty() { acc = vec![DD::ZERO]; am = vec![0.0]; } acc[0] += dd(k); am[0] += k.abs(); }
    macro_rules! co { ($o:literal) => {{ match p.compose_into::<B, $o>(&q) { Ok(r) => for k in 0..$o.max(acc.len()) { let (v, t) = if k < acc.len() { (acc[k].f(), am[k]) } else { (0.0, 0.0) }; let got = r.coefficient(k).map(|x| x.g()).unwrap_or(0.0); close!(g, got, v, e * 3.0 * (A * (A + B)) as f64 * t + if T::IS32 { 1e-42 } else { 1e-290 }, "composition coefficient {k}"); } Err(x) => { ensure!(x == E::DegreeOverflow); ensure!((0..am.len()).any(|k| k >= $o && am[k] > 0.0), "DegreeOverflow though everything fits"); } } }}; }
    if B > 0 { co!(1); co!(4); co!(25); }
    // division with remainder
    macro_rules! dv { ($q:literal, $r:literal) => {{ match p.divide::<B, $q, $r>(&q) {
        Ok((quo, rem)) => { let d = q.degree(); ensure!(d.is_some(), "divided by zero"); let d = d.unwrap(); for i in d..$r { ensure!(rem.coefficients()[i] == T::ZERO, "remainder degree reaches the divisor's"); } let (qq, rr) = (c64(&quo), c64(&rem)); let mut bk = dmul(&up(&qq), &up(&cq)); let mut bm = babs(&qq, &cq); let len = A.max($r).max(bk.len()); bk.resize(len, DD::ZERO); bm.resize(len, 0.0); for i in 0..$r { bk[i] += dd(rr[i]); bm[i] += rr[i].abs(); } for k in 0..len { let v = cp.get(k).copied().unwrap_or(0.0); close!(g, bk[k].f(), v, e * 4.0 * A as f64 * (bm[k] + v.abs()) + if T::IS32 { 1e-40 } else { 1e-290 }, "quotient * divisor + remainder, coefficient {k}"); } g.label("divided"); }
        Err(E::LeadingCoefficientZero) => ensure!(q.is_zero()),
        Err(E::DegreeOverflow) => { let (d, pd) = (q.degree().unwrap_or(0), p.degree().unwrap_or(0)); ensure!(!q.is_zero() && (pd + 1 > d + $q || d > $r), "DegreeOverflow with room to spare: degrees {pd}/{d}, quotient room {}, remainder room {}", $q, $r); }
        Err(x) => bad!("{x:?}") } }}; } dv!(8, 8); dv!(2, 2); dv!(1, 3); dv!(8, 0);
    g.nontrivial_if(p.degree().unwrap_or(0) >= 2 && q.degree().unwrap_or(0) >= 1); Ok(())
}
fn products_all(g: &mut G) -> R { dims2!(g, products, f64, (1, 2), (2, 2), (3, 2), (4, 3), (5, 2), (6, 4), (3, 5), (2, 0), (0, 2), (9, 7)) }
fn products_all32(g: &mut G) -> R { dims2!(g, products, f32, (3, 2), (4, 3), (5, 3), (3, 4)) }

fn build<const N: usize, T: Fl>(g: &mut G) -> R {
    let e = T::EPS; let n = N as f64;
    // from roots
    let k = g.size(0, N + 1); let roots: Vec<T> = (0..k).map(|_| T::c(g.f(-3.0, 3.0))).collect(); g.note("roots", &roots);
    match P::<N, T>::from_roots(&roots) { Ok(p) => { ensure!(k < N); let mut w = vec![DD::ONE]; let mut m = vec![1.0]; for r in &roots { w = dmul(&w, &[dd(-r.g()), DD::ONE]); m = babs(&m, &[r.g(), 1.0]); } for i in 0..N { let (v, t) = if i < w.len() { (w[i].f(), m[i]) } else { (0.0, 0.0) }; close!(g, p.coefficients()[i].g(), v, e * 2.0 * n * t, "from_roots coefficient {i}"); } } Err(x) => ensure!(x == E::DegreeOverflow && k >= N, "{x:?} for {k} roots in {N} coefficients") }
    if k > 0 { let mut r = roots.clone(); let i = g.below(k); r[i] = T::c(g.pick(&[f64::NAN, f64::INFINITY])); ensure!(P::<N, T>::from_roots(&r) == Err(E::NonFinite)); }
    // from a jet: its Taylor coefficients
    let j = Jet::<T, 4>::variable(T::c(g.f(-1.0, 1.0))); let jj = j * j + j; match P::<N, T>::from_jet(&jj) { Ok(p) => { ensure!(N >= 4); for i in 0..N { ensure!(p.coefficients()[i] == if i < 4 { jj.coeffs[i] } else { T::ZERO }); } } Err(x) => ensure!(x == E::DegreeOverflow && N < 4) }
    // nodes
    let (lo, w) = (g.f(-3.0, 3.0), g.log10(-1.0, 1.0)); let (a, b) = (T::c(lo), T::c(lo + w)); let nodes = P::<N, T>::chebyshev_nodes(a, b); for i in 0..N { let th = std::f64::consts::PI * (2.0 * (N - 1 - i) as f64 + 1.0) / (2.0 * n); close!(g, nodes[i].g(), (a.g() + b.g()) / 2.0 + (b.g() - a.g()) / 2.0 * th.cos(), e * 8.0 * (a.g().abs() + b.g().abs()), "Chebyshev node {i}"); if i > 0 { ensure!(nodes[i] > nodes[i - 1], "nodes are not increasing"); } }
    // interpolation through shuffled or jittered nodes, in any order
    let mut xs: [T; N] = if g.bool() { nodes } else { core::array::from_fn(|i| T::c(lo + w * (i as f64 + g.u(0.1, 0.9)) / n)) }; for i in 0..N { let j = i + g.below(N - i); xs.swap(i, j); } let ys: [T; N] = core::array::from_fn(|_| T::c(g.f(-2.0, 2.0))); g.note("xs", &xs); g.note("ys", &ys);
    let (mn, mx) = xs.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |s, x| (s.0.min(x.g()), s.1.max(x.g()))); let (ce, hw) = ((mn + mx) / 2.0, (mx - mn) / 2.0); let gapm = { let mut s: Vec<f64> = xs.iter().map(|x| x.g()).collect(); s.sort_by(|a, b| a.partial_cmp(b).unwrap()); (1..N).map(|i| s[i] - s[i - 1]).fold(f64::INFINITY, f64::min) }; if N > 1 && gapm < 1e-3 * hw { discard!(); }
    let lag = |x: f64, i: usize| { let mut v = DD::ONE; for j in 0..N { if j != i { v = v * (dd(x) - dd(xs[j].g())) / (dd(xs[i].g()) - dd(xs[j].g())); } } v };
    // condition: the coefficients in x carry the shift's amplification, and divided differences of close nodes cancel
    let amp = if N > 1 { ((ce.abs() + hw) / hw * 2.0).powi(N as i32 - 1) * (0..N).map(|i| { let mut d = 1.0; for j in 0..N { if j != i { d *= ((xs[i].g() - xs[j].g()) / hw).abs(); } } 2f64.powi(N as i32) / d }).sum::<f64>() * n } else { 1.0 };
    match P::<N, T>::from_points(&xs, &ys) { Ok(p) => for t in 0..N + 3 { let x = if t < N { xs[t].g() } else { rnd::<T>(g.f(mn.min(0.0), mx.max(0.1)).clamp(mn.min(mx), mx.max(mn))) }; let mut w = DD::ZERO; for i in 0..N { w += lag(x, i) * dd(ys[i].g()); } close!(g, hv(&c64(&p), x).0, w.f(), e * 8.0 * amp * 2.0, "interpolant at {x}"); if N == 0 { break; } }, Err(x) => bad!("from_points: {x:?}") }
    if N >= 2 { let mut d = xs; let (i, j) = (g.below(N), g.below(N - 1)); let j = if j >= i { j + 1 } else { j }; d[i] = d[j]; ensure!(P::<N, T>::from_points(&d, &ys) == Err(E::DuplicateNode), "duplicate nodes accepted"); ensure!(P::<N, T>::from_points(&[xs[0]; N], &ys) == Err(E::DuplicateNode)); }
    if N > 0 { let i = g.below(N); let bad_v = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])); let mut d = xs; d[i] = bad_v; ensure!(P::<N, T>::from_points(&d, &ys) == Err(E::NonFinite)); let mut d = ys; d[i] = bad_v; ensure!(P::<N, T>::from_points(&xs, &d) == Err(E::NonFinite)); }
    g.nontrivial_if(N > 2); Ok(())
}
fn build_all(g: &mut G) -> R { dims!(g, build, f64, 1, 2, 3, 4, 5, 7) }
fn build_all32(g: &mut G) -> R { dims!(g, build, f32, 2, 3, 4) }
/// Least squares: the fitted curve is the closest polynomial, against double-double normal equations on the same normalized nodes.
fn fit<const N: usize, const S: usize>(g: &mut G) -> R {
    let (lo, w) = (g.f(-3.0, 3.0), g.log10(-1.0, 1.0)); let xs: [f64; S] = core::array::from_fn(|i| lo + w * (i as f64 + g.u(0.0, 0.9)) / S as f64); let exact = g.chance(1, 3); let c: Vec<f64> = g.vec(N, -2.0, 2.0); let ys: [f64; S] = core::array::from_fn(|i| if exact { hv(&c, xs[i]).0 } else { g.f(-2.0, 2.0) }); g.note("xs", &xs); g.note("ys", &ys);
    if S < N { ensure!(P::<N>::fit_least_squares::<S>(&xs, &ys) == Err(E::TooFewSamples)); return Ok(()); }
    let (mn, mx) = xs.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |s, x| (s.0.min(*x), s.1.max(*x))); let (ce, hw) = ((mn + mx) / 2.0, (mx - mn) / 2.0); if S < 2 { ensure!(P::<N>::fit_least_squares::<S>(&xs, &ys) == Err(E::DuplicateNode)); return Ok(()); }
    let v = DM::from_fn(S, N, |i, j| ((xs[i] - ce) / hw).powi(j as i32)); let at = v.t().mul(&v); let k = match checks::lin::cond(&at) { Some(k) if k.0 < 1e10 => k.0, _ => discard!() }; let y = DM::from_fn(S, 1, |i, _| ys[i]); let sol = at.solve(&v.t().mul(&y)).unwrap();
    let p = match P::<N>::fit_least_squares::<S>(&xs, &ys) { Ok(p) => p, Err(x) => bad!("{x:?}") }; let amp = ((ce.abs() + hw) / hw * 2.0).powi(N as i32 - 1); let my = ys.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    for t in 0..5 { let x = if t < 2 { [mn, mx][t] } else { g.f(mn, mx) }; let u = (x - ce) / hw; let w = (0..N).map(|j| sol.f(j, 0) * u.powi(j as i32)).sum::<f64>(); close!(g, p.evaluate(x), w, 1e-15 * 200.0 * (k.sqrt() * 10.0 + k * 1e-2) * amp * (my + sol.max_abs()), "fitted curve at {x}"); }
    let mut d = xs; let mut e2 = ys; let i = g.below(S); let b = g.pick(&[f64::NAN, f64::INFINITY]); d[i] = b; e2[i] = b; ensure!(P::<N>::fit_least_squares::<S>(&d, &ys) == Err(E::NonFinite)); ensure!(P::<N>::fit_least_squares::<S>(&xs, &e2) == Err(E::NonFinite)); ensure!(P::<N>::fit_least_squares::<S>(&[xs[0]; S], &ys) == Err(E::DuplicateNode));
    g.nontrivial_if(S > N && N > 1); Ok(())
}
fn fit_all(g: &mut G) -> R { match g.below(8) { 0 => fit::<1, 1>(g), 1 => fit::<1, 5>(g), 2 => fit::<2, 2>(g), 3 => fit::<2, 6>(g), 4 => fit::<3, 8>(g), 5 => fit::<4, 6>(g), 6 => fit::<4, 3>(g), _ => fit::<5, 12>(g) } }
/// Hermite constructions meet their end conditions.
fn ends<T: Fl>(g: &mut G) -> R {
    let span = T::c(g.log10(-1.0, 1.0)); let h = span.g(); let e = T::EPS; let v: [T; 4] = core::array::from_fn(|_| T::c(g.f(-3.0, 3.0))); g.note("span,v", &(span, v));
    let p = match P::<4, T>::from_endpoint_derivatives(v[0], v[1], v[2], v[3], span) { Ok(p) => p, Err(x) => bad!("{x:?}") }; let c = c64(&p); let m = v[0].g().abs() + v[2].g().abs() + (v[1].g().abs() + v[3].g().abs()) * h;
    // the parameter runs 0..1 over the span, so slopes are per unit of span
    close!(g, hv(&c, 0.0).0, v[0].g(), 0.0, "start value"); close!(g, hv(&c, 1.0).0, v[2].g(), e * 30.0 * m, "end value"); close!(g, hv(&dif(&c), 0.0).0 / h, v[1].g(), e * 4.0 * v[1].g().abs(), "start slope"); close!(g, hv(&dif(&c), 1.0).0 / h, v[3].g(), e * 60.0 * m / h, "end slope");
    let (s, t): ([T; 4], [T; 4]) = (core::array::from_fn(|_| T::c(g.f(-3.0, 3.0))), core::array::from_fn(|_| T::c(g.f(-3.0, 3.0)))); g.note("start,end", &(s, t)); let p = match P::<8, T>::from_endpoint_derivatives(&s, &t, span) { Ok(p) => p, Err(x) => bad!("septic: {x:?}") }; let mut c = c64(&p); let m: f64 = (0..4).map(|k| (s[k].g().abs() + t[k].g().abs()) * h.powi(k as i32)).sum();
    for k in 0..4 { close!(g, hv(&c, 0.0).0 / h.powi(k as i32), s[k].g(), e * 3e4 * m / h.powi(k as i32), "start derivative {k}"); close!(g, hv(&c, 1.0).0 / h.powi(k as i32), t[k].g(), e * 3e6 * m / h.powi(k as i32), "end derivative {k}"); c = dif(&c); }
    let z = T::c(g.pick(&[0.0, -0.0, -1.0])); ensure!(P::<4, T>::from_endpoint_derivatives(v[0], v[1], v[2], v[3], z) == Err(E::SpanNotPositive)); ensure!(P::<8, T>::from_endpoint_derivatives(&s, &t, z) == Err(E::SpanNotPositive));
    let b = T::c(g.pick(&[f64::NAN, f64::INFINITY])); let k = g.below(5); let mut a = [v[0], v[1], v[2], v[3], span]; a[k] = b; ensure!(P::<4, T>::from_endpoint_derivatives(a[0], a[1], a[2], a[3], a[4]) == Err(E::NonFinite)); let mut s2 = s; let mut t2 = t; if g.bool() { s2[g.below(4)] = b } else { t2[g.below(4)] = b } ensure!(P::<8, T>::from_endpoint_derivatives(&s2, &t2, span) == Err(E::NonFinite)); ensure!(P::<8, T>::from_endpoint_derivatives(&s, &t, b) == Err(E::NonFinite));
    g.nontrivial(); Ok(())
}
fn ends_all(g: &mut G) -> R { if g.chance(1, 3) { ends::<f32>(g) } else { ends::<f64>(g) } }

fn piecewise<const D: usize, T: Fl>(g: &mut G) -> R {
    const MAXP: usize = 5; let n = g.size(1, MAXP); let pieces: Vec<[P<4, T>; D]> = (0..n).map(|_| core::array::from_fn(|_| P::new(core::array::from_fn(|_| T::c(g.f(-2.0, 2.0)))))).collect(); let spans: Vec<T> = (0..n).map(|_| T::c(if g.bool() { g.pick(&[1.0, 0.5, 2.0]) } else { g.log10(-1.0, 1.0) })).collect(); g.note("spans", &spans); g.note("pieces", &pieces);
    let c = match PW::<MAXP, 4, D, T>::try_from_pieces(&pieces, &spans) { Ok(c) => c, Err(x) => bad!("{x:?}") }; let e = T::EPS; ensure!(c.piece_count() == n && !c.is_empty()); let mut knots = vec![0.0]; let mut t = T::ZERO; for s in &spans { t += *s; knots.push(t.g()); } ensure!(c.total_span() == t); for i in 0..n + 2 { ensure!(c.span(i) == spans.get(i).copied()); for a in 0..D + 1 { ensure!(c.piece_polynomial(i, a) == pieces.get(i).and_then(|p| p.get(a))); } }
    let tot = t.g();
    for _ in 0..4 {
        let x = T::c(match g.below(5) { 0 => g.f(-1.0, 0.0), 1 => tot + g.f(0.0, 1.0), 2 => { let k = g.below(n + 1); knots[k] } _ => g.u(0.0, 1.0) * tot }); let xv = x.g();
        let (k, u) = if xv <= 0.0 { (0, 0.0) } else if xv >= tot { (n - 1, 1.0) } else { let k = (0..n).find(|&k| xv < knots[k + 1]).unwrap(); (k, (xv - knots[k]) / spans[k].g()) }; let h = spans[k].g(); let ue = e * 4.0 * (1.0 + tot / h);
        let v = c.evaluate(x).map_err(|e| Fail::Bad(format!("{e:?}")))?; let d: [Vector<D, T>; 6] = c.evaluate_with_derivatives(x).map_err(|e| Fail::Bad(format!("{e:?}")))?;
        for a in 0..D { let mut q = c64(&pieces[k][a]); ensure!(d[0][a] == v[a] || (d[0][a] - v[a]).g().abs() <= e * 20.0, "evaluate and evaluate_with_derivatives differ"); for o in 0..6 { let (w, m) = hv(&q, u); let m2 = hv(&dif(&q).iter().map(|x| x.abs()).collect::<Vec<_>>(), u.abs() + ue).0; let tol = (e * 40.0 * m + m2 * ue * 3.0) / h.powi(o); close!(g, d[o as usize][a].g(), w / h.powi(o), tol + e * 20.0 * (w / h.powi(o)).abs(), "piece {k}, axis {a}, derivative {o} at {xv}"); let nd = c.nth_derivative(o as usize).evaluate(x).map_err(|e| Fail::Bad(format!("{e:?}")))?; close!(g, nd[a].g(), w / h.powi(o), tol * 2.0 + e * 40.0 * (w / h.powi(o)).abs(), "nth_derivative({o}) at {xv}"); q = dif(&q); } ensure!(c.derivative() == c.nth_derivative(1)); }
    }
    // integral over any range, clamped to the curve, additive and antisymmetric
    let lim = |g: &mut G| T::c(match g.below(4) { 0 => g.f(-1.0, tot + 1.0), 1 => { let k = g.below(n + 1); knots[k] } _ => g.u(0.0, tot) }); let (a, b) = (lim(g), lim(g)); g.note("a,b", &(a, b)); let got = c.definite_integral(a, b).map_err(|e| Fail::Bad(format!("{e:?}")))?; let back = c.definite_integral(b, a).map_err(|e| Fail::Bad(format!("{e:?}")))?;
    for ax in 0..D { let cum = |x: f64| { let x = x.clamp(0.0, tot); let mut s = 0.0; for k in 0..n { let u = ((x - knots[k]) / spans[k].g()).clamp(0.0, 1.0); let q = c64(&pieces[k][ax]); let anti: Vec<f64> = (0..4).map(|i| q[i] / (i as f64 + 1.0)).collect(); s += hv(&anti, u).0 * u * spans[k].g(); } s }; close!(g, got[ax].g(), cum(b.g()) - cum(a.g()), e * 60.0 * 8.0 * (1.0 + tot), "definite_integral {a:?}..{b:?}, axis {ax}"); close!(g, back[ax].g(), -got[ax].g(), 0.0, "reversed integral"); }
    // rejections
    ensure!(PW::<MAXP, 4, D, T>::try_from_pieces(&[], &[]) == Err(E::Empty)); ensure!(PW::<MAXP, 4, D, T>::try_from_pieces(&pieces, &[]) == Err(E::Empty)); ensure!(n == 1 || PW::<MAXP, 4, D, T>::try_from_pieces(&pieces, &spans[1..]) == Err(E::CapacityExceeded)); if n > 2 { ensure!(PW::<2, 4, D, T>::try_from_pieces(&pieces, &spans) == Err(E::CapacityExceeded)); } let mut s2 = spans.clone(); let k = g.below(n); s2[k] = T::c(g.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY])); ensure!(PW::<MAXP, 4, D, T>::try_from_pieces(&pieces, &s2) == Err(E::SpanNotPositive));
    g.nontrivial_if(n > 1); Ok(())
}
fn piecewise_all(g: &mut G) -> R { if g.chance(1, 4) { dims!(g, piecewise, f32, 1, 2) } else { dims!(g, piecewise, f64, 1, 2, 3) } }

type Map = BTreeMap<Vec<u32>, DD>;
fn mgen<const V: usize, const K: usize>(g: &mut G, int: bool) -> MP<V, K> { let n = g.size(0, K); let mut p = MP::new(); for _ in 0..n { let c = if int { g.int(-4, 4) as f64 } else { g.f(-3.0, 3.0) }; let ex: [u32; V] = core::array::from_fn(|_| g.raw(4) as u32); let _ = p.push(MT::new(c, ex)); } p }
fn map<const V: usize, const K: usize>(p: &MP<V, K>) -> Map { let mut m = Map::new(); for t in p.terms() { *m.entry(t.exponents().to_vec()).or_insert(DD::ZERO) += dd(t.coefficient()); } m }
fn mval(m: &Map, x: &[f64]) -> (f64, f64) { let (mut s, mut a) = (DD::ZERO, 0.0); for (e, c) in m { let mut t = *c; for (i, &k) in e.iter().enumerate() { t = t * dd(x[i]).powi(k as i32); } s += t; a += t.f().abs(); } (s.f(), a) }
fn same(g: &mut G, got: &Map, want: &Map, tol: f64, what: &str) -> R { for k in got.keys().chain(want.keys()) { close!(g, got.get(k).map(|x| x.f()).unwrap_or(0.0), want.get(k).map(|x| x.f()).unwrap_or(0.0), tol, "{what}: coefficient of {k:?}"); } Ok(()) }
fn multi<const V: usize>(g: &mut G) -> R {
    let int = g.bool(); let p = mgen::<V, 6>(g, int); let q = mgen::<V, 5>(g, int); let x: [f64; V] = g.arr(-2.0, 2.0); g.note("p", &p.terms()); g.note("q", &q.terms()); g.note("x", &x); let (mp, mq) = (map(&p), map(&q)); let e = f64::EPSILON;
    ensure!(p.len() == p.terms().len() && p.is_empty() == (p.len() == 0) && p.is_finite()); ensure!(MP::<V, 6>::try_from_terms(p.terms()) == Ok(p)); ensure!(p.len() <= 2 || MP::<V, 2>::try_from_terms(p.terms()) == Err(E::CapacityExceeded));
    let abs = |p: &[MT<V>], x: &[f64]| p.iter().map(|t| { let mut v = t.coefficient().abs(); for i in 0..V { v *= x[i].abs().powi(t.exponents()[i] as i32); } v }).sum::<f64>();
    close!(g, p.evaluate(&x), mval(&mp, &x).0, e * 30.0 * abs(p.terms(), &x), "evaluate");
    let grad = p.gradient_at(&x);
    for v in 0..V {
        let mut want = Map::new(); for (k, c) in &mp { if k[v] > 0 { let mut k2 = k.clone(); k2[v] -= 1; *want.entry(k2).or_insert(DD::ZERO) += *c * dd(k[v] as f64); } }
        let d = p.partial_derivative(v); ensure!(d.is_ok()); let d = d.unwrap(); same(g, &map(&d), &want, e * 60.0, "partial_derivative")?; ensure!(d.len() <= p.len()); close!(g, grad[v], mval(&want, &x).0, e * 60.0 * abs(d.terms(), &x), "gradient_at[{v}]");
        let a = p.partial_antiderivative(v).map_err(|e| Fail::Bad(format!("{e:?}")))?; same(g, &map(&a.partial_derivative(v).unwrap()), &mp, e * 30.0, "derivative of the antiderivative")?; for t in a.terms() { ensure!(t.exponents()[v] > 0, "an antiderivative carries a constant"); }
        let s = p.substitute(v, x[v]).map_err(|e| Fail::Bad(format!("{e:?}")))?; let mut y = x; y[v] = g.f(-5.0, 5.0); close!(g, s.evaluate(&y), mval(&mp, &x).0, e * 60.0 * abs(p.terms(), &x) + 1e-300, "substitute variable {v}"); for t in s.terms() { ensure!(t.exponents()[v] == 0 && t.coefficient() != 0.0); } let ks = map(&s); ensure!(ks.len() == s.len(), "substitute left like terms unmerged");
        ensure!(p.degree_in(v) == p.terms().iter().map(|t| t.exponents()[v]).max(), "degree_in({v})");
    }
    ensure!(p.total_degree() == p.terms().iter().map(|t| t.exponents().iter().sum::<u32>()).max()); let o = V + g.below(2); ensure!(p.degree_in(o).is_none() && p.partial_derivative(o) == Err(E::VariableOutOfRange) && p.partial_antiderivative(o) == Err(E::VariableOutOfRange) && p.substitute(o, 1.0) == Err(E::VariableOutOfRange));
    // like terms: one each, none zero, order of first appearance
    let mut c = p; c.collect_like_terms(); same(g, &map(&c), &mp, e * 30.0, "collect_like_terms")?; ensure!(map(&c).len() == c.len()); ensure!(c.terms().iter().all(|t| t.coefficient() != 0.0)); let first: Vec<usize> = c.terms().iter().map(|t| p.terms().iter().position(|u| u.exponents() == t.exponents()).unwrap_or(99)).collect(); ensure!(first.windows(2).all(|w| w[0] < w[1]), "terms were reordered"); if int { let nz = mp.values().filter(|v| v.f() != 0.0).count(); ensure!(c.len() == nz, "{} terms, {nz} are non-zero", c.len()); }
    // sums and products
    let mut ws = mp.clone(); for (k, v) in &mq { *ws.entry(k.clone()).or_insert(DD::ZERO) += *v; } match p.add_into::<5, 8>(&q) { Ok(s) => { ensure!(p.len() + q.len() <= 8); same(g, &map(&s), &ws, e * 60.0, "add_into")?; ensure!(map(&s).len() == s.len() && s.terms().iter().all(|t| t.coefficient() != 0.0)); } Err(x) => ensure!(x == E::CapacityExceeded && p.len() + q.len() > 8) }
    let mut wp = Map::new(); for (k, v) in &mp { for (l, u) in &mq { let kk: Vec<u32> = k.iter().zip(l).map(|(a, b)| a + b).collect(); *wp.entry(kk).or_insert(DD::ZERO) += *v * *u; } } match p.multiply_into::<5, 20>(&q) { Ok(s) => { ensure!(p.len() * q.len() <= 20); same(g, &map(&s), &wp, e * 300.0, "multiply_into")?; ensure!(map(&s).len() == s.len() && s.terms().iter().all(|t| t.coefficient() != 0.0)); } Err(x) => ensure!(x == E::CapacityExceeded && p.len() * q.len() > 20) }
    // push: full or non-finite leaves the polynomial as it was
    let mut f = MP::<V, 6>::try_from_terms(p.terms()).unwrap(); let bad_c = g.pick(&[f64::NAN, f64::INFINITY]); ensure!(f.push(MT::new(bad_c, [1; V])) == Err(E::NonFinite) && f == p); while f.len() < 6 { ensure!(f.push(MT::new(1.0, [2; V])).is_ok()); } let keep = f; ensure!(f.push(MT::new(1.0, [2; V])) == Err(E::CapacityExceeded) && f == keep); ensure!(MP::<V, 2>::try_from_array([MT::new(1.0, [0; V]), MT::new(bad_c, [0; V])]) == Err(E::NonFinite)); ensure!(MP::<V, 2>::try_from_array([MT::new(1.0, [0; V]), MT::new(2.0, [1; V])]).map(|p| p.len()) == Ok(2));
    if V > 0 { let big = MP::<V, 1>::try_from_terms(&[MT::new(1.0, [u32::MAX; V])]).unwrap(); ensure!(big.partial_antiderivative(0) == Err(E::DegreeOverflow)); ensure!(big.multiply_into::<1, 1>(&MP::try_from_terms(&[MT::new(1.0, [1; V])]).unwrap()) == Err(E::DegreeOverflow)); ensure!(big.total_degree() == Some(u32::MAX)); let one = [1.0; V]; ensure!(big.evaluate(&one) == 1.0); }
    g.nontrivial_if(p.len() > 1 && q.len() > 1); Ok(())
}
fn multi_all(g: &mut G) -> R { match g.below(3) { 0 => multi::<1>(g), 1 => multi::<2>(g), _ => multi::<3>(g) } }
fn bridge(g: &mut G) -> R {
    let p = mgen::<1, 6>(g, false); g.note("p", &p.terms()); let mp = map(&p); match p.to_univariate::<3>() { Ok(u) => { ensure!(p.terms().iter().all(|t| t.exponents()[0] < 3)); for i in 0..3 { close!(g, u.coefficients()[i], mp.get(&vec![i as u32]).map(|v| v.f()).unwrap_or(0.0), 1e-14, "to_univariate"); } } Err(x) => ensure!(x == E::DegreeOverflow && p.terms().iter().any(|t| t.exponents()[0] >= 3)) }
    let u = pgen::<5, f64>(g); g.note("u", &u); let nz = u.coefficients().iter().filter(|c| **c != 0.0).count(); match MP::<1, 3>::from_univariate(&u) { Ok(m) => { ensure!(m.len() == nz && nz <= 3); ensure!(m.to_univariate::<5>() == Ok(u)); } Err(x) => ensure!(x == E::CapacityExceeded && nz > 3) } ensure!(MP::<1, 5>::from_univariate(&u).unwrap().to_univariate::<5>() == Ok(u));
    g.nontrivial_if(nz > 1); Ok(())
}
fn main() {
    run("C10", &["references are computed in double-double with running term magnitudes for the tolerance", "interpolation nodes are at least 0.1% of the half-width apart; fitting problems have a normal-equation condition below 1e10"], &[
        law!("algebra", 60_000, algebra_all, "degree at least two"), law!("algebra_f32", 20_000, algebra_all32, "degree at least two"), law!("products", 60_000, products_all, "degrees at least two and one"), law!("products_f32", 20_000, products_all32, "degrees at least two and one"),
        law!("build", 40_000, build_all, "more than two coefficients"), law!("build_f32", 15_000, build_all32, "more than two coefficients"), law!("fit", 20_000, fit_all, "overdetermined, more than one coefficient"), law!("endpoints", 20_000, ends_all, "all"),
        law!("piecewise", 25_000, piecewise_all, "more than one piece"), law!("multivariate", 30_000, multi_all, "more than one term in both"), law!("bridge", 10_000, bridge, "more than one coefficient"),
    ]);
}
