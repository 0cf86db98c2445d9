//! C02: derivative operators return the right partial in the right slot; Taylor approximations.
use checks::prog::{self, Prog, PF, VF};
use checks::util::*;
use multicalc::approximation::{LinearApproximator, QuadraticApproximator};
use multicalc::error::DiffError;
use multicalc::numerical_derivative::*;
use multicalc::{Numeric, ScalarFn, ScalarFnN, VectorFn};
use vk::dd::DD;
use vk::*;

fn gen_fn(g: &mut G, x: &[f64], maxlen: usize, ops: &[prog::Op]) -> Prog { let len = g.size(x.len(), maxlen.max(x.len())); let p = prog::gen(g, x, len, ops, 1e-6); g.note("f", &p.steps); p }
fn pt<const N: usize>(g: &mut G) -> [f64; N] { let x = g.arr(-2.5, 2.5); g.note("x", &x); x }

fn auto_single(g: &mut G) -> R {
    let [x] = pt::<1>(g); let p = gen_fn(g, &[x], 5, prog::SMOOTH); let f = PF(p.clone());
    let ad = if g.bool() { AutoDiffSingle::<f64>::new() } else { AutoDiffSingle::default() };
    for n in 1..=6usize {
        let Some((w, t)) = prog::nth(&p, x, n, f64::EPSILON) else { break };
        let got = match ad.differentiate(n, &f, x) { Ok(v) => v, Err(e) => bad!("order {n}: {e:?}") };
        close!(g, got, w, t, "order {n}");
        if n == 1 { close!(g, ad.first_derivative(&f, x).unwrap(), w, t, "first"); close!(g, derivative(&f, x), w, t, "derivative()"); }
        if n == 2 { close!(g, ad.second_derivative(&f, x).unwrap(), w, t, "second"); close!(g, second_derivative(&f, x), w, t, "second_derivative()"); g.nontrivial_if(w.abs() > 1e-6); }
    }
    ensure!(ad.differentiate(0, &f, x) == Err(DiffError::OrderZero), "order 0");
    let big = 7 + g.below(100000); ensure!(ad.differentiate(big, &f, x) == Err(DiffError::OrderUnsupported), "order {big}");
    Ok(())
}
fn auto_single32(g: &mut G) -> R {
    let [x] = pt::<1>(g); let x = rnd::<f32>(x); let p = prog::gen(g, &[x], 4, prog::SMOOTH, 1e-2); let f = PF(p.clone()); g.note("f", &p.steps);
    let ad = AutoDiffSingle::<f32>::new();
    for n in 1..=4usize {
        let Some((w, t)) = prog::nth(&p, x, n, f32::EPSILON as f64) else { break };
        if w.abs() > 1e6 { break; }
        close!(g, ad.differentiate(n, &f, x as f32).unwrap() as f64, w, t, "order {n}"); g.nontrivial_if(n == 2 && w != 0.0);
    }
    Ok(())
}
fn multi_n<const N: usize>(g: &mut G) -> R {
    let x = pt::<N>(g); let p = gen_fn(g, &x, 6, prog::SMOOTH); let f = PF(p.clone()); let ad = AutoDiffMulti::<f64>::new();
    let (mut i, mut j, mut k) = (g.below(N), g.below(N), g.below(N));
    if N > 1 { for _ in 0..12 { if i != j && prog::partial(&p, &x, &[i, j], f64::EPSILON).is_some_and(|(w, _)| w.abs() > 1e-9) { break; } (i, j, k) = (g.below(N), g.below(N), g.below(N)); } } g.note("idx", &(i, j, k));
    if let Some((w, t)) = prog::partial(&p, &x, &[i], f64::EPSILON) {
        close!(g, ad.differentiate(&f, &[i], &x).unwrap(), w, t, "d/d{i}"); close!(g, ad.first_partial_derivative(&f, i, &x).unwrap(), w, t, "first_partial"); close!(g, partial(&f, i, &x).unwrap(), w, t, "partial()");
        if let Some((w, t)) = prog::partial(&p, &x, &[i, j], f64::EPSILON) {
            close!(g, ad.differentiate(&f, &[i, j], &x).unwrap(), w, t, "d2/d{i}d{j}"); close!(g, ad.second_partial_derivative(&f, &[j, i], &x).unwrap(), w, t, "symmetry");
            g.nontrivial_if(w.abs() > 1e-9 && (i != j || N == 1)); g.label_if(i != j && w != 0.0, "mixed nonzero");
            if let Some((w, t)) = prog::partial(&p, &x, &[i, j, k], f64::EPSILON) { close!(g, ad.differentiate(&f, &[i, j, k], &x).unwrap(), w, t, "d3/d{i}d{j}d{k}"); g.label_if(i != j && j != k && i != k && w != 0.0, "three distinct variables"); }
        }
    }
    let bad = N + g.below(1000);
    ensure!(ad.differentiate(&f, &[bad], &x) == Err(DiffError::IndexOutOfRange) && partial(&f, bad, &x) == Err(DiffError::IndexOutOfRange)); ensure!(ad.differentiate(&f, &[i, bad], &x) == Err(DiffError::IndexOutOfRange)); ensure!(ad.differentiate(&f, &[i, j, bad], &x) == Err(DiffError::IndexOutOfRange));
    ensure!(ad.differentiate::<_, N, 0>(&f, &[], &x) == Err(DiffError::OrderZero)); ensure!(ad.differentiate(&f, &[i, j, k, i], &x) == Err(DiffError::OrderUnsupported)); ensure!(ad.differentiate(&f, &[i, j, k, i, j], &x) == Err(DiffError::OrderUnsupported));
    let h = Hessian::new().evaluate(&f, &x).unwrap();
    for a in 0..N { for b in 0..N { ensure!(h[(a, b)] == h[(b, a)] || h[(a, b)].is_nan(), "hessian symmetric"); if let Some((w, t)) = prog::partial(&p, &x, &[a, b], f64::EPSILON) { close!(g, h[(a, b)], w, t, "hessian[{a},{b}]"); } } }
    Ok(())
}
fn auto_multi(g: &mut G) -> R { match g.below(6) { 0 => multi_n::<1>(g), 1 => multi_n::<2>(g), 2 => multi_n::<3>(g), 3 => multi_n::<4>(g), 4 => multi_n::<6>(g), _ => multi_n::<9>(g) } }

fn jac_nm<const N: usize, const M: usize>(g: &mut G) -> R {
    let x = pt::<N>(g); let fs: [Prog; M] = core::array::from_fn(|_| gen_fn(g, &x, 4, prog::SMOOTH)); let f = VF(fs.clone());
    let j = if g.bool() { Jacobian::new() } else { Jacobian::default() };
    let m = j.evaluate(&f, &x).unwrap(); let v = j.evaluate_on_heap(&f, &x).unwrap();
    ensure!(v.len() == M && v.iter().all(|r| r.len() == N), "heap shape");
    for r in 0..M { for c in 0..N {
        ensure!(m[(r, c)] == v[r][c] || m[(r, c)].is_nan(), "heap and stack differ at {r},{c}");
        if let Some((w, t)) = prog::partial(&fs[r], &x, &[c], f64::EPSILON) { close!(g, m[(r, c)], w, t, "J[{r},{c}]"); g.nontrivial_if(w != 0.0); }
    } }
    let c = g.below(N); let col = AutoDiffMulti::<f64>::new().jacobian_column(&f, c, &x).unwrap();
    for r in 0..M { ensure!(col[r] == m[(r, c)] || col[r].is_nan(), "column"); }
    ensure!(AutoDiffMulti::<f64>::new().jacobian_column(&f, N + g.below(50), &x) == Err(DiffError::IndexOutOfRange));
    // f32
    let xf: [f32; N] = core::array::from_fn(|i| x[i] as f32); let m32 = Jacobian::from_derivator(AutoDiffMulti::<f32>::new()).evaluate(&f, &xf).unwrap();
    let xr: [f64; N] = core::array::from_fn(|i| xf[i] as f64);
    for r in 0..M { for c in 0..N { if let Some((w, t)) = prog::partial(&fs[r], &xr, &[c], f32::EPSILON as f64) { if w.abs() < 1e5 { close!(g, m32[(r, c)] as f64, w, t, "J32[{r},{c}]"); } } } }
    Ok(())
}
fn jacobian(g: &mut G) -> R { match g.below(10) { 8 => jac_nm::<8, 2>(g), 9 => jac_nm::<2, 9>(g), 0 => jac_nm::<1, 1>(g), 1 => jac_nm::<1, 3>(g), 2 => jac_nm::<3, 1>(g), 3 => jac_nm::<2, 3>(g), 4 => jac_nm::<4, 2>(g), 5 => jac_nm::<2, 2>(g), 6 => jac_nm::<3, 5>(g), _ => jac_nm::<5, 3>(g) } }

/// A dense polynomial in N variables, per-variable degree <= 3, as exponents and coefficients.
#[derive(Clone, Debug)]
struct Poly<const N: usize>(Vec<(f64, [i32; N])>);
impl<const N: usize> ScalarFnN<N> for Poly<N> { fn eval<S: Numeric>(&self, x: &[S; N]) -> S { let mut a = S::ZERO; for (c, e) in &self.0 { let mut t = S::from_f64(*c); for i in 0..N { t *= x[i].powi(e[i]); } a += t; } a } }
impl ScalarFn for Poly<1> { fn eval<S: Numeric>(&self, x: S) -> S { <Self as ScalarFnN<1>>::eval(self, &[x]) } }
#[derive(Clone, Debug)]
struct PolyV<const N: usize, const M: usize>([Poly<N>; M]);
impl<const N: usize, const M: usize> VectorFn<N, M> for PolyV<N, M> { fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] { core::array::from_fn(|i| self.0[i].eval(x)) } }
impl<const N: usize> Poly<N> {
    fn gen(g: &mut G) -> Self { let n = g.size(1, 5); Poly((0..n).map(|_| (g.f(-3.0, 3.0), core::array::from_fn(|_| g.int(0, 3) as i32))).collect()) }
    fn dd(&self, x: &[DD; N]) -> DD { let mut a = DD::ZERO; for (c, e) in &self.0 { let mut t = DD::new(*c); for i in 0..N { t = t * x[i].powi(e[i]); } a += t; } a }
    fn mag(&self, x: &[f64; N]) -> f64 { self.0.iter().map(|(c, e)| { let mut t = c.abs(); for i in 0..N { t *= x[i].abs().powi(e[i]); } t }).sum() }
}
/// The divided difference operator of the documented stencil, in double-double: index idx[k] uses steps[k].
fn stencil<const N: usize>(p: &Poly<N>, x: [DD; N], idx: &[usize], steps: &[DD], mode: FiniteDifferenceMode) -> DD {
    if idx.is_empty() { return p.dd(&x); }
    let (lo, hi, den) = match mode { FiniteDifferenceMode::Forward => (0.0, 1.0, 1.0), FiniteDifferenceMode::Backward => (-1.0, 0.0, 1.0), FiniteDifferenceMode::Central => (-1.0, 1.0, 2.0) };
    let (mut a, mut b) = (x, x); a[idx[0]] += steps[0] * DD::new(lo); b[idx[0]] += steps[0] * DD::new(hi);
    (stencil(p, b, &idx[1..], &steps[1..], mode) - stencil(p, a, &idx[1..], &steps[1..], mode)) / (steps[0] * DD::new(den))
}
fn perms(n: usize) -> Vec<Vec<usize>> { match n { 0 => vec![vec![]], 1 => vec![vec![0]], 2 => vec![vec![0, 1], vec![1, 0]], _ => vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]] } }
fn fd_cfg(g: &mut G) -> (f64, FiniteDifferenceMode, f64) {
    let m = g.pick(&[FiniteDifferenceMode::Central, FiniteDifferenceMode::Forward, FiniteDifferenceMode::Backward]);
    let h = g.pick(&[0.5, 0.25, 0.125, 0.01, 1e-3, 0.07]); let mult = g.pick(&[1.0, 2.0, 10.0, 0.5, 3.0]);
    g.note("cfg", &(m, h, mult)); (h, m, mult)
}
fn fd_multi<const N: usize>(g: &mut G) -> R {
    let x = pt::<N>(g); let p = Poly::<N>::gen(g); g.note("poly", &p); let (h, mode, mult) = fd_cfg(g);
    let fd = FiniteDifferenceMulti::from_parameters(h, mode, mult);
    ensure!(fd.config == FiniteDifferenceConfig { step_size: h, method: mode, step_size_multiplier: mult } && fd.config == FiniteDifferenceConfig::from_parameters(h, mode, mult), "config");
    let idx = [g.below(N), g.below(N), g.below(N)]; g.note("idx", &idx);
    for n in 1..=3usize {
        let got = match n { 1 => fd.differentiate(&p, &[idx[0]], &x), 2 => fd.differentiate(&p, &[idx[0], idx[1]], &x), _ => fd.differentiate(&p, &idx, &x) }.map_err(|e| Fail::Bad(format!("{e:?}")))?;
        let steps: Vec<DD> = (0..n).map(|k| DD::new(h) * DD::new(mult).powi(k as i32)).collect();
        let vals: Vec<f64> = perms(n).iter().map(|pm| { let s: Vec<DD> = pm.iter().map(|&k| steps[k]).collect(); stencil(&p, core::array::from_fn(|i| DD::new(x[i])), &idx[..n], &s, mode).f() }).collect();
        let (lo, hi) = vals.iter().fold((f64::MAX, f64::MIN), |a, v| (a.0.min(*v), a.1.max(*v)));
        let reach: f64 = steps.iter().map(|s| s.f()).sum(); let big: [f64; N] = core::array::from_fn(|i| x[i].abs() + reach);
        let den: f64 = steps.iter().map(|s| s.f()).product(); let tol = 200.0 * f64::EPSILON * (p.mag(&big) + 1e-300) / den * (1 << n) as f64;
        ensure!(got >= lo - tol && got <= hi + tol, "order {n}: got {got:e}, stencil gives {lo:e}..{hi:e} (tol {tol:e})");
        g.nontrivial_if(lo != 0.0);
    }
    close!(g, fd.first_partial_derivative(&p, idx[0], &x).unwrap(), fd.differentiate(&p, &[idx[0]], &x).unwrap(), 0.0, "first"); close!(g, fd.second_partial_derivative(&p, &[idx[0], idx[1]], &x).unwrap(), fd.differentiate(&p, &[idx[0], idx[1]], &x).unwrap(), 0.0, "second");
    // Jacobian columns and Hessian through the same backend
    let q = PolyV::<N, 2>([p.clone(), Poly::gen(g)]); let j = Jacobian::from_derivator(fd).evaluate(&q, &x).unwrap(); let heap = Jacobian::from_derivator(fd).evaluate_on_heap(&q, &x).unwrap();
    for r in 0..2 { for c in 0..N { let w = stencil(&q.0[r], core::array::from_fn(|i| DD::new(x[i])), &[c], &[DD::new(h)], mode).f(); let big: [f64; N] = core::array::from_fn(|i| x[i].abs() + h);
        let t = 400.0 * f64::EPSILON * (q.0[r].mag(&big) + 1e-300) / h; close!(g, j[(r, c)], w, t, "FD J[{r},{c}]"); close!(g, heap[r][c], w, t, "FD heap J[{r},{c}]"); } }
    let hs = Hessian::from_derivator(fd).evaluate(&p, &x).unwrap();
    for a in 0..N { for b in 0..N { ensure!(hs[(a, b)] == hs[(b, a)], "FD hessian symmetric"); let (u, v) = (fd.differentiate(&p, &[a, b], &x).unwrap(), fd.differentiate(&p, &[b, a], &x).unwrap()); let big: [f64; N] = core::array::from_fn(|i| x[i].abs() + h * (1.0 + mult)); let t = 2000.0 * f64::EPSILON * p.mag(&big) / (h * h * mult); ensure!(hs[(a, b)] >= u.min(v) - t && hs[(a, b)] <= u.max(v) + t, "FD hessian {a}{b}"); } }
    // typed errors
    let mut c = fd; c.config.step_size = 0.0; ensure!(c.differentiate(&p, &[0], &x) == Err(DiffError::StepSizeZero) && c.jacobian_column(&q, 0, &x) == Err(DiffError::StepSizeZero), "zero step");
    c.config.step_size = g.pick(&[-1e-3, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); ensure!(c.differentiate(&p, &[0], &x) == Err(DiffError::InvalidStepSize) && c.jacobian_column(&q, 0, &x) == Err(DiffError::InvalidStepSize), "bad step");
    ensure!(fd.differentiate::<_, N, 0>(&p, &[], &x) == Err(DiffError::OrderZero)); let bad = N + g.below(9); ensure!(fd.differentiate(&p, &[0, bad], &x) == Err(DiffError::IndexOutOfRange) && fd.differentiate(&p, &[bad, 0], &x) == Err(DiffError::IndexOutOfRange) && fd.jacobian_column(&q, bad, &x) == Err(DiffError::IndexOutOfRange));
    Ok(())
}
fn finite_multi(g: &mut G) -> R { match g.below(5) { 0 => fd_multi::<1>(g), 1 => fd_multi::<2>(g), 2 => fd_multi::<3>(g), 3 => fd_multi::<4>(g), _ => fd_multi::<7>(g) } }
fn finite_single(g: &mut G) -> R {
    let x = g.f(-2.5, 2.5); g.note("x", &x); let p = Poly::<1>::gen(g); g.note("poly", &p); let (h, mode, mult) = fd_cfg(g);
    let fd = FiniteDifferenceSingle::from_parameters(h, mode, mult);
    for n in 1..=4usize {
        let got = fd.differentiate(n, &p, x).map_err(|e| Fail::Bad(format!("{e:?}")))?;
        let steps: Vec<DD> = (0..n).map(|k| DD::new(h) * DD::new(mult).powi(k as i32)).collect(); let w = stencil(&p, [DD::new(x)], &vec![0; n], &steps, mode).f();
        let reach: f64 = steps.iter().map(|s| s.f()).sum(); let den: f64 = steps.iter().map(|s| s.f()).product();
        close!(g, got, w, 200.0 * f64::EPSILON * (p.mag(&[x.abs() + reach]) + 1e-300) / den * (1 << n) as f64, "order {n}"); g.nontrivial_if(w != 0.0);
    }
    close!(g, fd.first_derivative(&p, x).unwrap(), fd.differentiate(1, &p, x).unwrap(), 0.0, "first"); close!(g, fd.second_derivative(&p, x).unwrap(), fd.differentiate(2, &p, x).unwrap(), 0.0, "second");
    ensure!(fd.differentiate(0, &p, x) == Err(DiffError::OrderZero));
    let mut c = fd; c.config.step_size = 0.0; ensure!(c.differentiate(1, &p, x) == Err(DiffError::StepSizeZero)); c.config.step_size = g.pick(&[-1.0, f64::NAN, f64::INFINITY]); ensure!(c.differentiate(2, &p, x) == Err(DiffError::InvalidStepSize));
    Ok(())
}
/// Default steps give a usable derivative of smooth functions (truncation-level accuracy).
fn finite_default(g: &mut G) -> R {
    let x = pt::<2>(g); let p = gen_fn(g, &x, 4, prog::TAME); let f = PF(p.clone());
    let d = FiniteDifferenceMulti::<f64>::default();
    ensure!(d.config.method == FiniteDifferenceMode::Central && (d.config.step_size - f64::EPSILON.cbrt()).abs() < 1e-12 && d.config.step_size_multiplier == 10.0);
    let i = g.below(2);
    let Some((w, _)) = prog::partial(&p, &x, &[i], f64::EPSILON) else { return Ok(()) }; let Some((w3, _)) = prog::partial(&p, &x, &[i, i, i], f64::EPSILON) else { return Ok(()) };
    let scale = 1.0 + w.abs() + w3.abs() + prog::eval::<f64>(&p, &x).abs(); if scale > 1e3 { return Ok(()) }
    for (m, tol) in [(FiniteDifferenceMode::Central, 2e-7), (FiniteDifferenceMode::Forward, 1e-4), (FiniteDifferenceMode::Backward, 1e-4)] {
        let h: f64 = m.default_step_size(); let fd = FiniteDifferenceMulti::from_parameters(h, m, 10.0);
        close!(g, fd.differentiate(&f, &[i], &x).unwrap(), w, tol * scale * scale, "{m:?} default step");
    }
    close!(g, FiniteDifferenceSingle::<f64>::default().differentiate(1, &PF(Prog { nin: 1, steps: vec![] }), x[0]).unwrap(), 1.0, 1e-8, "identity");
    g.nontrivial(); Ok(())
}

fn approx_n<const N: usize>(g: &mut G) -> R {
    let x = pt::<N>(g); let p = gen_fn(g, &x, 5, prog::SMOOTH); let f = PF(p.clone()); let kahan = g.bool();
    let mk = || if kahan { LinearApproximator::new().with_kahan_summation() } else { LinearApproximator::default() };
    let mkq = || if kahan { QuadraticApproximator::new().with_kahan_summation() } else { QuadraticApproximator::default() };
    let (lin, quad) = (mk().approximate(&f, &x).unwrap(), mkq().approximate(&f, &x).unwrap());
    let f0: f64 = ScalarFnN::eval(&f, &x);
    let mut gr = [(0.0, 0.0); N]; let mut he = vec![]; for i in 0..N { match prog::partial(&p, &x, &[i], f64::EPSILON) { Some(v) => gr[i] = v, None => return Ok(()) } for j in 0..N { match prog::partial(&p, &x, &[i, j], f64::EPSILON) { Some(v) => he.push(v), None => return Ok(()) } } }
    ensure!(lin.point() == &x && quad.point() == &x, "point");
    let mut icept = f0; let mut isc = f0.abs();
    for i in 0..N { close!(g, lin.coefficients()[i], gr[i].0, gr[i].1, "linear coefficient"); close!(g, quad.gradient()[i], gr[i].0, gr[i].1, "gradient"); icept -= gr[i].0 * x[i]; isc += gr[i].1 * x[i].abs() / 1e-14 + (gr[i].0 * x[i]).abs(); for j in 0..N { close!(g, quad.hessian()[i][j], he[i * N + j].0, he[i * N + j].1, "hessian {i}{j}"); } }
    close!(g, lin.intercept(), icept, 1e-13 * isc + 1e-300, "intercept");
    ensure!(lin.predict(&x) == f0 && quad.predict(&x) == f0, "exact at the base point: {} {} {f0}", lin.predict(&x), quad.predict(&x));
    const NP: usize = 12; let pts: [[f64; N]; NP] = core::array::from_fn(|_| core::array::from_fn(|i| x[i] + g.f(-0.5, 0.5))); g.note("pts", &pts);
    let mut pl = [0.0; NP]; let mut pq = [0.0; NP]; let mut y = [0.0; NP];
    for k in 0..NP {
        let (mut l, mut s) = (DD::new(f0), f0.abs()); let mut err = 0.0;
        for i in 0..N { let d = DD::new(pts[k][i]) - DD::new(x[i]); l += DD::new(gr[i].0) * d; s += (gr[i].0 * d.f()).abs(); err += gr[i].1 * d.f().abs(); }
        close!(g, lin.predict(&pts[k]), l.f(), 1e-14 * s + err + 1e-300, "linear prediction");
        let mut q = l; for i in 0..N { for j in 0..N { let t = DD::new(0.5 * he[i * N + j].0) * (DD::new(pts[k][i]) - DD::new(x[i])) * (DD::new(pts[k][j]) - DD::new(x[j])); q += t; s += t.f().abs(); err += 0.5 * he[i * N + j].1 * 0.25; } }
        close!(g, quad.predict(&pts[k]), q.f(), 1e-14 * s + err + 1e-300, "quadratic prediction");
        pl[k] = lin.predict(&pts[k]); pq[k] = quad.predict(&pts[k]); y[k] = ScalarFnN::eval(&f, &pts[k]);
    }
    if !y.iter().chain(&pl).chain(&pq).all(|v| v.is_finite() && v.abs() < 1e6) { return Ok(()) }
    let lm = lin.prediction_metrics(&pts, &f); let qm = quad.prediction_metrics(&pts, &f);
    let check = |g: &mut G, pr: &[f64; NP], m: [f64; 5], preds: usize, what: &str| -> R {
        let n = NP as f64; let mean = y.iter().map(|v| DD::new(*v)).fold(DD::ZERO, |a, b| a + b) / DD::new(n);
        let (mut sa, mut sr, mut st) = (DD::ZERO, DD::ZERO, DD::ZERO); for k in 0..NP { let r = DD::new(pr[k]) - DD::new(y[k]); sa += r.abs(); sr += r * r; let t = DD::new(y[k]) - mean; st += t * t; }
        let ymax = y.iter().chain(pr.iter()).fold(0.0f64, |a, v| a.max(v.abs())); let e = 1e-14;
        let (mae, mse) = (sa.f() / n, sr.f() / n);
        close!(g, m[0], mae, e * (mae + ymax), "{what} MAE"); close!(g, m[1], mse, e * (mse + ymax * mse.sqrt() * 4.0 + ymax * ymax * e), "{what} MSE"); close!(g, m[2], m[1].sqrt(), e * m[1].sqrt() + 1e-300, "{what} RMSE");
        if st.f() > 1e-12 * ymax * ymax && sr.f() < 1e6 * st.f() && sr.f() > 1e-18 * ymax * ymax {
            let r2 = 1.0 - sr.f() / st.f(); close!(g, m[3], r2, 1e-6 * (1.0 + r2.abs()), "{what} R2");
            let den = n - preds as f64 - 1.0; if den <= 0.0 { ensure!(m[4].is_nan(), "{what} adjusted R2 with too few points") } else { let a = 1.0 - (1.0 - r2) * (n - 1.0) / den; close!(g, m[4], a, 1e-6 * (1.0 + a.abs()), "{what} adjusted R2"); }
            g.nontrivial();
        }
        Ok(())
    };
    check(g, &pl, [lm.mean_absolute_error, lm.mean_squared_error, lm.root_mean_squared_error, lm.r_squared, lm.adjusted_r_squared], N, "linear")?;
    check(g, &pq, [qm.mean_absolute_error, qm.mean_squared_error, qm.root_mean_squared_error, qm.r_squared, qm.adjusted_r_squared], N + N * (N + 1) / 2, "quadratic")?;
    // too few points, constant truth
    let few: [[f64; N]; 2] = [pts[0], pts[1]]; if N >= 1 { let m = lin.prediction_metrics(&few, &f); ensure!(m.adjusted_r_squared.is_nan(), "two points cannot support {N} predictors"); }
    let c = prog::PF(Prog { nin: N, steps: vec![prog::Step { op: prog::Op::Const, a: 0, b: 0, c: 0, k: 1.5, k2: 1.5, n: 0 }] });
    let m = lin.prediction_metrics(&pts, &c); ensure!(m.r_squared.is_nan(), "constant truth gives NaN R2, got {}", m.r_squared);
    // finite-difference backend builds the same model up to truncation; its errors surface
    let fd = FiniteDifferenceMulti::from_parameters(0.0, FiniteDifferenceMode::Central, 1.0);
    ensure!(LinearApproximator::from_derivator(fd).approximate(&f, &x).err() == Some(DiffError::StepSizeZero) && QuadraticApproximator::from_derivator(fd).approximate(&f, &x).err() == Some(DiffError::StepSizeZero), "step size error");
    let fd = FiniteDifferenceMulti::from_parameters(0.125, FiniteDifferenceMode::Central, 2.0); let l = LinearApproximator::from_derivator(fd).approximate(&f, &x).unwrap(); let q = QuadraticApproximator::from_derivator(fd).approximate(&f, &x).unwrap();
    for i in 0..N { let w = fd.differentiate(&f, &[i], &x).unwrap(); ensure!(l.coefficients()[i] == w && q.gradient()[i] == w || w.is_nan(), "FD gradient"); }
    Ok(())
}
fn approximations(g: &mut G) -> R { match g.below(6) { 0 => approx_n::<1>(g), 1 => approx_n::<2>(g), 2 => approx_n::<3>(g), 3 => approx_n::<4>(g), 4 => approx_n::<6>(g), _ => approx_n::<9>(g) } }

fn main() {
    run("C02", &["autodiff results are compared with the reference Taylor arithmetic (vk::taylor)", "finite differences are compared with the exact value of the documented stencil on polynomials, with any assignment of the step ladder to the index list"], &[
        law!("autodiff_single", 25000, auto_single, "second derivative above 1e-6"), law!("autodiff_single_f32", 10000, auto_single32, "second derivative non-zero"), law!("autodiff_multi", 25000, auto_multi, "second partial above 1e-9"),
        law!("jacobian", 15000, jacobian, "a non-zero entry compared"), law!("finite_multi", 15000, finite_multi, "non-zero stencil value"), law!("finite_single", 15000, finite_single, "non-zero stencil value"), law!("finite_default", 10000, finite_default, "every completed case"), law!("approximations", 15000, approximations, "R2 well defined and compared"),
    ]);
}
