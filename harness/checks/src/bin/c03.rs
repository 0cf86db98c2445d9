//! C03: quadrature exactness, convergence, linearity, typed errors.
use checks::prog::{self, PF};
use checks::util::*;
use multicalc::error::IntegrateError as E;
use multicalc::gaussian_tables::{nodes, MAX_ORDER};
use multicalc::numerical_integration::*;
use std::cell::{Cell, RefCell};
use vk::dd::DD;
use vk::*;

const METHODS: [IterativeMethod; 3] = [IterativeMethod::Trapezoidal, IterativeMethod::Simpsons, IterativeMethod::Booles];
fn mi(m: IterativeMethod) -> usize { match m { IterativeMethod::Trapezoidal => 0, IterativeMethod::Simpsons => 1, IterativeMethod::Booles => 2 } }
/// (panel width in steps, highest exactly integrated degree)
fn panel(m: IterativeMethod) -> (u64, usize) { [(1, 1), (3, 3), (4, 5)][mi(m)] }
fn weight(m: IterativeMethod, k: u64, n: u64) -> f64 {
    match m {
        IterativeMethod::Trapezoidal => if k == 0 || k == n { 0.5 } else { 1.0 },
        IterativeMethod::Simpsons => 3.0 / 8.0 * if k == 0 || k == n { 1.0 } else if k % 3 == 0 { 2.0 } else { 3.0 },
        IterativeMethod::Booles => 2.0 / 45.0 * if k == 0 || k == n { 7.0 } else { [14.0, 32.0, 12.0, 32.0][(k % 4) as usize] },
    }
}
fn polyval(c: &[f64], x: f64) -> f64 { c.iter().rev().fold(0.0, |a, &v| a * x + v) }
/// exact integral of the polynomial over [a,b] and the integral of |c_k x^k| as a scale
fn polyint(c: &[f64], a: f64, b: f64) -> (f64, f64) {
    let (da, db) = (DD::new(a), DD::new(b)); let mut s = DD::ZERO; let mut m = 0.0;
    for (k, &v) in c.iter().enumerate() { let t = DD::new(v) * (db.powi(k as i32 + 1) - da.powi(k as i32 + 1)) / DD::new(k as f64 + 1.0); s += t; m += v.abs() * (b - a) * a.abs().max(b.abs()).powi(k as i32); }
    (s.f(), m)
}
fn interval<T: Fl>(g: &mut G) -> (f64, f64) {
    let a = g.f(-3.0, 3.0); let w = if g.chance(1, 6) { g.log10(-3.0, 0.5) } else { g.f(0.125, 4.0) };
    let (a, b) = (rnd::<T>(a), rnd::<T>(a + w)); (a, b)
}
fn coefs<T: Fl>(g: &mut G, deg: usize) -> Vec<f64> { (0..=deg).map(|_| rnd::<T>(g.f(-2.0, 2.0))).collect() }
fn iter_single<T: Fl>(n: u64, m: IterativeMethod, kahan: bool) -> IterativeSingle<T> { let s = IterativeSingle::<T>::from_parameters(n, m); if kahan { s.with_kahan_summation() } else { s } }
fn iter_multi<T: Fl>(n: u64, m: IterativeMethod, kahan: bool) -> IterativeMulti<T> { let s = IterativeMulti::<T>::from_parameters(n, m); if kahan { s.with_kahan_summation() } else { s } }

/// Composite rules on their polynomial class; also 1..3 fold repeated integration.
fn composite<T: Fl>(g: &mut G) -> R {
    let m = g.pick(&METHODS); let n = match g.below(4) { 0 => g.int(1, 12) as u64, 1 => g.int(11_990, 12_010) as u64 / 12 * 12, 2 => g.int(13, 200) as u64, _ => g.int(200, 3000) as u64 }; let kahan = g.bool();
    let (pw, maxd) = panel(m); let deg = g.size(0, maxd); let c = coefs::<T>(g, deg); let (a, b) = interval::<T>(g);
    g.note("method", &m); g.note("n", &n); g.note("coefficients", &c); g.note("interval", &(a, b));
    let steps = n.div_ceil(pw) * pw; let s = iter_single::<T>(n, m, kahan); ensure!(s.config.total_iterations == steps, "n {n} became {}", s.config.total_iterations);
    let cc: Vec<T> = c.iter().map(|&v| T::c(v)).collect(); let f = |x: T| cc.iter().rev().fold(T::ZERO, |acc, &v| acc * x + v);
    let (w, sc) = polyint(&c, a, b);
    // accumulated abscissa drift is at most steps*eps relative per sample
    let tol = T::EPS * sc.max(1e-300) * (60.0 + 4.0 * (deg * deg) as f64 * steps as f64);
    let v = s.single_integral(&f, &[T::c(a), T::c(b)]).unwrap().g(); close!(g, v, w, tol, "single");
    let v2 = s.integrate(&f, &[[T::c(a), T::c(b)]]).unwrap().g(); ensure!(v2 == v, "integrate vs single_integral");
    // repeated: the inner value is constant in the outer variable
    let (p, q) = interval::<T>(g); let v = s.double_integral(&f, &[[T::c(a), T::c(b)], [T::c(p), T::c(q)]]).unwrap().g(); close!(g, v, w * (q - p), tol * (q - p) * 2.0 + (T::EPS * w * (q - p) * 200.0).abs() + T::EPS * w.abs() * (p.abs() + q.abs()), "double");
    let (r, t) = interval::<T>(g); let v = s.integrate(&f, &[[T::c(a), T::c(b)], [T::c(p), T::c(q)], [T::c(r), T::c(t)]]).unwrap().g(); close!(g, v, w * (q - p) * (t - r), (tol * 4.0 + T::EPS * w.abs() * 400.0) * (q - p) * (t - r) + T::EPS * w.abs() * 4.0 * ((p.abs() + q.abs()) * (t - r) + (r.abs() + t.abs()) * (q - p)), "triple");
    if n == 120 && m as usize == 0 && !kahan && !T::IS32 { close!(g, IterativeSingle::<T>::default().single_integral(&f, &[T::c(a), T::c(b)]).unwrap().g(), w, tol, "default"); }
    close!(g, integral(&f, [T::c(a), T::c(b)]).unwrap().g(), w, T::EPS * sc * (60.0 + 4.0 * (deg * deg) as f64 * 120.0), "integral()");
    g.nontrivial_if(deg >= 1 && w != 0.0); g.label(["trapezoid", "simpson", "boole"][mi(m)]); g.label_if(kahan, "kahan"); Ok(())
}
/// The rule is the weighted sum of samples at the documented grid, with accurate accumulation.
fn weights<T: Fl>(g: &mut G) -> R {
    let m = g.pick(&METHODS); let (pw, _) = panel(m); let n = pw * if g.chance(1, 12) { g.int(2000, 25_000) as u64 } else { g.int(1, 700) as u64 }; let kahan = g.bool();
    let (a, b) = (0.0, g.pick(&[1.0, 2.0, 3.0, 0.375])); let seed = g.raw(0) | 1; let skew = g.chance(1, 2);
    g.note("method", &m); g.note("n", &n); g.note("kahan", &kahan);
    let val = |k: u64| -> f64 { let mut z = k.wrapping_mul(0x9E3779B97F4A7C15) ^ seed; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z ^= z >> 27; let u = (z >> 12) as f64 / (1u64 << 52) as f64; rnd::<T>(if skew { 0.5 + u } else { 2.0 * u - 1.0 }) };
    let seen = RefCell::new(vec![0u32; n as usize + 1]); let off = Cell::new(0.0f64);
    let h = (b - a) / n as f64;
    let f = |x: T| { let t = (x.g() - a) / h; let k = t.round().clamp(0.0, n as f64); off.set(off.get().max((t - k).abs())); seen.borrow_mut()[k as usize] += 1; T::c(val(k as u64)) };
    let v = iter_single::<T>(n, m, kahan).single_integral(&f, &[T::c(a), T::c(b)]).unwrap().g();
    if off.get() > 0.4 { discard!(); } // f32 abscissae too fine to identify
    ensure!(off.get() <= T::EPS * (n as f64) * (n as f64) + 1e-9, "abscissae off grid by {} steps", off.get());
    ensure!(seen.borrow().iter().all(|&c| c == 1), "each grid point sampled once");
    let (mut s, mut sa) = (DD::ZERO, 0.0); for k in 0..=n { let w = weight(m, k, n); s += DD::new(val(k)) * DD::new(w); sa += w * val(k).abs(); }
    // Kahan error: 2 eps; blocked pairwise: (128 + levels) eps worst case. A few eps for products and final scaling.
    let c = if kahan { 4.0 } else { 20.0 + 12.0 * (n.min(128) as f64) / 16.0 };
    close!(g, v, s.f() * h, T::EPS * sa * h * c + T::EPS * (s.f() * h).abs() * 12.0 + T::EPS * T::EPS * n as f64 * sa * h * 10.0, "weighted sum n={n} {m:?} kahan={kahan}");
    g.nontrivial_if(n > 8); g.label_if(n > 2000, "many samples"); Ok(())
}
/// Multi-variable composite and Gaussian integration of a separable-plus-cross polynomial.
fn multi_case<const N: usize, const K: usize>(g: &mut G) -> R {
    let idx: [usize; K] = core::array::from_fn(|_| g.below(N)); let gauss = g.bool(); let order = g.size(3, 8); let m = g.pick(&METHODS[1..]);
    let n = panel(m).0 * g.int(1, 3) as u64;
    // sum of 3 monomials with per-variable degree <= 3
    let terms: Vec<(f64, [usize; N])> = (0..3).map(|_| (g.f(-2.0, 2.0), core::array::from_fn(|_| g.size(0, 3)))).collect();
    let lims: [[f64; 2]; K] = core::array::from_fn(|_| { let (a, b) = interval::<f64>(g); [a, b] }); let pt: [f64; N] = g.arr(-2.0, 2.0);
    g.note("idx", &idx); g.note("terms", &terms); g.note("limits", &lims); g.note("point", &pt);
    let f = |x: &[f64; N]| terms.iter().map(|(c, e)| c * (0..N).map(|i| x[i].powi(e[i] as i32)).product::<f64>()).sum::<f64>();
    // innermost level is index 0 and wins when a variable repeats: outer levels then only contribute their width
    let (mut want, mut sc) = (0.0, 0.0);
    for (c, e) in &terms {
        let mut v = *c; let mut s = c.abs();
        let mut done = [false; N];
        for l in 0..K { let i = idx[l]; let [a, b] = lims[l]; if done[i] { v *= b - a; s *= b - a; } else { let mut mono = vec![0.0; e[i] + 1]; mono[e[i]] = 1.0; let (q, r) = polyint(&mono, a, b); v *= q; s *= r; done[i] = true; } }
        for i in 0..N { if !done[i] { v *= pt[i].powi(e[i] as i32); s *= pt[i].abs().powi(e[i] as i32); } }
        want += v; sc += s;
    }
    let tol = 2e-12 * sc + 1e-300;
    if gauss {
        let it = GaussianMulti::<f64>::from_parameters(order, GaussianQuadratureMethod::GaussLegendre);
        close!(g, it.integrate(idx, &f, &lims, &pt).unwrap(), want, tol, "gauss {order} {idx:?}");
        if K == 1 { close!(g, it.single_partial_integral(&f, idx[0], &lims[0], &pt).unwrap(), want, tol, "gauss single"); }
        if K == 2 { close!(g, it.double_partial_integral(&f, [idx[0], idx[1]], &[lims[0], lims[1]], &pt).unwrap(), want, tol, "gauss double"); }
        let d = GaussianMulti::<f64>::default().integrate(idx, &f, &lims, &pt).unwrap(); close!(g, d, want, tol, "gauss default");
    } else {
        let it = iter_multi::<f64>(n, m, g.bool());
        close!(g, it.integrate(idx, &f, &lims, &pt).unwrap(), want, tol, "iterative {m:?} {n} {idx:?}");
        if K == 1 { close!(g, it.single_partial_integral(&f, idx[0], &lims[0], &pt).unwrap(), want, tol, "iter single"); }
        if K == 2 { close!(g, it.double_partial_integral(&f, [idx[0], idx[1]], &[lims[0], lims[1]], &pt).unwrap(), want, tol, "iter double"); }
    }
    let bad = N + g.below(50); let mut ib = idx; ib[g.below(K)] = bad;
    ensure!(iter_multi::<f64>(8, m, false).integrate(ib, &f, &lims, &pt) == Err(E::IndexOutOfRange)); ensure!(GaussianMulti::<f64>::default().integrate(ib, &f, &lims, &pt) == Err(E::IndexOutOfRange));
    g.nontrivial_if(N > 1 && want != 0.0); g.label_if(K > 1 && idx[0] != idx[1.min(K - 1)], "distinct variables"); Ok(())
}
fn multi(g: &mut G) -> R { match g.below(7) { 0 => multi_case::<1, 1>(g), 1 => multi_case::<2, 1>(g), 2 => multi_case::<2, 2>(g), 3 => multi_case::<3, 2>(g), 4 => multi_case::<3, 3>(g), 5 => multi_case::<4, 2>(g), _ => multi_case::<4, 1>(g) } }

/// Orthogonal polynomial value/derivative by its three-term recurrence, in double-double.
fn ortho(fam: usize, n: usize, x: DD) -> (DD, DD, DD) { // (p_n, p_n', p_{n-1})
    let one = DD::ONE; let (mut p0, mut p1) = (DD::ZERO, one); let (mut d0, mut d1) = (DD::ZERO, DD::ZERO);
    for k in 0..n {
        let kf = DD::new(k as f64); let k1 = DD::new(k as f64 + 1.0);
        let (p2, d2) = match fam {
            0 => { let a = DD::new(2.0 * k as f64 + 1.0) / k1; let b = kf / k1; (a * x * p1 - b * p0, a * (p1 + x * d1) - b * d0) }
            1 => { // orthonormal Hermite (weight exp(-x^2)), up to pi^(-1/4)
                let a = (DD::new(2.0) / k1).sqrt(); let b = (kf / k1).sqrt(); (a * x * p1 - b * p0, a * (p1 + x * d1) - b * d0) }
            _ => { let a = DD::new(2.0 * k as f64 + 1.0); ((( a - x) * p1 - kf * p0) / k1, ((a - x) * d1 - p1 - kf * d0) / k1) }
        };
        p0 = p1; p1 = p2; d0 = d1; d1 = d2;
    }
    (p1, d1, p0)
}
/// The tables hold the roots of the family's polynomial and the Christoffel weights.
fn tables(g: &mut G) -> R {
    let fam = g.below(3); let method = [GaussianQuadratureMethod::GaussLegendre, GaussianQuadratureMethod::GaussHermite, GaussianQuadratureMethod::GaussLaguerre][fam];
    let n = g.size(1, MAX_ORDER); let t = nodes(method, n).unwrap(); ensure!(t.len() == n && MAX_ORDER == 30); let k = g.below(n);
    g.note("family", &method); g.note("order", &n); g.note("node", &k);
    let (w, x) = t[k];
    let mut r = DD::new(x); for _ in 0..3 { let (p, d, _) = ortho(fam, n, r); r = r - p / d; }
    close!(g, x, r.f(), 1e-13 * (r.f().abs() + 0.01), "node {k} of {n}");
    let (_, d, q) = ortho(fam, n, r); let d2 = d * d; let nf = DD::new(n as f64);
    let want = match fam { 0 => DD::new(2.0) / ((DD::ONE - r * r) * d2), 1 => DD::new(std::f64::consts::PI.sqrt()) / (nf * q * q), _ => DD::ONE / (r * d2) };
    close!(g, w, want.f(), 2e-12 * want.f(), "weight {k} of {n}");
    for j in 0..n { for i in 0..j { ensure!(t[i].1 < t[j].1 || t[i].1 > t[j].1, "distinct nodes"); } }
    g.nontrivial(); Ok(())
}
/// Gaussian rules integrate every polynomial of degree 2n-1 exactly.
fn gauss<T: Fl>(g: &mut G) -> R {
    let fam = g.below(3); let method = [GaussianQuadratureMethod::GaussLegendre, GaussianQuadratureMethod::GaussHermite, GaussianQuadratureMethod::GaussLaguerre][fam];
    let cap = if T::IS32 { 6 } else { 30 }; let n = g.size(1, cap); let it = GaussianSingle::<T>::from_parameters(n, method); let mit = GaussianMulti::<T>::from_parameters(n, method);
    g.note("family", &method); g.note("order", &n);
    let deg = if g.bool() { 2 * n - 1 } else if g.bool() { 2 * n - 2 } else { g.size(0, 2 * n - 1) };
    // a few terms, each normalised so no term swamps the others
    let mom = |k: usize| -> f64 { match fam { 0 => 1.0, 1 => { let mut v = std::f64::consts::PI.sqrt(); let mut j = 1.0; while j < k as f64 { v *= j / 2.0; j += 2.0; } if k % 2 == 1 { v *= (k as f64 / 2.0).sqrt(); } v } _ => (1..=k).map(|v| v as f64).product() } };
    let mut terms: Vec<(usize, f64)> = vec![(deg, g.f(0.25, 1.5) * g.sign())]; for _ in 0..g.size(0, 3) { let k = g.size(0, deg); let c = g.f(-1.0, 1.0); terms.push((k, c)); }
    for t in terms.iter_mut() { t.1 = rnd::<T>(t.1 / mom(t.0)); }
    g.note("terms", &terms);
    let tt: Vec<(i32, T)> = terms.iter().map(|&(k, c)| (k as i32, T::c(c))).collect(); let f = |x: T| tt.iter().fold(T::ZERO, |a, &(k, c)| a + c * x.powi(k));
    let lim: [T; 2]; let mut want = 0.0; let mut sc = 0.0;
    match fam {
        0 => { let (a, b) = if g.bool() { (-1.0, 1.0) } else { let a = g.f(-1.2, 0.7); (rnd::<T>(a), rnd::<T>(a + g.f(0.1, 1.5))) }; lim = [T::c(a), T::c(b)];
            for &(k, c) in &terms { let mut p = vec![0.0; k + 1]; p[k] = c; let (q, r) = polyint(&p, a, b); want += q; sc += r; } }
        1 => { lim = [T::NEG_INFINITY, T::INFINITY]; for &(k, c) in &terms { if k % 2 == 0 { want += c * mom(k); } sc += c.abs() * mom(k); } }
        _ => { lim = [T::ZERO, T::INFINITY]; for &(k, c) in &terms { want += c * mom(k); sc += c.abs() * mom(k); } }
    }
    let tol = T::EPS * sc * (if T::IS32 { 100.0 } else { 1500.0 } + 40.0 * deg as f64);
    let v = it.single_integral(&f, &lim).unwrap().g(); close!(g, v, want, tol, "order {n} degree {deg}");
    let fm = |x: &[T; 2]| f(x[1]) * (T::ONE + x[0]); let v = mit.single_partial_integral(&fm, 1, &lim, &[T::c(0.5), T::c(0.0)]).unwrap().g(); close!(g, v, want * 1.5, tol * 2.0, "multi order {n}");
    // repeated integration: the outer level multiplies by the total weight of its range
    let tot = match fam { 0 => (lim[1] - lim[0]).g(), 1 => std::f64::consts::PI.sqrt(), _ => 1.0 };
    let v = it.double_integral(&f, &[lim, lim]).unwrap().g(); close!(g, v, want * tot, tol * tot * 1.5 + T::EPS * (want * tot).abs() * 40.0, "double order {n}");
    let v = it.integrate(&f, &[lim, lim, lim]).unwrap().g(); close!(g, v, want * tot * tot, (tol * 2.0 + T::EPS * want.abs() * 80.0) * tot * tot, "triple order {n}");
    let fd = |x: &[T; 3]| f(x[2]) * (T::ONE + x[1]); let w1 = match fam { 0 => { let (a, b) = (lim[0].g(), lim[1].g()); (b - a) + (b * b - a * a) / 2.0 } 1 => std::f64::consts::PI.sqrt(), _ => 2.0 };
    let w1a = match fam { 1 => std::f64::consts::PI.sqrt() + 1.0, _ => 4.0 };
    if n >= 1 { let v = mit.double_partial_integral(&fd, [1, 2], &[lim, lim], &[T::c(0.0); 3]).unwrap().g(); close!(g, v, want * w1, (tol * 2.0 + T::EPS * sc * 80.0) * w1a, "multi double order {n}"); }
    if fam == 0 { // additivity over adjoining intervals and linearity, for any integrand: compare via exactness above; here a shifted limit list
        let (a, b) = (lim[0], lim[1]); let m = a + (b - a) * T::c(0.375); let s = it.single_integral(&f, &[a, m]).unwrap().g() + it.single_integral(&f, &[m, b]).unwrap().g(); close!(g, s, want, tol * 2.0, "additive"); }
    g.nontrivial_if(n > 1 && deg > 0); g.label(["legendre", "hermite", "laguerre"][fam]); Ok(())
}
/// Smooth program integrands over finite ranges: composite and Gaussian results agree and converge.
fn smooth(g: &mut G) -> R {
    let (c1, c2, c3) = (g.f(-2.0, 2.0), g.f(0.3, 3.0), g.f(-3.0, 3.0)); let kind = g.below(4); let (a, b) = interval::<f64>(g); g.note("kind", &(kind, c1, c2, c3)); g.note("interval", &(a, b));
    let f = move |x: f64| match kind { 0 => c1 * (c2 * x + c3).sin(), 1 => c1 * (c2 * x * 0.5 + c3 * 0.2).exp(), 2 => c1 / (1.0 + c2 * c2 * x * x), _ => c1 * (c2 * x + c3).cos() + x };
    let pf = move |x: f64| match kind { 0 => -c1 / c2 * (c2 * x + c3).cos(), 1 => c1 / (c2 * 0.5) * (c2 * x * 0.5 + c3 * 0.2).exp(), 2 => c1 / c2 * (c2 * x).atan(), _ => c1 / c2 * (c2 * x + c3).sin() + x * x / 2.0 };
    let want = pf(b) - pf(a); let sc = pf(b).abs() + pf(a).abs() + 1e-3;
    let w = b - a; let l = c2; // |f^(p)| <= |c1| * l^p * p! (the factorial only for the rational)
    let m = g.pick(&METHODS); let n = [120u64, 240, 480][g.below(3)]; let h = w / n as f64; let fact = |p: u32| if kind == 2 { (1..=p).map(|v| v as f64).product::<f64>() } else { 1.0 }; let amp = if kind == 1 { f(a).abs().max(f(b).abs()) } else { c1.abs() };
    let bound = match m { IterativeMethod::Trapezoidal => w / 12.0 * h.powi(2) * amp * l.powi(2) * fact(2), IterativeMethod::Simpsons => w / 80.0 * h.powi(4) * amp * l.powi(4) * fact(4), IterativeMethod::Booles => 2.0 * w / 945.0 * h.powi(6) * amp * l.powi(6) * fact(6) };
    let v = iter_single::<f64>(n, m, g.bool()).single_integral(&f, &[a, b]).unwrap(); let drift = 0.5 * amp * l * w * n as f64 * f64::EPSILON * (a.abs() + b.abs()); /* the abscissa is a running sum */ close!(g, v, want, bound * 1.05 + 1e-12 * sc + 1e-13 + drift, "{m:?} n={n}");
    let v = GaussianSingle::<f64>::from_parameters(30, GaussianQuadratureMethod::GaussLegendre).single_integral(&f, &[a, b]).unwrap();
    if kind != 2 { close!(g, v, want, 1e-12 * sc + 1e-12, "gauss"); } else { close!(g, v, want, 1e-3 * sc + 1e-12, "gauss rational"); }
    g.nontrivial_if(want.abs() > 1e-9); Ok(())
}
/// Linearity and additivity for arbitrary program integrands; composite grids that share their points.
fn metamorphic(g: &mut G) -> R {
    let a = g.f(-2.0, 1.5); let b = a + g.f(0.25, 2.0); let len = g.size(1, 5); let p = prog::gen(g, &[a], len, prog::TAME, 1e-3); let q = prog::gen(g, &[b], len, prog::TAME, 1e-3); let (al, be) = (g.f(-2.0, 2.0), g.f(-2.0, 2.0));
    g.note("f", &p.steps); g.note("g", &q.steps);
    let (pf, qf) = (PF(p), PF(q)); let fe = |x: f64| multicalc::ScalarFn::eval(&pf, x); let ge = |x: f64| multicalc::ScalarFn::eval(&qf, x);
    let m = g.pick(&METHODS); let n = 12 * g.int(1, 20) as u64; let it = iter_single::<f64>(n, m, g.bool());
    let (Ok(i1), Ok(i2)) = (it.single_integral(&fe, &[a, b]), it.single_integral(&ge, &[a, b])) else { discard!() };
    let abs = it.single_integral(&|x| fe(x).abs() + ge(x).abs(), &[a, b]).unwrap_or(f64::INFINITY); if !(abs < 1e200) { discard!() }
    let Ok(i3) = it.single_integral(&|x| al * fe(x) + be * ge(x), &[a, b]) else { discard!() };
    close!(g, i3, al * i1 + be * i2, 1e-13 * abs * (al.abs() + be.abs() + 1.0) * 4.0 + 1e-300, "linear");
    // reflecting the integrand reflects the integral (same grid up to rounding), so compare at grid level on a smooth function only
    let v = it.single_integral(&|x: f64| fe(a + b - x), &[a, b]); if let Ok(v) = v { let lip = 1e-9; if (v - i1).abs() > lip * abs { g.label("steep"); } }
    ensure!(it.integrate(&fe, &[[a, b]]) == Ok(i1), "repeatable");
    let c = g.f(-3.0, 3.0); let it1 = iter_single::<f64>(n, m, false); let k = it1.single_integral(&|_| c, &[a, b]).unwrap(); close!(g, k, c * (b - a), 1e-14 * (c * (b - a)).abs() * 6.0 + 1e-16 * c.abs() * (a.abs() + b.abs()) * 4.0, "constant");
    g.nontrivial_if(i1 != 0.0 && i2 != 0.0); Ok(())
}
/// Semi-infinite and infinite domains, for integrands that decay toward the infinite end.
fn infinite<T: Fl>(g: &mut G) -> R {
    let side = g.below(3); let a = rnd::<T>(if side == 2 { g.f(-0.5, 0.5) } else { g.f(-3.0, 3.0) }); let kind = g.below(4); let s = rnd::<T>(g.f(0.6, 2.0)); let m = g.pick(&METHODS[1..]); let n = g.pick(&[240u64, 480, 960]);
    g.note("side", &side); g.note("finite end", &a); g.note("kind", &kind); g.note("scale", &s);
    let inf = T::INFINITY; let lim = match side { 0 => [T::c(a), inf], 1 => [-inf, T::c(a)], _ => [-inf, inf] };
    let (sa, aa) = (T::c(s), T::c(a));
    let f = move |x: T| { let u = if side == 1 { aa - x } else { x - aa }; let u = u * sa; match kind { 0 => if side == 2 { (-(u * u)).exp() } else { (-u).exp() }, 1 => (-(u * u)).exp(), 2 => if side == 2 { T::ONE / (T::ONE + u * u) } else { T::ONE / ((T::ONE + u) * (T::ONE + u)) }, _ => if side == 2 { u * u * (-(u * u)).exp() } else { u * (-u).exp() } } };
    let pi = std::f64::consts::PI; let want = match (kind, side) { (0, 2) | (1, 2) => pi.sqrt(), (0, _) => 1.0, (1, _) => pi.sqrt() / 2.0, (2, 2) => pi, (2, _) => 1.0, (_, 2) => pi.sqrt() / 2.0, _ => 1.0 } / s;
    let tol = if T::IS32 { 2e-4 } else if kind == 2 && n >= 480 { 1e-9 } else { 1e-5 } * want; // the algebraic tails stay smooth right up to infinity
    let it = iter_single::<T>(n, m, g.bool()); let v = it.single_integral(&f, &lim).unwrap().g(); close!(g, v, want, tol, "single");
    let fm = |x: &[T; 2]| f(x[0]) * x[1]; let mt = iter_multi::<T>(n, m, g.bool()); let v = mt.single_partial_integral(&fm, 0, &lim, &[T::c(9.0), T::c(2.5)]).unwrap().g(); close!(g, v, 2.5 * want, 2.5 * tol, "multi");
    // an infinite inner range under a finite outer one
    let mt = iter_multi::<T>(120, m, false); let v = mt.double_partial_integral(&fm, [0, 1], &[lim, [T::c(1.0), T::c(3.0)]], &[T::c(9.0), T::c(2.5)]).unwrap().g(); close!(g, v, 4.0 * want, if T::IS32 { 5e-2 } else { 2e-2 } * want * 4.0, "inner infinite");
    let v = mt.double_partial_integral(&fm, [1, 0], &[[T::c(1.0), T::c(3.0)], lim], &[T::c(9.0), T::c(2.5)]).unwrap().g(); close!(g, v, 4.0 * want, if T::IS32 { 5e-2 } else { 2e-2 } * want * 4.0, "outer infinite");
    let v = it.double_integral(&f, &[lim, [T::c(1.0), T::c(3.0)]]).unwrap().g(); close!(g, v, 2.0 * want, 2.0 * tol, "double with infinite inner");
    g.nontrivial(); g.label(["to +inf", "from -inf", "both"][side]); Ok(())
}
/// Which limits are accepted, and which typed error the rest give.
fn limits(g: &mut G) -> R {
    let l: [f64; 2] = [if g.bool() { g.hostile() } else { g.f(-5.0, 5.0) }, if g.bool() { g.hostile() } else { g.f(-5.0, 5.0) }]; let same = g.chance(1, 8); let l = if same { [l[0], l[0]] } else { l };
    let l = l.map(|v| if v.is_finite() && v.abs() > 1e150 { 1e150f64.copysign(v) } else { v }); // wider ranges overflow the weighted sum itself
    g.note("limits", &l);
    let ok_iter = !l[0].is_nan() && !l[1].is_nan() && l[0] < l[1]; let ok_leg = ok_iter && l[0].is_finite() && l[1].is_finite();
    let n = g.int(0, 20) as u64; let m = g.pick(&METHODS); let z = |_: f64| 0.0; let zm = |_: &[f64; 2]| 0.0; let pt = [0.0, 0.0];
    let w = if n == 0 { Err(E::IterationsZero) } else if ok_iter { Ok(0.0) } else { Err(E::LimitsIllDefined) };
    let it = iter_single::<f64>(n, m, g.bool()); let mt = iter_multi::<f64>(n, m, g.bool()); let good = [0.0, 1.0];
    ensure!(it.single_integral(&z, &l) == w && it.double_integral(&z, &[good, l]) == w && it.double_integral(&z, &[l, good]) == w, "iterative {:?} want {w:?}", it.single_integral(&z, &l));
    ensure!(mt.single_partial_integral(&zm, 1, &l, &pt) == w && mt.double_partial_integral(&zm, [0, 1], &[l, good], &pt) == w && mt.double_partial_integral(&zm, [0, 1], &[good, l], &pt) == w, "iterative multi");
    if n > 0 { ensure!(integral(&z, l) == w); }
    let order = match g.below(4) { 0 => 0, 1 => g.size(31, 100_000), _ => g.size(1, 30) }; let fam = g.below(3); let method = [GaussianQuadratureMethod::GaussLegendre, GaussianQuadratureMethod::GaussHermite, GaussianQuadratureMethod::GaussLaguerre][fam];
    let okg = match fam { 0 => ok_leg, 1 => l == [f64::NEG_INFINITY, f64::INFINITY], _ => l == [0.0, f64::INFINITY] };
    let w = if order == 0 || order > 30 { Err(E::QuadratureOrderOutOfRange) } else if okg { Ok(0.0) } else { Err(E::LimitsIllDefined) };
    let gs = GaussianSingle::<f64>::from_parameters(order, method); let gm = GaussianMulti::<f64>::from_parameters(order, method);
    ensure!(gs.single_integral(&z, &l) == w && gm.single_partial_integral(&zm, 0, &l, &pt) == w && gs.double_integral(&z, &[l, l]) == w && gm.double_partial_integral(&zm, [0, 1], &[l, l], &pt) == w, "gauss order {order} want {w:?} got {:?}", gs.single_integral(&z, &l));
    if fam == 0 && order >= 1 && order <= 30 && !ok_leg { ensure!(gs.double_integral(&z, &[good, l]) == w && gs.double_integral(&z, &[l, good]) == w && gm.double_partial_integral(&zm, [0, 1], &[good, l], &pt) == w); }
    ensure!(nodes(method, order).is_err() == (order == 0 || order > 30));
    let e: [[f64; 2]; 0] = []; ensure!(it.integrate(&z, &e).is_err() && gs.integrate(&z, &e).is_err() && mt.integrate([], &zm, &e, &pt).is_err() && gm.integrate([], &zm, &e, &pt).is_err(), "empty limits");
    g.nontrivial_if(!ok_iter || !l[0].is_finite() || !l[1].is_finite()); g.label_if(ok_iter, "accepted"); Ok(())
}
/// One non-finite sample anywhere is a typed error, at every nesting level.
fn nonfinite(g: &mut G) -> R {
    let bad = g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); let m = g.pick(&METHODS); let n = g.int(1, 30) as u64; let (pw, _) = panel(m); let n = n.div_ceil(pw) * pw; let k = g.int(0, n as i64) as f64; let dim = g.below(2);
    let h = 1.0 / n as f64; let hit = Cell::new(false); g.note("method", &m); g.note("n", &n); g.note("sample", &k);
    let f = |x: f64| if (x / h - k).abs() < 0.25 { hit.set(true); bad } else { 1.0 }; let fm = |x: &[f64; 2]| f(x[dim]);
    let it = iter_single::<f64>(n, m, g.bool()); let mt = iter_multi::<f64>(n, m, g.bool());
    ensure!(it.single_integral(&f, &[0.0, 1.0]) == Err(E::NonFinite) && hit.get(), "single"); ensure!(it.double_integral(&f, &[[0.0, 1.0], [2.0, 3.0]]) == Err(E::NonFinite));
    ensure!(mt.single_partial_integral(&fm, dim, &[0.0, 1.0], &[5.0, 5.0]) == Err(E::NonFinite), "multi single"); ensure!(mt.double_partial_integral(&fm, [0, 1], &[[0.0, 1.0], [0.0, 1.0]], &[5.0, 5.0]) == Err(E::NonFinite), "multi double");
    let order = g.size(1, 30); let j = g.below(order); let fam = g.below(3); let method = [GaussianQuadratureMethod::GaussLegendre, GaussianQuadratureMethod::GaussHermite, GaussianQuadratureMethod::GaussLaguerre][fam]; let xj = nodes(method, order).unwrap()[j].1;
    let lim = [[-1.0, 1.0], [f64::NEG_INFINITY, f64::INFINITY], [0.0, f64::INFINITY]][fam]; let f = |x: f64| if (x - xj).abs() < 1e-12 { bad } else { 1.0 }; let fm = |x: &[f64; 2]| f(x[dim]);
    let gs = GaussianSingle::<f64>::from_parameters(order, method); let gm = GaussianMulti::<f64>::from_parameters(order, method);
    ensure!(gs.single_integral(&f, &lim) == Err(E::NonFinite) && gs.double_integral(&f, &[lim, lim]) == Err(E::NonFinite) && gm.single_partial_integral(&fm, dim, &lim, &[0.3; 2]) == Err(E::NonFinite) && gm.double_partial_integral(&fm, [1, 0], &[lim, lim], &[0.3; 2]) == Err(E::NonFinite), "gauss");
    g.nontrivial(); Ok(())
}
fn main() {
    let _ = polyval;
    run("C03", &["polynomial integrals are computed exactly in double-double", "composite error bounds use the textbook remainder terms", "nodes and weights are recomputed from the three-term recurrences in double-double"], &[
        law!("composite_polynomials", 20_000, composite::<f64>, "degree >= 1 and non-zero integral"), law!("composite_polynomials_f32", 6_000, composite::<f32>, "as above"),
        law!("composite_weights", 6_000, weights::<f64>, "more than 8 samples"), law!("composite_weights_f32", 4_000, weights::<f32>, "more than 8 samples"),
        law!("multi_variable", 20_000, multi, "several variables and a non-zero integral"),
        law!("gauss_tables", 30_000, tables, "every node"), law!("gauss_polynomials", 40_000, gauss::<f64>, "order > 1 and degree > 0"), law!("gauss_polynomials_f32", 10_000, gauss::<f32>, "order > 1 and degree > 0"),
        law!("smooth_integrands", 20_000, smooth, "non-zero integral"), law!("linearity", 15_000, metamorphic, "both integrals non-zero"),
        law!("infinite_domains", 2_500, infinite::<f64>, "all"), law!("infinite_domains_f32", 1_000, infinite::<f32>, "all"),
        law!("limit_errors", 30_000, limits, "a limit is invalid or infinite"), law!("non_finite_samples", 15_000, nonfinite, "all"),
    ]);
}
