use super::hostile::*;
use multicalc::numerical_derivative::*;
use multicalc::numerical_integration::*;
use multicalc::optimization::*;
use multicalc::root_finding::*;
use multicalc::ode::*;
use multicalc::approximation::*;
use multicalc::vector_field::*;
use multicalc::Pcg32;
/// Every scalar function of every scalar type, on every value.
pub fn scalars(g: &mut G) -> R {
    fn all<S: Numeric>(a: S, b: S, lo: S::Constant, hi: S::Constant, n: i32) { bb([a + b, a - b, a * b, a / b, -a, a.abs(), a.sqrt(), a.cbrt(), a.sin(), a.cos(), a.tan(), a.exp(), a.log(), a.expm1(), a.ln_1p(), a.log2(), a.log10(), a.atan2(b), a.copysign(b), a.floor(), a.ceil(), a.round(), a.trunc(), a.clamp(lo, hi), a.signum(), a.max(b), a.min(b), a.wrap_to_pi(), a.to_radians(), a.to_degrees(), a.atan(), a.asin(), a.acos(), a.sinh(), a.cosh(), a.tanh(), a.hypot(b), a.powf(b), a.mul_add(b, a), a.recip(), a.powi(n), a.safe_div(b)]); bb((a.is_nan(), a.is_finite(), a.is_infinite(), a == b, a < b, a.partial_cmp(&b))); }
    let mut h = hx(g); let v: [f64; 8] = h.a(); let w: [f32; 8] = h.a(); let n = if h.r > 0 && h.g.chance(1, 4) { h.g.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, -1, 0]) } else { h.g.int(-12, 12) as i32 }; h.g.note("v", &v); h.g.note("w", &w); h.g.note("n", &n);
    let (lo, hi) = (v[6], v[7]); all(v[0], v[1], lo, hi, n); all(w[0], w[1], w[6], w[7], n); all(Dual::new(v[0], v[2]), Dual::new(v[1], v[3]), lo, hi, n); all(Dual::new(w[0], w[2]), Dual::new(w[1], w[3]), w[6], w[7], n); all(HyperDual::new(v[0], v[2], v[3], v[4]), HyperDual::new(v[1], v[4], v[5], v[2]), lo, hi, n); all(Jet::<f64, 4>::new([v[0], v[2], v[3], v[4]]), Jet::new([v[1], v[3], v[4], v[5]]), lo, hi, n); all(Jet::<f64, 1>::new([v[0]]), Jet::new([v[1]]), lo, hi, n); all(Dual::new(Dual::new(v[0], v[1]), Dual::new(v[2], v[3])), Dual::new(Dual::new(v[1], v[4]), Dual::new(v[5], v[0])), Dual::new(lo, 0.0), Dual::new(hi, 0.0), n);
    let c = Numeric::clamp(v[0], lo, hi); ensure!(!(lo <= hi) || v[0].is_nan() || (c >= lo && c <= hi), "{} clamped into {lo}..{hi} is {c}", v[0]); let d = Dual::new(v[0], 1.0).clamp(lo, hi); ensure!(format!("{:?}", d.value) == format!("{c:?}"), "{} clamped into {lo}..{hi} is {c} and, as a dual number, {}", v[0], d.value);
    let u = h.g.raw(0); bb((f64::from_u64(u), f32::from_u64(u), Dual::<f64>::from_usize(u as usize), v[0].to_f32(), w[0].to_f64())); let k = h.n(5); if k < 6 { let j = Jet::<f64, 5>::new(h.a()); bb((j.coefficient(k.min(4)), j.derivative(k.min(4)), j.value())); } Ok(())
}
pub fn roots<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let n = Cell::new(0); let f = fun(&mut h, &n, 40_000); let (a, b, x, y): (T, T, T, T) = (h.x(), h.x(), h.px(), h.px()); let it = h.g.below(300); h.g.note("function", &(f.k, f.c)); h.g.note("a,b,xtol,ftol,iterations", &(a, b, x, y, it));
    for r in [Bisection::new().with_xtol(x).with_ftol(y).with_max_iterations(it).solve(&f, a, b), Brent::new().with_xtol(x).with_ftol(y).with_max_iterations(it).solve(&f, a, b)] { if let Ok(r) = r { ensure!(a.is_finite() && b.is_finite() && r.root >= a.min(b) && r.root <= a.max(b), "a root {:?} of the bracket {a:?}..{b:?}", r.root); } }
    let back = h.g.bool(); let _ = bb(Newton::<AutoDiffSingle<T>>::from_derivator(AutoDiffSingle::new()).with_xtol(x).with_ftol(y).with_max_iterations(it).with_backtracking(back).solve(&f, a)); let _ = bb(Newton::from_derivator(FiniteDifferenceSingle::<T>::from_parameters(b, FiniteDifferenceMode::Central, T::TEN)).with_max_iterations(it).with_backtracking(back).solve(&f, a));
    let s: [T; 2] = h.a(); let s3: [T; 3] = h.a(); h.g.note("starts", &(s, s3)); let z = NewtonSystem::<AutoDiffMulti<T>>::from_derivator(AutoDiffMulti::new()).with_xtol(x).with_ftol(y).with_max_iterations(it).with_backtracking(back); let _ = bb(z.solve::<_, 2>(&f, &s)); let _ = bb(z.solve::<_, 3>(&f, &s3)); let _ = bb(NewtonSystem::from_derivator(FiniteDifferenceMulti::<T>::from_parameters(b, FiniteDifferenceMode::Forward, T::TWO)).with_max_iterations(it.min(50)).solve::<_, 2>(&f, &s)); Ok(())
}
pub fn fits<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let n = Cell::new(0); let f = fun(&mut h, &n, 2_000_000); let (x, y, z, w): (T, T, T, T) = (h.px(), h.px(), h.px(), h.px()); let it = h.g.below(60); let s: [T; 2] = h.a(); let (b, d) = (h.g.bool(), h.g.bool()); h.g.note("function", &(f.k, f.c)); h.g.note("ftol,xtol,gtol,bound,patience,start", &(x, y, z, w, it, s));
    let usual = h.g.bool(); let mut gn = GaussNewton::<AutoDiffMulti<T>>::from_derivator(AutoDiffMulti::new()).with_patience(it).with_backtracking(b); let mut lm = LevenbergMarquardt::<AutoDiffMulti<T>>::from_derivator(AutoDiffMulti::new()).with_patience(it).with_scale_diag(d); if !usual { gn = gn.with_ftol(x).with_xtol(y).with_gtol(z); lm = lm.with_ftol(x).with_xtol(y).with_gtol(z).with_stepbound(w); }
    macro_rules! go { ($n:expr, $m:expr, $s:expr) => { for (who, r) in [("GN", gn.minimize::<_, $n, $m>(&f, $s)), ("LM", lm.minimize::<_, $n, $m>(&f, $s))] { if let Ok(r) = r { ensure!(r.objective_function >= T::ZERO, "{who} reports an objective of {:?}", r.objective_function); ensure!(r.solution.iter().all(|v| !v.is_nan()), "{who} answered {:?}", r.solution); } } } } go!(2, 3, &s); go!(2, 2, &s); go!(1, 4, &[s[0]]); go!(2, 1, &s);
    let fd = LevenbergMarquardt::from_derivator(FiniteDifferenceMulti::<T>::from_parameters(x, FiniteDifferenceMode::Backward, T::TEN)).with_patience(it.min(20)); let _ = bb(fd.minimize::<_, 2, 3>(&f, &s)); Ok(())
}
pub fn odes<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let n = Cell::new(0u64); let (k, c) = (h.g.below(KINDS), h.d()); let cap = 200_000; let f = |t: T, y: &Vector<2, T>| { n.set(n.get() + 1); if n.get() > cap { panic!("a rate was asked for more than {cap} times"); } Vector::new([y[1], body::<T>(k, c, y[0]) + t * T::HALF]) }; let (t0, t1, y, dt): (T, T, Vector<2, T>, T) = (h.x(), h.x(), h.v(), h.x()); let steps = h.g.below(40); h.g.note("rate", &(k, c)); h.g.note("t0,t1,y,dt,steps", &(t0, t1, y, dt, steps));
    bb(Rk4::step(&f, t0, &y, dt)); let mut seen = 0; bb(Rk4::integrate(&f, t0, &y, dt, steps, |_, _| seen += 1)); ensure!(seen == steps || seen == steps + 1, "{seen} observations of {steps} steps");
    let mut s = Rk45::<T>::default().with_max_steps(h.g.below(500)); if h.g.chance(1, 2) { s = s.with_rtol(h.px()); } if h.g.chance(1, 2) { s = s.with_atol(h.px()); } if h.g.chance(1, 3) { s = s.with_first_step(h.x()); } if h.g.chance(1, 3) { s = s.with_min_step(h.x()); } if h.g.chance(1, 3) { s = s.with_max_step(h.x()); } h.g.note("solver", &format!("{:?}", "rk45"));
    if let Ok(e) = bb(s.solve(&f, t0, &y, t1)) { ensure!(e.is_finite(), "finished at {e:?}"); } let q: T = h.x(); let _ = s.for_each_step(&f, t0, &y, t1, |st| { bb(st.interpolate(q)); }); let m = h.g.below(5); let ts: Vec<T> = (0..m).map(|_| h.x()).collect(); let mut out = vec![Vector::zeros(); if h.g.chance(1, 6) { h.g.below(6) } else { m }]; h.g.note("times,room", &(&ts, out.len())); if s.solve_on_grid(&f, t0, &y, &ts, &mut out).is_ok() { ensure!(out.len() == ts.len(), "{} answers to {} times", out.len(), ts.len()); }
    let (o, w, al): (SO3<T>, Vector<3, T>, Vector<3, T>) = (h.so3(), h.v(), h.v()); bb((ExponentialMap::attitude_step(o, w, dt), ExponentialMap::attitude_step_with_angular_acceleration(o, w, al, dt))); let _ = bb(ExponentialMap::integrate_attitude(&|t: T, _| w.scale(t) + al, t0, o, dt, steps, |_, _| {})); Ok(())
}
pub fn derivs<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let n = Cell::new(0); let f = fun(&mut h, &n, 100_000); let (x, st, mu): (T, T, T) = (h.x(), h.x(), h.x()); let o = h.n(5); let p: [T; 3] = h.a(); let i = [h.n(3), h.n(3), h.n(3)]; let mode = h.g.pick(&[FiniteDifferenceMode::Forward, FiniteDifferenceMode::Backward, FiniteDifferenceMode::Central]); h.g.note("function", &(f.k, f.c)); h.g.note("x,step,multiplier,order,point,indices", &(x, st, mu, o, p, i));
    let (a, b) = (AutoDiffSingle::<T>::new(), FiniteDifferenceSingle::<T>::from_parameters(st, mode, mu)); let _ = bb(a.differentiate(o, &f, x)); if o < 12 || o > 1 << 40 { let _ = bb(b.differentiate(o.min(13), &f, x)); } let _ = bb((a.first_derivative(&f, x), a.second_derivative(&f, x), b.first_derivative(&f, x), b.second_derivative(&f, x))); bb((derivative(&f, x), second_derivative(&f, x)));
    let (a, b) = (AutoDiffMulti::<T>::new(), FiniteDifferenceMulti::<T>::from_parameters(st, mode, mu)); macro_rules! each { ($d:expr) => { let d = $d; let fine = |k: usize| i[..k].iter().all(|&q| q < 3); ensure!(d.first_partial_derivative::<_, 3>(&f, i[0], &p).is_err() || fine(1), "no variable {}", i[0]); ensure!(d.second_partial_derivative::<_, 3>(&f, &[i[0], i[1]], &p).is_err() || fine(2), "no variables {i:?}"); ensure!(d.differentiate::<_, 3, 3>(&f, &i, &p).is_err() || fine(3), "no variables {i:?}"); ensure!(d.differentiate::<_, 3, 0>(&f, &[], &p).is_err(), "a derivative of no order"); ensure!(d.jacobian_column::<_, 3, 2>(&f, i[0], &p).is_err() || i[0] < 3, "no column {}", i[0]); } } each!(a); each!(b); let _ = bb(partial::<T, _, 3>(&f, i[0].min(2), &p));
    let _ = bb(Jacobian::<AutoDiffMulti<T>>::from_derivator(a).evaluate::<_, 2, 3>(&f, &p)); let _ = bb(Jacobian::from_derivator(b).evaluate::<_, 4, 3>(&f, &p)); let _ = bb(Jacobian::<AutoDiffMulti<T>>::from_derivator(a).evaluate_on_heap::<_, 4, 3>(&f, &p)); let _ = bb(Hessian::<AutoDiffMulti<T>>::from_derivator(a).evaluate::<_, 3>(&f, &p)); let _ = bb(Hessian::from_derivator(b).evaluate::<_, 3>(&f, &p));
    let q: [[T; 3]; 4] = core::array::from_fn(|_| h.a()); if let Ok(l) = LinearApproximator::<AutoDiffMulti<T>>::from_derivator(a).approximate::<_, 3>(&f, &p) { bb((l.predict(&q[0]), l.intercept(), l.prediction_metrics::<_, 4>(&q, &f), l.prediction_metrics::<_, 1>(&[q[0]], &f), l.prediction_metrics::<_, 0>(&[], &f))); } if let Ok(l) = QuadraticApproximator::<AutoDiffMulti<T>>::from_derivator(a).with_kahan_summation().approximate::<_, 3>(&f, &p) { bb((l.predict(&q[0]), l.prediction_metrics::<_, 4>(&q, &f), l.prediction_metrics::<_, 0>(&[], &f))); }
    let d2 = [p[0], p[1]]; let _ = bb(curl_3d::<_, _, 3>(a, &f, &p)); let _ = bb(curl_2d::<_, _, 2>(a, &f, &d2)); let _ = bb(curl_2d::<_, _, 3>(a, &f, &p)); let _ = bb(divergence_3d::<_, _, 3>(b, &f, &p)); let _ = bb(divergence_2d::<_, _, 2>(a, &f, &d2)); Ok(())
}
pub fn integrals<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let n = Cell::new(0u64); let (k, c) = (h.g.below(KINDS), h.d()); let cap = 3_000_000; let hit = || { n.set(n.get() + 1); if n.get() > cap { panic!("an integrand was called more than {cap} times"); } }; let f = |x: T| { hit(); body::<T>(k, c, x) }; let fm = |p: &[T; 3]| { hit(); body::<T>(k, c, p[0]) * p[1] + p[2] }; let l: [[T; 2]; 3] = core::array::from_fn(|_| h.a()); let it = if h.g.chance(1, 6) { h.g.pick(&[0, 1, 2, 3]) } else { h.g.below(70) as u64 }; let o = h.n(32); let (i, j) = (h.n(3), h.n(3)); let p: [T; 3] = h.a(); h.g.note("integrand", &(k, c)); h.g.note("limits,iterations,order,i,j,p", &(l, it, o, i, j, p));
    let kind = h.g.pick(&[IterativeMethod::Booles, IterativeMethod::Simpsons, IterativeMethod::Trapezoidal]); let mut a = IterativeSingle::<T>::from_parameters(it, kind); let mut m = IterativeMulti::<T>::from_parameters(it, kind); if h.g.bool() { a = a.with_kahan_summation(); m = m.with_kahan_summation(); } let q = h.g.pick(&[GaussianQuadratureMethod::GaussLegendre, GaussianQuadratureMethod::GaussHermite, GaussianQuadratureMethod::GaussLaguerre]); let b = GaussianSingle::<T>::from_parameters(o, q); let e = GaussianMulti::<T>::from_parameters(o, q);
    macro_rules! one { ($s:expr) => { let s = $s; let _ = bb(s.single_integral(&f, &l[0])); let _ = bb(s.double_integral(&f, &[l[0], l[1]])); if it < 24 { let _ = bb(s.integrate::<_, 3>(&f, &l)); } let _ = bb(s.integrate::<_, 0>(&f, &[])); } } one!(a); one!(b); macro_rules! many { ($s:expr) => { let s = $s; ensure!(s.single_partial_integral::<_, 3>(&fm, i, &l[0], &p).is_err() || i < 3, "no variable {i}"); ensure!(s.double_partial_integral::<_, 3>(&fm, [i, j], &[l[0], l[1]], &p).is_err() || (i < 3 && j < 3), "no variables {i} {j}"); } } many!(m); many!(e); if h.g.chance(1, 8) { let _ = bb(integral(&f, l[0])); }
    let g2: [&dyn Fn(&[T; 2]) -> T; 2] = [&|p| { hit(); body::<T>(k, c, p[0]) }, &|p| p[1] * p[0]]; let x2: [&dyn Fn(T) -> T; 2] = [&|t| t.cos(), &|t| { hit(); body::<T>(k, c, t) }]; let _ = bb(line_integral_2d_custom(&g2, &x2, &l[0], it)); let _ = bb(flux_integral_2d_custom(&g2, &x2, &l[0], it)); ensure!(line_integral_partial_2d(&g2, &x2, &l[0], it, i).is_err() || i < 2, "no component {i}"); let g3: [&dyn Fn(&[T; 3]) -> T; 3] = [&|p| p[0], &|p| { hit(); body::<T>(k, c, p[2]) }, &|p| p[1]]; let x3: [&dyn Fn(T) -> T; 3] = [&|t| t, &|t| t * t, &|t| t.sin()]; let _ = bb(line_integral_3d_custom(&g3, &x3, &l[0], it)); let _ = bb(flux_integral_3d_custom(&g3, &x3, &l[0], it)); ensure!(line_integral_partial_3d(&g3, &x3, &l[0], it, i).is_err() || i < 3, "no component {i}"); Ok(())
}
pub fn draws(g: &mut G) -> R {
    use multicalc::RandomSource as S; let mut h = hx(g); let mut r = Pcg32::<f64>::with_stream(h.g.raw(0), h.g.raw(0)); let mut s = Pcg32::<f32>::new(h.g.raw(0)); let v: [f64; 4] = h.a(); let w: [f32; 4] = h.a(); h.g.note("v,w", &(v, w));
    for _ in 0..5 { bb((S::<f64>::next_u32(&mut r), S::<f64>::next_u64(&mut r), r.standard_normal(), S::<f32>::next_u64(&mut s), s.standard_normal())); let u: f64 = r.next_unit(); ensure!((0.0..1.0).contains(&u), "{u}"); let u: f32 = s.next_unit(); ensure!((0.0..1.0).contains(&u), "{u}"); } r.set_cache(v[0]); s.set_cache(w[0]); bb((r.standard_normal(), s.standard_normal())); Ok(())
}
