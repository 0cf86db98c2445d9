//! Polynomials, motion profiles, paths and ODE steps.
use super::*;
use crate::fun;
use multicalc::motion::*;
use multicalc::ode::{Rk4, Rk45};
use multicalc::polynomial::*;

fn p<const N: usize, T: Numeric>(x: &[T], at: usize) -> Polynomial<N, T> { Polynomial::new(core::array::from_fn(|i| x[at + i])) }
fun!(Algebra, c, x, { let a = p::<4, T>(x, 0); let b = p::<3, T>(x, 4); let t = x[7]; let mut o = vec![a.evaluate(t), a.definite_integral(t, x[8])]; o.extend(a.evaluate_with_derivatives::<5>(t)); o.extend(a.shift_argument(t).coefficients()); o.extend(a.scale_argument(t).coefficients()); o.extend(a.compose_into::<3, 7>(&b).ok()?.coefficients()); o.extend(a.multiply_into::<3, 6>(&b).ok()?.coefficients()); let (q, r) = p::<6, T>(x, 2).divide::<3, 4, 2>(&b).ok()?; o.extend(q.coefficients()); o.extend(r.coefficients()); o.extend(a.nth_derivative(2).coefficients()); Some(o) });
/// Polynomials with the given real roots and leading coefficient, plus a small smooth perturbation.
fn spread<const N: usize, T: Numeric>(c: &[f64], x: &[T]) -> Polynomial<N, T> { let mut k = vec![c[0]]; for r in &c[1..N] { let mut n = vec![0.0; k.len() + 1]; for (i, v) in k.iter().enumerate() { n[i + 1] += v; n[i] -= r * v; } k = n; } Polynomial::new(core::array::from_fn(|i| T::from_f64(k[i]) + x[i] * T::from_f64(1e-2))) }
fun!(Roots, c, x, { let mut o = spread::<2, T>(c, x).real_roots().ok()?.as_slice().to_vec(); o.extend(spread::<3, T>(c, x).real_roots().ok()?.as_slice()); o.extend(spread::<4, T>(c, x).real_roots().ok()?.as_slice()); o.extend(spread::<5, T>(c, x).real_roots().ok()?.as_slice()); Some(o) });
fun!(Plain, c, x, { let r = match c[0] as usize { 3 => p::<3, T>(x, 0).real_roots().ok()?.as_slice().to_vec(), 4 => p::<4, T>(x, 0).real_roots().ok()?.as_slice().to_vec(), _ => p::<5, T>(x, 0).real_roots().ok()?.as_slice().to_vec() }; Some(r) });
fun!(FromRoots, c, x, { let mut o = Polynomial::<5, T>::from_roots(&x[..4]).ok()?.coefficients().to_vec(); o.extend(Polynomial::<4, T>::from_points(&[x[0], x[1], x[2], x[3]], &[x[4], x[5], x[6], x[7]]).ok()?.coefficients()); o.extend(Polynomial::<3, T>::fit_least_squares::<4>(&[x[0], x[1], x[2], x[3]], &[x[4], x[5], x[6], x[7]]).ok()?.coefficients()); o.extend(Polynomial::<4, T>::from_endpoint_derivatives(x[4], x[5], x[6], x[7], x[8]).ok()?.coefficients()); o.extend(Polynomial::<8, T>::from_endpoint_derivatives(&[x[4], x[5], x[6], x[7]], &[x[1], x[2], x[3], x[5]], x[8]).ok()?.coefficients()); o.extend(Polynomial::<4, T>::chebyshev_nodes(x[0], x[0] + x[8])); Some(o) });
fun!(Multi, c, x, { let t = |i: usize, e: [u32; 2]| MultivariateTerm::new(x[i], e); let m = MultivariatePolynomial::<2, 6, T>::try_from_terms(&[t(0, [0, 0]), t(1, [2, 1]), t(2, [0, 3]), t(3, [1, 0])]).ok()?; let v = [x[4], x[5]]; let mut o = vec![m.evaluate(&v)]; o.extend(vv(m.gradient_at(&v))); o.push(m.partial_derivative(0).ok()?.evaluate(&v)); o.push(m.partial_antiderivative(1).ok()?.evaluate(&v)); if c[0] > 0.0 { o.push(m.substitute(0, x[5]).ok()?.evaluate(&v)); } Some(o) });
fun!(Pieces, c, x, { let w = PiecewisePolynomial::<3, 4, 2, T>::try_from_pieces(&[[p(x, 0), p(x, 4)], [p(x, 8), p(x, 12)]], &[x[16], x[17]]).ok()?; let mut o = vv(w.evaluate(x[18]).ok()?); for v in w.evaluate_with_derivatives::<4>(x[18]).ok()? { o.extend(vv(v)); } o.extend(vv(w.definite_integral(x[19], x[18]).ok()?)); o.extend(vv(w.derivative().evaluate(x[18]).ok()?)); o.push(w.total_span()); Some(o) });
fun!(Profile, c, x, { let jerk = if c[0] > 0.0 { Some(x[3]) } else { None }; let m = MotionProfilePlanner::new(ProfileLimits::try_new(x[1], x[2], jerk).ok()?).plan(x[0]).ok()?; let mut o = vec![m.duration(), m.distance(), m.peak_speed()]; let s = m.state_at(x[4]).ok()?; o.extend([s.position, s.velocity, s.acceleration]); let l = m.stretched_to(m.duration() * k(1.7)); let s = l.state_at(x[4]).ok()?; o.extend([l.duration(), s.position, s.velocity]); o.extend(m.phase_durations()); let n = MotionProfilePlanner::new(ProfileLimits::try_new(x[2], x[1], jerk).ok()?).plan(x[5]).ok()?; let y = SynchronizedProfile::<2, T>::from_profiles([m, n]); let s = y.state_at(x[4]).ok()?; o.push(y.duration()); o.extend(vv(s.position)); o.extend(vv(s.velocity)); Some(o) });
fun!(Snap, c, x, { let pl = MinimumSnapPlanner::<4, 12, 2, T>::new().with_start(BoundaryDerivatives { velocity: vec(x, 8), acceleration: vec(x, 9), jerk: vec(x, 10) }).with_end(BoundaryDerivatives { velocity: vec(x, 3), acceleration: vec(x, 4), jerk: vec(x, 5) }); let d = [x[12], x[13], x[14]]; let w = pl.plan(&[vec(x, 0), vec(x, 2), vec(x, 4), vec(x, 6)], &d).ok()?; let mut o = vec![]; for s in w.evaluate_with_derivatives::<5>(x[15]).ok()? { o.extend(vv(s)); } let mut ds = [T::ZERO; 3]; durations_from_average_speed(&[vec::<2, T>(x, 0), vec(x, 2), vec(x, 4), vec(x, 6)], x[12], &mut ds).ok()?; o.extend(ds); Some(o) });
fun!(Path, c, x, { let w: Vec<_> = (0..4).map(|i| vec::<2, T>(x, 2 * i)).collect(); let a = PolylinePath::<6, 2, T>::try_from_points(&w).ok()?.with_end_of_path(if c[0] > 0.0 { EndOfPath::Loop } else { EndOfPath::Stop }); let q = a.closest_point(vec(x, 8)).ok()?; let mut o = vv(q.point()); o.extend([q.arc_length(), q.distance(), a.total_arc_length()]); o.extend(vv(a.lookahead_point(q.arc_length(), x[10]).ok()?)); o.extend(vv(a.lookahead_point(x[11], x[10]).ok()?)); Some(o) });
fun!(Ode, c, x, { let (a, b) = (x[3], x[4]); let f = move |t: T, y: &Vector<2, T>| Vector::new([y[1] + a * t, -b * y[0].sin() - a * y[1]]); let y0 = vec::<2, T>(x, 0); let mut o = vv(Rk4::step(&f, x[2], &y0, x[5])); o.extend(vv(Rk4::integrate(&f, x[2], &y0, x[5], 5, |_, _| {}))); Some(o) });
fun!(Adaptive, c, x, { let (a, b) = (x[3], x[4]); let f = move |t: T, y: &Vector<2, T>| Vector::new([y[1] + a * t, -b * y[0].sin() - a * y[1]]); let s = Rk45::default().with_rtol(k(1e-10)).with_atol(k(1e-12)); let r = s.solve(&f, x[2], &vec::<2, T>(x, 0), x[2] + x[5]).ok()?; Some(vv(r)) });

fn gaps(g: &mut G, n: usize) -> Vec<f64> { let mut v = vec![g.u(-2.0, 0.0)]; for i in 1..n { let w = v[i - 1] + g.u(0.3, 1.2); v.push(w); } v }
pub fn polynomials(g: &mut G) -> R { match g.below(3) { 0 => { let mut x = super::linear::open(g, 9, 1.5); x[6] = g.sign() * g.u(0.4, 1.5); check_from::<Algebra>(g, &[], &x, 1e-8, 1e-3, 2) } 1 => { let mut x = gaps(g, 4); x.extend(g.vec(4, -1.5, 1.5)); x.push(g.u(0.4, 2.0)); check::<FromRoots>(g, &[], &x, 1e-6, 1e-3) } _ => { let whole = g.bool(); let x = if whole { super::linear::open(g, 6, 1.5) } else { g.vec(6, -1.5, 1.5) }; check_from::<Multi>(g, &[whole as u8 as f64], &x, 1e-8, 1e-3, 2) } } }
/// Polynomials with exactly zero coefficients between: x^2 - a, x^3 - a x, x^3 + b, x^4 - a x^2 + b, x^4 - a and the like.
pub fn sparse_roots(g: &mut G) -> R {
    let lead = g.sign() * g.u(0.4, 2.0); let (mut a, mut b) = (g.u(0.3, 3.0), g.u(0.3, 3.0)); if g.bool() { a = (a * 8.0).round() / 8.0; b = (b * 8.0).round() / 8.0; }
    let mut x = match g.below(8) { 0 => vec![-a, 0.0, 1.0], 1 => vec![0.0, a * g.sign(), 1.0], 2 => vec![0.0, -a, 0.0, 1.0], 3 => vec![a * g.sign(), 0.0, 0.0, 1.0], 4 => vec![a * b, 0.0, -(a + b), 0.0, 1.0], 5 => vec![-a, 0.0, 0.0, 0.0, 1.0], 6 => vec![0.0, a * g.sign(), 0.0, 0.0, 1.0], _ => vec![-a * b, 0.0, a - b, 0.0, 1.0] };
    if (a - b).abs() < 0.1 { discard!(); }
    for v in &mut x { *v *= lead; } let n = x.len() as f64; check_from::<Plain>(g, &[n], &x, 1e-6, 1e-2, 2) }
pub fn roots(g: &mut G) -> R { let mut c = vec![g.sign() * g.u(0.4, 2.0)]; let mut r = gaps(g, 4); for i in (1..4).rev() { let j = g.below(i + 1); r.swap(i, j); } c.extend(r); let x = g.vec(5, -1.0, 1.0); check::<Roots>(g, &c, &x, 1e-6, 1e-2) }
pub fn pieces(g: &mut G) -> R { let mut x = g.vec(18, -1.5, 1.5); x[16] = g.u(0.3, 1.5); x[17] = g.u(0.3, 1.5); let t = x[16] + x[17]; x.push(g.u(0.05, 0.95) * t); x.push(g.u(0.05, 0.95) * t); check_from::<Pieces>(g, &[], &x, 1e-8, 1e-3, 2) }
pub fn profiles(g: &mut G) -> R { let j = g.sign(); let x = vec![g.sign() * g.log10(-1.0, 1.0), g.u(0.3, 3.0), g.u(0.3, 3.0), g.u(0.3, 6.0), g.u(0.05, 3.0), g.sign() * g.log10(-1.0, 1.0)]; check::<Profile>(g, &[j], &x, 1e-7, 1e-4) }
pub fn snap(g: &mut G) -> R { let mut x = g.vec(12, -1.5, 1.5); for _ in 0..3 { x.push(g.u(0.5, 2.0)); } let t: f64 = x[12..15].iter().sum(); x.push(t * g.u(0.02, 0.98)); for i in 0..3 { let d = (x[2 * i + 2] - x[2 * i]).hypot(x[2 * i + 3] - x[2 * i + 1]); if d < 0.2 { discard!(); } } check::<Snap>(g, &[], &x, 1e-6, 1e-4) }
pub fn paths(g: &mut G) -> R { let l = g.sign(); let mut x: Vec<f64> = (0..10).map(|_| g.u(-2.0, 2.0)).collect(); for i in 0..3 { let d = (x[2 * i + 2] - x[2 * i]).hypot(x[2 * i + 3] - x[2 * i + 1]); if d < 0.2 { discard!(); } } x.push(g.u(0.05, 1.0)); x.push(g.u(0.05, 3.0)); check::<Path>(g, &[l], &x, 1e-7, 1e-4) }
pub fn odes(g: &mut G) -> R { let mut x = g.vec(5, -1.0, 1.0); x.push(g.u(0.02, 0.5)); if g.chance(2, 3) { check_from::<Ode>(g, &[], &x, 1e-8, 1e-3, 2) } else { check::<Adaptive>(g, &[], &x, 1e-4, 1e-3) } }
