//! Estimators, Taylor models, quadrature and nested differentiation.
use super::*;
use crate::fun;
use multicalc::approximation::*;
use multicalc::estimation::*;
use multicalc::numerical_derivative::*;
use multicalc::numerical_integration::*;
use multicalc::scalar::{ScalarFn, ScalarFnN, VectorFn};
use multicalc::spatial::*;

struct Swing; // a mildly nonlinear pair of models
impl VectorFn<2, 2> for Swing { fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] { let h = S::from_f64(0.1); [x[0] + h * x[1], x[1] - h * x[0].sin()] } }
struct Seen;
impl VectorFn<2, 1> for Seen { fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 1] { [x[0].sin() + S::from_f64(0.2) * x[1] * x[1]] } }
struct Wave;
impl ScalarFn for Wave { fn eval<S: Numeric>(&self, x: S) -> S { (x * x + S::ONE).log() * x.sin() } }
struct Hill;
impl ScalarFnN<2> for Hill { fn eval<S: Numeric>(&self, x: &[S; 2]) -> S { x[0].sin() * x[1].exp() + x[0] * x[1] * x[1] } }

fun!(Kalman, c, x, { let mut f = KalmanFilter::<2, 1, T>::new(vec(x, 0), spd(x, 2, 0.2), KalmanModel { state_transition: mat(x, 6), measurement_model: mat(x, 10), process_noise: spd(x, 12, 0.1), measurement_noise: spd(x, 16, 0.2) }); if c[0] > 0.0 { f = f.with_covariance_update(CovarianceUpdate::Naive); } let mut o = vec![]; for i in 0..2 { f.predict(); f.update(vec(x, 17 + i)).ok()?; o.extend(vv(f.state())); o.extend(mv(f.covariance())); o.extend(vv(f.innovation())); o.push(f.normalized_innovation_squared().ok()?); } Some(o) });
fun!(Extended, c, x, { let mut f = ExtendedKalmanFilter::<2, 1, T>::new(vec(x, 0), spd(x, 2, 0.2), spd(x, 6, 0.1), spd(x, 10, 0.2)); let mut o = vec![]; for i in 0..2 { f.predict(&Swing).ok()?; f.update(&Seen, vec(x, 11 + i)).ok()?; o.extend(vv(f.state())); o.extend(mv(f.covariance())); } Some(o) });
fun!(Unscented, c, x, { let mut f = UnscentedKalmanFilter::<2, 1, T>::new(vec(x, 0), spd(x, 2, 0.2), spd(x, 6, 0.1), spd(x, 10, 0.2)); f = f.with_scaling(k(0.8), k(2.0), k(1.0)).ok()?; let mut o = vec![]; for i in 0..2 { f.predict(&Swing).ok()?; f.update(&Seen, vec(x, 11 + i)).ok()?; o.extend(vv(f.state())); o.extend(mv(f.covariance())); } Some(o) });
fun!(Orient, c, x, { let mut a = MahonyFilter::new(SO3::exp(vec(x, 0))).with_proportional_gain(x[3]).with_integral_gain(x[4]); let mut b = MadgwickFilter::new(SO3::exp(vec(x, 0))).with_correction_gain(x[3]).with_bias_gain(x[4]); let (w, h) = (vec::<3, T>(x, 5), k::<T>(c[0])); let acc = vec::<3, T>(x, 8) + Vector::new([T::ZERO, T::ZERO, k(3.0)]); let mag = vec::<3, T>(x, 9) + Vector::new([k(2.0), T::ZERO, T::ZERO]); let mut o = vec![]; for i in 0..3 { let m = if i == 1 { None } else { Some(mag) }; a.step(w, acc, m, h).ok()?; b.step(w, acc, m, h).ok()?; o.extend(mv(a.orientation().to_matrix())); o.extend(vv(a.gyroscope_bias())); o.extend(mv(b.orientation().to_matrix())); o.extend(vv(b.gyroscope_bias())); } o.extend(vv(residual_with_wrapped_angles(vec::<3, T>(x, 0), vec(x, 5), &[0, 2]))); Some(o) });
fun!(Inertial, c, x, { let s = NominalState::new(vec(x, 0), vec(x, 3), SO3::exp(vec(x, 6)), vec::<3, T>(x, 9).scale(k(0.1)), vec::<3, T>(x, 12).scale(k(0.1))); let n = s.propagated(vec(x, 15), vec(x, 18), x[21], Vector::new([T::ZERO, T::ZERO, k(-9.81)])); let e = n.error_from(s); let m = s.plus_error(Vector::from_fn(|i| x[i + 4] * k(0.3))); let mut o = vv(n.position()); o.extend(vv(n.velocity())); o.extend(mv(n.orientation().to_matrix())); o.extend(vv(e)); o.extend(mv(m.orientation().to_matrix())); Some(o) });
struct Fix; // position and the direction of a beacon seen from the body
impl NominalStateFn<3> for Fix { fn eval<S: Numeric>(&self, s: &NominalState<S>) -> [S; 3] { let p = s.orientation().inverse().act(Vector::new([S::from_f64(3.0), S::from_f64(-1.0), S::from_f64(2.0)]) - s.position()); [p[0], p[1], s.velocity()[2] + p[2] * S::HALF] } }
fun!(Strapdown, c, x, { let s = NominalState::new(vec(x, 0), vec(x, 3), SO3::exp(vec(x, 6)), vec::<3, T>(x, 9).scale(k(0.1)), vec::<3, T>(x, 12).scale(k(0.1))); let v = vec::<15, T>(x, 3); let p = Matrix::from_fn(|i, j| v[i] * v[j] * k(0.1) + if i == j { k(0.2) } else { T::ZERO }); let imu = ImuNoise { gyroscope_noise_density: x[21], accelerometer_noise_density: x[22], gyroscope_bias_random_walk: x[23], accelerometer_bias_random_walk: x[21] }; let mut f = ErrorStateKalmanFilter::<3, T>::new(s, p, imu, spd(x, 2, 0.4)); if c[0] > 0.0 { f = f.with_covariance_update(CovarianceUpdate::Naive); } let mut o = vec![]; for i in 0..2 { f.predict(vec(x, 15 + i), vec(x, 18), x[24]).ok()?; f.update(&Fix, vec(x, 5 + i)).ok()?; let n = f.nominal_state(); o.extend(vv(n.position())); o.extend(vv(n.velocity())); o.extend(mv(n.orientation().to_matrix())); o.extend(vv(n.gyroscope_bias())); o.extend(vv(n.accelerometer_bias())); o.push(f.normalized_innovation_squared().ok()?); } o.extend(mv(f.covariance())); Some(o) });
fun!(Models, c, x, { let mut o = vec![]; let p = [x[0], x[1]]; let l = LinearApproximator::from_derivator(AutoDiffMulti::<T>::new()).approximate(&Hill, &p).ok()?; o.push(l.predict(&[x[2], x[3]])); o.push(l.intercept()); o.extend(l.coefficients()); let q = QuadraticApproximator::from_derivator(AutoDiffMulti::<T>::new()).approximate(&Hill, &p).ok()?; o.push(q.predict(&[x[2], x[3]])); o.extend(q.gradient()); for r in q.hessian() { o.extend(r); } Some(o) });
fun!(Nested, c, x, { let d = AutoDiffSingle::<T>::default(); let mut o = vec![derivative(&Wave, x[0]), second_derivative(&Wave, x[0])]; for n in 1..4 { o.push(d.differentiate(n, &Wave, x[0]).ok()?); } let m = AutoDiffMulti::<T>::default(); for i in 0..2 { o.push(partial(&Hill, i, &[x[0], x[1]]).ok()?); } Some(o) });
fun!(Areas, c, x, { let (a, b) = (x[0], x[1]); let mut o = vec![]; for m in [IterativeMethod::Booles, IterativeMethod::Simpsons, IterativeMethod::Trapezoidal] { o.push(IterativeSingle::<T>::from_parameters(40, m).single_integral(&|t: T| Wave.eval(t) * x[2], &[a, b]).ok()?); } o.push(GaussianSingle::<T>::from_parameters(9, GaussianQuadratureMethod::GaussLegendre).single_integral(&|t: T| Wave.eval(t) * x[2], &[a, b]).ok()?); Some(o) });

pub fn kalman(g: &mut G) -> R { let x = g.vec(19, -1.0, 1.0); match g.below(3) { 0 => { let c = [g.sign()]; check::<Kalman>(g, &c, &x, 1e-7, 1e-3) } 1 => check::<Extended>(g, &[], &x[..13], 1e-7, 1e-3), _ => check::<Unscented>(g, &[], &x[..13], 1e-7, 1e-3) } }
pub fn attitude(g: &mut G) -> R { if g.bool() { let mut x = g.vec(12, -1.0, 1.0); x[3] = g.u(0.1, 2.0); x[4] = g.u(0.05, 1.0); if g.chance(1, 4) { x[4] = 0.0; } if g.chance(1, 6) { x[3] = 0.0; } let c = [g.log10(-3.0, -1.0)]; check::<Orient>(g, &c, &x, 1e-6, 1e-3) } else { let mut x = g.vec(22, -1.0, 1.0); if g.chance(1, 4) { for i in 15..18 { x[i] = x[i - 6] * 0.1; } } x[21] = g.log10(-3.0, -0.5); check::<Inertial>(g, &[], &x, 1e-6, 1e-4) } }
pub fn calculus(g: &mut G) -> R { match g.below(3) { 0 => { let x = g.vec(4, -1.5, 1.5); check_from::<Models>(g, &[], &x, 1e-8, 1e-3, 2) } 1 => { let x = g.vec(2, -1.5, 1.5); check_from::<Nested>(g, &[], &x, 1e-8, 1e-3, 2) } _ => { let a = g.u(-2.0, 2.0); let x = vec![a, a + g.u(0.1, 3.0), g.u(0.2, 2.0)]; check_from::<Areas>(g, &[], &x, 1e-8, 1e-3, 2) } } }
pub fn strapdown(g: &mut G) -> R { let mut x = g.vec(25, -1.0, 1.0); for i in 21..24 { x[i] = g.u(0.05, 0.5); } if g.chance(1, 4) { for i in 15..19 { x[i] = x[i - 6] * 0.1; } } x[24] = g.log10(-3.0, -0.5); let c = [g.sign()]; check::<Strapdown>(g, &c, &x, 1e-6, 1e-4) }
