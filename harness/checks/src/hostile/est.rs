use super::hostile::*;
use multicalc::estimation::*;
use multicalc::mapping::*;
/// Filters keep their belief when a call is refused.
macro_rules! belief { ($f:ident, $c:expr, $w:expr) => {{ let before = format!("{:?} {:?}", $f.state(), $f.covariance()); let r = $c; if r.is_err() { let after = format!("{:?} {:?}", $f.state(), $f.covariance()); ensure!(before == after, "{}: refused with {:?}, yet the belief moved from {before} to {after}", $w, r.err()); } r }} }
pub fn kalman<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let mut f = KalmanFilter::<3, 2, T>::new(h.v(), h.spd(), KalmanModel { state_transition: h.m(), measurement_model: h.m(), process_noise: h.spd(), measurement_noise: h.spd() }); if h.g.bool() { f = f.with_covariance_update(CovarianceUpdate::Naive); } h.g.note("filter", &f);
    for _ in 0..8 { match h.g.below(8) { 0 => f.predict(), 1 => f.predict_with_control(h.m::<3, 2, T>(), h.v()), 2 => f.set_state(h.v()), 3 => f.set_state_transition(h.m()), 4 => f.set_measurement_noise(h.spd()), 5 => { f.set_process_noise(h.spd()); f.set_measurement_model(h.m()); } _ => { let z: Vector<2, T> = h.v(); h.g.note("update", &z); if belief!(f, f.update(z), "update").is_ok() { ensure!(z.is_finite(), "took {z:?}"); } } } let _ = bb(f.normalized_innovation_squared()); bb((f.innovation(), f.innovation_covariance())); } Ok(())
}
pub fn extended<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let n = Cell::new(0); let fm = fun(&mut h, &n, 1_000_000); let (x, p, q, r) = (h.v(), h.spd(), h.spd(), h.spd()); let mut f = ExtendedKalmanFilter::<3, 2, T>::new(x, p, q, r); let mut u = UnscentedKalmanFilter::<3, 2, T>::new(x, p, q, r); h.g.note("model", &(fm.k, fm.c)); h.g.note("start", &(x, p, q, r));
    if h.g.chance(1, 2) { let (a, b, k): (T, T, T) = (h.px(), h.x(), h.x()); h.g.note("scaling", &(a, b, k)); if let Ok(v) = finite_only!(u.with_scaling(a, b, k), "with_scaling", a, b, k) { u = v; } else { u = UnscentedKalmanFilter::new(x, p, q, r); } } if h.g.chance(1, 4) { let e: T = h.px(); if let Ok(v) = finite_only!(UnscentedKalmanFilter::<3, 2, T>::new(x, p, q, r).with_regularization(e), "with_regularization", e) { u = v; } }
    for _ in 0..6 { match h.g.below(7) { 0 | 1 => { if belief!(f, f.predict(&fm), "EKF predict").is_ok() { ensure!(f.state().is_finite(), "predicted {:?}", f.state()); } if belief!(u, u.predict(&fm), "UKF predict").is_ok() { ensure!(u.state().is_finite(), "predicted {:?}", u.state()); } } 2 => { let s = h.v(); f.set_state(s); u.set_state(s); } 3 => { let s = h.spd(); f.set_process_noise(s); u.set_process_noise(s); } 4 => { let s = h.spd(); f.set_measurement_noise(s); u.set_measurement_noise(s); } 5 => { let z: Vector<2, T> = h.v(); h.g.note("residual", &z); if belief!(f, f.update_with_residual(&fm, z), "EKF residual").is_ok() { ensure!(z.is_finite(), "took {z:?}"); } if belief!(u, u.update_with_residual(&fm, z), "UKF residual").is_ok() { ensure!(z.is_finite(), "took {z:?}"); } } _ => { let z: Vector<2, T> = h.v(); h.g.note("update", &z); if belief!(f, f.update(&fm, z), "EKF update").is_ok() { ensure!(z.is_finite(), "took {z:?}"); } if belief!(u, u.update(&fm, z), "UKF update").is_ok() { ensure!(z.is_finite(), "took {z:?}"); } } } let _ = bb((f.normalized_innovation_squared(), u.normalized_innovation_squared())); }
    let idx = [h.n(3), h.n(3)]; let d = DirectMeasurement::<3, 2>::try_new(idx); ensure!(d.is_ok() == (idx[0] < 3 && idx[1] < 3), "components {idx:?}: {d:?}"); if let Ok(d) = d { bb((d.indices(), d.eval(&h.a::<3, T>()))); } let s: [T; 5] = h.a(); bb(ConstantTurnAndSpeed { timestep: h.d() }.eval(&s)); let (a, b): (Vector<3, T>, Vector<3, T>) = (h.v(), h.v()); bb(residual_with_wrapped_angles(a, b, &[h.n(3), h.n(3), h.n(3)])); Ok(())
}
struct Sensor<const M: usize>(usize);
impl<const M: usize> NominalStateFn<M> for Sensor<M> { fn eval<S: Numeric>(&self, s: &NominalState<S>) -> [S; M] { let v = match self.0 { 0 => s.position(), 1 => s.velocity(), 2 => s.orientation().inverse().act(Vector::new([S::ONE, S::ZERO, S::ZERO])), 3 => s.gyroscope_bias(), 4 => Vector::new([S::from_f64(f64::NAN); 3]), _ => Vector::from_fn(|i| s.position()[i].recip()) }; core::array::from_fn(|i| v[i % 3]) } }
fn nominal<T: Fx>(h: &mut H) -> NominalState<T> { let o = if h.g.chance(3, 4) { SO3::identity() } else { h.so3() }; NominalState::new(h.v(), h.v(), o, h.v(), h.v()) }
pub fn inertial<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let s: NominalState<T> = nominal(&mut h); let c: Matrix<15, 15, T> = if h.g.bool() { Matrix::identity().scale(h.px()) } else { h.spd() }; let noise = |h: &mut H| ImuNoise { gyroscope_noise_density: h.px(), accelerometer_noise_density: h.px(), gyroscope_bias_random_walk: h.px(), accelerometer_bias_random_walk: h.px() }; let n = noise(&mut h); let mut f = ErrorStateKalmanFilter::<3, T>::new(s, c, n, h.spd()); if h.g.bool() { f = f.with_covariance_update(CovarianceUpdate::Naive); } if h.g.bool() { f = f.with_gravity(h.v()); } h.g.note("filter", &f);
    macro_rules! kept { ($c:expr, $w:expr) => {{ let before = format!("{:?} {:?}", f.nominal_state(), f.covariance()); let r = $c; if r.is_err() { ensure!(format!("{:?} {:?}", f.nominal_state(), f.covariance()) == before, "{}: refused with {:?}, yet the belief moved", $w, r.err()); } r }} }
    for _ in 0..6 { let (a, b, t): (Vector<3, T>, Vector<3, T>, T) = (h.v(), h.v(), h.px()); let sn = h.g.below(6); h.g.note("a,b,t,sensor", &(a, b, t, sn)); match h.g.below(9) { 0 | 1 | 2 => { if kept!(f.predict(a, b, t), "predict").is_ok() { ensure!(a.is_finite() && b.is_finite() && t.is_finite() && f.nominal_state().is_finite(), "predicted {:?}", f.nominal_state()); } } 3 => { if kept!(f.update(&Sensor::<3>(sn), a), "update").is_ok() { ensure!(a.is_finite() && f.nominal_state().is_finite(), "took {a:?} and became {:?}", f.nominal_state()); } } 4 => { if kept!(f.update_with_residual(&Sensor::<3>(sn), a), "update_with_residual").is_ok() { ensure!(a.is_finite(), "took {a:?}"); } } 5 => { let (r, m) = (h.v(), h.spd()); if kept!(f.update_other::<2, _>(&Sensor::<2>(sn), r, m), "update_other").is_ok() { ensure!(r.is_finite(), "took {r:?}"); } } 6 => { let _ = kept!(f.condition_covariance(t), "condition_covariance"); } 7 => { if h.g.chance(1, 3) { f.inject_error_and_reset(h.v()); } else { f.set_nominal_state(nominal(&mut h)); } } _ => { f.set_imu_noise(noise(&mut h)); f.set_measurement_noise(h.spd()); } } bb((f.error_state_transition(a, b, t), f.innovation(), f.innovation_covariance())); let _ = bb(f.normalized_innovation_squared()); let _ = bb(f.normalized_estimation_error_squared(s)); }
    bb((s.plus_error(h.v()), s.error_from(nominal(&mut h)), s.propagated(h.v(), h.v(), h.x(), h.v()))); Ok(())
}
pub fn attitude<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let o: SO3<T> = if h.g.bool() { SO3::identity() } else { h.so3() }; let (mut a, mut b) = (MadgwickFilter::new(o), MahonyFilter::new(o)); if h.g.bool() { a = a.with_correction_gain(h.x()).with_bias_gain(h.x()); b = b.with_proportional_gain(h.x()).with_integral_gain(h.x()); } if h.g.chance(1, 3) { let (u, n) = (h.v(), h.v()); a = a.with_reference_directions(u, n); b = b.with_reference_directions(u, n); } h.g.note("filters", &(a, b));
    for _ in 0..6 { let (w, x, m, t): (Vector<3, T>, Vector<3, T>, Vector<3, T>, T) = (h.v(), h.v(), h.v(), h.px()); let m = if h.g.bool() { Some(m) } else { None }; h.g.note("step", &(w, x, m, t)); let r = keep!(a, a.step(w, x, m, t), "Madgwick step"); ensure!(r.is_err() || (w.is_finite() && x.is_finite() && t.is_finite()), "took {w:?} {x:?} {t:?}"); let r = keep!(b, b.step(w, x, m, t), "Mahony step"); ensure!(r.is_err() || (w.is_finite() && x.is_finite() && t.is_finite()), "took {w:?} {x:?} {t:?}"); if h.g.chance(1, 4) { let _ = keep!(a, a.step_without_magnetometer(w, x, t), "Madgwick"); let _ = keep!(b, b.step_without_magnetometer(w, x, t), "Mahony"); } if h.g.chance(1, 8) { let s = h.so3(); a.set_orientation(s); b.set_orientation(s); let s = h.v(); a.set_gyroscope_bias(s); b.set_gyroscope_bias(s); } } Ok(())
}
pub fn particles<T: Fx + multicalc::random::RandomScalar>(g: &mut G) -> R {
    let mut h = hx(g); let n = match h.g.below(10) { 0 => 0, 1 if h.r > 0 => h.g.pick(&[usize::MAX, usize::MAX / 2, usize::MAX / 8]), _ => 1 + h.g.below(12) }; let (x, c, q): (Vector<2, T>, Matrix<2, 2, T>, Matrix<2, 2, T>) = (h.v(), h.spd(), h.spd()); h.g.note("count,mean,covariance,noise", &(n, x, c, q)); let Ok(mut f) = ParticleFilter::<2, 1, T>::new(n, x, c, q, h.g.raw(0)) else { return Ok(()); }; ensure!(n > 0 && n < 100 && [c, q].iter().all(|m| m[(0, 0)] > T::ZERO && m[(1, 1)] > T::ZERO), "accepted {n} particles"); f = f.with_resampling(h.g.pick(&[ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual])); if h.g.chance(1, 2) { f = f.with_resample_threshold(h.x()); } if h.g.chance(1, 2) { f = f.with_roughening(h.x()); }
    let k = Cell::new(0); let m = fun(&mut h, &k, 1_000_000); let l = GaussianLikelihood::<1, T>::new(h.spd()); let ws: Vec<T> = (0..12).map(|_| h.x()).collect(); h.g.note("model", &(m.k, m.c));
    for _ in 0..6 { match h.g.below(6) { 0 | 1 => { let _ = bb(f.predict(&m)); } 2 => { if let Ok(l) = &l { let z: Vector<1, T> = h.v(); h.g.note("update", &z); let _ = bb(f.update(&m, l, z)); } } 3 => { let mut i = 0; let _ = bb(f.update_with_log_weights(|_| { i += 1; ws[i % 12] })); } 4 => f.resample(), _ => { let _ = keep!(f, f.set_process_noise(h.spd()), "set_process_noise"); } } ensure!(f.particles().len() == n && f.weights().len() == n, "{} particles, {} weights", f.particles().len(), f.weights().len()); let s: f64 = f.weights().iter().map(|w| w.g()).sum(); ensure!((s - 1.0).abs() < 1e-3, "weights add up to {s}"); bb((f.effective_sample_size(), f.mean(), f.maximum_a_posteriori_state())); }
    let mut src = multicalc::Pcg32::<T>::new(1); let nw = h.g.below(9); let mut out = vec![0; h.g.below(9)]; let w: Vec<T> = (0..nw).map(|_| h.px()).collect(); h.g.note("weights", &w); for s in [ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual] { s.resample_indices(&w, &mut src, &mut out); ensure!(nw == 0 || out.iter().all(|&i| i < nw), "picked {out:?} of {nw}"); } Ok(())
}
pub fn localizer(g: &mut G) -> R {
    let mut h = hx(g); let p = match h.g.below(10) { 0 => 0, 1 if h.r > 0 => usize::MAX, _ => 1 + h.g.below(8) }; let c = InitialParticleCloud { particle_count: p, position_variance: h.p(), heading_variance: h.p() }; let m = if h.g.bool() { BeamModel::default() } else { BeamModel { range_deviation: h.p(), agreement_reward: h.d(), mismatch_penalty: h.d() } }; let hint: [f64; 3] = h.a(); h.g.note("cloud,model,hint", &(p, c.position_variance, c.heading_variance, m.range_deviation, m.agreement_reward, m.mismatch_penalty, hint)); let Ok(mut l) = MonteCarloLocalizer::<5, f64>::new(hint, c, m, h.g.raw(0)) else { return Ok(()); };
    let Ok(mut map) = DynamicOccupancyGrid::try_new(8, 6, 0.5, [-2.0, -1.5]) else { bad!("map") }; map.occupy_circle([0.0, 0.0], 1.2); let Ok(geo) = ScanGeometry::<5, f64>::try_new(h.g.f(0.1, 6.2), h.g.log10(-2.0, 3.0)) else { discard!() }; for _ in 0..4 { let (a, b): (f64, f64) = (h.x(), h.x()); let s: [f64; 5] = core::array::from_fn(|_| h.p()); h.g.note("move,scan", &(a, b, s)); let _ = bb(l.predict(a, b)); let _ = bb(l.update(&s, &map, &geo)); bb(l.estimate()); bb(l.is_converged(1.0, 1.0)); bb(l.effective_sample_size()); } Ok(())
}
