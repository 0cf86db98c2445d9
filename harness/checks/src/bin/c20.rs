//! C20: inertial and attitude filters against independent rotation-matrix and covariance recursions.
use checks::arm::{nrm, qrot, rod, v3, V3};
use checks::lin::*;
use checks::util::*;
use multicalc::error::EstimationError as EE;
use multicalc::estimation::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::spatial::SO3;
use multicalc::{Dual, Numeric};
use vk::dd::DD;
use vk::mat::M as DM;
use vk::*;

type M3 = [[f64; 3]; 3];
const I3: M3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
fn mm(a: M3, b: M3) -> M3 { core::array::from_fn(|i| core::array::from_fn(|j| (0..3).map(|k| a[i][k] * b[k][j]).sum())) }
fn tr(a: M3) -> M3 { core::array::from_fn(|i| core::array::from_fn(|j| a[j][i])) }
fn mv(a: M3, v: V3) -> V3 { core::array::from_fn(|i| (0..3).map(|j| a[i][j] * v[j]).sum()) }
fn add(a: V3, b: V3) -> V3 { core::array::from_fn(|i| a[i] + b[i]) }
fn sc(a: V3, s: f64) -> V3 { a.map(|x| x * s) }
fn cross(a: V3, b: V3) -> V3 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn dot(a: V3, b: V3) -> f64 { (0..3).map(|i| a[i] * b[i]).sum() }
fn hat(v: V3) -> M3 { [[0.0, -v[2], v[1]], [v[2], 0.0, -v[0]], [-v[1], v[0], 0.0]] }
fn expm(v: V3) -> M3 { let a = nrm(&v); if a < 1e-8 { let h = hat(v); let h2 = mm(h, h); return core::array::from_fn(|i| core::array::from_fn(|j| I3[i][j] + h[i][j] + 0.5 * h2[i][j])); } rod(sc(v, 1.0 / a), a) }
fn fix(r: M3) -> M3 { let x = sc(r[0], 1.0 / nrm(&r[0])); let y = add(r[1], sc(x, -dot(r[1], x))); let y = sc(y, 1.0 / nrm(&y)); [x, y, cross(x, y)] }
fn unit(v: V3) -> Option<V3> { let n = nrm(&v); if n == 0.0 || !n.is_finite() { None } else { Some(sc(v, 1.0 / n)) } }
fn dir(g: &mut G) -> V3 { let d = checks::arm::dir(g); sc(d, 1.0 / nrm(&d)) }
fn a3<T: Fl>(v: Vector<3, T>) -> V3 { [v[0].g(), v[1].g(), v[2].g()] }
fn rm<T: Fl>(o: SO3<T>) -> M3 { qrot(o.quaternion().as_array().map(|v| v.g())) }
fn qn<T: Fl>(o: SO3<T>) -> f64 { nrm(&o.quaternion().as_array().map(|v| v.g())) }
fn rdiff(a: M3, b: M3) -> f64 { let mut m: f64 = 0.0; for i in 0..3 { for j in 0..3 { m = m.max((a[i][j] - b[i][j]).abs()); } } if m.is_nan() { f64::NAN } else { m } }
fn near3(g: &mut G, a: V3, w: V3, tol: f64, what: &str) -> R { for i in 0..3 { close!(g, a[i], w[i], tol, "{what} [{i}]"); } Ok(()) }
fn turn(g: &mut G) -> V3 { if g.chance(1, 6) { [0.0; 3] } else { let a = match g.below(4) { 0 => g.log10(-9.0, 0.0), 1 => 3.1, _ => g.f(0.0, 3.1) }; sc(dir(g), a) } }
fn so3<T: Fl>(v: V3) -> SO3<T> { SO3::exp(v3(v)) }
fn push(g: &mut G, s: f64) -> V3 { match g.below(5) { 0 => [0.0; 3], _ => [g.f(-s, s), g.f(-s, s), g.f(-s, s)] } }
fn push32<T: Fl>(g: &mut G, s: f64) -> V3 { push(g, s).map(rnd::<T>) }

/// Nominal state: composition, differences and propagation.
fn nominal<T: Fl>(g: &mut G) -> R {
    let mk = |g: &mut G| { let t = turn(g).map(rnd::<T>); (push32::<T>(g, 5.0), push32::<T>(g, 3.0), t, push32::<T>(g, 0.5), push32::<T>(g, 1.0)) }; let a = mk(g); let n = |s: (V3, V3, V3, V3, V3)| NominalState::<T>::new(v3(s.0), v3(s.1), so3(s.2), v3(s.3), v3(s.4)); let s = n(a); g.note("state", &a);
    ensure!(a3(s.position()) == a.0 && a3(s.velocity()) == a.1 && a3(s.gyroscope_bias()) == a.3 && a3(s.accelerometer_bias()) == a.4 && s.is_finite()); let r = NominalState::<T>::at_rest(so3(a.2)); ensure!(r.position() == Vector::zeros() && r.velocity() == Vector::zeros() && r.gyroscope_bias() == Vector::zeros() && r.accelerometer_bias() == Vector::zeros() && r.orientation() == so3(a.2));
    let e: [f64; 15] = { let t = turn(g); core::array::from_fn(|i| rnd::<T>(if (6..9).contains(&i) { t[i - 6] } else { g.f(-2.0, 2.0) })) }; g.note("error", &e); let p = s.plus_error(Vector::new(e.map(T::c))); let tol = T::EPS * 40.0; let b3 = |k: usize| [e[k], e[k + 1], e[k + 2]]; near3(g, a3(p.position()), add(a.0, b3(0)), tol * 8.0, "position")?; near3(g, a3(p.velocity()), add(a.1, b3(3)), tol * 8.0, "velocity")?; near3(g, a3(p.gyroscope_bias()), add(a.3, b3(9)), tol * 8.0, "rate offset")?; near3(g, a3(p.accelerometer_bias()), add(a.4, b3(12)), tol * 8.0, "push offset")?; let w = mm(expm(a.2), expm(b3(6))); close!(g, rdiff(rm(p.orientation()), w), 0.0, tol, "orientation"); let back = p.error_from(s); let near_half = nrm(&b3(6)) > 3.0; for i in 0..15 { close!(g, back[i].g(), e[i], tol * if near_half { 200.0 } else { 8.0 }, "error {i} there and back"); }
    ensure!(NominalState::<T>::ERROR_DIMENSION == 15 && NominalState::<T>::POSITION_ERROR_INDEX == 0 && NominalState::<T>::VELOCITY_ERROR_INDEX == 3 && NominalState::<T>::ROTATION_ERROR_INDEX == 6 && NominalState::<T>::GYROSCOPE_BIAS_ERROR_INDEX == 9 && NominalState::<T>::ACCELEROMETER_BIAS_ERROR_INDEX == 12);
    let (gy, ac, gr, dt) = (push32::<T>(g, 4.0), push32::<T>(g, 12.0), push32::<T>(g, 10.0), rnd::<T>(if g.chance(1, 5) { 0.0 } else { g.log10(-4.0, 0.3) })); g.note("gyro,accel,gravity,dt", &(gy, ac, gr, dt)); let q = s.propagated(v3(gy), v3(ac), T::c(dt), v3(gr)); let rr = expm(a.2); let world = add(mv(rr, add(ac, sc(a.4, -1.0))), gr); let big = 60.0 * (1.0 + dt).powi(2); near3(g, a3(q.position()), add(a.0, add(sc(a.1, dt), sc(world, dt * dt / 2.0))), tol * big, "propagated position")?; near3(g, a3(q.velocity()), add(a.1, sc(world, dt)), tol * big, "propagated velocity")?; let rate = add(gy, sc(a.3, -1.0)); close!(g, rdiff(rm(q.orientation()), mm(rr, expm(sc(rate, dt)))), 0.0, tol * (1.0 + nrm(&rate) * dt), "propagated orientation"); ensure!(q.gyroscope_bias() == s.gyroscope_bias() && q.accelerometer_bias() == s.accelerometer_bias());
    let l = s.lifted_to_dual(); for i in 0..3 { ensure!(l.position()[i] == Dual::constant(s.position()[i]) && l.velocity()[i] == Dual::constant(s.velocity()[i]) && l.gyroscope_bias()[i] == Dual::constant(s.gyroscope_bias()[i]) && l.accelerometer_bias()[i] == Dual::constant(s.accelerometer_bias()[i])); } for i in 0..4 { let (a, b) = (l.orientation().quaternion().as_array()[i], s.orientation().quaternion().as_array()[i]); close!(g, a.value.g(), b.g(), T::EPS * 4.0, "lifted orientation"); ensure!(a.deriv == T::ZERO, "a lifted orientation already moves"); }
    let k = g.below(4); let mut bad = [a.0, a.1, a.3, a.4]; let c = g.below(3); bad[k][c] = g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); ensure!(!NominalState::<T>::new(v3(bad[0]), v3(bad[1]), so3(a.2), v3(bad[2]), v3(bad[3])).is_finite(), "a state with {bad:?} passes for finite"); g.nontrivial_if(nrm(&a.2) > 0.0 && nrm(&b3(6)) > 0.0); Ok(())
}

/// Sensors with hand-derived Jacobians over the fifteen errors.
#[derive(Clone, Copy, Debug)]
enum Sensor { Place, Speed, Field(V3), Range(V3), Offsets, Air(V3) }
struct S3(Sensor);
impl NominalStateFn<3> for S3 {
    fn eval<S: Numeric>(&self, s: &NominalState<S>) -> [S; 3] {
        let k = |v: V3| Vector::new(v.map(S::from_f64));
        let v = match self.0 { Sensor::Place => s.position(), Sensor::Speed => s.velocity(), Sensor::Field(m) => s.orientation().inverse().act(k(m)), Sensor::Offsets => s.gyroscope_bias() + s.accelerometer_bias() * S::TWO, Sensor::Air(w) => s.orientation().inverse().act(s.velocity() - k(w)), Sensor::Range(b) => { let d = s.position() - k(b); let n = d.norm(); Vector::new([n, n * n, d[0]]) } };
        *v.as_array()
    }
}
struct S1(V3);
impl NominalStateFn<1> for S1 { fn eval<S: Numeric>(&self, s: &NominalState<S>) -> [S; 1] { let d = s.position() - Vector::new(self.0.map(S::from_f64)); [d.norm()] } }
#[derive(Clone)]
struct Ref { p: V3, v: V3, r: M3, bg: V3, ba: V3, cov: DM }
fn put(m: &mut DM, i: usize, j: usize, b: M3) { for a in 0..3 { for c in 0..3 { m.set(i + a, j + c, DD::new(b[a][c])); } } }
fn neg(a: M3) -> M3 { a.map(|r| r.map(|x| -x)) }
fn scm(a: M3, s: f64) -> M3 { a.map(|r| r.map(|x| x * s)) }
impl Ref {
    fn transition(&self, gy: V3, ac: V3, dt: f64) -> DM { let mut f = DM::eye(15); let rate = add(gy, sc(self.bg, -1.0)); let a = add(ac, sc(self.ba, -1.0)); put(&mut f, 0, 3, scm(I3, dt)); put(&mut f, 3, 6, scm(neg(mm(self.r, hat(a))), dt)); put(&mut f, 3, 12, scm(self.r, -dt)); put(&mut f, 6, 6, expm(sc(rate, -dt))); put(&mut f, 6, 9, scm(I3, -dt)); f }
    fn predict(&mut self, gy: V3, ac: V3, dt: f64, gr: V3, n: [f64; 4]) { let f = self.transition(gy, ac, dt); let world = add(mv(self.r, add(ac, sc(self.ba, -1.0))), gr); self.p = add(self.p, add(sc(self.v, dt), sc(world, dt * dt / 2.0))); self.v = add(self.v, sc(world, dt)); self.r = fix(mm(self.r, expm(sc(add(gy, sc(self.bg, -1.0)), dt)))); let mut c = f.mul(&self.cov).mul(&f.t()); for k in 0..3 { for (o, q) in [(3, (n[1] * dt).powi(2)), (6, (n[0] * dt).powi(2)), (9, n[2] * n[2] * dt), (12, n[3] * n[3] * dt)] { let x = c.at(o + k, o + k) + DD::new(q); c.set(o + k, o + k, x); } } self.cov = c; }
    fn reading(&self, s: Sensor) -> V3 { match s { Sensor::Place => self.p, Sensor::Speed => self.v, Sensor::Field(m) => mv(tr(self.r), m), Sensor::Offsets => add(self.bg, sc(self.ba, 2.0)), Sensor::Air(w) => mv(tr(self.r), add(self.v, sc(w, -1.0))), Sensor::Range(b) => { let d = add(self.p, sc(b, -1.0)); let n = nrm(&d); [n, n * n, d[0]] } } }
    fn jac(&self, s: Sensor) -> DM { let mut h = DM::zeros(3, 15); match s { Sensor::Place => put(&mut h, 0, 0, I3), Sensor::Speed => put(&mut h, 0, 3, I3), Sensor::Field(m) => put(&mut h, 0, 6, hat(mv(tr(self.r), m))), Sensor::Offsets => { put(&mut h, 0, 9, I3); put(&mut h, 0, 12, scm(I3, 2.0)); } Sensor::Air(w) => { let d = add(self.v, sc(w, -1.0)); put(&mut h, 0, 3, tr(self.r)); put(&mut h, 0, 6, hat(mv(tr(self.r), d))); } Sensor::Range(b) => { let d = add(self.p, sc(b, -1.0)); let n = nrm(&d); put(&mut h, 0, 0, [sc(d, 1.0 / n), sc(d, 2.0), [1.0, 0.0, 0.0]]); } } h }
    fn inject(&mut self, e: &[f64]) { let b = |k: usize| [e[k], e[k + 1], e[k + 2]]; self.p = add(self.p, b(0)); self.v = add(self.v, b(3)); self.r = fix(mm(self.r, expm(b(6)))); self.bg = add(self.bg, b(9)); self.ba = add(self.ba, b(12)); let mut g = DM::eye(15); let h = hat(b(6)); put(&mut g, 6, 6, core::array::from_fn(|i| core::array::from_fn(|j| I3[i][j] - h[i][j] / 2.0))); self.cov = g.mul(&self.cov).mul(&g.t()); }
    fn update(&mut self, h: &DM, r: &DM, y: &DM) -> Option<DM> { let s = h.mul(&self.cov).mul(&h.t()).add(r); let si = s.inv()?; let k = self.cov.mul(&h.t()).mul(&si); let e = k.mul(y); self.cov = self.cov.sub(&k.mul(&s).mul(&k.t())); let e: Vec<f64> = (0..15).map(|i| e.f(i, 0)).collect(); self.inject(&e); Some(s) }
    fn same<T: Fl>(&self, g: &mut G, s: NominalState<T>, c: Matrix<15, 15, T>, tol: f64, at: &str, loose: bool) -> R { let size = 10.0 + nrm(&self.p) + nrm(&self.v); near3(g, a3(s.position()), self.p, tol * size, &format!("{at}: position"))?; near3(g, a3(s.velocity()), self.v, tol * size, &format!("{at}: velocity"))?; close!(g, rdiff(rm(s.orientation()), self.r), 0.0, tol * 10.0, "{at}: orientation"); near3(g, a3(s.gyroscope_bias()), self.bg, tol * size, &format!("{at}: rate offset"))?; near3(g, a3(s.accelerometer_bias()), self.ba, tol * size, &format!("{at}: push offset"))?; close!(g, qn(s.orientation()), 1.0, T::EPS * 200.0, "{at}: orientation norm"); let m = self.cov.max_abs(); for i in 0..15 { for j in 0..15 { close!(g, c[(i, j)].g(), self.cov.f(i, j), tol * (1.0 + m) * 4.0, "{at}: covariance [{i},{j}]"); } } for i in 0..15 { for j in 0..i { let d = c[(i, j)].g() - c[(j, i)].g(); ensure!(d == 0.0 || (loose && d.abs() <= T::EPS * 200.0 * (1.0 + m)), "{at}: covariance not symmetric at {i},{j}"); } } Ok(()) }
}
fn cov15<T: Fl>(g: &mut G) -> DM { let ev: Vec<f64> = (0..15).map(|_| g.log10(-3.0, 0.0)).collect(); if g.bool() { let mut m = DM::zeros(15, 15); for i in 0..15 { m.set(i, i, DD::new(rnd::<T>(ev[i]))); } return m; } let c = with_eigs(g, &ev); DM::from_fn(15, 15, |i, j| rnd::<T>(c.f(i, j))) }
fn min_eig(m: &DM) -> f64 { let n = m.r; DM::from_fn(n, n, |i, j| (m.f(i, j) + m.f(j, i)) / 2.0).sym_eigs().into_iter().fold(f64::INFINITY, f64::min) }
fn eskf<T: Fl>(g: &mut G) -> R {
    let t0 = turn(g).map(rnd::<T>); let s0 = (push32::<T>(g, 3.0), push32::<T>(g, 2.0), push32::<T>(g, 0.2), push32::<T>(g, 0.3)); let c0 = cov15::<T>(g); let noise: [f64; 4] = core::array::from_fn(|_| rnd::<T>(if g.chance(1, 5) { 0.0 } else { g.log10(-3.0, 0.6) })); let mut rn = DM::from_fn(3, 3, |_, _| 0.0); let ev: Vec<f64> = (0..3).map(|_| g.log10(-2.0, 0.5)).collect(); let re = with_eigs(g, &ev); for i in 0..3 { for j in 0..3 { rn.set(i, j, DD::new(rnd::<T>(re.f(i, j)))); } } let gravity = if g.bool() { push32::<T>(g, 10.0) } else { [0.0, 0.0, rnd::<T>(-9.81)] }; g.note("start", &(t0, s0)); g.note("noise", &(noise, gravity)); let imu = ImuNoise { gyroscope_noise_density: T::c(noise[0]), accelerometer_noise_density: T::c(noise[1]), gyroscope_bias_random_walk: T::c(noise[2]), accelerometer_bias_random_walk: T::c(noise[3]) };
    let mut f = ErrorStateKalmanFilter::<3, T>::new(NominalState::new(v3(s0.0), v3(s0.1), so3(t0), v3(s0.2), v3(s0.3)), lib(&c0), imu, lib(&rn)); if gravity != [0.0, 0.0, rnd::<T>(-9.81)] { f = f.with_gravity(v3(gravity)); } let naive = g.chance(1, 3); if naive { f = f.with_covariance_update(CovarianceUpdate::Naive); } let mut noise = noise;
    let mut w = Ref { p: s0.0, v: s0.1, r: expm(t0), bg: s0.2, ba: s0.3, cov: c0 }; let mut tol = T::EPS * 200.0; let n = 1 + g.below(12); let (mut np, mut nu) = (0, 0); let mut loose = false; ensure!(f.normalized_innovation_squared() == Err(EE::NotPositiveDefinite), "a normalised innovation before any update");
    for step in 0..n {
        let op = g.below(12); g.note("op", &op); let at = format!("step {step}");
        match op {
            0..=4 => { let (gy, ac, dt) = (push32::<T>(g, 3.0), push32::<T>(g, 12.0), rnd::<T>(g.log10(-3.0, -0.7))); g.note("gyro,accel,dt", &(gy, ac, dt)); let tf = f.error_state_transition(v3(gy), v3(ac), T::c(dt)); let wf = w.transition(gy, ac, dt); for i in 0..15 { for j in 0..15 { close!(g, tf[(i, j)].g(), wf.f(i, j), tol * 40.0, "{at}: transition [{i},{j}]"); } } if let Err(e) = f.predict(v3(gy), v3(ac), T::c(dt)) { bad!("prediction refused: {e:?}") } w.predict(gy, ac, dt, gravity, noise); np += 1; loose = false; tol *= 2.5; }
            5..=7 => { let s = sensor(g, &w); let y = push32::<T>(g, 0.5); let sharp = g.bool(); g.note("sensor", &s); g.note("residual", &y); let h = w.jac(s); let before = f.covariance(); let z = w.reading(s); let yr = DM::from_fn(3, 1, |i, _| y[i]);
                let res = if g.bool() { f.update_with_residual(&S3(s), v3(y)) } else { f.update(&S3(s), v3(add(z, y))) }; if let Err(e) = res { bad!("update refused: {e:?}") } let _ = sharp; let Some(sm) = w.update(&h, &rn, &yr) else { discard!() }; tol *= 6.0; let hs = 1.0 + h.max_abs(); if hs > 40.0 { discard!() } tol *= hs; let big = (1.0 + nrm(&z)) * 10.0; near3(g, a3(f.innovation()), y, tol * big, &format!("{at}: innovation"))?; for i in 0..3 { for j in 0..3 { close!(g, f.innovation_covariance()[(i, j)].g(), sm.f(i, j), tol * (10.0 + sm.max_abs()), "{at}: innovation covariance"); } } let si = sm.inv().unwrap(); let nis = yr.t().mul(&si).mul(&yr).f(0, 0); match f.normalized_innovation_squared() { Ok(v) => close!(g, v.g(), nis, tol * 100.0 * (1.0 + nis) * (1.0 + sm.max_abs() * si.max_abs()) * big, "{at}: normalised innovation"), Err(e) => bad!("{e:?}") } let _ = before; nu += 1; loose = false; }
            8 => { let b = push(g, 4.0).map(rnd::<T>); let d = add(w.p, sc(b, -1.0)); let n = nrm(&d); if n < 0.3 { continue; } let y = rnd::<T>(g.f(-0.5, 0.5)); let q = rnd::<T>(g.log10(-2.0, 0.0)); g.note("beacon,residual,noise", &(b, y, q)); let (bi, bs) = (f.innovation(), f.innovation_covariance()); if let Err(e) = f.update_other(&S1(b), Vector::new([T::c(y)]), Matrix::new([[T::c(q)]])) { bad!("update refused: {e:?}") } let h = DM::from_fn(1, 15, |_, j| if j < 3 { d[j] / n } else { 0.0 }); let r1 = DM::from_fn(1, 1, |_, _| q); let y1 = DM::from_fn(1, 1, |_, _| y); if w.update(&h, &r1, &y1).is_none() { discard!() } tol *= 8.0; ensure!(f.innovation() == bi && f.innovation_covariance() == bs, "{at}: another sensor's correction replaced the innovation"); nu += 1; loose = false; g.label("other width"); }
            9 => { let e: Vec<f64> = (0..15).map(|_| rnd::<T>(g.f(-0.5, 0.5))).collect(); g.note("error", &e); f.inject_error_and_reset(Vector::from_fn(|i| T::c(e[i]))); w.inject(&e); loose = true; let c = f.covariance(); let mx = dm(&c).sub(&dm(&c).t()).max_abs(); ensure!(mx <= T::EPS * 100.0 * (1.0 + dm(&c).max_abs())); tol *= 2.0; if mx > 0.0 { near_cov(g, &dm(&c), &w.cov, tol * 4.0 * (1.0 + w.cov.max_abs()), &at)?; continue; } }
            10 => { let before = f; let bad = g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); let k = g.below(3); let mut gy = push(g, 3.0); let mut ac = push(g, 9.0); let mut dt = 0.01; match g.below(3) { 0 => gy[k] = bad, 1 => ac[k] = bad, _ => dt = bad } ensure!(f.predict(v3(gy), v3(ac), T::c(dt)) == Err(EE::NonFinite), "{at}: a prediction from {gy:?} {ac:?} {dt} was taken"); let s = sensor(g, &w); let mut y = push(g, 0.5); y[k] = bad; ensure!(f.update(&S3(s), v3(y)) == Err(EE::NonFinite) && f.update_with_residual(&S3(s), v3(y)) == Err(EE::NonFinite) && f.update_other(&S3(s), v3(y), lib(&rn)) == Err(EE::NonFinite), "{at}: a non-finite reading was taken"); let nan = S3(Sensor::Field([f64::NAN, 0.0, 1.0])); ensure!(f.update_with_residual(&nan, v3([0.1, 0.1, 0.1])) == Err(EE::NonFinite), "{at}: a NaN model was taken"); f.set_measurement_noise(lib(&DM::eye(3).scale(-1e4))); ensure!(f.update_with_residual(&S3(Sensor::Place), v3([0.1, 0.1, 0.1])) == Err(EE::NotPositiveDefinite), "{at}: an indefinite innovation covariance was taken"); ensure!(f.update(&S3(Sensor::Place), v3([0.1, 0.1, 0.1])) == Err(EE::NotPositiveDefinite) && f.update(&nan, v3([0.1, 0.1, 0.1])) == Err(EE::NonFinite), "{at}: an update that cannot be formed was taken"); ensure!(f.update_other(&S3(Sensor::Place), v3([0.1, 0.1, 0.1]), lib(&DM::eye(3).scale(-1e4))) == Err(EE::NotPositiveDefinite) && f.update_other(&nan, v3([0.1, 0.1, 0.1]), lib(&rn)) == Err(EE::NonFinite), "{at}: another sensor's update that cannot be formed was taken"); f.set_measurement_noise(lib(&rn)); ensure!(f == before, "{at}: a refused call changed the filter"); g.label("refused"); }
            _ => if g.bool() { noise = core::array::from_fn(|_| rnd::<T>(g.log10(-3.0, 0.6))); f.set_imu_noise(ImuNoise { gyroscope_noise_density: T::c(noise[0]), accelerometer_noise_density: T::c(noise[1]), gyroscope_bias_random_walk: T::c(noise[2]), accelerometer_bias_random_walk: T::c(noise[3]) }); } else { let t = turn(g).map(rnd::<T>); let s = NominalState::new(v3(w.p.map(rnd::<T>)), v3(w.v.map(rnd::<T>)), so3(t), v3(w.bg.map(rnd::<T>)), v3(w.ba.map(rnd::<T>))); f.set_nominal_state(s); w.r = expm(t); }
        }
        if !(tol < 1e-2) { discard!() } w.same(g, f.nominal_state(), f.covariance(), tol, &at, loose)?; let e = min_eig(&dm(&f.covariance())); ensure!(e >= -tol * (1.0 + w.cov.max_abs()), "{at}: covariance eigenvalue {e:e}");
    }
    // the error measured against its own spread
    let tt = turn(g); let truth = NominalState::<T>::new(v3(w.p.map(|x| x + 0.1)), v3(w.v), so3(tt), v3(w.bg), v3(w.ba)); let e = truth.error_from(f.nominal_state()); if nrm(&[e[6].g(), e[7].g(), e[8].g()]) < 3.0 { let c = dm(&f.covariance()); if let Some(ci) = c.inv() { let cond = c.max_abs() * ci.max_abs(); if cond < if T::IS32 { 1e4 } else { 1e9 } && min_eig(&c) > 0.0 { let ev = dv(&e); let want = ev.t().mul(&ci).mul(&ev).f(0, 0); match f.normalized_estimation_error_squared(truth) { Ok(v) => close!(g, v.g(), want, T::EPS * 400.0 * cond * (1.0 + ci.max_abs() * 40.0), "normalised estimation error"), Err(x) => bad!("{x:?}") } } } }
    g.nontrivial_if(np > 0 && nu > 0); Ok(())
}
fn near_cov(g: &mut G, c: &DM, w: &DM, tol: f64, at: &str) -> R { for i in 0..15 { for j in 0..15 { close!(g, c.f(i, j), w.f(i, j), tol, "{at}: covariance [{i},{j}]"); } } Ok(()) }
fn sensor(g: &mut G, w: &Ref) -> Sensor { match g.below(6) { 0 => Sensor::Place, 1 => Sensor::Speed, 2 => Sensor::Field(dir(g)), 3 => Sensor::Offsets, 4 => Sensor::Air(push(g, 2.0)), _ => { let b = push(g, 4.0); if nrm(&add(w.p, sc(b, -1.0))) < 0.3 { Sensor::Place } else { Sensor::Range(b) } } } }
/// The transition against exact derivatives of the propagation: exact in the velocity and rotation rows, first order elsewhere.
fn transition(g: &mut G) -> R {
    let t0 = turn(g); let s = NominalState::<f64>::new(v3(push(g, 3.0)), v3(push(g, 3.0)), so3(t0), v3(push(g, 0.3)), v3(push(g, 0.3))); let (gy, ac, dt) = (push(g, 3.0), push(g, 12.0), g.log10(-3.0, -0.5)); let gravity = v3([0.0, 0.0, -9.81]); g.note("state", &s); g.note("gyro,accel,dt", &(gy, ac, dt)); let f = ErrorStateKalmanFilter::<1>::new(s, Matrix::identity(), ImuNoise { gyroscope_noise_density: 0.1, accelerometer_noise_density: 0.1, gyroscope_bias_random_walk: 0.1, accelerometer_bias_random_walk: 0.1 }, Matrix::identity()); let a = f.error_state_transition(v3(gy), v3(ac), dt); let base = s.propagated(v3(gy), v3(ac), dt, gravity).lifted_to_dual(); let lift = |v: V3| Vector::new(v.map(Dual::constant)); let l = s.lifted_to_dual();
    for c in 0..15 { let mut e = [Dual::constant(0.0); 15]; e[c] = Dual::variable(0.0); let p = l.plus_error(Vector::new(e)).propagated(lift(gy), lift(ac), Dual::constant(dt), lift([0.0, 0.0, -9.81])).error_from(base); for r in 0..15 { let d = p[r].deriv; let exact = (3..6).contains(&r) || r >= 9 || ((6..9).contains(&r) && c < 9) || (r < 3 && c < 6); close!(g, a[(r, c)], d, if exact { 1e-10 } else { dt * dt * 12.0 }, "transition [{r},{c}]"); } } g.nontrivial(); Ok(())
}
fn condition(g: &mut G) -> R {
    let ev: Vec<f64> = (0..15).map(|_| if g.chance(1, 5) { -g.log10(-6.0, -1.0) } else { g.log10(-4.0, 0.0) }).collect(); let c = with_eigs(g, &ev); let floor = if g.chance(1, 4) { 0.0 } else { g.log10(-6.0, -2.0) }; g.note("eigenvalues", &ev); g.note("floor", &floor); let imu = ImuNoise { gyroscope_noise_density: 0.1, accelerometer_noise_density: 0.1, gyroscope_bias_random_walk: 0.1, accelerometer_bias_random_walk: 0.1 }; let mk = |c: &DM| ErrorStateKalmanFilter::<1>::new(NominalState::at_rest(SO3::identity()), lib(c), imu, Matrix::identity()); let mut f = mk(&c); ensure!(f.condition_covariance(floor).is_ok()); let got = dm(&f.covariance()); let e = min_eig(&got); close!(g, e.min(floor), floor, 1e-13, "smallest eigenvalue after conditioning"); ensure!(got.sub(&got.t()).max_abs() == 0.0 || got.sub(&got.t()).max_abs() < 1e-15, "conditioned covariance not symmetric"); let mut a = got.sym_eigs(); a.sort_by(|x, y| x.total_cmp(y)); let mut w: Vec<f64> = ev.iter().map(|v| v.max(floor)).collect(); w.sort_by(|x, y| x.total_cmp(y)); for i in 0..15 { close!(g, a[i], w[i], 1e-13, "eigenvalue {i}"); } let again = { let mut h = f; ensure!(h.condition_covariance(floor).is_ok()); dm(&h.covariance()).sub(&got).max_abs() }; close!(g, again, 0.0, 1e-13, "conditioning twice"); if ev.iter().all(|v| *v >= floor) { close!(g, got.sub(&c).max_abs(), 0.0, 1e-13, "a sound covariance was changed"); } let mut bad = c.clone(); let (i, j) = (g.below(15), g.below(15)); bad.set(i, j, DD::new(g.pick(&[f64::NAN, f64::INFINITY]))); let mut f = mk(&bad); ensure!(f.condition_covariance(floor) == Err(EE::NonFinite), "a non-finite covariance was conditioned"); g.nontrivial_if(ev.iter().any(|v| *v < floor)); Ok(())
}
/// Finite readings of any size: either refused with nothing moved, or a finite estimate.
fn hostile_eskf<T: Fl>(g: &mut G) -> R {
    let t0 = turn(g); let imu = ImuNoise { gyroscope_noise_density: T::c(0.1), accelerometer_noise_density: T::c(0.1), gyroscope_bias_random_walk: T::c(0.1), accelerometer_bias_random_walk: T::c(0.1) }; let c0 = cov15::<T>(g); let mut f = ErrorStateKalmanFilter::<3, T>::new(NominalState::at_rest(so3(t0)), lib(&c0), imu, Matrix::identity()); let top = if T::IS32 { 38.0 } else { 308.0 }; let big = |g: &mut G| -> Vector<3, T> { let b = g.log10(0.0, top); let s = g.chance(1, 3); let v = push(g, 1.0); Vector::new(v.map(|x| T::c(if s { x } else { x * b }))) };
    for step in 0..4 { let before = f; let r = if g.bool() { let (a, b) = (big(g), big(g)); let dt = T::c(if g.chance(1, 3) { g.log10(-3.0, top / 2.0) } else { 0.01 }); g.note("predict", &(a, b, dt)); f.predict(a, b, dt) } else { let s = match g.below(4) { 0 => Sensor::Place, 1 => Sensor::Field(dir(g)), 2 => Sensor::Speed, _ => Sensor::Offsets }; let y = big(g); g.note("update", &(s, y)); f.update_with_residual(&S3(s), y) }; match r { Ok(()) => ensure!(f.nominal_state().is_finite() && f.covariance().is_finite(), "step {step}: an accepted call left a non-finite estimate: {:?}", f.nominal_state()), Err(_) => { ensure!(f == before, "step {step}: a refused call changed the filter"); g.label("refused"); g.nontrivial(); } } if f.nominal_state().is_finite() { let n = qn(f.nominal_state().orientation()); ensure!((n - 1.0).abs() < T::EPS * 1e3, "orientation norm {n}"); } } Ok(())
}

/// The documented correction: cross products of measured with expected directions, the field levelled onto north.
fn correction(r: M3, acc: V3, mag: Option<V3>, up: V3, north: V3) -> V3 { let mut t = [0.0; 3]; if let Some(m) = unit(acc) { t = add(t, cross(m, mv(tr(r), up))); } if let Some(m) = mag.and_then(unit) { let v = dot(mv(r, m), up); let h = (1.0 - v * v).max(0.0).sqrt(); t = add(t, cross(m, mv(tr(r), add(sc(north, h), sc(up, v))))); } t }
#[derive(Clone, Copy, PartialEq, Debug)]
enum F<T: Fl> { Ma(MadgwickFilter<T>), Mh(MahonyFilter<T>) }
impl<T: Fl> F<T> {
    fn step(&mut self, a: V3, b: V3, m: Option<V3>, dt: f64) -> Result<(), EE> { match self { F::Ma(f) => f.step(v3(a), v3(b), m.map(v3), T::c(dt)), F::Mh(f) => f.step(v3(a), v3(b), m.map(v3), T::c(dt)) } }
    fn bare(&mut self, a: V3, b: V3, dt: f64) -> Result<(), EE> { match self { F::Ma(f) => f.step_without_magnetometer(v3(a), v3(b), T::c(dt)), F::Mh(f) => f.step_without_magnetometer(v3(a), v3(b), T::c(dt)) } }
    fn o(&self) -> SO3<T> { match self { F::Ma(f) => f.orientation(), F::Mh(f) => f.orientation() } }
    fn b(&self) -> V3 { match self { F::Ma(f) => a3(f.gyroscope_bias()), F::Mh(f) => a3(f.gyroscope_bias()) } }
    fn set_o(&mut self, o: SO3<T>) { match self { F::Ma(f) => f.set_orientation(o), F::Mh(f) => f.set_orientation(o) } }
    fn set_b(&mut self, b: V3) { match self { F::Ma(f) => f.set_gyroscope_bias(v3(b)), F::Mh(f) => f.set_gyroscope_bias(v3(b)) } }
    fn gains(self, p: f64, i: f64) -> Self { match self { F::Ma(f) => F::Ma(f.with_correction_gain(T::c(p)).with_bias_gain(T::c(i))), F::Mh(f) => F::Mh(f.with_proportional_gain(T::c(p)).with_integral_gain(T::c(i))) } }
    fn refs(self, u: V3, n: V3) -> Self { match self { F::Ma(f) => F::Ma(f.with_reference_directions(v3(u), v3(n))), F::Mh(f) => F::Mh(f.with_reference_directions(v3(u), v3(n))) } }
    fn new(g: &mut G, o: SO3<T>) -> Self { if g.bool() { F::Ma(MadgwickFilter::new(o)) } else { F::Mh(MahonyFilter::new(o)) } }
}
fn gains<T: Fl>(g: &mut G, f: F<T>) -> (F<T>, f64, f64) { let d = if matches!(f, F::Ma(_)) { (0.1, 0.01) } else { (1.0, 0.1) }; match g.below(4) { 0 => (f, rnd::<T>(d.0), rnd::<T>(d.1)), 1 => (f.gains(0.0, 0.0), 0.0, 0.0), _ => { let (p, i) = (rnd::<T>(g.f(0.0, 3.0)), rnd::<T>(if g.chance(1, 3) { 0.0 } else { g.f(0.0, 1.0) })); (f.gains(p, i), p, i) } } }
fn attitude<T: Fl>(g: &mut G) -> R {
    let t0 = turn(g).map(rnd::<T>); let f0 = F::<T>::new(g, so3(t0)); let (mut f, kp, ki) = gains(g, f0); let (mut up, mut north) = ([0.0, 0.0, 1.0], [1.0, 0.0, 0.0]); g.note("filter", &f);
    if g.chance(1, 3) { let (u, n) = (push32::<T>(g, 3.0), push32::<T>(g, 3.0)); g.note("references", &(u, n)); let usable = unit(u).and_then(|uu| { let l = add(n, sc(uu, -dot(n, uu))); if nrm(&l) < 1e-3 * (1.0 + nrm(&n)) { None } else { unit(l).map(|l| (uu, l)) } }); match usable { Some((a, b)) => { f = f.refs(u, n); up = a; north = b; } None if nrm(&u) == 0.0 || nrm(&n) == 0.0 => { let b = f; f = f.refs(u, n); ensure!(f == b, "unusable references changed the filter"); g.label("unusable references"); } None => {} } }
    let mut r = expm(t0); let mut bias = [0.0; 3]; let n = 1 + g.below(20); let mut tol = T::EPS * 60.0; let mut moved = false; if g.chance(1, 4) { bias = push32::<T>(g, 0.5); f.set_b(bias); }
    for step in 0..n {
        if g.chance(1, 12) { let t = turn(g).map(rnd::<T>); g.note("set", &t); f.set_o(so3(t)); r = expm(t); }
        if g.chance(1, 8) { let b = f; let mut x = [push(g, 2.0), push(g, 9.0), push(g, 1.0)]; let mut dt = 0.01; let k = g.below(3); let bad = g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); let w = g.below(4); if w < 3 { x[w][k] = bad } else { dt = bad } ensure!(f.step(x[0], x[1], Some(x[2]), dt) == Err(EE::NonFinite), "a step on {x:?} {dt} was taken"); if w != 2 { ensure!(f.bare(x[0], x[1], dt) == Err(EE::NonFinite)); } ensure!(f == b, "a refused step changed the filter"); g.label("refused"); }
        let (gy, acc, dt) = (push32::<T>(g, 3.0), push32::<T>(g, 10.0), rnd::<T>(g.log10(-3.0, -0.5))); let mag = if g.chance(1, 3) { None } else { Some(push32::<T>(g, 1.0)) }; g.note("gyro,accel,mag,dt", &(gy, acc, mag, dt)); if let Some(m) = mag.and_then(unit) { let v = dot(mv(r, m), up); let h = (1.0 - v * v).max(0.0).sqrt(); if h < 0.05 { discard!() } tol += T::EPS * 20.0 / h; tol *= 1.0 + dt * (kp + ki) / h; } let c = correction(r, acc, mag, up, north); let c = if matches!(f, F::Ma(_)) { let s = nrm(&c); if s < 1e-3 { if unit(acc).is_some() || mag.and_then(unit).is_some() { discard!() } [0.0; 3] } else { tol += T::EPS * 20.0 / s; sc(c, 1.0 / s) } } else { c }; bias = add(bias, sc(c, -ki * dt)); let rate = add(add(gy, sc(bias, -1.0)), sc(c, kp)); r = fix(mm(r, expm(sc(rate, dt)))); if nrm(&c) > 0.0 { moved = true; }
        let res = match mag { None if g.bool() => f.bare(gy, acc, dt), _ => f.step(gy, acc, mag, dt) }; if let Err(e) = res { bad!("step {step} refused: {e:?}") } tol *= 1.0 + 2.0 * dt * (kp + ki) + 0.3; if matches!(f, F::Ma(_)) && (kp > 0.0 || ki > 0.0) { let s = nrm(&correction(r, acc, mag, up, north)); if s < 0.02 { discard!() } tol *= 1.0 + dt * (kp + ki) / s; } if !(tol < 1e-2) { discard!() } close!(g, rdiff(rm(f.o()), r), 0.0, tol, "step {step}: orientation"); near3(g, f.b(), bias, tol, &format!("step {step}: offset"))?; close!(g, qn(f.o()), 1.0, T::EPS * 8.0, "orientation norm");
    }
    g.nontrivial_if(moved && kp > 0.0); Ok(())
}
/// With no gains, constant rates turn the body by exactly their exponential.
fn pure_rate<T: Fl>(g: &mut G) -> R {
    let t0 = turn(g).map(rnd::<T>); let f0 = F::<T>::new(g, so3(t0)); let mut f = f0.gains(0.0, 0.0); let w = push32::<T>(g, 2.0); let dt = rnd::<T>(g.log10(-3.0, -1.0)); let n = 1 + g.below(300); g.note("start,rate,dt,n", &(t0, w, dt, n)); for _ in 0..n { let acc = push(g, 9.0); ensure!(f.step(w, acc, None, dt).is_ok()); } close!(g, rdiff(rm(f.o()), mm(expm(t0), expm(sc(w, dt * n as f64)))), 0.0, T::EPS * 8.0 * (n as f64 + 20.0), "after constant turning"); ensure!(f.b() == [0.0; 3], "an offset appeared without gains"); g.nontrivial_if(nrm(&w) > 0.0 && n > 1); Ok(())
}
/// Turning the world turns the answer.
fn world(g: &mut G) -> R {
    let w = expm(turn(g)); let t0 = turn(g); let o = so3::<f64>(t0); let f0 = F::<f64>::new(g, o); let (f, _, _) = gains(g, f0); let up = dir(g); let nn = dir(g); let north = add(nn, sc(up, -dot(nn, up))); if nrm(&north) < 0.1 { discard!() } let mut a = f.refs(up, north); let k = g.f(0.1, 5.0); let mut b = f.refs(mv(w, sc(up, k)), mv(w, sc(north, k))); let q = quat(w); let turned = SO3::from_quaternion(multicalc::spatial::Quaternion::new(q[0], q[1], q[2], q[3])) * o; b.set_o(turned); let s = (g.log10(-3.0, 3.0), g.log10(-3.0, 3.0)); for step in 0..10 { let (gy, acc, mag, dt) = (push(g, 2.0), push(g, 9.0), push(g, 1.0), g.log10(-3.0, -1.0)); let nu = unit(north).unwrap(); if let Some(m) = unit(mag) { let v = dot(mv(rm(a.o()), m), up); if (1.0 - v * v) < 0.01 { discard!() } } if nrm(&correction(rm(a.o()), acc, Some(mag), up, nu)) < 0.05 { discard!() } ensure!(a.step(gy, acc, Some(mag), dt).is_ok() && b.step(gy, sc(acc, s.0), Some(sc(mag, s.1)), dt).is_ok()); close!(g, rdiff(rm(b.o()), mm(w, rm(a.o()))), 0.0, 1e-8, "step {step}: the turned world's answer"); near3(g, b.b(), a.b(), 1e-8, "offset")?; } g.nontrivial(); Ok(())
}
fn quat(r: M3) -> [f64; 4] { let t = r[0][0] + r[1][1] + r[2][2]; if t > 0.0 { let s = (t + 1.0).sqrt() * 2.0; [s / 4.0, (r[2][1] - r[1][2]) / s, (r[0][2] - r[2][0]) / s, (r[1][0] - r[0][1]) / s] } else { let i = if r[0][0] > r[1][1] && r[0][0] > r[2][2] { 0 } else if r[1][1] > r[2][2] { 1 } else { 2 }; let (j, k) = ((i + 1) % 3, (i + 2) % 3); let s = (1.0 + r[i][i] - r[j][j] - r[k][k]).sqrt() * 2.0; let mut q = [0.0; 4]; q[0] = (r[k][j] - r[j][k]) / s; q[1 + i] = s / 4.0; q[1 + j] = (r[j][i] + r[i][j]) / s; q[1 + k] = (r[k][i] + r[i][k]) / s; q } }
fn angle(a: M3, b: M3) -> f64 { let d = mm(tr(a), b); let v = [d[2][1] - d[1][2], d[0][2] - d[2][0], d[1][0] - d[0][1]]; nrm(&v).atan2(d[0][0] + d[1][1] + d[2][2] - 1.0) }
/// Consistent references pull the estimate onto the truth, offset and all; without a magnetometer the lean alone.
fn converge<T: Fl>(g: &mut G) -> R {
    let truth0 = turn(g); let off = sc(dir(g), g.f(0.0, 2.4)); let start = mm(expm(truth0), expm(off)); let q = quat(start); let o = SO3::from_quaternion(multicalc::spatial::Quaternion::new(T::c(q[0]), T::c(q[1]), T::c(q[2]), T::c(q[3]))).normalized(); let madg = g.bool(); let with_mag = g.chance(2, 3); let moving = g.bool(); let dip = g.f(-0.9, 0.9); let field = [dip.cos(), 0.0, -dip.sin()]; let f: F<T> = if madg { F::Ma(MadgwickFilter::new(o)) } else { F::Mh(MahonyFilter::new(o)) }; let bias = if with_mag && !madg { push(g, 0.05) } else { [0.0; 3] }; let learn = bias != [0.0; 3]; let mut f = f.gains(if madg { 0.6 } else { 2.0 }, if learn { 0.4 } else { 0.0 }); let w = if moving { push(g, 0.8) } else { [0.0; 3] }; g.note("truth,off,dip,rate,bias", &(truth0, off, dip, w, bias)); g.note("filter", &f); let dt = 0.01; let mut r = expm(truth0); let lean0 = lean(start, r); if lean0 > 2.6 { discard!() } let n = if learn { 9000 } else { 3000 }; for _ in 0..n { let acc = mv(tr(r), [0.0, 0.0, 9.81]); let mag = if with_mag { Some(mv(tr(r), field)) } else { None }; r = fix(mm(r, expm(sc(w, dt)))); if f.step(add(w, bias), acc, mag, dt).is_err() { bad!("a clean step was refused") } }
    let e = rm(f.o()); let slack = if madg { 0.6 * dt * 2.5 } else { 1e-3 }; if with_mag { close!(g, angle(e, r), 0.0, slack, "attitude after {n} clean steps"); if learn { near3(g, f.b(), bias, 2e-3, "learned offset")?; } } else { close!(g, lean(e, r), 0.0, slack, "lean after {n} clean steps"); if !moving && !madg { let drift = angle(e, r); ensure!(drift.is_finite()); } } close!(g, qn(f.o()), 1.0, T::EPS * 8.0, "orientation norm"); g.label_if(with_mag, "with magnetometer"); g.label_if(learn, "offset learned"); g.nontrivial_if(nrm(&off) > 0.1); Ok(())
}
fn lean(a: M3, b: M3) -> f64 { let (x, y) = (mv(tr(a), [0.0, 0.0, 1.0]), mv(tr(b), [0.0, 0.0, 1.0])); nrm(&cross(x, y)).atan2(dot(x, y)) }
/// Readings of any finite size: refused untouched, or a unit orientation.
fn hostile_attitude<T: Fl>(g: &mut G) -> R {
    let t0 = turn(g); let f0 = F::<T>::new(g, so3(t0)); let (mut f, _, _) = gains(g, f0); let wild = |g: &mut G| -> V3 { let k = g.below(3); let mut v = push(g, 2.0); if g.bool() { v[k] = g.hostile(); } v }; for step in 0..5 { let (a, b, m) = (wild(g), wild(g), wild(g)); let dt = if g.chance(1, 3) { g.hostile() } else { 0.01 }; g.note("step", &(a, b, m, dt)); let before = f; let r = f.step(a, b, if g.bool() { Some(m) } else { None }, dt); match r { Err(e) => { ensure!(e == EE::NonFinite && f == before, "step {step}: a refused step changed the filter"); g.nontrivial(); } Ok(()) => { let n = qn(f.o()); ensure!((n - 1.0).abs() < T::EPS * 20.0, "step {step}: orientation norm {n}"); ensure!(f.b().iter().all(|v| v.is_finite())); } } } Ok(())
}
fn main() {
    run("C20", &["Madgwick's fixed-size nudge is compared only where its direction is well defined", "convergence claimed from starts away from the exactly opposite attitude"], &[
        law!("nominal", 20000, nominal::<f64>, "turned state and turned error"), law!("nominal_f32", 10000, nominal::<f32>, "turned state and turned error"), law!("eskf", 4000, eskf::<f64>, "at least one prediction and one update"), law!("eskf_f32", 1500, eskf::<f32>, "at least one prediction and one update"), law!("transition", 6000, transition, "always"), law!("condition", 800, condition, "an eigenvalue was below the floor"), law!("hostile_eskf", 3000, hostile_eskf::<f64>, "a call was refused"), law!("hostile_eskf_f32", 3000, hostile_eskf::<f32>, "a call was refused"),
        law!("attitude", 20000, attitude::<f64>, "the sensors moved the estimate"), law!("attitude_f32", 10000, attitude::<f32>, "the sensors moved the estimate"), law!("pure_rate", 3000, pure_rate::<f64>, "turning for several steps"), law!("pure_rate_f32", 1500, pure_rate::<f32>, "turning for several steps"), law!("world", 8000, world, "always"), law!("converge", 150, converge::<f64>, "a start away from the truth"), law!("converge_f32", 60, converge::<f32>, "a start away from the truth"), law!("hostile_attitude", 10000, hostile_attitude::<f64>, "a call was refused"), law!("hostile_attitude_f32", 10000, hostile_attitude::<f32>, "a call was refused"),
    ]);
}
