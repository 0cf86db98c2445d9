//! C14: rotor allocation against the minimum-norm reference, and lag against the exact first-order response.
use checks::lin::*;
use checks::util::*;
use multicalc::error::PlantError;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::plant::{MultirotorMixer, RotorLag, RotorSpin};
use vk::dd::DD;
use vk::mat::M as DM;
use vk::*;

fn cwrench<const N: usize, T: Fl>(g: &mut G, m: &MultirotorMixer<N, T>, a: &DM, t: Vector<N, T>) -> R { let w = m.wrench(t); let want = a.mul(&dv(&t)); let mag: f64 = (0..N).map(|i| t[i].g().abs()).sum(); ensure!(w.force()[0] == T::ZERO && w.force()[1] == T::ZERO); let got = [w.force()[2], w.torque()[0], w.torque()[1], w.torque()[2]]; for r in 0..4 { let row: f64 = (0..N).map(|j| a.f(r, j).abs()).fold(0.0, f64::max); close!(g, got[r].g(), want.f(r, 0), T::EPS * 8.0 * N as f64 * mag * row, "wrench row {r}"); } Ok(()) }
/// A mixer against its physical allocation, the least-squares share of a demand, and the rotor limits.
fn demands<const N: usize, T: Fl>(g: &mut G, m: &MultirotorMixer<N, T>, a: &DM, lo: f64, hi: f64) -> R {
    let e = T::EPS; ensure!(m.minimum_thrust() == T::c(lo) && m.maximum_thrust() == T::c(hi)); for i in 0..4 { for j in 0..N { close!(g, m.allocation()[(i, j)].g(), a.f(i, j), e * 4.0 * a.f(i, j).abs(), "allocation ({i},{j})"); } }
    // conditioning after scaling each demand to its own row
    let rows: Vec<f64> = (0..4).map(|i| (0..N).map(|j| a.f(i, j).powi(2)).sum::<f64>().sqrt()).collect(); let gram = a.mul(&a.t()); let ev = gram.sym_eigs(); let (l0, l1) = ev.iter().fold((f64::MAX, 0.0f64), |(x, y), v| { let v = *v; (x.min(v), y.max(v)) }); let k = (l1 / l0.max(1e-300)).sqrt(); let Some(gi) = gram.inv() else { discard!() }; let pin = a.t().mul(&gi);
    for _ in 0..3 {
        let kind = g.below(4); let t0: Vec<f64> = (0..N).map(|_| match kind { 0 => g.u(lo, hi), 1 => g.f(lo - (hi - lo), hi + (hi - lo)), 2 => 0.5 * (lo + hi) + g.f(-0.2, 0.2) * (hi - lo), _ => g.pick(&[lo, hi, 0.5 * (lo + hi)]) }).collect(); let w: Vec<f64> = (0..4).map(|r| rnd::<T>((0..N).map(|j| a.f(r, j) * t0[j]).sum::<f64>() * if kind == 1 && g.chance(1, 4) { 10.0 } else { 1.0 })).collect(); let wm = DM::from_fn(4, 1, |i, _| w[i]); let share = pin.mul(&wm); let smag: f64 = (0..N).map(|j| (0..4).map(|r| (pin.f(j, r) * w[r]).abs()).sum::<f64>()).fold(0.0, f64::max) + lo.abs().max(hi.abs()) * e; let tol = e * 60.0 * N as f64 * (k * smag).max(smag);
        let c = m.rotor_thrusts(T::c(w[0]), Vector::new([T::c(w[1]), T::c(w[2]), T::c(w[3])])); g.note("demand", &w); g.note("share", &(0..N).map(|j| share.f(j, 0)).collect::<Vec<_>>()); let mut outside = false; let mut near = false;
        for j in 0..N { let s = share.f(j, 0); let got = c.thrusts()[j].g(); ensure!(got >= rnd::<T>(lo) && got <= rnd::<T>(hi), "rotor {j} outside its limits: {got}"); close!(g, got, s.clamp(lo, hi), tol, "rotor {j}"); if s < lo - tol || s > hi + tol { outside = true; } else if s < lo + tol || s > hi - tol { near = true; } }
        if outside { ensure!(c.saturated(), "saturation not reported"); g.label("saturated"); for j in 0..N { let s = share.f(j, 0); if s < lo - tol { ensure!(c.thrusts()[j] == T::c(lo)); } if s > hi + tol { ensure!(c.thrusts()[j] == T::c(hi)); } } } else if !near { ensure!(!c.saturated(), "saturation reported with every rotor inside its limits"); g.label("reachable"); let p = m.wrench(c.thrusts()); let got = [p.force()[2], p.torque()[0], p.torque()[1], p.torque()[2]]; for r in 0..4 { close!(g, got[r].g(), w[r], tol * rows[r] * N as f64 * 2.0, "demand {r} delivered"); } }
        cwrench(g, m, a, c.thrusts())?; let r = Vector::from_fn(|_| T::c(g.f(-5.0, 5.0))); cwrench(g, m, a, r)?;
    }
    let mut d = [T::ONE; 4]; d[g.below(4)] = T::c(f64::NAN); let c = m.rotor_thrusts(d[0], Vector::new([d[1], d[2], d[3]])); ensure!((0..N).any(|j| !c.thrusts()[j].is_finite()), "a NaN demand came back finite"); Ok(())
}
fn limits<T: Fl>(g: &mut G) -> (f64, f64) { let s = g.log10(-2.0, 3.0); let lo = rnd::<T>(g.pick(&[0.0, 0.1, -1.0, -0.3, 0.5]) * s); (lo, rnd::<T>(lo + s * g.u(0.1, 3.0))) }
fn layout<const N: usize, T: Fl>(g: &mut G) -> R {
    let (lo, hi) = limits::<T>(g); let arm = g.log10(-1.5, 1.0); let ratio = rnd::<T>(g.log10(-2.5, 0.0) * arm); let ring = g.bool(); let pos: [[f64; 3]; N] = core::array::from_fn(|i| { let th = (i as f64 + 0.5) * std::f64::consts::TAU / N as f64; if ring { [th.cos() * arm, th.sin() * arm, g.f(-0.1, 0.1)] } else { [g.f(-1.0, 1.0) * arm, g.f(-1.0, 1.0) * arm, g.f(-1.0, 1.0)] } }.map(rnd::<T>)); let spin: [bool; N] = core::array::from_fn(|i| if ring { i % 2 == 0 } else { g.bool() }); g.note("positions", &pos); g.note("spins", &spin); g.note("ratio,lo,hi", &(ratio, lo, hi));
    let a = DM::from_fn(4, N, |r, j| match r { 0 => 1.0, 1 => pos[j][1], 2 => -pos[j][0], _ => if spin[j] { ratio } else { -ratio } }); let ev = a.mul(&a.t()).sym_eigs(); let (l0, l1) = ev.iter().fold((f64::MAX, 0.0f64), |(x, y), v| (x.min(*v), y.max(*v))); let k = (l1 / l0.max(1e-300)).sqrt();
    let p = pos.map(|q| Vector::new(q.map(T::c))); let s = spin.map(|c| if c { RotorSpin::Clockwise } else { RotorSpin::CounterClockwise }); let m = MultirotorMixer::<N, T>::new(p, s, T::c(ratio), T::c(lo), T::c(hi)); g.label_if(m.is_err(), "layout refused");
    match m { Ok(m) => { ensure!(k < 1e6 / T::EPS || l0 > 0.0, "a dependent layout was accepted"); if k < 0.003 / T::EPS.sqrt() { demands(g, &m, &a, lo, hi)?; g.nontrivial(); } } Err(err) => ensure!(k > if T::IS32 { 300.0 } else { 1e8 } && matches!(err, PlantError::RotorLayoutNotIndependent | PlantError::Linalg(_)), "usable layout (condition {k:e}) refused: {err:?}") }
    // all in a line, or all turning the same way with a zero-sum lever: some turn cannot be made
    let dir = g.u(0.0, std::f64::consts::TAU); let c0 = [g.f(-1.0, 1.0), g.f(-1.0, 1.0)]; let line = core::array::from_fn(|_| { let t = g.f(-1.0, 1.0); Vector::new([T::c(c0[0] * 0.0 + t * dir.cos()), T::c(c0[1] * 0.0 + t * dir.sin()), T::ZERO]) }); ensure!(matches!(MultirotorMixer::<N, T>::new(line, s, T::c(ratio), T::c(lo), T::c(hi)), Err(PlantError::RotorLayoutNotIndependent | PlantError::Linalg(_))), "rotors in a line accepted"); let same = [RotorSpin::Clockwise; N]; ensure!(matches!(MultirotorMixer::<N, T>::new(p, same, T::c(ratio), T::c(lo), T::c(hi)), Err(PlantError::RotorLayoutNotIndependent | PlantError::Linalg(_))), "rotors all turning the same way accepted");
    let bad = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])); let mut pb = p; pb[g.below(N)][g.below(3)] = bad; let nf = Err(PlantError::NonFinite); ensure!(MultirotorMixer::<N, T>::new(pb, s, T::c(ratio), T::c(lo), T::c(hi)) == nf && MultirotorMixer::<N, T>::new(p, s, bad, T::c(lo), T::c(hi)) == nf && MultirotorMixer::<N, T>::new(p, s, T::c(ratio), bad, T::c(hi)) == nf && MultirotorMixer::<N, T>::new(p, s, T::c(ratio), T::c(lo), bad) == nf); for r in [T::ZERO, -T::c(ratio)] { ensure!(MultirotorMixer::<N, T>::new(p, s, r, T::c(lo), T::c(hi)) == Err(PlantError::NonPositiveTorqueRatio)); } for h in [lo, lo - 1.0] { ensure!(MultirotorMixer::<N, T>::new(p, s, T::c(ratio), T::c(lo), T::c(h)) == Err(PlantError::InvalidThrustLimits)); } Ok(())
}
/// Fewer than four rotors can never produce every demand.
fn few<T: Fl>(g: &mut G) -> R { let v = |g: &mut G| Vector::new([T::c(g.f(-1.0, 1.0)), T::c(g.f(-1.0, 1.0)), T::ZERO]); let p = [v(g), v(g), v(g)]; let s = [0; 3].map(|_| if g.bool() { RotorSpin::Clockwise } else { RotorSpin::CounterClockwise }); g.nontrivial(); ensure!(matches!(MultirotorMixer::<3, T>::new(p, s, T::c(0.1), T::ZERO, T::ONE), Err(PlantError::RotorLayoutNotIndependent | PlantError::Linalg(_)))); ensure!(matches!(MultirotorMixer::<1, T>::new([p[0]], [s[0]], T::c(0.1), T::ZERO, T::ONE), Err(PlantError::RotorLayoutNotIndependent | PlantError::Linalg(_)))); Ok(()) }
fn quad<T: Fl>(g: &mut G) -> R {
    let (lo, hi) = limits::<T>(g); let arm = rnd::<T>(g.log10(if T::IS32 { -1.0 } else { -1.5 }, 1.0)); let ratio = rnd::<T>(g.log10(if T::IS32 { -1.3 } else { -2.5 }, 0.0) * arm); g.note("arm,ratio,lo,hi", &(arm, ratio, lo, hi)); let h = arm / 2f64.sqrt(); let a = DM::from_fn(4, 4, |r, j| match r { 0 => 1.0, 1 => [-h, h, h, -h][j], 2 => -[h, -h, h, -h][j], _ => [ratio, ratio, -ratio, -ratio][j] }); let m = match MultirotorMixer::<4, T>::quadrotor_x(T::c(arm), T::c(ratio), T::c(lo), T::c(hi)) { Ok(m) => m, Err(e) => bad!("{e:?}") }; demands(g, &m, &a, lo, hi)?; for r in [0.0, -arm] { ensure!(MultirotorMixer::<4, T>::quadrotor_x(T::c(r), T::c(ratio), T::c(lo), T::c(hi)) == Err(PlantError::NonPositiveArmLength)); } let bad = T::c(g.pick(&[f64::NAN, f64::INFINITY])); ensure!(MultirotorMixer::<4, T>::quadrotor_x(bad, T::c(ratio), T::c(lo), T::c(hi)) == Err(PlantError::NonFinite) && MultirotorMixer::<4, T>::quadrotor_x(T::c(arm), T::ZERO, T::c(lo), T::c(hi)) == Err(PlantError::NonPositiveTorqueRatio) && MultirotorMixer::<4, T>::quadrotor_x(T::c(arm), T::c(ratio), T::c(hi), T::c(lo)) == Err(PlantError::InvalidThrustLimits)); g.nontrivial(); Ok(())
}
/// A history of commands: each step lands on the exact exponential response.
fn lag<const N: usize, T: Fl>(g: &mut G) -> R {
    let e = T::EPS; let tau = rnd::<T>(g.log10(-3.0, 2.0)); let dt = rnd::<T>(tau * g.log10(if T::IS32 { -5.0 } else { -9.0 }, 2.0)); g.note("tau,dt", &(tau, dt)); let mut l = match RotorLag::<N, T>::new(T::c(tau), T::c(dt)) { Ok(l) => l, Err(e) => bad!("{e:?}") }; ensure!(l.time_constant() == T::c(tau) && l.timestep() == T::c(dt) && l.thrusts() == Vector::zeros()); let s = g.log10(-3.0, 3.0); let mut now: Vec<f64> = vec![0.0; N]; let mut terr = 0.0; if g.bool() { let v = Vector::from_fn(|_| T::c(g.f(-1.0, 1.0) * s)); now = (0..N).map(|i| v[i].g()).collect(); l = l.with_thrusts(v); ensure!(l.thrusts() == v); }
    let n = 1 + g.below(30); for _ in 0..n {
        if g.chance(1, 20) { l.reset(); now = vec![0.0; N]; terr = 0.0; ensure!(l.thrusts() == Vector::zeros()); }
        let c: Vec<f64> = (0..N).map(|_| rnd::<T>(if g.chance(1, 3) { 0.0 } else { g.f(-1.0, 1.0) * s })).collect(); let cv = Vector::from_fn(|i| T::c(c[i])); let rate = l.rate(cv); for i in 0..N { close!(g, rate[i].g(), (c[i] - l.thrusts()[i].g()) / tau, e * 4.0 * (c[i].abs() + l.thrusts()[i].g().abs()) / tau + 1e-36, "rate"); }
        let before = l.thrusts(); let (d, out) = if g.chance(1, 3) { let d = rnd::<T>(tau * g.log10(-6.0, 2.0)); (d, l.stepped_over(cv, T::c(d))) } else { (dt, l.stepped(cv)) }; ensure!(out == l.thrusts()); let x = d / tau; let (p, q) = ((-x).exp(), -(-x).exp_m1()); terr = terr * p + e * 6.0 * s * (1.0 + if x > 1.0 { p * x } else { 0.0 }); for i in 0..N { let b = before[i].g(); let gap = c[i] - b; let moved = out[i].g() - b; close!(g, out[i].g(), b * p + c[i] * q, e * 6.0 * (b.abs() * (1.0 + x) * p + c[i].abs())+ 1e-36, "one exact step"); ensure!(moved * gap >= -e * 4.0 * (b.abs() + c[i].abs()).powi(2) && (out[i].g() - b).abs() <= gap.abs() + e * 4.0 * (b.abs() + c[i].abs()), "overshoot: {b} -> {} towards {}", out[i].g(), c[i]); now[i] = now[i] * p + c[i] * q; close!(g, out[i].g(), now[i], terr * 4.0 + e * 8.0 * s, "the whole history"); }
        if x < 1e-3 { let b0 = Vector::<N, T>::zeros(); let mut z = l.with_thrusts(b0); let o = z.stepped_over(cv, T::c(d)); for i in 0..N { close!(g, o[i].g(), c[i] * q, e * 6.0 * (c[i] * q).abs(), "a short tick keeps its relative accuracy"); } }
    }
    // two ticks are one tick of the summed length
    let (d1, d2) = (T::c(tau * g.log10(-3.0, 0.5)), T::c(tau * g.log10(-3.0, 0.5))); let c = Vector::from_fn(|_| T::c(g.f(-1.0, 1.0) * s)); let (mut x, mut y) = (l, l); let _ = x.stepped_over(c, d1); let a = x.stepped_over(c, d2); let b = y.stepped_over(c, d1 + d2); for i in 0..N { close!(g, a[i].g(), b[i].g(), e * 60.0 * s, "ticks compose"); } let t = l.timestep(); let (mut x, mut y) = (l, l); let (a, b) = (x.stepped(c), y.stepped_over(c, t)); for i in 0..N { close!(g, a[i].g(), b[i].g(), e * 4.0 * s, "stepped is stepped_over its own tick"); } let mut k = l; for _ in 0..3 { let _ = k.stepped_over(c, T::c(tau * 40.0)); } for i in 0..N { close!(g, k.thrusts()[i].g(), c[i].g(), e * 4.0 * c[i].g().abs() + 1e-16 * s, "settles on the command"); }
    let mut h = l; let mut cb = c; let i = g.below(N); cb[i] = T::c(g.pick(&[f64::NAN, f64::INFINITY])); let o = h.stepped(cb); ensure!(!o[i].is_finite()); for j in 0..N { if j != i { ensure!(o[j].is_finite()); } } let mut h = l; let o = h.stepped_over(c, T::c(f64::NAN)); ensure!((0..N).all(|j| !o[j].is_finite()));
    let bad = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])); ensure!(RotorLag::<N, T>::new(bad, T::c(dt)) == Err(PlantError::NonFinite) && RotorLag::<N, T>::new(T::c(tau), bad) == Err(PlantError::NonFinite) && RotorLag::<N, T>::new(T::ZERO, T::c(dt)) == Err(PlantError::NonPositiveTimeConstant) && RotorLag::<N, T>::new(-T::c(tau), T::c(dt)) == Err(PlantError::NonPositiveTimeConstant) && RotorLag::<N, T>::new(T::c(tau), T::ZERO) == Err(PlantError::NonPositiveTimestep) && RotorLag::<N, T>::new(T::c(tau), -T::c(dt)) == Err(PlantError::NonPositiveTimestep)); let _: Option<(Matrix<1, 1>, DD)> = None; g.nontrivial(); Ok(())
}
fn main() {
    run("C14", &["layouts of 4, 5, 6 and 8 rotors (and 1 and 3, always refused), arms 3 cm to 10 m", "reachable means that the minimum-norm share of the demand lies inside the limits, which is the share the mixer documents", "an infinite demand is not judged: the documentation and the saturation it triggers disagree"], &[
        law!("layout4", 15000, layout::<4, f64>, "a usable layout"), law!("layout5", 8000, layout::<5, f64>, "a usable layout"), law!("layout6", 10000, layout::<6, f64>, "a usable layout"), law!("layout8", 6000, layout::<8, f64>, "a usable layout"), law!("layout4_f32", 8000, layout::<4, f32>, "a usable layout"), law!("layout6_f32", 6000, layout::<6, f32>, "a usable layout"),
        law!("few", 2000, few::<f64>, "every case"), law!("few_f32", 2000, few::<f32>, "every case"), law!("quad", 15000, quad::<f64>, "every case"), law!("quad_f32", 8000, quad::<f32>, "every case"),
        law!("lag", 15000, lag::<4, f64>, "every case"), law!("lag_one", 10000, lag::<1, f64>, "every case"), law!("lag_f32", 8000, lag::<4, f32>, "every case"),
    ]);
}
