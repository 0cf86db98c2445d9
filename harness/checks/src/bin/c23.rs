//! C23: PID, LQR, geometric attitude, thrust direction and pure pursuit against their control laws.
use checks::arm::{nrm, qrot, V3};
use checks::dims2;
use checks::lin::*;
use checks::util::*;
use multicalc::control::*;
use multicalc::error::{ControlError as CE, LinalgError as LE, SignalError as SE};
use multicalc::kinematics::{integrate, BodyArc};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::spatial::{SE2, SO2, SO3};
use multicalc::Dual;
use vk::mat::M as DM;
use vk::*;

/// The documented discrete law, in double precision, remembering only what the law says it remembers.
#[derive(Clone, Debug)]
struct Model { k: [f64; 3], dt: f64, lim: [f64; 2], smooth: f64, i: f64, lp: Option<f64>, prev: Option<(f64, f64)> }
impl Model {
    /// The unsaturated command, its derivative term, and the integral step.
    fn step(&mut self, s: f64, m: f64) -> (f64, f64, f64) { let e = s - m; let raw = self.prev.map_or(0.0, |p| (p.0 - m) / self.dt); let d = match self.lp { None => raw, Some(x) => self.smooth * raw + (1.0 - self.smooth) * x }; self.lp = Some(d); self.prev = Some((m, e)); let st = self.k[1] * e * self.dt; (self.k[0] * e + self.i + st + self.k[2] * d, d, st) }
}
fn gains(g: &mut G) -> [f64; 3] { let neg = g.chance(1, 4); [0, 1, 2].map(|_| { let v = if g.chance(1, 5) { 0.0 } else { g.log10(-2.0, 1.0) }; if neg || g.chance(1, 12) { -v } else { v } }) }
fn pid<T: Fl>(g: &mut G) -> R {
    let k = gains(g).map(|x| rnd::<T>(x)); let dt = rnd::<T>(g.log10(-3.0, 0.0));
    let mut c = match Pid::<T>::new(T::c(k[0]), T::c(k[1]), T::c(k[2]), T::c(dt)) { Ok(c) => c, Err(e) => bad!("valid controller refused: {e:?}") };
    let mut m = Model { k, dt, lim: [f64::NEG_INFINITY, f64::INFINITY], smooth: 1.0, i: 0.0, lp: None, prev: None };
    if g.chance(3, 4) { let mut a = if g.chance(1, 5) { f64::NEG_INFINITY } else { rnd::<T>(g.f(-4.0, 1.0)) }; let b = if g.chance(1, 5) { f64::INFINITY } else { rnd::<T>(a.max(-4.0) + g.f(0.0, 4.0)) }; if b < a { a = b; } c = c.with_output_limits(T::c(a), T::c(b)).unwrap(); m.lim = [a, b]; }
    if g.bool() { m.smooth = rnd::<T>(g.pick(&[0.0, 1.0, 0.3, 0.05, 0.8])); c = c.with_derivative_filter(T::c(m.smooth)).unwrap(); }
    let fresh = c; let fresh_m = m.clone(); g.note("model", &m);
    let mut sat = 0; let mut size = 1.0f64; let mut s = g.f(-3.0, 3.0); let mut z = 0.0; let n = 1 + g.size(0, 30);
    for t in 0..n {
        match g.below(12) {
            0 => { let nk = gains(g).map(|x| rnd::<T>(x)); if g.chance(1, 4) { let mut b = nk.map(T::c); b[g.below(3)] = T::c(g.pick(&[f64::NAN, f64::INFINITY])); let before = c; ensure!(c.set_gains(b[0], b[1], b[2]) == Err(CE::NonFinite)); ensure!(c == before, "refused gains changed the controller"); g.label("refused gains"); continue; }
                g.note(&format!("{t} gains"), &nk); ensure!(c.set_gains(T::c(nk[0]), T::c(nk[1]), T::c(nk[2])).is_ok());
                // the other two terms keep their sum: hold everything still and the command does not step by them
                if let Some((_, e)) = m.prev { m.i += (m.k[0] - nk[0]) * e + (m.k[2] - nk[2]) * m.lp.unwrap_or(0.0); g.label("bumpless"); } m.k = nk; size = size.max(m.i.abs() + nk.iter().fold(0.0f64, |a, x| a.max(x.abs())) * (10.0 + m.lp.unwrap_or(0.0).abs())); close!(g, c.integral().g(), m.i, T::EPS * 60.0 * size * (t + 2) as f64, "integral after a gain change"); m.i = c.integral().g(); }
            1 => { let (u, a, b) = (g.f(-5.0, 5.0), g.f(-3.0, 3.0), g.f(-3.0, 3.0)); if g.chance(1, 4) { let mut v = [u, a, b]; v[g.below(3)] = g.pick(&[f64::NAN, f64::NEG_INFINITY]); let before = c; ensure!(c.resume_from(T::c(v[0]), T::c(v[1]), T::c(v[2])) == Err(CE::NonFinite)); ensure!(c == before, "a refused handover changed the controller"); continue; }
                let (u, a, b) = (T::c(u), T::c(a), T::c(b)); g.note(&format!("{t} resume"), &(u, a, b)); ensure!(c.resume_from(u, a, b).is_ok()); let e = (a - b).g(); m.i = u.g() - m.k[0] * e - m.k[1] * e * m.dt; m.lp = None; m.prev = Some((b.g(), e)); size = size.max(m.i.abs() + u.g().abs()); close!(g, c.integral().g(), m.i, T::EPS * 20.0 * size, "integral after a handover"); m.i = c.integral().g(); z = b.g(); s = a.g();
                let mut copy = c; close!(g, copy.update(a, b).g(), u.g().max(m.lim[0]).min(m.lim[1]), T::EPS * 60.0 * size, "the first command after a handover"); g.label("handover"); }
            2 => { c.reset(); m.i = 0.0; m.lp = None; m.prev = None; ensure!(c.integral() == T::ZERO, "reset leaves an integral"); if m.k == fresh_m.k { let (mut a, mut b) = (c, fresh); for _ in 0..3 { let (x, y) = (T::c(g.f(-2.0, 2.0)), T::c(g.f(-2.0, 2.0))); ensure!(a.update(x, y) == b.update(x, y), "a reset controller behaves unlike a new one"); } g.label("reset"); } }
            _ => {
                if g.chance(1, 6) { s = g.f(-3.0, 3.0); } if g.chance(1, 2) { z += g.f(-1.0, 1.0); } let (a, b) = (T::c(s), T::c(z)); g.note(&format!("{t} update"), &(a, b));
                let before = c.integral().g(); let (u, d, st) = m.step(a.g(), b.g()); let out = c.update(a, b).g(); size = size.max(u.abs() + st.abs() + (m.k[2] * d).abs() + (m.k[2] / m.dt).abs() * (a.g().abs() + b.g().abs() + 4.0) + (m.k[0] * 6.0).abs()); let tol = T::EPS * 40.0 * size * (t + 2) as f64;
                let want = u.max(m.lim[0]).min(m.lim[1]); close!(g, out, want, tol, "command (unsaturated {u})"); ensure!(out >= m.lim[0] && out <= m.lim[1], "the command {out} breaks the limits {:?}", m.lim);
                let held = (u > m.lim[1] && st > 0.0) || (u < m.lim[0] && st < 0.0); let close_call = (u - m.lim[0]).abs() <= 2.0 * tol || (u - m.lim[1]).abs() <= 2.0 * tol; if held { sat += 1; }
                let now = c.integral().g(); if !close_call { let want = if held { before } else { before + st }; close!(g, now, want, T::EPS * 20.0 * (size), "integral ({})", if held { "held" } else { "accumulating" }); if held { ensure!(now == before, "the integral wound up while saturated"); g.label("held"); } }
                m.i = now;
            }
        }
    }
    g.nontrivial_if(n > 3 && (sat > 0 || m.lim[1] == f64::INFINITY)); Ok(())
}
/// Set the gains at rest and the next command continues; a windup far beyond saturation unwinds at once.
fn windup(g: &mut G) -> R {
    let sgn = if g.chance(1, 3) { -1.0 } else { 1.0 }; let (kp, ki, kd) = (g.log10(-1.0, 1.0) * sgn, g.log10(-1.0, 1.0) * sgn, if g.bool() { 0.0 } else { g.log10(-2.0, -0.5) * sgn }); let dt = g.log10(-2.5, -0.5); let lim = g.log10(-1.0, 1.0); let mut c = Pid::<f64>::new(kp, ki, kd, dt).unwrap().with_output_limits(-lim, lim).unwrap(); let e = g.f(0.5, 4.0) * g.sign(); g.note("gains,dt,limit,error", &(kp, ki, kd, dt, lim, e));
    let mut top = 0.0f64; for _ in 0..2000 { let u = c.update(e, 0.0); ensure!(u.abs() <= lim); top = top.max(c.integral().abs()); } ensure!(top <= lim + (kp * e).abs() + (ki * e * dt).abs() + 1e-9, "the integral wound up to {top} with the limit at {lim}");
    let mut c2 = c; let bound = ((2.0 * (lim + top) + 2.0 * (kp * e).abs()) / (ki * e * dt).abs()).ceil() as usize + 3; let mut back = false; for _ in 0..bound.min(200000) { let u = c2.update(-e, 0.0); if u * e * sgn < 0.0 || u == -lim * (e * sgn).signum() { back = true; break; } } ensure!(back, "the controller never came back out of saturation"); g.nontrivial_if(top > 0.2 * lim); Ok(())
}
fn pid_errors(g: &mut G) -> R {
    let mut v = [g.f(-2.0, 2.0), g.f(-2.0, 2.0), g.f(-2.0, 2.0), g.f(0.001, 1.0)]; let i = g.below(5); if i < 4 { v[i] = g.hostile(); } if g.chance(1, 4) { v[3] = g.pick(&[0.0, -0.1]); } g.note("gains,dt", &v); let r = Pid::<f64>::new(v[0], v[1], v[2], v[3]); let want = if v.iter().any(|x| !x.is_finite()) { Some(CE::NonFinite) } else if v[3] <= 0.0 { Some(CE::NonPositiveTimestep) } else { None }; ensure!(r.as_ref().err() == want.as_ref(), "{r:?}, wanted {want:?}");
    let c = Pid::<f64>::new(1.0, 1.0, 1.0, 0.1).unwrap(); let (a, b) = (g.mostly(-2.0, 2.0), g.mostly(-2.0, 2.0)); g.note("limits", &(a, b)); let want = if a.is_nan() || b.is_nan() { Some(CE::NonFinite) } else if a > b { Some(CE::InvalidOutputLimits) } else { None }; let r = c.with_output_limits(a, b); ensure!(r.as_ref().err() == want.as_ref(), "{r:?}, wanted {want:?}"); if let Ok(mut c) = r { let u = c.update(g.f(-100.0, 100.0), 0.0); ensure!(u >= a && u <= b, "{u}"); }
    let s = g.mostly(-0.2, 1.2); let want = if !s.is_finite() { Some(CE::Signal(SE::NonFinite)) } else if !(0.0..=1.0).contains(&s) { Some(CE::Signal(SE::CoefficientOutOfRange)) } else { None }; ensure!(c.with_derivative_filter(s).err() == want, "smoothing {s}"); g.nontrivial_if(i < 4); Ok(())
}
/// The law is differentiable: without limits it is linear in every reading.
fn pid_dual(g: &mut G) -> R {
    let k = gains(g); let dt = g.log10(-2.0, 0.0); let sm = g.pick(&[1.0, 0.4]); let n = 2 + g.below(8); let v: Vec<(f64, f64)> = (0..n).map(|_| (g.f(-2.0, 2.0), g.f(-2.0, 2.0))).collect(); let at = g.below(n); let which = g.bool(); g.note("gains,dt", &(k, dt)); g.note("readings", &v);
    let d = |x: f64| Dual::new(x, 0.0); let mut c = Pid::<Dual<f64>>::new(d(k[0]), d(k[1]), d(k[2]), d(dt)).unwrap().with_derivative_filter(d(sm)).unwrap(); let mut a = Pid::<f64>::new(k[0], k[1], k[2], dt).unwrap().with_derivative_filter(sm).unwrap(); let mut b = a;
    for (i, &(s, m)) in v.iter().enumerate() { let hit = |w: bool| if i == at && w == which { 1.0 } else { 0.0 }; let u = c.update(Dual::new(s, hit(true)), Dual::new(m, hit(false))); let (x, y) = (a.update(s, m), b.update(s + hit(true), m + hit(false))); let size = 10.0 + k.iter().map(|x| x.abs()).sum::<f64>() * 10.0 / dt * (n as f64); close!(g, u.value, x, 1e-14 * size, "value"); close!(g, u.deriv, y - x, 1e-13 * size, "sensitivity of command {i} to reading {at}"); } g.nontrivial(); Ok(())
}

fn lqr<const N: usize, const M: usize, T: Fl>(g: &mut G) -> R {
    let rho = g.u(0.1, 1.4); let am = DM::from_fn(N, N, |_, _| g.f(-1.0, 1.0)); let am = am.scale(rho / am.frob().max(0.3)); let a: Matrix<N, N, T> = lib(&am.add(&DM::from_fn(N, N, |i, j| if i == j && rho > 1.0 { 0.5 } else { 0.0 }))); let b: Matrix<N, M, T> = mgen(g, -1.5, 1.5); let qm = DM::from_fn(N, N, |_, _| g.f(-1.0, 1.0)); let q: Matrix<N, N, T> = lib::<N, N, T>(&qm.mul(&qm.t()).add(&DM::eye(N).scale(0.05))).symmetrized(); let rm = DM::from_fn(M, M, |_, _| g.f(-1.0, 1.0)); let r: Matrix<M, M, T> = lib::<M, M, T>(&rm.mul(&rm.t()).add(&DM::eye(M).scale(0.2))).symmetrized();
    g.note("a", &a); g.note("b", &b); g.note("q", &q); g.note("r", &r);
    let nan = |m: &Matrix<N, N, T>| { let mut x = *m; x[(N - 1, 0)] = T::c(f64::NAN); x }; ensure!(Lqr::new(nan(&a), b, q, r).err() == Some(CE::Linalg(LE::NonFinite)) && Lqr::new(a, b, nan(&q), r).err() == Some(CE::Linalg(LE::NonFinite))); let mut ri = r; ri[(M - 1, M - 1)] = T::c(-0.5); ensure!(Lqr::new(a, b, q, ri).err() == Some(CE::Linalg(LE::NotPositiveDefinite)), "{:?}", Lqr::new(a, b, q, ri).err()); if N > 1 { let mut x = q; x[(0, 1)] = x[(0, 1)] + T::c(2.0); ensure!(Lqr::new(a, b, x, r).err() == Some(CE::Linalg(LE::NotSymmetric))); }
    let c = match Lqr::new(a, b, q, r) { Ok(c) => c, Err(CE::Linalg(LE::DidNotConverge { .. })) => { g.label("no convergence"); discard!() } Err(CE::Linalg(LE::Singular)) if T::IS32 => discard!(), Err(e) => bad!("{e:?}") };
    let (da, db, dq, dr, p, k, cl) = (dm(&a), dm(&b), dm(&q), dm(&r), dm(&c.cost_to_go()), dm(&c.gain()), dm(&c.closed_loop())); let ps = p.max_abs(); if ps > if T::IS32 { 50.0 } else { 1e4 } { discard!() }
    let s = dr.add(&db.t().mul(&p).mul(&db)); let Some((ks, sinv)) = cond(&s) else { discard!() }; let kw = sinv.mul(&db.t()).mul(&p).mul(&da); let tol = T::EPS * 200.0 * ks * (1.0 + kw.max_abs()) * (1.0 + ps); close!(g, max_diff(&k, &kw), 0.0, tol.min(1e-2 * (1.0 + kw.max_abs())), "gain"); close!(g, max_diff(&cl, &da.sub(&db.mul(&k))), 0.0, T::EPS * 40.0 * (1.0 + da.max_abs() + db.max_abs() * k.max_abs()), "closed loop");
    // the closed loop contracts, costs exactly the cost-to-go, and no other first move is cheaper
    let mut pw = cl.clone(); for _ in 0..24 { pw = pw.mul(&pw); } ensure!(pw.max_abs() < 1e-2, "the closed loop does not settle"); let x0 = DM::from_fn(N, 1, |_, _| g.f(-2.0, 2.0)); let mut x = x0.clone(); let mut cost = 0.0; let quad = |m: &DM, v: &DM| v.t().mul(m).mul(v).f(0, 0); let mut amp = 1.0; let mut settled = false; for _ in 0..3000 { let u = k.mul(&x).scale(-1.0); cost += quad(&dq, &x) + quad(&dr, &u); x = da.mul(&x).add(&db.mul(&u)); amp += x.max_abs(); if x.max_abs() < 1e-12 { settled = true; break; } } if !settled { discard!() } let want = quad(&p, &x0); let ct = T::EPS * 1e4 * (1.0 + ps) * (1.0 + amp) * (1.0 + amp) * ks; if ct < 0.05 * (1.0 + want) { close!(g, cost, want, ct, "cost of following the law"); }
    let u0 = k.mul(&x0).scale(-1.0); let first = |u: &DM| quad(&dq, &x0) + quad(&dr, u) + quad(&p, &da.mul(&x0).add(&db.mul(u))); let du = DM::from_fn(M, 1, |_, _| g.f(-0.5, 0.5)); ensure!(first(&u0) <= first(&u0.add(&du)) + ct.min(0.1), "another input is cheaper");
    let (xs, xr, ff) = (vgen::<N, T>(g, -3.0, 3.0), vgen::<N, T>(g, -3.0, 3.0), vgen::<M, T>(g, -3.0, 3.0)); let ut = T::EPS * 40.0 * (3.0 + k.max_abs() * 6.0); close!(g, max_diff(&dv(&c.control(xs)), &k.mul(&dv(&xs)).scale(-1.0)), 0.0, ut, "control"); close!(g, max_diff(&dv(&c.control_tracking(xs, xr, ff)), &dv(&ff).sub(&k.mul(&dv(&xs).sub(&dv(&xr))))), 0.0, ut, "tracking control");
    match c.certify_stability() { Ok(y) => { let y = dm(&y); let res = cl.t().mul(&y).mul(&cl).sub(&y).add(&dq); close!(g, res.max_abs(), 0.0, T::EPS.sqrt() * 2.0 * y.frob().max(1.0), "certificate residual"); ensure!(y.sym_eigs()[0] > -T::EPS * 100.0 * y.max_abs(), "certificate not positive"); } Err(CE::Linalg(LE::NotPositiveDefinite)) if T::IS32 => {} Err(e) => bad!("a settling loop got no certificate: {e:?}") } g.nontrivial_if(N > 1); Ok(())
}
fn lqr_all(g: &mut G) -> R { dims2!(g, lqr, f64, (1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (4, 2), (6, 2), (3, 5)) }
fn lqr_all32(g: &mut G) -> R { dims2!(g, lqr, f32, (1, 1), (2, 1), (2, 2)) }

type M3 = [[f64; 3]; 3];
fn mv(a: M3, v: V3) -> V3 { core::array::from_fn(|i| (0..3).map(|j| a[i][j] * v[j]).sum()) }
fn mm(a: M3, b: M3) -> M3 { core::array::from_fn(|i| core::array::from_fn(|j| (0..3).map(|k| a[i][k] * b[k][j]).sum())) }
fn tr(a: M3) -> M3 { core::array::from_fn(|i| core::array::from_fn(|j| a[j][i])) }
fn cross(a: V3, b: V3) -> V3 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn dot(a: V3, b: V3) -> f64 { (0..3).map(|i| a[i] * b[i]).sum() }
fn sub(a: V3, b: V3) -> V3 { core::array::from_fn(|i| a[i] - b[i]) }
fn add(a: V3, b: V3) -> V3 { core::array::from_fn(|i| a[i] + b[i]) }
fn sc(a: V3, s: f64) -> V3 { a.map(|x| x * s) }
fn a3<T: Fl>(v: Vector<3, T>) -> V3 { [v[0].g(), v[1].g(), v[2].g()] }
fn rm<T: Fl>(o: SO3<T>) -> M3 { qrot(o.quaternion().as_array().map(|v| v.g())) }
fn dir(g: &mut G) -> V3 { let d = checks::arm::dir(g); sc(d, 1.0 / nrm(&d)) }
fn att<T: Fl>(g: &mut G) -> SO3<T> { if g.chance(1, 8) { return SO3::identity(); } let th = match g.below(5) { 0 => g.log10(-6.0, 0.0), 1 => std::f64::consts::PI - g.log10(-6.0, 0.0), _ => g.f(0.0, 3.14) }; let d = sc(dir(g), th); SO3::exp(Vector::new(d.map(T::c))) }
fn attitude<T: Fl>(g: &mut G) -> R {
    let (kr, kw) = (T::c(g.log10(-1.0, 1.0)), T::c(g.log10(-1.0, 1.0))); let q = orth(g, 3); let ev = [g.log10(-1.0, 0.5), g.log10(-1.0, 0.5), g.log10(-1.0, 0.5)]; let jm = q.mul(&DM::from_fn(3, 3, |i, j| if i == j { ev[i] } else { 0.0 })).mul(&q.t()); let jl: Matrix<3, 3, T> = Matrix::from_fn(|i, j| T::c(jm.f(i.min(j), i.max(j))));
    let c = match GeometricAttitudeController::new(kr, kw, jl) { Ok(c) => c, Err(e) => bad!("valid controller refused: {e:?}") }; ensure!(c.attitude_gain() == kr && c.rate_gain() == kw && c.inertia() == jl);
    let rd = att::<T>(g); let r = if g.chance(1, 8) { rd } else if g.chance(1, 4) { rd * att::<T>(g) } else { att::<T>(g) }; let (w, wd, ad) = (vgen::<3, T>(g, -3.0, 3.0), vgen::<3, T>(g, -3.0, 3.0), vgen::<3, T>(g, -3.0, 3.0)); g.note("gains", &(kr, kw)); g.note("inertia", &jl); g.note("R,Rd", &(r, rd)); g.note("w,wd,ad", &(w, wd, ad));
    let (m, n) = (rm(r), rm(rd)); let x = mm(tr(m), n); let err = sc([x[1][2] - x[2][1], x[2][0] - x[0][2], x[0][1] - x[1][0]], 0.5); let e = a3(GeometricAttitudeController::<T>::attitude_error(r, rd)); for i in 0..3 { close!(g, e[i], err[i], T::EPS * 30.0, "attitude error {i}"); }
    // the error is the axis of the turn from the target to the body, times the sine of its angle, in the body frame
    let th = ((x[0][0] + x[1][1] + x[2][2] - 1.0) / 2.0).clamp(-1.0, 1.0).acos(); close!(g, nrm(&e), th.sin().abs(), (T::EPS * 30.0 + T::EPS * 30.0 / th.sin().abs().max(1e-300)).min(T::EPS.sqrt() * 30.0), "size of the attitude error");
    let j: M3 = core::array::from_fn(|i| core::array::from_fn(|k| jl[(i, k)].g())); let (wv, wdv, adv) = (a3(w), a3(wd), a3(ad)); let tau = a3(c.torque(r, w, rd, wd, ad)); let size = (kr.g() + kw.g()) * 20.0 + 12.0 * nrm(&[ev[0], ev[1], ev[2]]) * 9.0;
    // closing the loop: J e' = -kR eR - kW eW + (J eW + J carried) x eW terms, i.e. the energy falls by kW |eW|^2
    let ew = sub(wv, mv(x, wdv)); let ji = DM::from_fn(3, 3, |a, b| j[a][b]).inv().unwrap(); let inv: M3 = core::array::from_fn(|a| core::array::from_fn(|b| ji.f(a, b))); let wdot = mv(inv, sub(tau, cross(wv, mv(j, wv)))); let edot = sub(add(wdot, cross(wv, mv(x, wdv))), mv(x, adv)); let power = kr.g() * dot(err, ew) + dot(ew, mv(j, edot)); close!(g, power, -kw.g() * dot(ew, ew), T::EPS * 60.0 * size * (1.0 + nrm(&ew)), "rate of change of the tracking energy");
    let want = sub(add(sc(err, -kr.g()), sc(ew, -kw.g())), mv(j, edot)); for i in 0..3 { close!(g, want[i], 0.0, T::EPS * 100.0 * size * ev[0].max(ev[1]).max(ev[2]) / ev[0].min(ev[1]).min(ev[2]), "closed-loop error dynamics, axis {i}"); }
    let still = a3(c.torque(rd, Vector::zeros(), rd, Vector::zeros(), Vector::zeros())); ensure!(nrm(&still) <= T::EPS * 20.0 * kr.g(), "a body at rest on target is pushed: {still:?}"); g.nontrivial_if(nrm(&err) > 1e-3); Ok(())
}
/// The closed loop brings any start short of a half turn onto a moving target.
fn settle(g: &mut G) -> R {
    let ev = [g.log10(-0.5, 0.5), g.log10(-0.5, 0.5), g.log10(-0.5, 0.5)]; let j = Matrix::from_fn(|a, b| if a == b { ev[a] } else { 0.0 }); let (kr, kw) = (g.f(4.0, 9.0), g.f(3.0, 6.0)); let c = GeometricAttitudeController::<f64>::new(kr, kw, j).unwrap(); let spin = sc(dir(g), g.f(0.0, 1.0)); let mut rd = att::<f64>(g); let mut r = rd * SO3::exp(Vector::new(sc(dir(g), g.f(0.0, 2.9)))); let mut w = vgen::<3, f64>(g, -0.2, 0.2); let wd = Vector::new(spin); let h = 0.004; g.note("inertia", &ev); g.note("gains", &(kr, kw)); g.note("R,Rd,wd", &(r, rd, spin));
    for _ in 0..15000 { let t = c.torque(r, w, rd, wd, Vector::zeros()); let a: V3 = { let wv = a3(w); let jw = [ev[0] * wv[0], ev[1] * wv[1], ev[2] * wv[2]]; let s = sub(a3(t), cross(wv, jw)); [s[0] / ev[0], s[1] / ev[1], s[2] / ev[2]] }; w = w + Vector::new(sc(a, h)); r = r * SO3::exp(w.scale(h)); rd = rd * SO3::exp(wd.scale(h)); }
    let x = mm(tr(rm(r)), rm(rd)); let th = ((x[0][0] + x[1][1] + x[2][2] - 1.0) / 2.0).clamp(-1.0, 1.0).acos(); ensure!(th < 0.05, "the loop settled {th} rad off its target"); g.nontrivial(); Ok(())
}
fn attitude_errors(g: &mut G) -> R {
    let mut kr = g.log10(-1.0, 1.0); let mut kw = g.log10(-1.0, 1.0); let mut j = Matrix::<3, 3, f64>::identity(); let k = g.below(8); let want = match k { 0 => { kr = g.pick(&[f64::NAN, f64::INFINITY]); CE::NonFinite } 1 => { kw = f64::NAN; CE::NonFinite } 2 => { j[(g.below(3), g.below(3))] = f64::INFINITY; CE::NonFinite } 3 => { kr = g.pick(&[0.0, -1.0]); CE::NonPositiveGain } 4 => { kw = g.pick(&[0.0, -1.0]); CE::NonPositiveGain } 5 => { j[(0, 1)] = 0.3; CE::NotSymmetricInertia } 6 => { j[(1, 1)] = g.pick(&[0.0, -1.0]); CE::NonPositiveInertia } _ => { j[(0, 1)] = 2.0; j[(1, 0)] = 2.0; CE::NonPositiveInertia } }; g.note("case", &k); let r = GeometricAttitudeController::new(kr, kw, j); ensure!(r.err() == Some(want), "{r:?}, wanted {want:?}"); g.nontrivial(); Ok(())
}

fn thrust<T: Fl>(g: &mut G) -> R {
    let gr = T::c(if g.chance(1, 5) { 0.0 } else { g.f(0.5, 12.0) }); let h = T::c(if g.chance(1, 5) { g.pick(&[0.0, 1.5707963267948966, -1.5707963267948966, 3.141592653589793]) } else { g.f(-7.0, 7.0) }); let hv = [h.g().cos(), h.g().sin(), 0.0]; let scale = if g.chance(1, 3) { g.log10(-3.0, 4.0) } else { 5.0 };
    let mut p = sc(dir(g), scale); if g.chance(1, 3) { p = add(sc(hv, scale * g.sign()), sc(dir(g), scale * g.log10(-6.0, 0.0))); g.label("near the heading"); } let acc = Vector::new([T::c(p[0]), T::c(p[1]), T::c(p[2] - gr.g())]); g.note("acceleration", &acc); g.note("heading", &h); g.note("gravity", &gr);
    let push = [acc[0].g(), acc[1].g(), (acc[2] + gr).g()]; let n = nrm(&push); if n < 1e-30 { discard!() } let up = sc(push, 1.0 / n); let s = cross(up, hv); let sn = nrm(&s); let r = thrust_command_from_acceleration(acc, h, gr);
    let c = match r { Ok(c) => c, Err(CE::UndefinedHeadingDirection) if sn < T::EPS * 10.0 => return Ok(()), Err(e) => bad!("a direction {sn:e} away from the heading was refused: {e:?}") };
    close!(g, c.thrust_acceleration().g(), n, T::EPS * 8.0 * n, "push"); let mass = T::c(g.f(0.1, 20.0)); close!(g, c.thrust_force(mass).g(), c.thrust_acceleration().g() * mass.g(), T::EPS * 4.0 * n * mass.g(), "force"); let m = rm(c.attitude()); let z = [m[0][2], m[1][2], m[2][2]]; let y = [m[0][1], m[1][1], m[2][1]]; let x = [m[0][0], m[1][0], m[2][0]]; let qn = nrm(&c.attitude().quaternion().as_array().map(|v| v.g())); close!(g, qn, 1.0, T::EPS * 10.0, "unit attitude");
    for i in 0..3 { close!(g, z[i], up[i], T::EPS * 60.0 + if sn < 1e-2 { T::EPS * 60.0 } else { 0.0 }, "the push direction, axis {i}"); } let slack = T::EPS * 60.0 / sn.max(T::EPS); close!(g, dot(y, hv), 0.0, T::EPS * 60.0, "the wing leans into the heading"); if slack < 0.1 { for i in 0..3 { close!(g, y[i], s[i] / sn, slack, "the wing, axis {i}"); } ensure!(dot(x, hv) > 0.0, "the nose points away from the heading"); } g.nontrivial_if(sn < 0.99); Ok(())
}
fn thrust_errors(g: &mut G) -> R {
    let mut a = [g.f(-3.0, 3.0), g.f(-3.0, 3.0), g.f(-3.0, 3.0)]; let mut h = g.f(-3.0, 3.0); let mut gr = g.f(1.0, 10.0); let k = g.below(4); let want = match k { 0 => { let v = g.pick(&[f64::NAN, f64::INFINITY]); match g.below(5) { 3 => h = v, 4 => gr = v, i => a[i] = v } CE::NonFinite } 1 => { a = [0.0, 0.0, -gr]; CE::UndefinedThrustDirection } _ => { h = 0.0; a = [g.f(0.1, 3.0) * g.sign(), 0.0, -gr]; CE::UndefinedHeadingDirection } }; g.note("inputs", &(a, h, gr)); let r = thrust_command_from_acceleration(Vector::new(a), h, gr); ensure!(r.as_ref().err() == Some(&want), "{r:?}, wanted {want:?}"); g.nontrivial(); Ok(())
}
fn pursuit<T: Fl>(g: &mut G) -> R {
    let th = T::c(g.f(-3.1, 3.1)); let p = [g.f(-5.0, 5.0), g.f(-5.0, 5.0)].map(T::c); let pose = SE2::from_parts(SO2::exp(th), Vector::new(p)); let l = g.log10(-2.0, 2.0); let al = if g.chance(1, 6) { g.pick(&[0.0, 1.5707963267948966, -1.5707963267948966, 3.14159]) } else { g.f(-3.1, 3.1) }; let b = th.g() + al; let q = Vector::new([T::c(p[0].g() + l * b.cos()), T::c(p[1].g() + l * b.sin())]); let (dx, dy) = (q[0].g() - p[0].g(), q[1].g() - p[1].g()); let dist = T::c(dx.hypot(dy)); g.note("pose", &(th, p)); g.note("point", &q);
    let k = match pure_pursuit_curvature(pose, q, dist) { Ok(k) => k, Err(e) => bad!("{e:?}") }; let lat = -th.g().sin() * dx + th.g().cos() * dy; let tol = T::EPS * 40.0 * (dist.g() + 10.0) / (dist.g() * dist.g()); close!(g, k.value().g(), 2.0 * lat / (dist.g() * dist.g()), tol, "curvature"); let other = T::c(g.log10(-1.0, 1.0)); let k2 = pure_pursuit_curvature(pose, q, other).unwrap(); close!(g, k2.value().g(), 2.0 * lat / (other.g() * other.g()), T::EPS * 40.0 * (dist.g() + 10.0) / (other.g() * other.g()), "curvature at another distance");
    let v = T::c(g.f(-3.0, 3.0)); let tw = k.to_body_twist(v); ensure!(tw.linear() == v); close!(g, tw.angular().g(), v.g() * k.value().g(), T::EPS * 4.0 * (v.g() * k.value().g()).abs(), "turn rate"); ensure!(Curvature::new(v).value() == v);
    // driving along the arc arrives at the point
    if tol * dist.g() < 1e-3 && al.abs() < 2.8 { let kv = k.value().g(); let ang = 2.0 * (kv * dist.g() / 2.0).clamp(-1.0, 1.0).asin(); let ang = if al.abs() <= std::f64::consts::FRAC_PI_2 { ang } else { ang.signum() * (2.0 * std::f64::consts::PI - ang.abs()) }; let arc = if kv.abs() * dist.g() < 1e-6 { dist.g() } else { ang / kv }; let end = integrate(SE2::from_parts(SO2::exp(th.g()), Vector::new([p[0].g(), p[1].g()])), BodyArc::new(arc, arc * kv)); let e = (end.translation()[0] - q[0].g()).hypot(end.translation()[1] - q[1].g()); if al.abs() < 1.4 || al.abs() > 1.8 { close!(g, e, 0.0, (tol * arc * arc * 4.0 + T::EPS * 100.0 * (arc.abs() + 10.0)) / (al.cos().abs()) + 1e-5 * dist.g() * (kv.abs() * dist.g() < 1e-6) as u8 as f64, "miss distance after driving the arc"); g.nontrivial_if(lat.abs() > 1e-3); } } Ok(())
}
fn pursuit_errors(g: &mut G) -> R {
    let d = g.mostly(-1.0, 3.0); let mut q = [g.f(-2.0, 2.0), g.f(-2.0, 2.0)]; if g.chance(1, 3) { q[g.below(2)] = g.pick(&[f64::NAN, f64::INFINITY]); } g.note("distance,point", &(d, q)); let want = if !d.is_finite() || d <= 0.0 { Some(CE::NonPositiveLookaheadDistance) } else if q.iter().any(|x| !x.is_finite()) { Some(CE::NonFinite) } else { None }; let r = pure_pursuit_curvature(SE2::identity(), Vector::new(q), d); ensure!(r.as_ref().err() == want.as_ref(), "{r:?}, wanted {want:?}"); g.nontrivial_if(want.is_some()); Ok(())
}
fn main() {
    vk::run("C23", &["PID histories use finite readings; gains of either sign", "LQR systems with a reachable unstable part and input cost at least 0.2"], &[
        law!("pid", 60000, pid::<f64>, "more than three calls and saturation reached or no upper limit"), law!("pid_f32", 30000, pid::<f32>, "more than three calls and saturation reached or no upper limit"), law!("windup", 1500, windup, "a sizeable integral"), law!("pid_errors", 20000, pid_errors, "an unusual argument"), law!("pid_dual", 10000, pid_dual, "always"),
        law!("lqr", 3000, lqr_all, "more than one state"), law!("lqr_f32", 2000, lqr_all32, "more than one state"),
        law!("attitude", 40000, attitude::<f64>, "off target"), law!("attitude_f32", 20000, attitude::<f32>, "off target"), law!("settle", 60, settle, "always"), law!("attitude_errors", 2000, attitude_errors, "always"),
        law!("thrust", 50000, thrust::<f64>, "tilted"), law!("thrust_f32", 30000, thrust::<f32>, "tilted"), law!("thrust_errors", 4000, thrust_errors, "always"),
        law!("pursuit", 40000, pursuit::<f64>, "off axis"), law!("pursuit_f32", 20000, pursuit::<f32>, "off axis"), law!("pursuit_errors", 8000, pursuit_errors, "refused"),
    ]);
}
