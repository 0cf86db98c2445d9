//! C18: wheeled kinematics against the closed-form arc, its exact derivatives, and wheel histories.
use checks::util::*;
use multicalc::error::KinematicsError as KE;
use multicalc::kinematics::{integrate, BodyArc, BodyTwist, DifferentialDrive, OdometryStep, Unicycle, WheelRotations, WheelVelocities};
use multicalc::linear_algebra::Vector;
use multicalc::ode::Rk4;
use multicalc::scalar::VectorFn;
use multicalc::spatial::{SE2, SO2};
use multicalc::{Dual, HyperDual};
use vk::*;

type P = (f64, f64, f64);
/// sin t / t and (1 - cos t) / t, without cancellation.
fn sc(t: f64) -> (f64, f64) { let h = t / 2.0; if t.abs() < 1e-4 { (1.0 - t * t / 6.0, h - t * t * t / 24.0) } else { (t.sin() / t, h.sin() * h.sin() / h) } }
/// Their derivatives.
fn dsc(t: f64) -> (f64, f64) { if t.abs() < 0.05 { let u = t * t; (t * (-1.0 / 3.0 + u * (1.0 / 30.0 - u * (1.0 / 840.0 - u / 45360.0))), 0.5 + u * (-1.0 / 8.0 + u * (1.0 / 144.0 - u * (1.0 / 5760.0 - u / 403200.0)))) } else { let (s, c) = sc(t); ((t.cos() - s) / t, (t.sin() - c) / t) } }
fn ddsc(t: f64) -> (f64, f64) { if t.abs() < 0.2 { let u = t * t; (-1.0 / 3.0 + u * (1.0 / 10.0 - u * (1.0 / 168.0 - u * (1.0 / 6480.0 - u / 443520.0))), t * (-1.0 / 4.0 + u * (1.0 / 36.0 - u * (1.0 / 960.0 - u / 50400.0)))) } else { let (ds, dc) = dsc(t); ((-t.sin() - 2.0 * ds) / t, (t.cos() - 2.0 * dc) / t) } }
fn arc(p: P, s: f64, t: f64) -> P { let (a, b) = sc(t); let (sn, cs) = p.2.sin_cos(); (p.0 + s * (a * cs - b * sn), p.1 + s * (a * sn + b * cs), p.2 + t) }
fn se2<T: Fl>(p: P) -> SE2<T> { SE2::from_parts(SO2::exp(T::c(p.2)), Vector::new([T::c(p.0), T::c(p.1)])) }
fn turn_gap(a: f64, b: f64) -> f64 { let d = a - b; d.sin().atan2(d.cos()).abs() }
fn heading<T: Fl>(p: &SE2<T>) -> f64 { p.rotation().log().g() }
fn near<T: Fl>(g: &mut G, p: &SE2<T>, w: P, tol: f64, what: &str) -> R { close!(g, p.translation()[0].g(), w.0, tol, "{what}: x"); close!(g, p.translation()[1].g(), w.1, tol, "{what}: y"); close!(g, turn_gap(heading(p), w.2), 0.0, tol + T::EPS * 20.0 * (4.0 + w.2.abs()), "{what}: heading"); Ok(()) }
fn geometry<T: Fl>(g: &mut G) -> (T, T) { (T::c(if g.chance(1, 2) { g.f(0.01, 1.0) } else { g.log10(-6.0, 6.0) }), T::c(if g.chance(1, 2) { g.f(0.05, 2.0) } else { g.log10(-6.0, 6.0) })) }
fn reading(g: &mut G) -> f64 { match g.below(5) { 0 => 0.0, 1 => g.slog10(-9.0, 3.0), _ => g.f(-5.0, 5.0) } }
fn angle(g: &mut G) -> f64 { match g.below(5) { 0 => 0.0, 1 => g.slog10(-12.0, 0.0), 2 => g.pick(&[1.0, -1.0]) * g.pick(&[1e-4, 1e-3, 1e-2, 0.1, std::f64::consts::PI, 2.0 * std::f64::consts::PI]) * g.f(0.999, 1.001), _ => g.f(-7.0, 7.0) } }

fn maps<T: Fl>(g: &mut G) -> R {
    let (r, b) = geometry::<T>(g); let d = DifferentialDrive::new(r, b).unwrap(); g.note("radius,track", &(r, b)); ensure!(d.wheel_radius() == r && d.wheelbase() == b); let (l, w) = (T::c(reading(g)), T::c(if g.chance(1, 6) { 0.0 } else { reading(g) })); g.note("wheels", &(l, w)); let e = T::EPS; let (rr, bb, lg, wg) = (r.g(), b.g(), l.g(), w.g()); let big = lg.abs() + wg.abs();
    let f = d.forward(WheelVelocities::new(l, w)); close!(g, f.linear().g(), rr * (lg + wg) / 2.0, e * 8.0 * rr * big, "forward speed"); close!(g, f.angular().g(), rr * (wg - lg) / bb, e * 8.0 * rr * big / bb, "yaw rate"); let a = d.forward_arc(WheelRotations::new(l, w)); ensure!(a.linear() == f.linear() && a.angular() == f.angular(), "velocities and rotations are mapped differently"); let k = d.inverse(f); close!(g, k.left().g(), lg, e * 20.0 * big, "left there and back"); close!(g, k.right().g(), wg, e * 20.0 * big, "right there and back"); let k = d.inverse_arc(a); close!(g, k.left().g(), lg, e * 20.0 * big, "left arc there and back"); close!(g, k.right().g(), wg, e * 20.0 * big, "right arc there and back");
    let (v, o) = (T::c(reading(g)), T::c(reading(g))); let (vg, og) = (v.g(), o.g()); let scale = (vg.abs() + og.abs() * bb) / rr; let i = d.inverse(BodyTwist::new(v, o)); close!(g, i.left().g(), (vg - og * bb / 2.0) / rr, e * 10.0 * scale, "left wheel"); close!(g, i.right().g(), (vg + og * bb / 2.0) / rr, e * 10.0 * scale, "right wheel"); let ia = d.inverse_arc(BodyArc::new(v, o)); ensure!(ia.left() == i.left() && ia.right() == i.right()); let f = d.forward(i); close!(g, f.linear().g(), vg, e * 20.0 * scale * rr, "speed there and back"); close!(g, f.angular().g(), og, e * 20.0 * scale * rr / bb, "yaw there and back");
    let t = d.wheel_travel(WheelRotations::new(l, w)); close!(g, t.0.g(), lg * rr, e * 4.0 * lg.abs() * rr, "travel"); let z = d.wheel_rotations_from_travel(t.0, t.1); close!(g, z.left().g(), lg, e * 6.0 * lg.abs(), "left from travel"); close!(g, z.right().g(), wg, e * 6.0 * wg.abs(), "right from travel");
    let tw = BodyTwist::new(v, o); let tg = tw.to_tangent(); ensure!(tg[0] == v && tg[1] == T::ZERO && tg[2] == o && BodyTwist::project_tangent(tg) == tw && BodyTwist::tangent_slip(tg) == T::ZERO); let x = Vector::new([v, l, o]); ensure!(BodyTwist::project_tangent(x) == tw && BodyTwist::tangent_slip(x) == l); let dt = T::c(g.log10(-4.0, 1.0)); let h = tw.integrate_over(dt); ensure!(h.linear() == v * dt && h.angular() == o * dt); ensure!(BodyTwist::<T>::zeros() == BodyTwist::new(T::ZERO, T::ZERO) && BodyArc::<T>::zeros() == BodyArc::new(T::ZERO, T::ZERO) && WheelVelocities::<T>::zeros() == WheelVelocities::new(T::ZERO, T::ZERO) && WheelRotations::<T>::zeros() == WheelRotations::new(T::ZERO, T::ZERO)); g.nontrivial_if(lg != wg && og != 0.0); Ok(())
}
fn refused<T: Fl>(g: &mut G) -> R {
    let mut x = [T::c(g.hostile()), T::c(g.hostile())]; for v in &mut x { if g.chance(1, 2) { *v = T::c(g.pick(&[0.5, 0.0, -0.0, -1.0, f64::NAN, f64::INFINITY, 1e-30])); } } g.note("radius,track", &x); let r = DifferentialDrive::new(x[0], x[1]); let w = if x.iter().any(|v| !v.g().is_finite()) { Err(KE::NonFinite) } else if x.iter().any(|v| v.g() <= 0.0) { Err(KE::NonPositiveParameter) } else { Ok(()) }; ensure!(r.map(|_| ()) == w, "{r:?} where {w:?} is due"); g.nontrivial_if(w.is_err()); Ok(())
}
/// Any history of ticks against the closed-form arcs; undoing it returns to the start.
fn histories<T: Fl>(g: &mut G) -> R {
    let d = DifferentialDrive::new(T::c(g.f(0.02, 0.5)), T::c(g.f(0.1, 1.0))).unwrap(); let start = (rnd::<T>(g.f(-5.0, 5.0)), rnd::<T>(g.f(-5.0, 5.0)), rnd::<T>(g.f(-3.1, 3.1))); let mut p = se2::<T>(start); let mut w = (start.0, start.1, start.2); let n = 1 + g.below(30); let held = g.chance(1, 3); let mut size = 12.0; let mut ticks = vec![]; let first = (T::c(g.f(-1.0, 1.0)), T::c(g.f(-1.0, 1.0)));
    for _ in 0..n { let k = if held { first } else { match g.below(4) { 0 => { let x = T::c(g.f(-2.0, 2.0)); (x, x) } 1 => { let x = g.f(-2.0, 2.0); (T::c(x), T::c(x + g.slog10(-10.0, -2.0))) } _ => (T::c(g.f(-8.0, 8.0)), T::c(g.f(-8.0, 8.0))) } }; ticks.push(k); let (l, r) = (k.0.g(), k.1.g()); let (rr, bb) = (d.wheel_radius().g(), d.wheelbase().g()); let (s, t) = (rr * (l + r) / 2.0, rr * (r - l) / bb); w = arc(w, s, t); size += s.abs() * (1.0 + t.abs()) + t.abs(); p = d.odometry_step(p, WheelRotations::new(k.0, k.1)); }
    g.note("drive", &d); g.note("start", &start); g.note("ticks", &ticks); let tol = T::EPS * 20.0 * (n + 2) as f64 * size; near(g, &p, w, tol, "after the history")?; if held { let a = d.forward_arc(WheelRotations::new(first.0, first.1)); let c = arc(start, a.linear().g() * n as f64, a.angular().g() * n as f64); near(g, &p, c, tol, "one arc for the whole motion")?; let z = integrate(se2::<T>(start), BodyArc::new(a.linear() * T::c(n as f64), a.angular() * T::c(n as f64))); near(g, &z, c, tol, "in one step")?; g.label("held"); } for k in ticks.iter().rev() { p = d.odometry_step(p, WheelRotations::new(-k.0, -k.1)); } near(g, &p, start, tol * 2.0, "undone")?; g.nontrivial_if(n > 1); Ok(())
}
fn one_arc<T: Fl>(g: &mut G) -> R {
    let p = if g.chance(1, 4) { (0.0, 0.0, 0.0) } else { (rnd::<T>(g.f(-3.0, 3.0)), rnd::<T>(g.f(-3.0, 3.0)), rnd::<T>(g.f(-3.1, 3.1))) }; let (s, t) = (T::c(reading(g)), T::c(angle(g))); g.note("pose", &p); g.note("arc", &(s, t)); let w = arc(p, s.g(), t.g()); let size = p.0.abs() + p.1.abs() + s.g().abs() * (1.0 + t.g().abs()); let q = integrate(se2::<T>(p), BodyArc::new(s, t)); near(g, &q, w, T::EPS * 12.0 * size, "one arc")?; let chord = ((w.0 - p.0).powi(2) + (w.1 - p.1).powi(2)).sqrt(); ensure!(chord <= s.g().abs() * (1.0 + 1e-12) + 1e-14 * size); let o = OdometryStep.eval(&[T::c(p.0), T::c(p.1), T::c(p.2), s, t]); close!(g, o[0].g(), w.0, T::EPS * 12.0 * size, "model x"); close!(g, o[1].g(), w.1, T::EPS * 12.0 * size, "model y"); close!(g, turn_gap(o[2].g(), w.2), 0.0, T::EPS * 20.0 * (4.0 + w.2.abs()), "model heading"); ensure!(o[2].g().abs() <= std::f64::consts::PI + T::EPS * 4.0, "the heading {:?} is not wrapped", o[2]); g.nontrivial_if(s.g() != 0.0 && t.g() != 0.0); Ok(())
}
/// First and second derivatives of the process model, through the straight-line branch too.
fn derivatives(g: &mut G) -> R {
    let x = [g.f(-3.0, 3.0), g.f(-3.0, 3.0), g.f(-3.1, 3.1), g.f(-3.0, 3.0), angle(g)]; g.note("state", &x); let (s, t) = (x[3], x[4]); let (a, b) = sc(t); let (da, db) = dsc(t); let (ea, eb) = ddsc(t); let (sn, cs) = x[2].sin_cos(); let rot = |u: f64, v: f64| [u * cs - v * sn, u * sn + v * cs]; let d2 = rot(-s * b, s * a); let d3 = rot(a, b); let d4 = rot(s * da, s * db); let jac = [[1.0, 0.0, d2[0], d3[0], d4[0]], [0.0, 1.0, d2[1], d3[1], d4[1]], [0.0, 0.0, 1.0, 0.0, 1.0]];
    for k in 0..5 { let o = OdometryStep.eval(&core::array::from_fn(|i| Dual::new(x[i], if i == k { 1.0 } else { 0.0 }))); for r in 0..3 { close!(g, o[r].deriv, jac[r][k], 3e-10, "derivative of output {r} in input {k}"); } } let e = rot(s * ea, s * eb); let m = rot(da, db); let f = rot(-s * db, s * da); for (i, j, w) in [(4, 4, e), (3, 4, m), (2, 4, f)] { let o = OdometryStep.eval(&core::array::from_fn(|k| HyperDual::new(x[k], if k == i { 1.0 } else { 0.0 }, if k == j { 1.0 } else { 0.0 }, 0.0))); for r in 0..2 { close!(g, o[r].eps1eps2, w[r], 3e-7, "second derivative of output {r} in inputs {i},{j}"); } } g.label_if(t.abs() < 1e-3, "nearly straight"); g.nontrivial_if(s != 0.0); Ok(())
}
fn unicycle<T: Fl>(g: &mut G) -> R {
    let (v, o) = (T::c(g.f(-2.0, 2.0)), T::c(if g.chance(1, 4) { 0.0 } else { g.f(-2.0, 2.0) })); let u = Unicycle::new(BodyTwist::new(v, o)); let y = Vector::new([T::c(g.f(-3.0, 3.0)), T::c(g.f(-3.0, 3.0)), T::c(g.f(-3.0, 3.0))]); g.note("twist", &(v, o)); g.note("state", &y); let d = u.derivative(&y); let (s, c) = y[2].g().sin_cos(); close!(g, d[0].g(), v.g() * c, T::EPS * 12.0, "x rate"); close!(g, d[1].g(), v.g() * s, T::EPS * 12.0, "y rate"); ensure!(d[2] == o && u.field()(T::c(g.f(0.0, 9.0)), &y) == d); let t = g.f(0.1, 2.0); let tt = rnd::<T>(t); let w = arc((y[0].g(), y[1].g(), y[2].g()), v.g() * tt, o.g() * tt); let n = 200; let h = T::c(tt / n as f64); let mut z = y; for k in 0..n { z = Rk4::step(&u.field(), T::c(k as f64) * h, &z, h); } let tol = if T::IS32 { 3e-4 } else { 1e-8 }; for i in 0..3 { close!(g, z[i].g(), [w.0, w.1, w.2][i], tol, "after Rk4, component {i}"); } g.nontrivial_if(v.g() != 0.0 && o.g() != 0.0); Ok(())
}
fn main() {
    run("C18", &["the maps are total once the geometry is accepted, as documented", "headings compared on the circle"], &[
        law!("maps", 40000, maps::<f64>, "the wheels differ and the commanded twist turns"), law!("maps_f32", 20000, maps::<f32>, "the wheels differ and the commanded twist turns"), law!("refused", 10000, refused::<f64>, "an error is due"), law!("refused_f32", 5000, refused::<f32>, "an error is due"), law!("histories", 20000, histories::<f64>, "more than one tick"), law!("histories_f32", 10000, histories::<f32>, "more than one tick"), law!("one_arc", 40000, one_arc::<f64>, "the body moves and turns"), law!("one_arc_f32", 20000, one_arc::<f32>, "the body moves and turns"), law!("derivatives", 30000, derivatives, "the body moves"), law!("unicycle", 3000, unicycle::<f64>, "the body moves and turns"), law!("unicycle_f32", 1000, unicycle::<f32>, "the body moves and turns"),
    ]);
}
