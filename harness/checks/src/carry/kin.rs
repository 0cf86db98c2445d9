//! Kinematics, control, plant models, digital filters.
use super::*;
use crate::fun;
use multicalc::control::*;
use multicalc::kinematics::*;
use multicalc::plant::*;
use multicalc::signal_processing::*;
use multicalc::spatial::*;

fn pose<T: Numeric>(c: &[f64], at: usize) -> SE3<T> { SE3::exp(cvec(c, at)) }
/// A four-joint tree: a revolute, b continuous with an anchor, c prismatic, d revolute branching off b.
/// Origins come from the constants, zero offsets from the inputs.
fn tree<T: Numeric>(c: &[f64], x: &[T]) -> Option<KinematicTree<5, 6, T>> { let mut t = KinematicTree::<5, 6, T>::new(); let u = |i: usize| cvec::<3, T>(c, 24 + 3 * i); t.push(Joint::revolute(u(0), pose(c, 0)).with_zero_offset(x[0]), JointParent::World).ok()?; t.push(Joint::continuous(u(1), pose(c, 6)).with_anchor(vec(x, 1)), JointParent::Joint(0)).ok()?; t.push(Joint::prismatic(u(2), pose(c, 12)), JointParent::Joint(1)).ok()?; t.push(Joint::revolute(u(3), pose(c, 18)), JointParent::Joint(1)).ok()?; t.push(Joint::fixed(SE3::exp(Vector::new([x[4], T::ZERO, x[5], T::ZERO, x[6], T::ZERO]))), JointParent::Joint(2)).ok()?; Some(t) }
fun!(Forward, c, x, { let t = tree(c, x)?; let q = Vector::<6, T>::from_fn(|i| if i < 4 { x[7 + i] } else { T::ZERO }); let s = t.forward_kinematics(&q).ok()?; let mut o = vec![]; for i in 0..5 { o.extend(mv(s.pose(i)?.to_matrix())); } for (tool, fr) in [(4, JacobianFrame::World), (3, JacobianFrame::Body)] { o.extend(mv(t.geometric_jacobian(&s, tool, fr).ok()?.matrix())); } let j = t.geometric_jacobian_at(&q, 2, JacobianFrame::Body).ok()?; o.extend(mv(j.matrix())); o.push(t.configuration_distance(&q, &Vector::from_fn(|i| if i < 4 { x[i] } else { T::ZERO }))); let j = t.geometric_jacobian(&s, 4, JacobianFrame::World).ok()?; o.extend(mv(j.damped_pseudo_inverse(&Vector::from_fn(|_| T::ONE), k(0.3)).ok()?)); o.extend(vv(j.tool_twist(&q).to_vector())); Some(o) });
fun!(Collide, c, x, { let a = SE3::exp(vec(x, 0)); let b = SE3::exp(vec(x, 6)); let s = |r: T| Primitive::Sphere { radius: r }; let p = |r: T, h: T| Primitive::Capsule { radius: r, half_length: h }; Some(vec![s(x[12]).distance_to(a, s(x[13]), b), s(x[12]).distance_to(a, p(x[13], x[14]), b), p(x[12], x[15]).distance_to(a, p(x[13], x[14]), b)]) });
fun!(Wheels, c, x, { let d = DifferentialDrive::new(x[0], x[1]).ok()?; let t = d.forward(WheelVelocities::new(x[2], x[3])); let w = d.inverse(BodyTwist::new(x[4], x[5])); let mut o = vec![t.linear(), t.angular(), w.left(), w.right()]; let p = SE2::exp(vec(x, 3)); o.extend(mv(d.odometry_step(p, WheelRotations::new(x[2], x[3])).to_matrix())); o.extend(mv(integrate(p, t.integrate_over(x[6])).to_matrix())); let r = d.inverse_arc(BodyArc::new(x[4], x[5])); o.extend([r.left(), r.right()]); o.extend(vv(Unicycle::new(t).derivative(&vec(x, 4)))); let b = BodyTwist::project_tangent(vec(x, 2)); o.extend([b.linear(), b.angular(), BodyTwist::tangent_slip(vec(x, 2))]); Some(o) });
fun!(PidRun, c, x, { let mut p = Pid::new(x[0], x[1], x[2], x[3]).ok()?.with_derivative_filter(x[4]).ok()?; if c[0] > 0.0 { p = p.with_output_limits(k(-c[1]), k(c[1])).ok()?; } let mut o = vec![]; for i in 0..4 { o.push(p.update(x[5 + i], x[9 + i])); o.push(p.integral()); if i == 1 { p.set_gains(x[2], x[1], x[0]).ok()?; } } Some(o) });
fun!(Steer, c, x, { let p = SE2::exp(vec(x, 0)); let cv = pure_pursuit_curvature(p, vec(x, 3), x[5]).ok()?; let mut o = vec![cv.value(), cv.to_body_twist(x[0]).angular()]; let t = thrust_command_from_acceleration(Vector::new([x[0], x[1], x[2]]), x[3], k(9.81)).ok()?; o.extend(mv(t.attitude().to_matrix())); o.extend([t.thrust_acceleration(), t.thrust_force(x[5])]); Some(o) });
fun!(Attitude, c, x, { let a = GeometricAttitudeController::new(x[0], x[1], spd::<3, T>(x, 2, 0.5)).ok()?; let (r, d) = (SO3::exp(vec(x, 11)), SO3::exp(vec(x, 14))); let mut o = vv(a.torque(r, vec(x, 3), d, vec(x, 6), vec(x, 8))); o.extend(vv(GeometricAttitudeController::attitude_error(r, d))); Some(o) });
fun!(LqrGain, c, x, { let l = Lqr::<2, 1, T>::new(mat::<2, 2, T>(x, 0).scale(k(c[0])), mat(x, 4), spd::<2, T>(x, 6, 0.3), spd::<1, T>(x, 10, 0.4)).ok()?; let mut o = mv(l.gain()); o.extend(mv(l.cost_to_go())); o.extend(mv(l.closed_loop())); o.extend(vv(l.control(vec(x, 2)))); o.extend(vv(l.control_tracking(vec(x, 2), vec(x, 5), vec(x, 7)))); Some(o) });
fun!(Mixer, c, x, { let m = MultirotorMixer::quadrotor_x(x[0], x[1], T::ZERO, k(c[0])).ok()?; let r = m.rotor_thrusts(x[2], vec(x, 3)); let mut o = vv(r.thrusts()); o.extend(vv(m.wrench(r.thrusts()).to_vector())); o.extend(mv(m.allocation())); let mut l = RotorLag::<2, T>::new(x[6], x[7]).ok()?.with_thrusts(vec(x, 2)); o.extend(vv(l.stepped(vec(x, 3)))); o.extend(vv(l.stepped_over(vec(x, 4), x[8]))); o.extend(vv(l.rate(vec(x, 5)))); Some(o) });
fun!(Gap, c, x, { let f = FollowTheGap::<9, T>::try_new(k(3.0), k(5.0), k(0.3), k(1.0), x[9]).ok()?.with_speed_scaling(k(0.2), k(4.0)).ok()?.with_goal_bias(x[10]).ok()?.with_steering_gain(x[11]).ok()?; let r: [T; 9] = core::array::from_fn(|i| x[i]); let o = f.compute(&r, x[12]).ok()?; Some(vec![o.body_twist().linear(), o.body_twist().angular(), o.heading(), o.minimum_clearance()]) });
fun!(Design, c, x, { let h = k::<T>(0.01); let mut o = vec![]; for (i, b) in [BiquadCoefficients::low_pass(x[0], x[1], h), BiquadCoefficients::high_pass(x[0], x[1], h), BiquadCoefficients::band_pass(x[0], x[1], h), BiquadCoefficients::notch(x[0], x[1], h)].into_iter().enumerate() { let b = b.ok()?; o.extend(b.feed_forward()); o.extend(b.feedback()); o.push(b.magnitude_at(x[2])); o.push(b.magnitude_in_decibels_at(x[2])); if i != 3 { o.push(b.phase_at(x[2])); } o.push(b.delay_at(x[2])); } Some(o) });
fun!(Filters, c, x, { let h = k::<T>(0.01); let a = BiquadCoefficients::low_pass(x[0], x[1], h).ok()?; let b = BiquadCoefficients::notch(x[2], x[1], h).ok()?; let mut f = Biquad::new(a); let mut s = BiquadCascade::new([a, b]); let mut l = OnePoleLowPass::from_cutoff(x[0], h).ok()?; let mut m = MovingAverage::<3, T>::new().ok()?; let mut r = RunningMedian::<3, T>::new().ok()?; let mut w = SavitzkyGolay::<5, 3, T>::centered(h).ok()?; let mut z = SlewRateLimiter::symmetric(x[3], h).ok()?; let d = Deadband::plain(x[4]).ok()?; let e = Deadband::recentered(x[4]).ok()?; let mut o = vec![]; f.settle_to(x[5]); for i in 5..14 { let v = x[i]; o.extend([f.filter(v), s.filter(v), l.filter(v), m.filter(v), r.filter(v), w.filter(v), z.filter(v), d.apply(v), e.apply(v), w.first_derivative(), w.second_derivative()]); } o.push(s.magnitude_at(x[2] * k(0.7))); o.push(s.phase_at(x[2] * k(0.7))); Some(o) });

fn constants(g: &mut G) -> Vec<f64> { let mut c = g.vec(24, -1.0, 1.0); for _ in 0..4 { c.extend(crate::arm::dir(g)); } c }
pub fn trees(g: &mut G) -> R { let c = constants(g); let x = g.vec(11, -1.5, 1.5); check_from::<Forward>(g, &c, &x, 1e-6, 1e-3, 1) }
pub fn collisions(g: &mut G) -> R { let mut x: Vec<f64> = (0..12).map(|_| g.u(-1.5, 1.5)).collect(); let s = g.pick(&[1.0, 3.0]); for i in 0..3 { x[6 + i] *= s; } for _ in 0..4 { x.push(g.u(0.1, 1.0)); } check::<Collide>(g, &[], &x, 1e-6, 1e-4) }
pub fn wheels(g: &mut G) -> R { let mut x = g.vec(7, -1.5, 1.5); x[0] = g.u(0.1, 1.0); x[1] = g.u(0.1, 1.0); if g.chance(1, 4) { x[3] = x[2]; } if g.chance(1, 4) { x[5] = 0.0; } x[6] = g.u(0.01, 1.0); check_from::<Wheels>(g, &[], &x, 1e-7, 1e-4, 1) }
pub fn pids(g: &mut G) -> R { let mut x: Vec<f64> = vec![g.u(0.1, 3.0), g.u(0.1, 3.0), g.u(0.0, 1.0), g.u(0.05, 1.0), g.u(0.1, 0.9)]; x.extend(g.vec(8, -2.0, 2.0)); let c = [g.sign(), g.u(0.5, 6.0)]; check_from::<PidRun>(g, &c, &x, 1e-8, 1e-3, 2) }
pub fn steering(g: &mut G) -> R { if g.bool() { let mut x = g.vec(6, -1.5, 1.5); x[5] = g.u(0.3, 2.0); check_from::<Steer>(g, &[], &x, 1e-7, 1e-4, 1) } else { let mut x = g.vec(17, -1.0, 1.0); x[0] = g.u(0.5, 3.0); x[1] = g.u(0.5, 3.0); check_from::<Attitude>(g, &[], &x, 1e-7, 1e-3, 1) } }
pub fn regulators(g: &mut G) -> R { let mut x = g.vec(11, -1.5, 1.5); x[4] = g.sign() * g.u(0.3, 1.0); let s = g.u(0.2, 1.0); check::<LqrGain>(g, &[s], &x, 1e-6, 1e-3) }
pub fn rotors(g: &mut G) -> R { let mut x = vec![g.u(0.1, 0.5), g.u(0.05, 0.4), g.u(0.5, 8.0)]; x.extend(g.vec(3, -0.4, 0.4)); x.extend([g.u(0.05, 1.0), g.u(0.01, 0.5), g.u(0.01, 0.5)]); let c = [g.u(1.0, 4.0)]; check_from::<Mixer>(g, &c, &x, 1e-7, 1e-4, 1) }
pub fn gaps(g: &mut G) -> R { let mut x: Vec<f64> = (0..9).map(|_| g.u(0.3, 5.0)).collect(); x.extend([g.u(0.5, 2.0), g.u(0.05, 0.95), g.u(0.5, 2.0), g.u(-1.2, 1.2)]); check::<Gap>(g, &[], &x, 1e-7, 1e-4) }
pub fn designs(g: &mut G) -> R { let x = vec![g.u(2.0, 40.0), g.u(0.3, 3.0), g.u(1.0, 45.0)]; if (x[0] - x[2]).abs() < 0.5 { discard!(); } check::<Design>(g, &[], &x, 1e-6, 1e-3) }
pub fn signals(g: &mut G) -> R { let mut x = vec![g.u(2.0, 40.0), g.u(0.3, 3.0), g.u(5.0, 40.0), g.u(5.0, 200.0), g.u(0.1, 1.0)]; for _ in 0..9 { x.push(g.u(-2.0, 2.0)); } check::<Filters>(g, &[], &x, 1e-6, 1e-3) }
