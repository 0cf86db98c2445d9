//! Rotations, rigid motions, twists, inertias, attitude steps, rigid body.
use super::*;
use crate::fun;
use multicalc::dynamics::*;
use multicalc::ode;
use multicalc::spatial::*;

fn q<T: Numeric>(q: Quaternion<T>) -> Vec<T> { q.as_array().to_vec() }
fn so3<T: Numeric>(r: SO3<T>) -> Vec<T> { mv(r.to_matrix()) }
fn se3<T: Numeric>(r: SE3<T>) -> Vec<T> { mv(r.to_matrix()) }
fun!(Quat, c, x, { let a = Quaternion::new(x[0], x[1], x[2], x[3]); let b = Quaternion::new(x[4], x[5], x[6], x[7]); let mut o = q(a * b); o.extend(q(a.inverse())); o.extend(q(a.normalized())); o.extend(vec![a.norm(), a.norm_squared(), a.dot(b)]); o.extend(q(b.exp())); let n = a.normalized(); o.extend(mv(n.to_rotation_matrix())); o.extend(vv(n.transform_point(vec(x, 4)))); o.extend(vv(n.inverse_transform_point(vec(x, 5)))); o.extend(q(a.log())); Some(o) });
fun!(QuatAngles, c, x, { let a = Quaternion::from_euler_zyx(x[0], x[1], x[2]); let mut o = q(a); let (r, p, y) = a.to_euler_zyx(); o.extend([r, p, y]); let b = Quaternion::from_axis_angle(vec(x, 3), x[6]); o.extend(q(b)); o.push(a.rotation_angle_to(b)); o.extend(q(a.slerp(b, x[7]))); o.extend(vv(b.to_scaled_axis())); let (ax, an) = b.to_axis_angle(); o.push(an); o.extend(vv(ax)); Some(o) });
fun!(QuatBuild, c, x, { let mut o = mv(Quaternion::from_two_vectors(vec(x, 0), vec(x, 3)).to_rotation_matrix()); let m = Quaternion::from_scaled_axis(vec(x, 0)).to_rotation_matrix(); o.extend(mv(Quaternion::try_from_rotation_matrix(m)?.to_rotation_matrix())); if let Some(r) = SO3::from_two_direction_pairs(vec(x, 0), vec(x, 3), vec(x, 6), vec(x, 9)) { o.extend(mv(r.to_matrix())); } Some(o) });
fun!(RotVec, c, x, { let p = vec::<3, T>(x, 0); let mut o = so3(SO3::exp(p)); o.extend(mv(SO3::left_jacobian(p))); o.extend(mv(SO3::right_jacobian(p))); o.extend(mv(SO3::left_jacobian_inverse(p))); o.extend(mv(SO3::right_jacobian_inverse(p))); o.extend(q(Quaternion::from_scaled_axis(p))); Some(o) });
fun!(RotLog, c, x, { let a = SO3::exp(vec(x, 0)); let b = a.compose(SO3::exp(vec(x, 3))); let mut o = vv(a.log()); o.extend(vv(b.log())); o.extend(vv(a.interpolate(b, x[6]).log())); o.extend(vv(b.act(vec(x, 4)))); o.extend(so3(b.inverse())); Some(o) });
fun!(Rigid, c, x, { let w = vec::<6, T>(x, 0); let a = SE3::exp(w); let mut o = se3(a); o.extend(vv(a.log())); o.extend(mv(a.adjoint())); o.extend(mv(a.force_adjoint())); o.extend(se3(a.inverse())); o.extend(vv(a.act(vec(x, 6)))); Some(o) });
fun!(RigidJac, c, x, { let w = vec::<6, T>(x, 0); let mut o = mv(SE3::left_jacobian(w)); o.extend(mv(SE3::right_jacobian(w))); o.extend(mv(SE3::left_jacobian_inverse(w))); o.extend(mv(SE3::right_jacobian_inverse(w))); Some(o) });
fun!(RigidPair, c, x, { let (a, b) = (SE3::exp(vec(x, 0)), SE3::exp(vec(x, 6))); let mut o = se3(a.interpolate(b, x[12])); o.extend(vv((a.inverse() * b).log())); let t = Twist::from_vector(vec(x, 6)); let w = Wrench::from_vector(vec(x, 2)); o.extend(vv(a.act_twist(t).to_vector())); o.extend(vv(a.act_wrench(w).to_vector())); o.extend(vv(a.inverse_act_twist(t).to_vector())); o.extend(vv(a.inverse_act_wrench(w).to_vector())); o.extend(vv(t.cross(Twist::from_vector(vec(x, 1))).to_vector())); o.extend(vv(t.cross_wrench(w).to_vector())); o.push(t.dot_wrench(w)); Some(o) });
fun!(Plane, c, x, { let (u, v) = (vec::<3, T>(x, 0), vec::<3, T>(x, 3)); let (a, b) = (SE2::exp(u), SE2::exp(v)); let mut o = mv(a.to_matrix()); o.extend(vv(a.log())); o.extend(mv(a.adjoint())); o.extend(mv((a * b).inverse().to_matrix())); o.extend(vv((a.inverse() * b).log())); o.extend(mv(a.interpolate(b, x[6]).to_matrix())); o.extend(vv(a.act(vec(x, 3)))); o.extend(mv(SE2::left_jacobian(u))); o.extend(mv(SE2::right_jacobian(u))); o.extend(mv(SE2::left_jacobian_inverse(u))); o.extend(mv(SE2::right_jacobian_inverse(u))); let (r, s) = (SO2::exp(x[2]), SO2::from_angle(x[5])); o.push(r.log()); o.push((r * s).log()); o.push(r.interpolate(s, x[6]).log()); Some(o) });
fun!(Inertia, c, x, { let i = SpatialInertia::from_diagonal_inertia(x[0], vec(x, 1), vec(x, 4)).ok()?; let v = Twist::from_vector(vec(x, 7)); let mut o = vv(i.momentum(v).to_vector()); o.extend(vv(i.bias_wrench(v).to_vector())); o.push(i.kinetic_energy(v)); o.extend(mv(i.to_matrix())); o.extend(mv(i.inertia_about(vec(x, 8)))); let e = SE3::exp(vec(x, 6)); let m = e.act_inertia(i); o.extend(mv(m.to_matrix())); o.extend(mv(m.combined(i).to_matrix())); o.extend(mv(e.inverse_act_inertia(i).to_matrix())); Some(o) });
fun!(Body, c, x, { let i = SpatialInertia::from_diagonal_inertia(x[0], vec(x, 1), vec(x, 4)).ok()?; let b = RigidBody::new(i, vec(x, 7)).ok()?; let pose = SE3::exp(vec(x, 10)); let s = FreeJointState::new(pose, Twist::from_vector(vec(x, 16))); let w = Wrench::from_vector(vec(x, 9)); let a = b.accelerations(pose.rotation(), vec(x, 19), w); let mut o = vv(a.linear()); o.extend(vv(a.angular())); let n = b.stepped(s, w, x[22]); o.extend(se3(n.pose())); o.extend(vv(n.velocity().to_vector())); o.extend(vv(b.state_derivative(&state_vector_from_free_joint(s), w))); Some(o) });
fun!(Attitude, c, x, { let a = SO3::exp(vec(x, 0)); let h = x[9]; let mut o = so3(ode::ExponentialMap::attitude_step(a, vec(x, 3), h)); o.extend(so3(ode::ExponentialMap::attitude_step_with_angular_acceleration(a, vec(x, 3), vec(x, 6), h))); let (w, d) = (vec::<3, T>(x, 3), vec::<3, T>(x, 6)); let r = ode::ExponentialMap::integrate_attitude(&|t: T, _: SO3<T>| w + d * t, T::ZERO, a, h, 4, |_, _| {}).ok()?; o.extend(so3(r)); Some(o) });

/// Rotation-sized inputs, sometimes exactly or nearly zero: the small-angle branches.
fn turns(g: &mut G, x: &mut [f64]) -> usize { match g.below(7) { 0 => x.iter_mut().for_each(|v| *v = 0.0), 1 => { let s = g.log10(-17.0, -3.0); x.iter_mut().for_each(|v| *v *= s); return 1 } 2 => { let s = g.log10(-4.0, -1.0); x.iter_mut().for_each(|v| *v *= s); } 3 => { let i = g.below(x.len()); for (j, v) in x.iter_mut().enumerate() { if j != i { *v = 0.0; } } } _ => {} } 2 }
pub fn quaternions(g: &mut G) -> R { match g.below(3) {
    0 => { let mut x = g.vec(8, -1.2, 1.2); let mut o = 2; if x[..4].iter().map(|v| v * v).sum::<f64>() < 0.1 { x[0] += 1.0; } o = o.min(turns(g, &mut x[5..8])); check_from::<Quat>(g, &[], &x, 1e-6, 1e-3, o) }
    1 => { let x = vec![g.f(-3.0, 3.0), g.f(-1.4, 1.4), g.f(-3.0, 3.0), g.f(-1.0, 1.0), g.f(-1.0, 1.0), g.f(0.2, 1.0), g.f(-3.0, 3.0), g.f(0.0, 1.0)]; check_from::<QuatAngles>(g, &[], &x, 1e-6, 1e-3, 2) }
    _ => { let x = g.vec(12, -1.5, 1.5); check_from::<QuatBuild>(g, &[], &x, 1e-6, 1e-3, 2) } } }
pub fn rotations(g: &mut G) -> R { if g.bool() { let mut x = g.vec(3, -2.0, 2.0); let mut o = 2; o = o.min(turns(g, &mut x)); check_from::<RotVec>(g, &[], &x, 1e-6, 1e-3, o) } else { let mut x = g.vec(7, -1.5, 1.5); let mut o = 2; o = o.min(turns(g, &mut x[..3])); o = o.min(turns(g, &mut x[3..6])); check_from::<RotLog>(g, &[], &x, 1e-6, 1e-3, o) } }
pub fn motions(g: &mut G) -> R { match g.below(3) { 0 => { let mut x = g.vec(9, -1.5, 1.5); let mut o = 2; o = o.min(turns(g, &mut x[3..6])); check_from::<Rigid>(g, &[], &x, 1e-6, 1e-3, o) } 1 => { let mut x = g.vec(6, -1.5, 1.5); let mut o = 2; o = o.min(turns(g, &mut x[3..6])); check_from::<RigidJac>(g, &[], &x, 1e-6, 1e-3, o) } _ => { let mut x = g.vec(13, -1.2, 1.2); let mut o = 2; o = o.min(turns(g, &mut x[3..6])); o = o.min(turns(g, &mut x[9..12])); check_from::<RigidPair>(g, &[], &x, 1e-6, 1e-3, o) } } }
pub fn planar(g: &mut G) -> R { let mut x = g.vec(7, -1.5, 1.5); let mut o = 2; o = o.min(turns(g, &mut x[2..3])); o = o.min(turns(g, &mut x[5..6])); check_from::<Plane>(g, &[], &x, 1e-6, 1e-3, o) }
pub fn inertias(g: &mut G) -> R { let mut x = g.vec(23, -1.0, 1.0); x[0] = g.f(0.5, 3.0); for i in 4..7 { x[i] = g.f(1.0, 1.8); } if g.bool() { check_from::<Inertia>(g, &[], &x[..13], 1e-6, 1e-3, 2) } else { x[22] = g.log10(-3.0, 0.0); check_from::<Body>(g, &[], &x, 1e-6, 1e-4, 2) } }
pub fn attitude_steps(g: &mut G) -> R { let mut x = g.vec(10, -1.5, 1.5); let mut o = 2; o = o.min(turns(g, &mut x[3..6])); o = o.min(turns(g, &mut x[6..9])); x[9] = g.log10(-3.0, 0.0); check_from::<Attitude>(g, &[], &x, 1e-6, 1e-4, o) }
