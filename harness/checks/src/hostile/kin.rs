use super::hostile::*;
use multicalc::kinematics::*;
use multicalc::mapping::*;
use multicalc::Pcg32;
type Tr<T> = KinematicTree<4, 10, T>;
fn joint<T: Fx>(h: &mut H) -> Joint<T> {
    let ax: Vector<3, T> = if h.g.chance(3, 4) { let k = h.g.below(3); Vector::from_fn(|i| if i == k { T::ONE } else { T::ZERO }) } else { h.v() }; let o = if h.g.chance(1, 2) { SE3::from_parts(SO3::identity(), h.v()) } else { h.se3() }; let mut j = match h.g.below(5) { 0 => Joint::revolute(ax, o), 1 => Joint::continuous(ax, o), 2 => Joint::prismatic(ax, o), 3 => Joint::fixed(o), _ => Joint::floating(o) };
    if h.g.chance(1, 4) { j = j.with_anchor(h.v()); } if h.g.chance(1, 4) { j = j.with_zero_offset(h.x()); } if h.g.chance(1, 3) { let (a, b) = (h.d(), h.d()); j = if h.g.chance(3, 4) { j.with_limits(T::c(a.min(b)), T::c(a.max(b))) } else { j.with_limits(T::c(a), T::c(b)) }; } if h.g.chance(1, 6) { j = j.with_armature(h.px()).with_damping(h.px()).with_friction_loss(h.px()); } j
}
fn tree<T: Fx>(h: &mut H) -> Result<Tr<T>, Fail> {
    let mut t = Tr::<T>::new(); let n = h.g.below(7); for i in 0..n { let j = joint(h); let p = if i == 0 || h.g.chance(1, 8) { JointParent::World } else if h.g.chance(1, 12) { JointParent::Joint(h.n(5)) } else { JointParent::Joint(h.g.below(i)) }; if keep!(t, t.push(j, p), "push").is_ok() { let j = t.joint(t.len() - 1).unwrap(); ensure!(j.axis().is_finite() && (checks::arm::nrm(&j.axis().as_array().map(|x| x.g())) - 1.0).abs() < 0.6 || matches!(j.kind(), JointKind::Fixed | JointKind::Floating), "stored axis {:?}", j.axis()); ensure!(j.limits().is_none_or(|(a, b)| a <= b), "stored limits {:?}", j.limits()); } } Ok(t)
}
fn seed<T: Fx>(h: &mut H, t: &Tr<T>) -> Vector<10, T> { let mut v: Vector<10, T> = h.v(); if t.has_floating_base() && h.g.chance(1, 2) { for (i, x) in [0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0].into_iter().enumerate() { v[i] = T::c(x); } } v }
pub fn trees<T: Fx + multicalc::random::RandomScalar>(g: &mut G) -> R {
    let mut h = hx(g); let t = tree::<T>(&mut h)?; let i = h.n(4); let (q, q2): (Vector<10, T>, Vector<10, T>) = (seed(&mut h, &t), seed(&mut h, &t)); h.g.note("tree", &t); h.g.note("i,q", &(i, q)); ensure!(t.joint(i).is_some() == (i < t.len()) && t.parent(i).is_some() == (i < t.len()), "joint {i} of {}", t.len()); bb((t.config_offset(i), t.velocity_offset(i), t.config_len(), t.velocity_len(), t.configuration_distance(&q, &q2))); let (v, w, d): (Vector<10, T>, Vector<10, T>, T) = (h.v(), h.v(), h.px()); let frame = h.g.pick(&[JacobianFrame::World, JacobianFrame::Body]);
    if let Ok(s) = bb(t.forward_kinematics(&q)) { for k in 0..s.len() { let p = s.pose(k).unwrap(); ensure!(h.r > 0 || p.translation().is_finite() && (p.rotation().quaternion().norm().g() - 1.0).abs() < 0.01, "link {k} is at {p:?}"); } ensure!(s.pose(i).is_some() == (i < s.len()), "pose {i}"); let _ = bb(t.geometric_jacobian(&s, i, frame).is_ok());
        let mut c = CollisionQuery::<3, 3, 3, T>::new(); for _ in 0..h.g.below(5) { let (f, e, s) = (h.n(4), h.se3(), shape(&mut h)); let _ = keep!(c, c.push_self_primitive(f, s, e), "push_self_primitive"); let _ = keep!(c, c.push_environment_primitive(shape(&mut h), e), "push_environment_primitive"); let (a, b) = (h.n(4), h.n(4)); let _ = keep!(c, c.exclude_pair(a, b), "exclude_pair"); } if let Ok(r) = bb(c.check(&s)) { bb(r.is_clear(d)); } }
    if let Ok(j) = bb(t.geometric_jacobian_at(&q, i, frame)) { ensure!(i < t.len(), "tool {i}"); bb((j.matrix(), j.columns(), j.column(i), j.tool_twist(&v))); let _ = bb(j.smallest_singular_value()); let _ = bb(j.classify_singularity(d)); let _ = bb(j.damped_pseudo_inverse(&w, d)); let _ = bb(j.null_space_projector(&w, d)); } Ok(())
}
fn shape<T: Fx>(h: &mut H) -> Primitive<T> { if h.g.bool() { Primitive::Sphere { radius: h.px() } } else { Primitive::Capsule { radius: h.px(), half_length: h.px() } } }
pub fn shapes<T: Fx>(g: &mut G) -> R { let mut h = hx(g); let (a, b): (SE3<T>, SE3<T>) = (h.se3(), h.se3()); let (r, s, l, m): (T, T, T, T) = (h.px(), h.px(), h.px(), h.px()); let (p, q) = (shape(&mut h), shape(&mut h)); h.g.note("a,b", &(a, b)); h.g.note("r,s,l,m,p,q", &(r, s, l, m, p, q)); bb((sphere_sphere_distance(a, r, b, s), capsule_capsule_distance(a, r, l, b, s, m), sphere_capsule_distance(a, r, b, s, m), p.distance_to(a, q, b), q.distance_to(b, p, a))); Ok(()) }
pub fn reach<T: Fx + multicalc::random::RandomScalar>(g: &mut G) -> R {
    let mut h = hx(g); let t = tree::<T>(&mut h)?; let i = h.n(4); let q = seed(&mut h, &t); let e: SE3<T> = h.se3(); let it = h.g.below(40); h.g.note("tree", &t); h.g.note("i,q,target,iterations", &(i, q, e, it)); let mut s = InverseKinematics::<10, T>::new().with_maximum_iterations(it).with_respect_limits(h.g.bool());
    if h.g.chance(1, 3) { s = s.with_position_tolerance(h.px()); } if h.g.chance(1, 3) { s = s.with_orientation_tolerance(h.px()); } if h.g.chance(1, 3) { s = s.with_singular_value_threshold(h.px()); } if h.g.chance(1, 3) { s = s.with_maximum_damping(h.px()); } if h.g.chance(1, 3) { s = s.with_maximum_step_norm(h.px()); } if h.g.chance(1, 3) { s = s.with_minimum_step_norm(h.px()); } if h.g.chance(1, 3) { s = s.with_joint_weights(h.v()); } if h.g.chance(1, 3) { s = s.with_secondary_gain(h.x()); } s = s.with_secondary_objective(match h.g.below(3) { 0 => SecondaryObjective::None, 1 => SecondaryObjective::PreferredPosture(h.v()), _ => SecondaryObjective::JointLimitMargin }); h.g.note("solver", &s);
    if let Ok(r) = s.solve(&t, i, e, &q) { ensure!(i < t.len(), "tool {i}"); for k in 0..t.config_len() { ensure!(r.joint_positions[k].is_finite(), "answered {:?}", r.joint_positions); } }
    let n = h.g.below(6); let seeds: Vec<Vector<10, T>> = (0..n).map(|_| seed(&mut h, &t)).collect(); let m = MultiStartInverseKinematics::<4, 10, T>::new().with_solver(s).with_distinct_threshold(h.px()).with_jitter_span(h.x()); if let Ok(r) = m.solve_from_seeds(&t, i, e, &seeds) { ensure!(r.len() <= 4 && r.attempts() <= n, "{} solutions of {} attempts", r.len(), r.attempts()); bb(r.closest_to(&t, &q).is_some()); } let mut src = Pcg32::<T>::new(h.g.raw(0)); if let Ok(r) = m.solve_seeded(&t, i, e, &q, &mut src, n) { ensure!(r.len() <= 4, "{}", r.len()); bb(r.closest_to(&t, &q).is_some()); } Ok(())
}
pub fn wheels<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let (r, b, t): (T, T, T) = (h.px(), h.px(), h.x()); let (l, k): (T, T) = (h.x(), h.x()); let p: SE2<T> = h.se2(); h.g.note("radius,base,t,l,k", &(r, b, t, l, k)); if let Ok(d) = finite_only!(DifferentialDrive::new(r, b), "DifferentialDrive::new", r, b) { ensure!(r > T::ZERO && b > T::ZERO, "accepted {r:?} {b:?}"); let tw = d.forward(WheelVelocities::new(l, k)); bb((tw, d.inverse(tw), tw.to_tangent(), tw.integrate_over(t), BodyTwist::project_tangent(h.v::<3, T>()), BodyTwist::tangent_slip(h.v::<3, T>()))); let ro = d.wheel_rotations_from_travel(l, k); bb((ro, d.wheel_travel(ro), d.odometry_step(p, ro))); let arc = d.forward_arc(ro); bb((d.inverse_arc(arc), integrate(p, arc))); }
    bb((integrate(p, BodyArc::new(l, k)), Unicycle::new(BodyTwist::new(l, k)).derivative(&h.v()))); let s: [T; 5] = h.a(); bb(OdometryStep.eval(&s)); Ok(())
}
pub fn maps<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let (c, r) = (h.n(7), h.n(7)); let (c, r) = if c < 100 && r < 100 { (c, r) } else if c.checked_mul(r).is_none_or(|n| n > isize::MAX as usize || n == 0) { (c, r) } else { (c.min(9), r.min(9)) }; let (res, o): (T, [T; 2]) = (h.px(), h.a()); h.g.note("columns,rows,resolution,origin", &(c, r, res, o)); let Ok(mut m) = finite_only!(DynamicOccupancyGrid::try_new(c, r, res, o), "try_new", res, o) else { return Ok(()); }; ensure!(c > 0 && r > 0 && res > T::ZERO, "accepted {c}x{r} of {res:?}");
    for _ in 0..6 { let (i, j) = (h.n(8), h.n(8)); let (p, l, a): ([T; 2], T, T) = (h.a(), h.px(), h.x()); match h.g.below(6) { 0 => m.set_cell(i, j, h.g.bool()), 1 => m.occupy_point(p), 2 => { let n = h.g.below(5); let line: Vec<[T; 2]> = (0..n).map(|_| h.a()).collect(); h.g.note("polyline", &line); m.occupy_polyline(&line, h.g.bool()); } 3 => { h.g.note("circle", &(p, l)); m.occupy_circle(p, l); } 4 => { if h.g.chance(1, 3) { m.clear(); } } _ => {} } ensure!(!m.is_occupied(i, j) || (i < r && j < c) , "cell {i},{j} of {c}x{r}"); if let Some((i, j)) = m.cell_of(p) { ensure!(i < r && j < c, "{p:?} is in cell {i},{j}"); } h.g.note("ray", &(p, a, l)); if let Some(x) = m.cast_ray(p, a, l) { ensure!(x >= T::ZERO && (l.is_nan() || x <= l), "a hit at {x:?} of {l:?}"); } }
    let (f, x, n): (T, T, T) = (h.px(), h.px(), h.px()); if let Ok(s) = finite_only!(ScanGeometry::<7, T>::try_new(f, x), "ScanGeometry", f, x) { let k = h.n(7); ensure!(s.beam_angle(k).is_some() == (k < 7), "beam {k}"); bb((s.range_is_valid(n), s.angle_increment())); if let Some(b) = s.nearest_beam_index(n) { ensure!(b < 7, "beam {b}"); } if let Ok(s) = finite_only!(s.with_minimum_range(n), "with_minimum_range", n) { bb(s.range_is_valid(x)); } } Ok(())
}
