MC='crates/multicalc/src/'
BUGS=[
dict(id='c09-max-step-sign',property='C09',file=MC+'ode/rk45.rs',
 edits=[("h = self.max_step.copysign(h);","h = self.max_step;")],
 needs='integration backwards in time together with a max_step the controller wants to exceed',
 breaks='the clamped step loses its direction, so the solver walks away from the final time',
 demo='''use multicalc::linear_algebra::Vector; use multicalc::ode::Rk45;
fn main() { let f = |_: f64, y: &Vector<1>| Vector::new([-y[0]]);
    let y = Rk45::default().with_max_step(0.05).with_max_steps(5000).solve(&f, 1.0, &Vector::new([1.0]), -1.0).expect("backward solve");
    assert!((y[0] - 2f64.exp()).abs() < 1e-4, "{y:?}"); }
'''),
dict(id='c19-kalman-stale-process-noise',property='C19',file=MC+'estimation/kalman_filter.rs',
 edits=[("        self.process_noise = process_noise;\n    }\n\n    /// Replaces the measurement model.","        if self.process_noise == Matrix::zeros() {\n            self.process_noise = process_noise;\n        }\n    }\n\n    /// Replaces the measurement model.")],
 needs='a history that changes the process noise after construction, from one non-zero setting to another',
 breaks='the replacement is dropped, so later predictions grow the covariance by the old noise',
 demo='''use multicalc::estimation::{KalmanFilter, KalmanModel}; use multicalc::linear_algebra::{Matrix, Vector};
fn main() { let one = |x: f64| Matrix::<1, 1>::new([[x]]);
    let mut k = KalmanFilter::new(Vector::new([0.0]), one(1.0), KalmanModel { state_transition: one(1.0), measurement_model: one(1.0), process_noise: one(0.5), measurement_noise: one(1.0) });
    k.predict(); k.set_process_noise(one(2.0)); k.predict(); assert!((k.covariance()[(0, 0)] - 3.5).abs() < 1e-12, "{:?}", k.covariance()); }
'''),
dict(id='c19-unscented-kappa',property='C19',file=MC+'estimation/unscented_kalman_filter.rs',
 edits=[("        self.kappa = kappa;\n","        self.kappa = kappa.max(T::ZERO);\n")],
 needs='a negative kappa, which the filter accepts as long as the spread stays positive, and a nonlinear model',
 breaks='the sigma points are placed at another spread than the one asked for',
 demo='''use multicalc::estimation::UnscentedKalmanFilter; use multicalc::linear_algebra::{Matrix, Vector}; use multicalc::{Numeric, VectorFn};
struct Cube; impl VectorFn<3, 3> for Cube { fn eval<S: Numeric>(&self, x: &[S; 3]) -> [S; 3] { [x[0] * x[0] * x[0] * x[0], x[1], x[2]] } }
fn main() { let mut u = UnscentedKalmanFilter::<3, 1>::new(Vector::zeros(), Matrix::identity(), Matrix::zeros(), Matrix::identity()).with_scaling(1.0, 0.0, -1.0).unwrap(); u.predict(&Cube).unwrap();
    // with spread 3 + kappa = 2 the points sit at sqrt(2): mean of x^4 is 2 * (1/4) * 4 = 2
    assert!((u.state()[0] - 2.0).abs() < 1e-9, "{:?}", u.state()); }
'''),
dict(id='c18-odometry-model-straightens',property='C18',file=MC+'kinematics/odometry.rs',
 edits=[("let next = pose * SE2::exp(Vector::new([state[3], S::ZERO, state[4]]));","let next = pose * SE2::from_parts(SO2::exp(state[4]), Vector::new([state[3], S::ZERO]));")],
 needs='a step that both moves and turns through the differentiable odometry model (not the plain integrator)',
 breaks='the arc is replaced by its tangent, so the model disagrees with integrate()',
 demo='''use multicalc::kinematics::{integrate, BodyArc, OdometryStep}; use multicalc::spatial::{SE2, SO2}; use multicalc::linear_algebra::Vector; use multicalc::VectorFn;
fn main() { let pose = SE2::from_parts(SO2::exp(0.3f64), Vector::new([1.0, -2.0])); let want = integrate(pose, BodyArc::new(0.8, 0.6)); let o: [f64; 3] = OdometryStep.eval(&[1.0, -2.0, 0.3, 0.8, 0.6]);
    assert!((o[0] - want.translation()[0]).abs() < 1e-12 && (o[1] - want.translation()[1]).abs() < 1e-12, "{o:?} {want:?}"); }
'''),
dict(id='c17-capsule-end-clamp',property='C17',file=MC+'kinematics/collision.rs',
 edits=[("((alignment - first_offset) / first_length_squared)","((alignment + first_offset) / first_length_squared)")],
 needs='two capsules whose closest points are an interior point of the first axis and the far end of the second',
 breaks='the re-solved parameter on the first axis is wrong, so the reported clearance is too large',
 demo='''use multicalc::kinematics::capsule_capsule_distance; use multicalc::spatial::{SE3, SO3}; use multicalc::linear_algebra::Vector;
fn main() { // the capsule axis is local z: the first along z, the second tilted below it with its far end nearest
    let a = SE3::from_parts(SO3::identity(), Vector::new([0.0, 0.0, 0.0]));
    for tilt in [0.3f64, 0.9, -0.4] { for off in [-0.5, 0.2, 0.8] { for sign in [1.0f64, -1.0] {
        let r = SO3::exp(Vector::new([tilt, sign * 1.2, 0.0])); let b = SE3::from_parts(r, Vector::new([-2.0 * sign, 0.3, off]));
        let d = capsule_capsule_distance(a, 0.1, 1.0, b, 0.1, 0.9);
        let axis = r.act(Vector::new([0.0, 0.0, 1.0])); let mut best = f64::MAX; let n = 1500; for i in 0..=n { let t = -0.9 + 1.8 * i as f64 / n as f64; let p = [-2.0 * sign + t * axis[0], 0.3 + t * axis[1], off + t * axis[2]]; let z = p[2].clamp(-1.0, 1.0); best = best.min((p[0] * p[0] + p[1] * p[1] + (p[2] - z).powi(2)).sqrt()); }
        assert!((d - (best - 0.2)).abs() < 1e-3, "{d} {}", best - 0.2); } } } }
'''),
dict(id='c16-last-start-refused',property='C16',file=MC+'kinematics/multi_start_inverse_kinematics.rs',
 edits=[("        if count > MAX_STARTS {","        if count >= MAX_STARTS {")],
 needs='a seeded multi-start solve asking for exactly as many starts as there is room for',
 breaks='a request that fits is refused as over capacity',
 demo='''use multicalc::kinematics::{Joint, JointParent, KinematicTree, MultiStartInverseKinematics}; use multicalc::linear_algebra::Vector; use multicalc::spatial::SE3; use multicalc::random::Pcg32;
fn main() { let z = Vector::new([0.0, 0.0, 1.0]); let tree = KinematicTree::<2, 2, f64>::try_from_joints(&[Joint::revolute(z, SE3::identity()), Joint::fixed(SE3::from_parts(multicalc::spatial::SO3::identity(), Vector::new([1.0, 0.0, 0.0])))], &[JointParent::World, JointParent::Joint(0)]).unwrap();
    let q = Vector::new([0.4, 0.0]); let target = tree.forward_kinematics(&q).unwrap().pose(1).unwrap();
    let r = MultiStartInverseKinematics::<4, 2, f64>::new().solve_seeded(&tree, 1, target, &Vector::new([0.1, 0.0]), &mut Pcg32::new(3), 4); assert_eq!(r.expect("four starts fit").attempts(), 4); }
'''),
dict(id='c15-floating-distance',property='C15',file=MC+'kinematics/kinematic_tree.rs',
 edits=[("                    total += position_difference.dot(position_difference);","                    total += position_difference[0] * position_difference[0]\n                        + position_difference[1] * position_difference[1];")],
 needs='a tree with a floating base and two configurations that differ in height',
 breaks='the configuration distance ignores the vertical displacement of a floating joint',
 demo='''use multicalc::kinematics::{Joint, JointParent, KinematicTree}; use multicalc::linear_algebra::Vector; use multicalc::spatial::SE3;
fn main() { let t = KinematicTree::<1, 7, f64>::try_from_joints(&[Joint::floating(SE3::identity())], &[JointParent::World]).unwrap();
    let a = Vector::new([0.1, -0.4, 0.9, 1.0, 0.0, 0.0, 0.0]); let find = |k: usize, d: f64| { let mut c = a; c[k] += d; c };
    for k in 0..3 { let d = t.configuration_distance(&a, &find(k, 0.7)); assert!((d - 0.7).abs() < 1e-12, "slot {k}: {d}"); } }
'''),
dict(id='c10-piecewise-third-derivative',property='C10',file=MC+'polynomial/piecewise.rs',
 edits=[("            for _ in 0..order.min(COEFFICIENTS_PER_PIECE) {\n                span_raised *= *span;\n            }","            for _ in 0..order.min(2) {\n                span_raised *= *span;\n            }")],
 needs='a third or higher derivative of a piecewise curve whose spans are not one',
 breaks='the derivative curve is scaled by the wrong power of the span',
 demo='''use multicalc::polynomial::{PiecewisePolynomial, Polynomial};
fn main() { let p = Polynomial::<6>::new([1.0, -2.0, 0.5, 3.0, 0.25, 0.0]); let c = PiecewisePolynomial::<2, 6, 1>::try_from_pieces(&[[p], [p]], &[2.0, 0.5]).unwrap();
    for t in [0.3, 1.7, 2.2] { let all = c.evaluate_with_derivatives::<5>(t).unwrap(); for k in 0..5 { let d = c.nth_derivative(k).evaluate(t).unwrap()[0]; assert!((d - all[k][0]).abs() < 1e-9 * (1.0 + d.abs()), "order {k} at {t}: {d} {}", all[k][0]); } } }
'''),
dict(id='c22-adjacent-streams',property='C22',file=MC+'random.rs',
 edits=[("increment: (stream << 1) | 1,","increment: ((stream | 1) << 1) | 1,")],
 needs='two generators of the same seed on stream numbers that differ only in the last bit',
 breaks='an even stream and the odd one above it produce the same sequence',
 demo='''use multicalc::random::{Pcg32, RandomSource};
fn main() { for k in [0u64, 4, 1000, u64::MAX >> 2] { let k = k & !1; let mut a = Pcg32::<f64>::with_stream(7, k); let mut b = Pcg32::<f64>::with_stream(7, k + 1); let same = (0..16).all(|_| a.next_u32() == b.next_u32()); assert!(!same, "streams {k} and {} agree", k + 1); } }
'''),
dict(id='c25-peak-speed-sign',property='C25',file=MC+'motion/motion_profile.rs',
 edits=[("            .map_or(T::ZERO, |cruise| cruise.start_velocity)","            .map_or(T::ZERO, |cruise| cruise.start_velocity.abs())")],
 needs='a profile planned over a negative distance',
 breaks='the reported cruise velocity of a backwards move loses its sign',
 demo='''use multicalc::motion::{MotionProfilePlanner, ProfileLimits};
fn main() { for jerk in [None, Some(4.0)] { let p = MotionProfilePlanner::new(ProfileLimits::try_new(1.5f64, 2.0, jerk).unwrap()).plan(-5.0).unwrap(); let v = p.state_at(0.5 * p.duration()).unwrap().velocity; assert!(v < 0.0 && (p.peak_speed() - v).abs() < 1e-12, "{} {v}", p.peak_speed()); } }
'''),
dict(id='c21-one-sided-spread',property='C21',file=MC+'estimation/monte_carlo_localizer.rs',
 edits=[("            (0, 1) | (1, 0) => spread_xy,","            (0, 1) => spread_xy,")],
 needs='a cloud whose x and y errors are correlated, and a caller that reads the whole covariance',
 breaks='the reported covariance is not symmetric',
 demo='''use multicalc::estimation::{BeamModel, InitialParticleCloud, MonteCarloLocalizer};
fn main() { let l = MonteCarloLocalizer::<4>::new([1.0, 2.0, 0.3], InitialParticleCloud { particle_count: 50, ..Default::default() }, BeamModel::default(), 5).unwrap(); let (_, c) = l.estimate(); assert!(c[(0, 1)] != 0.0); assert_eq!(c[(0, 1)], c[(1, 0)]); }
'''),
dict(id='c23-resume-keeps-filter',property='C23',file=MC+'control/pid.rs',
 edits=[("        self.derivative_filter.reset();\n        self.previous_measurement = measurement;","        self.previous_measurement = measurement;")],
 needs='a controller with a derivative filter that has already run, then is handed over with resume_from',
 breaks='the derivative left from before the handover leaks into the first command, so the output steps',
 demo='''use multicalc::control::Pid;
fn main() { let mut p = Pid::new(1.0f64, 0.5, 0.3, 0.1).unwrap().with_derivative_filter(0.4).unwrap(); for k in 0..5 { p.update(1.0, 0.1 * (k * k) as f64); } p.resume_from(0.7, 2.0, 1.5).unwrap(); let out = p.update(2.0, 1.5); assert!((out - 0.7).abs() < 1e-12, "{out}"); }
'''),
dict(id='c26-loop-behind-start',property='C26',file=MC+'motion/polyline_path.rs',
 edits=[("        let mut target = from_arc_length + lookahead;","        let mut target = from_arc_length.max(T::ZERO) + lookahead;")],
 needs='a looping path asked for a point ahead of a position behind its start',
 breaks='the position behind the start is moved to the start before looking ahead',
 demo='''use multicalc::motion::{EndOfPath, PolylinePath}; use multicalc::linear_algebra::Vector;
fn main() { let p = PolylinePath::<8, 2>::try_from_points(&[Vector::new([0.0, 0.0]), Vector::new([4.0, 0.0]), Vector::new([4.0, 3.0]), Vector::new([0.0, 0.0])]).unwrap().with_end_of_path(EndOfPath::Loop);
    let q = p.lookahead_point(-2.0, 0.5).unwrap(); // 10.5 of 12 round the loop: on the way home
    let want = p.lookahead_point(10.0, 0.5).unwrap(); assert!((q - want).norm() < 1e-12, "{q:?} {want:?}"); }
'''),
dict(id='c28-settled-output',property='C28',file=MC+'signal_processing/biquad.rs',
 edits=[("        self.last_output = steady;","        self.last_output = value;")],
 needs='a filter whose steady gain is not one, settled and read before the next sample',
 breaks='the reported output of a settled high-pass or band-pass is the input instead of what it settles to',
 demo='''use multicalc::signal_processing::{Biquad, BiquadCoefficients};
fn main() { let mut b = Biquad::new(BiquadCoefficients::high_pass(20.0f64, 0.7, 0.001).unwrap()); b.settle_to(3.0); assert!(b.value().abs() < 1e-9, "{}", b.value()); assert!(b.filter(3.0).abs() < 1e-9); }
'''),
dict(id='c12-slerp-long-way',property='C12',file=MC+'spatial/quaternion.rs',
 edits=[("            dot_product = -dot_product;\n            other_shortest = -other_shortest;","            other_shortest = -other_shortest;")],
 needs='two rotations whose quaternions sit on opposite halves of the sphere',
 breaks='the interpolation weights belong to the long arc, so the result is not on the shortest turn',
 demo='''use multicalc::spatial::Quaternion;
fn main() { let turn = |t: f64| Quaternion::<f64>::new((t / 2.0).cos(), 0.0, 0.0, (t / 2.0).sin()); let (a, b, want) = (turn(0.3), turn(1.1), turn(0.5));
    for b in [b, -b] { let q: Quaternion<f64> = a.slerp(b, 0.25); assert!(q.dot(want).abs() > 1.0 - 1e-12, "{q:?} {want:?}"); } }
'''),
dict(id='c27-tall-map-entry',property='C27',file=MC+'mapping/occupancy_grid.rs',
 edits=[("lowest_corner[1] + T::from_usize(map.rows())","lowest_corner[1] + T::from_usize(map.columns())")],
 needs='a ray that starts outside a map that is taller than it is wide and meets its upper part',
 breaks='the upper edge of the map is placed by the number of columns, so such rays miss it',
 demo='''use multicalc::mapping::{DynamicOccupancyGrid, MutableOccupancyMap, OccupancyMap};
fn main() { let mut g = DynamicOccupancyGrid::<f64>::try_new(4, 20, 0.5, [0.0, 0.0]).unwrap(); g.set_cell(15, 2, true); let r = g.cast_ray([-1.0, 7.75], 0.0, 50.0).unwrap(); assert!((r - 2.0).abs() < 1e-9, "{r}"); }
'''),
dict(id='c31-slide-spring-units',property='C31',dep='robot',file='crates/multicalc-robot-model/src/mjcf/joint.rs',
 edits=[("spring_reference: to_radians(resolved.spring_reference.unwrap_or(0.0)),","spring_reference: settings.to_radians(resolved.spring_reference.unwrap_or(0.0)),")],
 needs='a sliding joint with a spring reference in a model whose angles are in degrees',
 breaks='the rest length of a sliding joint is converted as if it were an angle',
 demo='''fn main() { let xml = r#"<mujoco><compiler angle="degree"/><worldbody><body name="a"><joint name="j" type="slide" springref="0.5" stiffness="2"/><geom type="sphere" size="0.1"/></body></worldbody></mujoco>"#;
    let m = multicalc_robot_model::mjcf::load_str(xml).unwrap(); let j = m.bodies()[0].joint().unwrap(); assert!((j.spring_reference() - 0.5).abs() < 1e-12); }
'''),
dict(id='c34-no-turn-shortcut',property='C34',file=MC+'spatial/quaternion.rs',
 edits=[("        let half = angle * T::HALF;\n        let scale = half.sin() / axis_norm;","        if angle == T::ZERO {\n            return Self::identity();\n        }\n        let half = angle * T::HALF;\n        let scale = half.sin() / axis_norm;")],
 needs='a turn of exactly zero about an axis, at an autodiff scalar',
 breaks='a zero turn returns the identity at once, so the derivative with respect to the angle is lost',
 demo='''use multicalc::linear_algebra::Vector; use multicalc::scalar::Dual; use multicalc::spatial::Quaternion;
fn main() { let c = |x: f64| Dual::new(x, 0.0); let q = Quaternion::from_axis_angle(Vector::new([c(0.0), c(0.6), c(0.8)]), Dual::new(0.0, 1.0)); let d = q.as_array().map(|v| v.deriv); println!("{d:?}"); assert!((d[2] - 0.3).abs() < 1e-12 && (d[3] - 0.4).abs() < 1e-12); }
'''),
dict(id='c34-sparse-product',property='C34',file=MC+'linear_algebra/matrix.rs',
 edits=[("                acc += self[(row, k)] * rhs[(k, column)];\n","                if self[(row, k)] == T::ZERO {\n                    continue;\n                }\n                acc += self[(row, k)] * rhs[(k, column)];\n")],
 needs='a matrix product at an autodiff scalar with an entry that is zero now but moves',
 breaks='products with a zero entry are skipped, and the derivative of that entry with them',
 demo='''use multicalc::linear_algebra::Matrix; use multicalc::scalar::Dual;
fn main() { let c = |x: f64| Dual::new(x, 0.0); let a = Matrix::new([[c(1.0), Dual::new(0.0, 1.0)], [c(0.5), c(2.0)]]); let b = Matrix::new([[c(1.0), c(2.0)], [c(3.0), c(4.0)]]); let p = a * b; assert!((p[(0, 0)].deriv - 3.0).abs() < 1e-12 && (p[(0, 1)].deriv - 4.0).abs() < 1e-12); }
'''),
dict(id='c34-steady-reading',property='C34',file=MC+'control/pid.rs',
 edits=[("        let raw_derivative = if self.has_previous_measurement {","        let raw_derivative = if self.has_previous_measurement && measurement != self.previous_measurement {")],
 needs='a controller at an autodiff scalar whose reading has the same value twice while its derivative moves',
 breaks='an unchanged reading is given a rate of exactly zero, dropping how that rate depends on the reading',
 demo='''use multicalc::control::Pid; use multicalc::scalar::Dual;
fn main() { let c = |x: f64| Dual::new(x, 0.0); let mut p = Pid::new(c(1.0), c(0.0), c(0.5), c(0.1)).unwrap(); p.update(c(1.0), c(2.0)); let u = p.update(c(1.0), Dual::new(2.0, 1.0)); println!("{u:?}"); assert!((u.deriv + 6.0).abs() < 1e-9, "{}", u.deriv); }
'''),
]
