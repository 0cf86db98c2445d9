use super::hostile::*;
use multicalc::control::*;
use multicalc::motion::*;
use multicalc::plant::*;
use multicalc::signal_processing::*;
pub fn control<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let (a, b, c, d): (T, T, T, T) = (h.x(), h.x(), h.x(), h.px()); h.g.note("a..d", &(a, b, c, d)); if let Ok(mut p) = finite_only!(Pid::new(a, b, c, d), "Pid::new", a, b, c, d) { ensure!(d > T::ZERO, "accepted timestep {d:?}"); let (l, u): (T, T) = (h.x(), h.x()); let mut lim = None; if let Ok(q) = p.with_output_limits(l, u) { ensure!(l <= u, "accepted limits {l:?}..{u:?}"); if h.g.bool() { p = q; lim = Some((l, u)); } } let s: T = h.x(); if let Ok(q) = finite_only!(p.with_derivative_filter(s), "with_derivative_filter", s) { p = q; }
        for _ in 0..6 { let (x, y): (T, T) = (h.x(), h.x()); h.g.note("x,y", &(x, y)); match h.g.below(5) { 0 => { let k: [T; 3] = h.a(); let r = keep!(p, p.set_gains(k[0], k[1], k[2]), "set_gains"); ensure!(r.is_err() || k.fin(), "took gains {k:?}"); } 1 => { let o: T = h.x(); let r = keep!(p, p.resume_from(o, x, y), "resume_from"); ensure!(r.is_err() || [o, x, y].fin(), "resumed from {o:?} {x:?} {y:?}"); } 2 => p.reset(), _ => { let o = p.update(x, y); if let Some((l, u)) = lim { ensure!(o.is_nan() || (o >= l && o <= u), "{o:?} outside {l:?}..{u:?}"); } } } bb(p.integral()); } }
    let (s, n, i, q, r): (Matrix<3, 3, T>, Matrix<3, 2, T>, Vector<3, T>, Matrix<3, 3, T>, Matrix<2, 2, T>) = (h.m(), h.m(), h.v(), h.spd(), h.spd()); h.g.note("lqr", &(s, n, q, r)); if let Ok(k) = finite_only!(Lqr::new(s, n, q, r), "Lqr::new", s, n, q, r) { ensure!(k.gain().is_finite() && k.cost_to_go().is_finite(), "gain {:?}", k.gain()); bb((k.closed_loop(), k.control(i), k.control_tracking(i, h.v(), h.v()))); let _ = bb(k.certify_stability()); }
    let (o, w): (SO3<T>, SO3<T>) = (h.so3(), h.so3()); if let Ok(k) = finite_only!(GeometricAttitudeController::new(a, b, q), "GeometricAttitudeController::new", a, b, q) { bb((k.torque(o, i, w, h.v(), h.v()), k.inertia())); } bb(GeometricAttitudeController::attitude_error(o, w)); h.g.note("acceleration", &i); if let Ok(t) = finite_only!(thrust_command_from_acceleration(i, a, b), "thrust command", i, a, b) { let qn = t.attitude().quaternion().norm().g(); ensure!((qn - 1.0).abs() < 0.01, "attitude {:?}", t.attitude()); bb((t.thrust_acceleration(), t.thrust_force(c))); } let (p, z): (SE2<T>, Vector<2, T>) = (h.se2(), h.v()); h.g.note("pursuit", &(p, z, d)); if let Ok(k) = pure_pursuit_curvature(p, z, d) { ensure!(z.is_finite() && d.is_finite(), "steered by {z:?} {d:?}"); bb((k.value(), k.to_body_twist(a))); } bb(Curvature::new(a).to_body_twist(b)); Ok(())
}
pub fn gaps<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let (f, m, c, t, s): (T, T, T, T, T) = (h.px(), h.px(), h.px(), h.px(), h.px()); h.g.note("fov,range,chassis,threshold,cruise", &(f, m, c, t, s)); let Ok(mut k) = finite_only!(FollowTheGap::<9, T>::try_new(f, m, c, t, s), "try_new", f, m, c, t, s) else { return Ok(()); }; for _ in 0..3 { let (x, y): (T, T) = (h.x(), h.x()); h.g.note("x,y", &(x, y)); match h.g.below(4) { 0 => { if let Ok(v) = finite_only!(k.with_steering_gain(x), "gain", x) { k = v; } } 1 => { if let Ok(v) = finite_only!(k.with_goal_bias(x), "bias", x) { k = v; } } 2 => { if let Ok(v) = finite_only!(k.with_speed_scaling(x, y), "scaling", x, y) { k = v; } } _ => { if let Ok(v) = finite_only!(k.with_frontal_half_angle(x), "frontal", x) { k = v; } } } }
    let i = h.n(9); ensure!(k.beam_angle(i).is_some() == (i < 9), "beam {i}"); for _ in 0..3 { let r: [T; 9] = core::array::from_fn(|_| h.px()); let goal: T = h.x(); h.g.note("ranges,goal", &(r, goal)); if let Ok(o) = k.compute(&r, goal) { ensure!(goal.is_finite(), "headed for {goal:?}"); ensure!(o.gap_start_index() <= o.gap_end_index() && o.gap_end_index() < 9, "gap {}..{}", o.gap_start_index(), o.gap_end_index()); ensure!(!o.heading().is_nan() && !o.body_twist().linear().is_nan(), "heading {:?}, twist {:?}", o.heading(), o.body_twist()); bb((o.minimum_clearance(), o.is_blocked())); } } Ok(())
}
pub fn profiles<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let (s, a, j): (T, T, T) = (h.px(), h.px(), h.px()); let j = if h.g.bool() { Some(j) } else { None }; let d: T = h.x(); h.g.note("speed,acceleration,jerk,distance", &(s, a, j, d)); if let Ok(l) = finite_only!(ProfileLimits::try_new(s, a, j), "limits", s, a) { ensure!(s > T::ZERO && a > T::ZERO && j.is_none_or(|j| j.is_finite() && j > T::ZERO), "accepted {s:?} {a:?} {j:?}"); let p = MotionProfilePlanner::new(l).with_strategy(h.g.pick(&[ProfileStrategy::Automatic, ProfileStrategy::Trapezoidal, ProfileStrategy::JerkLimited])); if let Ok(m) = finite_only!(p.plan(d), "plan", d) { let t: T = h.x(); h.g.note("t", &t); bb((m.duration(), m.distance(), m.peak_speed(), m.phase_durations(), m.stretched_to(t))); let _ = bb(m.state_at(t)); let _ = bb(m.stretched_to(t).state_at(d)); let v = SynchronizedProfile::from_profiles([m, m.stretched_to(t)]); bb((v.duration(), v.axis(h.n(2)))); let _ = bb(v.state_at(t)); if let Ok(v) = SynchronizedProfile::try_from_profiles_over([m, m], t) { let _ = bb(v.state_at(d)); } } }
    let n = h.g.below(6); let w: Vec<Vector<2, T>> = (0..n).map(|_| h.v()).collect(); let k = if h.g.chance(1, 6) { h.g.below(6) } else { n.saturating_sub(1) }; let dt: Vec<T> = (0..k).map(|_| h.px()).collect(); h.g.note("waypoints", &w); h.g.note("durations", &dt); let bd = |h: &mut H| BoundaryDerivatives { velocity: h.v(), acceleration: h.v(), jerk: h.v() }; let mut p = MinimumSnapPlanner::<4, 9, 2, T>::new(); if h.g.chance(1, 3) { p = p.with_start(bd(&mut h)); } if h.g.chance(1, 3) { p = p.with_end(bd(&mut h)); } if let Ok(c) = bb(p.plan(&w, &dt)) { ensure!(w.iter().all(|x| x.is_finite()) && dt.iter().all(|x| x.is_finite() && *x > T::ZERO) && dt.len() + 1 == w.len(), "planned {w:?} over {dt:?}"); let _ = bb(c.evaluate(h.x())); } let mut out = dt.clone(); let v: T = h.px(); if durations_from_average_speed(&w, v, &mut out).is_ok() { ensure!(v.is_finite() && v > T::ZERO && w.iter().all(|x| x.is_finite()) && out.iter().all(|x| !x.is_nan() && *x >= T::ZERO), "durations {out:?} at speed {v:?}"); }
    let mut p = PolylinePath::<5, 2, T>::new(); for x in &w { let r = keep!(p, p.push(*x), "push"); ensure!(r.is_err() || x.is_finite(), "took {x:?}"); } if h.g.bool() { p = p.with_end_of_path(EndOfPath::Loop); } if let Ok(q) = PolylinePath::<5, 2, T>::try_from_points(&w) { ensure!(w.iter().all(|x| x.is_finite()) && q.len() == w.len(), "path of {w:?}"); } let (x, a, b): (Vector<2, T>, T, T) = (h.v(), h.x(), h.x()); h.g.note("query,from,ahead", &(x, a, b)); if let Ok(r) = p.closest_point(x) { ensure!(r.segment_index() < p.len().max(1), "segment {}", r.segment_index()); bb((r.arc_length(), r.distance(), r.point())); } let _ = bb(p.lookahead_point(a, b)); bb(p.total_arc_length()); Ok(())
}
pub fn rotors<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let p: [Vector<3, T>; 4] = core::array::from_fn(|i| if h.g.chance(3, 4) { Vector::new([T::c([1.0, -1.0, -1.0, 1.0][i]), T::c([1.0, 1.0, -1.0, -1.0][i]), T::ZERO]) } else { h.v() }); let s = core::array::from_fn(|i| if (i % 2 == 0) ^ h.g.chance(1, 6) { RotorSpin::Clockwise } else { RotorSpin::CounterClockwise }); let (k, lo, hi): (T, T, T) = (h.px(), h.x(), h.px()); h.g.note("positions", &p); h.g.note("k,lo,hi", &(k, lo, hi));
    for m in [finite_only!(MultirotorMixer::new(p, s, k, lo, hi), "mixer", k, lo, hi), MultirotorMixer::<4, T>::quadrotor_x(h.px(), k, lo, hi)] { let Ok(m) = m else { continue }; ensure!(lo <= hi, "accepted {lo:?}..{hi:?}"); let (c, t): (T, Vector<3, T>) = (h.x(), h.v()); h.g.note("demand", &(c, t)); let r = m.rotor_thrusts(c, t); if c.is_finite() && t.is_finite() { for i in 0..4 { let x = r.thrusts()[i]; ensure!((x >= lo && x <= hi) || (h.r > 0 && x.is_nan()), "thrust {:?} outside {lo:?}..{hi:?}", r.thrusts()); } } bb((r.saturated(), m.wrench(h.v()), m.allocation())); }
    let (t, d): (T, T) = (h.px(), h.px()); if let Ok(mut l) = finite_only!(RotorLag::<3, T>::new(t, d), "lag", t, d) { ensure!(t > T::ZERO && d > T::ZERO, "accepted {t:?} {d:?}"); l = l.with_thrusts(h.v()); for _ in 0..4 { bb((l.stepped(h.v()), l.stepped_over(h.v(), h.x()), l.rate(h.v()))); if h.g.chance(1, 6) { l.reset(); } } } Ok(())
}
pub fn signals<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let (f, q, d, w): (T, T, T, T) = (h.px(), h.px(), h.px(), h.x()); let (ff, fb): ([T; 3], [T; 2]) = (h.a(), h.a()); h.g.note("f,q,dt,w", &(f, q, d, w)); h.g.note("weights", &(ff, fb)); let xs: [T; 6] = h.a(); h.g.note("samples", &xs);
    let made = [finite_only!(BiquadCoefficients::new(ff, fb, d), "biquad", ff, fb, d), finite_only!(BiquadCoefficients::low_pass(f, q, d), "low_pass", f, q, d), finite_only!(BiquadCoefficients::high_pass(f, q, d), "high_pass", f, q, d), finite_only!(BiquadCoefficients::band_pass(f, q, d), "band_pass", f, q, d), finite_only!(BiquadCoefficients::notch(f, q, d), "notch", f, q, d)]; let ok: Vec<_> = made.into_iter().flatten().collect(); if let Ok(c) = finite_only!(harmonic_notch_coefficients::<3, T>(f, q, d), "harmonic", f, q, d) { bb(c.len()); }
    for &c in &ok { ensure!(c.feed_forward().fin() && c.feedback().fin() && c.timestep() > T::ZERO, "coefficients {c:?}"); bb((c.magnitude_at(w), c.magnitude_in_decibels_at(w), c.phase_at(w), c.delay_at(w), c.is_stable())); let mut b = Biquad::new(c); for x in xs { bb(b.filter(x)); } b.settle_to(w); b.set_coefficients(ok[0]); bb((b.filter(w), b.value())); b.reset(); let mut k = BiquadCascade::new([c, ok[0]]); for x in xs { bb(k.filter(x)); } let i = h.n(2); let r = keep!(k, k.set_section(i, c), "set_section"); ensure!(r.is_ok() == (i < 2), "section {i}"); k.settle_to(w); bb((k.magnitude_at(w), k.magnitude_in_decibels_at(w), k.phase_at(w), k.delay_at(w), k.is_stable(), k.value())); let mut m = MultiChannelBiquad::<2, T>::new(c); bb(m.filter(h.v())); m.settle_to(h.v()); bb((m.filter(h.v()), m.value())); }
    if let Ok(mut o) = finite_only!(OnePoleLowPass::new(w), "one pole", w) { for x in xs { bb(o.filter(x)); } } if let Ok(mut o) = finite_only!(OnePoleLowPass::from_cutoff(f, d), "from_cutoff", f, d) { for x in xs { bb(o.filter(x)); } } for b in [finite_only!(Deadband::plain(w), "deadband", w), finite_only!(Deadband::recentered(w), "deadband", w)].into_iter().flatten() { for x in xs { bb(b.apply(x)); } } if let Ok(mut y) = finite_only!(Hysteresis::new(w, f), "hysteresis", w, f) { ensure!(w < f, "thresholds {w:?} {f:?}"); for x in xs { bb(y.update(x)); } } for l in [finite_only!(SlewRateLimiter::new(f, q, d), "slew", f, q, d), finite_only!(SlewRateLimiter::symmetric(f, d), "slew", f, d)] { if let Ok(mut l) = l { for x in xs { bb(l.filter(x)); } l.reset(); } }
    macro_rules! win { ($n:expr) => { if let Ok(mut m) = MovingAverage::<$n, T>::new() { for x in xs { bb(m.filter(x)); } m.reset(); } if let Ok(mut m) = RunningMedian::<$n, T>::new() { for x in xs { bb(m.filter(x)); } bb(m.value()); } for s in [SavitzkyGolay::<$n, 3, T>::centered(d), SavitzkyGolay::<$n, 3, T>::latest(d), ] { if let Ok(mut s) = s { ensure!(d.is_finite() && d > T::ZERO, "timestep {d:?}"); for x in xs { bb(s.filter(x)); } bb((s.first_derivative(), s.second_derivative(), s.delay())); s.reset(); } } } } win!(0); win!(1); win!(4); win!(5); Ok(())
}
