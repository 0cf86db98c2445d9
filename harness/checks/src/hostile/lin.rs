use super::hostile::*;
use multicalc::discretization::*;
pub fn square<const N: usize, T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let (a, s, b, c): (Matrix<N, N, T>, Matrix<N, N, T>, Vector<N, T>, Matrix<N, 2, T>) = (h.m(), h.spd(), h.v(), h.m()); let (q, r, t): (Matrix<N, N, T>, Matrix<2, 2, T>, T) = (h.spd(), h.spd(), h.x()); let i = h.n(N); let j = h.n(N); h.g.note("a", &a); h.g.note("s", &s); h.g.note("b", &b); h.g.note("t", &t); h.g.note("i,j", &(i, j));
    for m in [a, s] {
        if let Ok(f) = bb(m.lu_decompose()) { bb((f.lower(), f.upper(), f.permutation(), f.determinant(), f.solve(b), f.solve_matrix(c), f.inverse())); } bb(m.solve(b).is_ok());
        if let Ok(f) = bb(m.cholesky()) { ensure!((0..N).all(|k| m[(k, k)] > T::ZERO), "cholesky accepted {m:?}"); bb((f.lower(), f.determinant(), f.solve(b), f.solve_matrix(c), f.inverse())); }
        if let Ok(f) = bb(m.svd()) { ensure!(m.is_finite(), "svd accepted {m:?}"); bb((f.singular_values(), f.left(), f.right(), f.rank(t), f.condition_number(), f.pseudo_inverse_tol(t), f.pseudo_inverse(), f.solve(b))); ensure!(f.rank(t) <= N, "rank"); }
        if let Ok(f) = bb(m.symmetric_eigendecomposition()) { ensure!(m.is_finite(), "eigendecomposition accepted {m:?}"); bb((f.eigenvalues(), f.eigenvectors(), f.determinant(), f.condition_number(), f.is_positive_definite(), f.clamped(t))); }
        if let Ok(x) = m.inverse() { bb(x); } if let Ok(x) = bb(m.pseudo_inverse()) { bb(x); } if let Ok(x) = m.expm() { ensure!(m.is_finite() && x.is_finite(), "expm of {m:?} is {x:?}"); }
        if let Ok(f) = bb(PivotedQr::<N, N, T>::decompose(m)) { bb((f.triangular(), f.orthogonal(), f.permutation())); let _ = bb(f.solve_least_squares(b)); let d = f.into_damped(b); bb((d.is_non_singular(), d.max_a_t_b_scaled(t), d.a_x_norm(&b))); let (x, f) = d.solve_with_zero_diagonal(); bb((x, f.solve(h.a()))); let diag = h.a(); let (x, f) = d.solve_with_diagonal(&diag); bb((x, f.solve(h.a()))); }
        let z = bb(m * b); bb((m.transpose(), m.trace(), m.determinant(), m.frobenius_norm(), m.is_symmetric(), m.symmetrized(), m.scale(t), m + s, m - s, m * s, -m, z, m.diagonal()));
        ensure!(m.get(i, j).is_some() == (i < N && j < N) && m.try_row(i).is_some() == (i < N) && m.try_column(j).is_some() == (j < N), "bounds at {i},{j}"); let mut w = m; if let Some(x) = w.get_mut(i, j) { *x = t; }
    }
    if let Ok(p) = bb(solve_discrete_lyapunov(a.scale(T::c(0.3)), q)) { ensure!(a.is_finite() && q.is_finite() && p.is_finite(), "lyapunov answered {p:?}"); }
    if let Ok(p) = bb(solve_discrete_riccati(a, c, q, r)) { ensure!(a.is_finite() && c.is_finite() && q.is_finite() && r.is_finite() && p.is_finite(), "riccati answered {p:?}"); } Ok(())
}
pub fn disc(g: &mut G) -> R {
    let mut h = hx(g); let (a, b, q, t): (Matrix<3, 3>, Matrix<3, 2>, Matrix<3, 3>, f64) = (h.m(), h.m(), h.spd(), h.px()); h.g.note("a,b,q,t", &(a, b, q, t));
    if let Ok((x, y)) = zoh::<3, 2, 5, f64>(a, b, t) { ensure!(t.is_finite() && x.is_finite() && y.is_finite(), "zoh answered {x:?} {y:?}"); } if let Ok((x, y)) = van_loan::<3, 6, f64>(a, q, t) { ensure!(t.is_finite() && x.is_finite(), "van_loan answered {x:?} {y:?}"); } bb((q_discrete_white_noise::<2, f64>(t, h.x()), q_discrete_white_noise::<3, f64>(t, h.x()), q_discrete_white_noise::<4, f64>(t, h.x()))); Ok(())
}
pub fn rect<const A: usize, const B: usize, T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let (a, b, t): (Matrix<A, B, T>, Vector<A, T>, T) = (h.m(), h.v(), h.x()); h.g.note("a", &a); h.g.note("b", &b);
    if let Ok(f) = bb(a.svd()) { bb((f.singular_values(), f.rank(t), f.condition_number(), f.pseudo_inverse_tol(t), f.pseudo_inverse(), f.solve(b))); } if let Ok(x) = bb(a.pseudo_inverse()) { bb(x); }
    if let Ok(f) = bb(PivotedQr::<A, B, T>::decompose(a)) { ensure!(A >= B, "a wide matrix factorised"); bb((f.triangular(), f.orthogonal(), f.permutation())); let _ = bb(f.solve_least_squares(b)); let d = f.into_damped(b); bb((d.is_non_singular(), d.max_a_t_b_scaled(t))); let diag = h.a(); let (x, f) = d.solve_with_diagonal(&diag); bb((x, f.solve(h.a()))); }
    let l = h.n(A * B); let v: Vec<T> = (0..l.min(40)).map(|_| h.x()).collect(); ensure!(Matrix::<A, B, T>::try_from_row_slice(&v).is_some() == (v.len() == A * B) && Vector::<A, T>::try_from_slice(&v).is_some() == (v.len() == A), "length {}", v.len());
    let (p, q): (Vector<A, T>, Vector<A, T>) = (h.v(), h.v()); bb((p.dot(q), p.norm(), p.normalized(), p + q, p - q, p.scale(t), -p, p / t, p * t)); let mut w = p; w.normalize(); let mut w = p; match (p.try_normalized(), w.try_normalize()) { (Some(x), Some(())) => { ensure!(x.is_finite() && (x.norm().g() - 1.0).abs() < if p.norm().g() < T::EPS * 1e-8 { 0.9 } else { 0.01 }, "{p:?} normalized to {x:?}"); } (None, None) => { ensure!(format!("{w:?}") == format!("{p:?}"), "refused, yet changed"); } (a, b) => bad!("{a:?} / {b:?}") } Ok(())
}
pub fn lie<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let (p, q): (Quaternion<T>, Quaternion<T>) = (h.q(), h.q()); let (v, w, t): (Vector<3, T>, Vector<3, T>, T) = (h.v(), h.v(), h.x()); let m: Matrix<3, 3, T> = h.m(); h.g.note("p,q", &(p, q)); h.g.note("v,w,t", &(v, w, t)); h.g.note("m", &m);
    bb((p.conjugate(), p.norm(), p.dot(q), p.inverse(), p.normalized(), p.exp(), p.log(), p * q, p.to_rotation_matrix(), p.to_axis_angle(), p.to_scaled_axis(), p.to_euler_zyx())); bb((p.transform_point(v), p.inverse_transform_point(v), p.rotation_angle_to(q), p.slerp(q, t), Quaternion::from_axis_angle(v, t), Quaternion::from_scaled_axis(v), Quaternion::from_euler_zyx(v[0], v[1], v[2]), Quaternion::from_two_vectors(v, w)));
    if let Some(x) = p.try_normalized() { ensure!((x.norm().g() - 1.0).abs() < 0.01, "{p:?} normalized to {x:?}"); } if let Some(x) = Quaternion::try_from_rotation_matrix(m) { ensure!((x.norm().g() - 1.0).abs() < 0.01, "{m:?} is turned by {x:?}"); }
    let (a, b): (SO3<T>, SO3<T>) = (h.so3(), h.so3()); bb((a.compose(b), a.inverse(), a.act(v), SO3::exp(v), a.log(), SO3::hat(v), SO3::<T>::vee(m), a.adjoint(), a.to_matrix(), SO3::try_from_matrix(m))); bb((SO3::from_two_direction_pairs(v, w, h.v(), h.v()), a.interpolate(b, t), a.normalized(), SO3::left_jacobian(v), SO3::right_jacobian(v), SO3::left_jacobian_inverse(v), SO3::right_jacobian_inverse(v)));
    let (a, b): (SE3<T>, SE3<T>) = (h.se3(), h.se3()); let x: Vector<6, T> = h.v(); let m4: Matrix<4, 4, T> = h.m(); let (tw, wr) = (h.tw::<T>(), h.wr::<T>()); bb((a.compose(b), a.inverse(), a.act(v), SE3::exp(x), a.log(), a.adjoint(), a.force_adjoint(), a.act_twist(tw), a.act_wrench(wr), a.inverse_act_twist(tw))); bb((a.inverse_act_wrench(wr), SE3::hat(x), SE3::<T>::vee(m4), a.to_matrix(), SE3::try_from_matrix(m4), a.interpolate(b, t), SE3::left_jacobian(x), SE3::right_jacobian(x), SE3::left_jacobian_inverse(x), SE3::right_jacobian_inverse(x))); bb((tw.cross(tw), tw.cross_wrench(wr), tw.dot_wrench(wr), tw.scale(t), wr.scale(t)));
    let (a, b): (SE2<T>, SE2<T>) = (h.se2(), h.se2()); let m2: Matrix<2, 2, T> = h.m(); bb((a.compose(b), a.inverse(), a.act(h.v()), SE2::exp(v), a.log(), a.adjoint(), SE2::hat(v), SE2::<T>::vee(m), a.to_matrix(), SE2::try_from_matrix(m))); bb((a.interpolate(b, t), SE2::left_jacobian(v), SE2::right_jacobian(v), SE2::left_jacobian_inverse(v), SE2::right_jacobian_inverse(v))); let (a, b) = (a.rotation(), b.rotation()); bb((a.compose(b), a.inverse(), a.log(), SO2::hat(t), SO2::<T>::vee(m2), a.adjoint(), SO2::try_from_matrix(m2), a.interpolate(b, t), a.norm(), a.normalized())); Ok(())
}
pub fn rigid<T: Fx>(g: &mut G) -> R {
    use multicalc::dynamics::*; let mut h = hx(g); let m: T = h.px(); let (c, d): (Vector<3, T>, Vector<3, T>) = (h.v(), h.v()); let i: Matrix<3, 3, T> = h.spd(); h.g.note("mass,center,inertia,diagonal", &(m, c, i, d));
    let a = finite_only!(SpatialInertia::new(m, c, i), "SpatialInertia::new", m, c, i); if a.is_ok() { ensure!(m > T::ZERO, "accepted mass {m:?}"); } let b = finite_only!(SpatialInertia::from_diagonal_inertia(m, c, d), "from_diagonal_inertia", m, c, d);
    let v: Vec<SpatialInertia<T>> = [a.ok(), b.ok()].into_iter().flatten().collect(); for &s in &v { let (tw, wr, e): (Twist<T>, Wrench<T>, SE3<T>) = (h.tw(), h.wr(), h.se3()); bb((s.mass(), s.center_of_mass(), s.rotational_inertia(), s.inertia_about(h.v()), s.momentum(tw), s.bias_wrench(tw), s.kinetic_energy(tw), s.to_matrix(), s.combined(v[0]), s.is_finite())); bb((e.act_inertia(s), e.inverse_act_inertia(s)));
        let gr: Vector<3, T> = h.v(); let rb = finite_only!(RigidBody::new(s, gr), "RigidBody::new", gr); if let Ok(rb) = rb { let st = FreeJointState::new(h.se3(), tw); let t = h.x(); bb((rb.accelerations(h.so3(), h.v(), wr), rb.stepped(st, wr, t), rb.state_derivative(&h.v(), wr), rb.state_derivative(&state_vector_from_free_joint(st), wr), rb.inertia(), rb.gravity())); } }
    let sv: Vector<STATE_DIMENSION, T> = h.v(); if let Some(f) = free_joint_from_state_vector(&sv) { let q = f.pose().rotation().quaternion(); ensure!((q.norm().g() - 1.0).abs() < 0.01, "{sv:?} is turned by {q:?}"); bb((f.generalized_position(), f.generalized_velocity())); } let (p, w): ([T; 7], [T; 6]) = (h.a(), h.a()); if let Some(f) = FreeJointState::from_generalized_vectors(p, w) { let q = f.pose().rotation().quaternion(); ensure!((q.norm().g() - 1.0).abs() < 0.01, "{p:?} is turned by {q:?}"); let (p2, w2) = (f.generalized_position(), f.generalized_velocity()); for k in 0..3 { ensure!(p2[k] == p[k] || !p[k].is_finite() || p[k].is_nan(), "{p:?} came back as {p2:?}"); } for k in 0..6 { ensure!(!w[k].is_finite() || w[..].iter().chain(&p).any(|x| !x.is_finite()) || (w2[k] - w[k]).abs().g() <= 1e-3 * w.iter().map(|x| x.abs().g()).fold(0.0, f64::max), "{w:?} came back as {w2:?}"); } } Ok(())
}
