//! C12: quaternions and SO(2)/SE(2)/SO(3)/SE(3) against homogeneous matrices and double-double matrix exponentials.
use checks::lin::*;
use checks::util::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::spatial::{Quaternion as Q, SE2, SE3, SO2, SO3};
use multicalc::Dual;
use vk::mat::M as DM;
use vk::*;

type V3 = [f64; 3];
fn v3<T: Fl>(a: V3) -> Vector<3, T> { Vector::new(a.map(T::c)) }
fn g3<T: Fl>(v: Vector<3, T>) -> V3 { v.as_array().map(|x| x.g()) }
fn q4<T: Fl>(q: Q<T>) -> [f64; 4] { q.as_array().map(|x| x.g()) }
fn nrm(a: &[f64]) -> f64 { a.iter().map(|x| x * x).sum::<f64>().sqrt() }
fn cross(a: V3, b: V3) -> V3 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn skew(a: V3) -> DM { DM::from_fn(3, 3, |i, j| [[0.0, -a[2], a[1]], [a[2], 0.0, -a[0]], [-a[1], a[0], 0.0]][i][j]) }
fn block(rows: usize, cols: usize, parts: &[(usize, usize, &DM)]) -> DM { let mut m = DM::zeros(rows, cols); for (r, c, p) in parts { for i in 0..p.r { for j in 0..p.c { m.set(r + i, c + j, p.at(i, j)); } } } m }
fn dist(a: &DM, b: &DM) -> f64 { a.sub(b).max_abs() }
fn dirs(g: &mut G) -> V3 { loop { let a = match g.below(4) { 0 => { let mut a = [0.0; 3]; a[g.below(3)] = g.sign(); a } 1 => [g.int(-2, 2) as f64, g.int(-2, 2) as f64, g.int(-2, 2) as f64], _ => [g.bell(), g.bell(), g.bell()] }; let n = nrm(&a); if n > 1e-3 { return a.map(|x| x / n); } if g.pos() > 4000 { return [1.0, 0.0, 0.0]; } } }
/// An angle in [0, pi]: ordinary, tiny, on a threshold, near a half turn.
fn angle<T: Fl>(g: &mut G) -> f64 { let pi = std::f64::consts::PI; let e = if T::IS32 { -7.0 } else { -16.0 }; match g.below(8) { 0 => 0.0, 1 | 2 => g.log10(e - 3.0, 0.0), 3 => pi - g.log10(e + 1.0, 0.0), 4 => pi * 0.5 + g.slog10(e, -1.0), 5 => pi * g.pick(&[0.25, 0.5, 0.75, 1.0 / 3.0]), _ => g.u(0.0, pi) } }
fn rotvec<T: Fl>(g: &mut G) -> V3 { let d = dirs(g); let a = angle::<T>(g); d.map(|x| rnd::<T>(x * a)) }
/// A unit quaternion whose reference rotation is the double-double one of the same rounded components.
fn unit<T: Fl>(g: &mut G) -> Q<T> { let r = rotvec::<T>(g); let a = nrm(&r); let s = if a > 0.0 { (a / 2.0).sin() / a } else { 0.5 }; let sg = g.sign(); Q::new(T::c(sg * (a / 2.0).cos()), T::c(sg * r[0] * s), T::c(sg * r[1] * s), T::c(sg * r[2] * s)) }
fn refrot(q: [f64; 4]) -> DM { let n = nrm(&q); let [w, x, y, z] = q.map(|v| v / n); DM::from_fn(3, 3, |i, j| [[1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)], [2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)], [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)]][i][j]) }
fn trans<T: Fl>(g: &mut G) -> V3 { let s = if g.chance(1, 4) { if T::IS32 { g.log10(-3.0, 3.0) } else { g.log10(-8.0, 8.0) } } else { 1.0 }; [0; 3].map(|_| rnd::<T>(g.f(-3.0, 3.0) * s)) }
fn mv(m: &DM, v: V3) -> V3 { [0, 1, 2].map(|i| (0..3).map(|j| m.f(i, j) * v[j]).sum()) }

/// Quaternion arithmetic on arbitrary quaternions.
fn algebra<T: Fl>(g: &mut G) -> R {
    let s = if g.chance(1, 3) { if T::IS32 { g.log10(-6.0, 6.0) } else { g.log10(-60.0, 60.0) } } else { 1.0 };
    let mut qg = || { Q::<T>::from_array([0; 4].map(|_| T::c(g.f(-2.0, 2.0) * s))) }; let (a, b, c) = (qg(), qg(), qg()); g.note("a,b,c", &(a, b, c)); let e = T::EPS;
    let (x, y, z) = (q4(a), q4(b), q4(c)); let (na, nb, nc) = (nrm(&x), nrm(&y), nrm(&z));
    let w = [x[0] * y[0] - x[1] * y[1] - x[2] * y[2] - x[3] * y[3], x[0] * y[1] + x[1] * y[0] + x[2] * y[3] - x[3] * y[2], x[0] * y[2] - x[1] * y[3] + x[2] * y[0] + x[3] * y[1], x[0] * y[3] + x[1] * y[2] - x[2] * y[1] + x[3] * y[0]];
    let p = q4(a * b); for i in 0..4 { close!(g, p[i], w[i], e * 8.0 * na * nb, "product component {i}"); }
    let (l, r) = (q4((a * b) * c), q4(a * (b * c))); for i in 0..4 { close!(g, l[i], r[i], e * 30.0 * na * nb * nc, "associativity {i}"); }
    let (l, r) = (q4((a * b).conjugate()), q4(b.conjugate() * a.conjugate())); for i in 0..4 { close!(g, l[i], r[i], e * 16.0 * na * nb, "conjugate of a product"); }
    close!(g, a.norm().g(), na, e * 8.0 * na, "norm"); close!(g, a.norm_squared().g(), na * na, e * 8.0 * na * na, "norm squared"); close!(g, a.dot(b).g(), (0..4).map(|i| x[i] * y[i]).sum::<f64>(), e * 8.0 * na * nb, "dot");
    if na > 0.0 { let i = q4(a * a.inverse()); for k in 0..4 { close!(g, i[k], if k == 0 { 1.0 } else { 0.0 }, e * 30.0, "a a^-1"); } let n = q4(a.normalized()); for k in 0..4 { close!(g, n[k], x[k] / na, e * 8.0, "normalized"); } }
    let t = a.try_normalized(); if na > 2.0 * e { ensure!(t == Some(a.normalized()), "try_normalized {t:?}"); } if na < e * 0.5 { ensure!(t.is_none(), "underflowed norm accepted"); }
    for i in 0..4 { ensure!(q4(a + b)[i] == (a.as_array()[i] + b.as_array()[i]).g() && q4(a - b)[i] == (a.as_array()[i] - b.as_array()[i]).g() && q4(-a)[i] == -x[i] && q4(a * b.w())[i] == (a.as_array()[i] * b.w()).g()); }
    ensure!([a.w(), a.x(), a.y(), a.z()] == a.as_array() && g3(a.vec()) == [x[1], x[2], x[3]] && Q::from_scalar_vector(a.w(), a.vec()) == a && Q::new(a.w(), a.x(), a.y(), a.z()) == a); ensure!(a * Q::identity() == a && Q::identity() * a == a && Q::<T>::default() == Q::identity());
    // exp and log are inverse where the vector part stays off the branch cut
    let e0 = g.f(-3.0, 3.0) * if g.chance(1, 4) { if T::IS32 { 8.0 } else { 20.0 } } else { 1.0 }; let r = { let d = dirs(g); let a = if g.chance(1, 3) { g.log10(if T::IS32 { -9.0 } else { -18.0 }, 0.0) } else { g.u(0.0, 3.0) }; d.map(|v| v * a) }; let q = Q::new(T::c(e0), T::c(r[0]), T::c(r[1]), T::c(r[2])); let qa = q4(q); let th = nrm(&qa[1..]); let ex = q.exp(); let m = qa[0].exp(); let sc = if th > 1e-8 { th.sin() / th } else { 1.0 }; let w = [m * th.cos(), m * sc * qa[1], m * sc * qa[2], m * sc * qa[3]]; g.note("q", &q); let ee = q4(ex); for i in 0..4 { close!(g, ee[i], w[i], e * (20.0 + 4.0 * qa[0].abs()) * m, "exp component {i}"); }
    let lg = q4(ex.log()); for i in 0..4 { close!(g, lg[i], qa[i], e * (200.0 + 8.0 * qa[0].abs()), "log(exp(q)) component {i}"); }
    for bad in [f64::NAN, f64::INFINITY] { let mut v = a.as_array(); v[g.below(4)] = T::c(bad); ensure!(Q::from_array(v).try_normalized().is_none()); } ensure!(Q::new(T::ZERO, T::ZERO, T::ZERO, T::ZERO).try_normalized().is_none());
    g.nontrivial_if(na > 0.0 && nb > 0.0); Ok(())
}
/// Unit quaternions as rotations: matrix, axis-angle, scaled axis and Euler forms, and the sandwich product.
fn rotations<T: Fl>(g: &mut G) -> R {
    let q = unit::<T>(g); let qa = q4(q); let m = refrot(qa); let e = T::EPS; let p = trans::<T>(g); let np = nrm(&p); g.note("q", &q); g.note("p", &p);
    let rm = q.to_rotation_matrix(); let d = dm(&rm); close!(g, dist(&d, &m), 0.0, e * 16.0, "rotation matrix");
    let (tp, w) = (g3(q.transform_point(v3(p))), mv(&m, p)); for i in 0..3 { close!(g, tp[i], w[i], e * 24.0 * np, "transformed point"); } let ip = g3(q.inverse_transform_point(q.transform_point(v3(p)))); for i in 0..3 { close!(g, ip[i], p[i], e * 40.0 * np, "inverse transform"); }
    ensure!(g3((-q).transform_point(v3::<T>(p))) == tp, "q and -q rotate differently");
    let sgn = |a: [f64; 4], b: [f64; 4]| -> f64 { let d: f64 = (0..4).map(|i| a[i] * b[i]).sum(); let s = if d < 0.0 { -1.0 } else { 1.0 }; (0..4).map(|i| (a[i] - s * b[i]).abs()).fold(0.0, f64::max) };
    match Q::try_from_rotation_matrix(rm) { Some(r) => { close!(g, sgn(q4(r), qa), 0.0, e * 24.0, "matrix round trip"); close!(g, r.norm().g(), 1.0, e * 8.0, "norm after round trip"); } None => bad!("its own rotation matrix rejected") }
    let tr = m.f(0, 0) + m.f(1, 1) + m.f(2, 2); g.label(if tr > 0.0 { "pivot w" } else if m.f(0, 0) > m.f(1, 1) && m.f(0, 0) > m.f(2, 2) { "pivot x" } else if m.f(1, 1) > m.f(2, 2) { "pivot y" } else { "pivot z" });
    let vn = nrm(&qa[1..]); let th = 2.0 * vn.atan2(qa[0].abs()); let (ax, an) = q.to_axis_angle(); close!(g, an.g(), th, e * 16.0, "angle"); close!(g, nrm(&g3(ax)), 1.0, e * 8.0, "axis length"); ensure!(an.g() >= 0.0 && an.g() <= std::f64::consts::PI * (1.0 + e)); close!(g, sgn(q4(Q::from_axis_angle(ax, an)), qa), 0.0, e * 16.0, "axis-angle round trip");
    let sa = q.to_scaled_axis(); close!(g, nrm(&g3(sa)), th, e * 16.0 + e * 8.0 * th, "scaled axis length"); close!(g, sgn(q4(Q::from_scaled_axis(sa)), qa), 0.0, e * 24.0, "scaled-axis round trip"); if th < 1.0 { let s = if qa[0] < 0.0 { -1.0 } else { 1.0 }; let k = if vn > 1e-30 { th / vn } else { 2.0 }; for i in 0..3 { close!(g, g3(sa)[i], s * qa[1 + i] * k, e * 16.0 * th + 1e-40, "scaled axis keeps relative accuracy"); } }
    // axis-angle with any axis length and any angle
    let ax = dirs(g); let l = if T::IS32 { g.log10(-4.0, 4.0) } else { g.log10(-10.0, 10.0) }; let an = rnd::<T>(g.f(-10.0, 10.0)); let u: V3 = ax.map(|x| rnd::<T>(x * l)); let n = nrm(&u); let qq = q4(Q::from_axis_angle(v3::<T>(u), T::c(an))); let (s, c) = (an / 2.0).sin_cos(); close!(g, qq[0], c, e * 8.0, "from_axis_angle scalar"); for i in 0..3 { close!(g, qq[1 + i], s * u[i] / n, e * 10.0, "from_axis_angle vector"); } ensure!(Q::<T>::from_axis_angle(v3([0.0; 3]), T::c(an)) == Q::identity(), "zero axis");
    // Euler angles
    let (ro, pi_, ya) = q.to_euler_zyx(); let (ro, pt, ya) = (ro.g(), pi_.g(), ya.g()); let rx = DM::from_fn(3, 3, |i, j| [[1.0, 0.0, 0.0], [0.0, ro.cos(), -ro.sin()], [0.0, ro.sin(), ro.cos()]][i][j]); let ry = DM::from_fn(3, 3, |i, j| [[pt.cos(), 0.0, pt.sin()], [0.0, 1.0, 0.0], [-pt.sin(), 0.0, pt.cos()]][i][j]); let rz = DM::from_fn(3, 3, |i, j| [[ya.cos(), -ya.sin(), 0.0], [ya.sin(), ya.cos(), 0.0], [0.0, 0.0, 1.0]][i][j]); let er = rz.mul(&ry).mul(&rx);
    let cp = m.f(0, 0).hypot(m.f(1, 0)); let tol = if cp < (e * 640.0).sqrt() { (e * 90.0).sqrt() } else { e * 24.0 + e * 24.0 / cp }; close!(g, dist(&er, &m), 0.0, tol, "Euler angles, cos pitch {cp:e}"); ensure!(pt.abs() <= std::f64::consts::FRAC_PI_2 * (1.0 + e) && ro.abs() <= std::f64::consts::PI * (1.0 + e) && ya.abs() <= 2.0 * std::f64::consts::PI * (1.0 + e)); let fe = Q::<T>::from_euler_zyx(T::c(ro), T::c(pt), T::c(ya)); close!(g, dist(&refrot(q4(fe)), &er), 0.0, e * 32.0, "from_euler_zyx"); close!(g, fe.norm().g(), 1.0, e * 8.0, "Euler quaternion norm"); g.label_if(cp < 1e-6, "gimbal");
    // angle between rotations
    let o = unit::<T>(g); let oa = q4(o); let rel = [qa[0] * oa[0] + qa[1] * oa[1] + qa[2] * oa[2] + qa[3] * oa[3], qa[0] * oa[1] - qa[1] * oa[0] - qa[2] * oa[3] + qa[3] * oa[2], qa[0] * oa[2] + qa[1] * oa[3] - qa[2] * oa[0] - qa[3] * oa[1], qa[0] * oa[3] - qa[1] * oa[2] + qa[2] * oa[1] - qa[3] * oa[0]]; let w = 2.0 * nrm(&rel[1..]).atan2(rel[0].abs()); close!(g, q.rotation_angle_to(o).g(), w, e * 16.0, "rotation_angle_to"); close!(g, q.rotation_angle_to(-o).g(), w, e * 16.0, "double cover"); close!(g, q.rotation_angle_to(q).g(), 0.0, e * 8.0, "angle to itself");
    // interpolation: constant rate along the shortest path
    let t = rnd::<T>(g.f(0.0, 1.0)); let sl = q.slerp(o, T::c(t)); let sa = q4(sl); close!(g, nrm(&sa), 1.0, e * 8.0, "slerp norm"); let slop = e * 40.0 + if w < 1e-3 { e * 10.0 } else { 0.0 }; if w < std::f64::consts::PI - 1e-3 { let f = 1.0 / ((std::f64::consts::PI - w) * 0.5).sin().max(1e-3); close!(g, q.rotation_angle_to(sl).g(), t * w, slop * f + if w < (e * 64.0).sqrt() { w * 0.0 } else { e / w * 4.0 * w }, "slerp from the start"); close!(g, sl.rotation_angle_to(o).g(), (1.0 - t) * w, slop * f + e * 4.0, "slerp to the end"); let s2 = q4(q.slerp(-o, T::c(t))); close!(g, sgn(s2, sa), 0.0, e * 16.0, "slerp towards -q"); }
    g.nontrivial_if(th > 1e-3); Ok(())
}
/// The shortest rotation between two directions of any length.
fn two_vectors<T: Fl>(g: &mut G) -> R {
    let big = if T::IS32 { 30.0 } else { 300.0 }; let (a, b) = (dirs(g), dirs(g)); let b = match g.below(5) { 0 => { let k = g.log10(if T::IS32 { -8.0 } else { -17.0 }, -1.0); let s = g.sign(); [0, 1, 2].map(|i| s * a[i] + k * b[i]) } 1 => { let s = g.sign(); a.map(|x| s * x) } _ => b };
    let (la, lb) = if g.bool() { (g.log10(-big, big), g.log10(-big, big)) } else { (1.0, 1.0) }; let a: V3 = a.map(|x| rnd::<T>(x * la)); let b: V3 = b.map(|x| rnd::<T>(x * lb)); g.note("a,b", &(a, b)); let uni = |v: V3| { let m = v.iter().fold(0.0f64, |s, x| s.max(x.abs())); let w = v.map(|x| x / m); let n = nrm(&w); w.map(|x| x / n) }; let (ua, ub) = (uni(a), uni(b)); if !ua.iter().chain(&ub).all(|x| x.is_finite()) { discard!() }
    let q = Q::from_two_vectors(v3::<T>(a), v3::<T>(b)); let e = T::EPS; close!(g, q.norm().g(), 1.0, e * 8.0, "norm"); let w = g3(q.transform_point(v3::<T>(ua))); for i in 0..3 { close!(g, w[i], ub[i], e * 24.0, "carried onto the target"); } let an = nrm(&cross(ua, ub)).atan2((0..3).map(|i| ua[i] * ub[i]).sum()); close!(g, Q::identity().rotation_angle_to(q).g(), an, e * 24.0, "shortest rotation"); g.nontrivial_if(an > 1e-3); g.label_if(an > 3.14, "near opposite");
    let mut h = a; h[g.below(3)] = g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); ensure!(Q::from_two_vectors(v3::<T>(h), v3(b)) == Q::identity() && Q::from_two_vectors(v3::<T>(b), v3(h)) == Q::identity() && Q::from_two_vectors(v3::<T>([0.0; 3]), v3(b)) == Q::identity(), "no direction gives the identity"); Ok(())
}

fn so2<T: Fl>(g: &mut G) -> R {
    let e = T::EPS; let mut ang = || { let a = angle::<T>(g) * g.sign(); rnd::<T>(if g.chance(1, 8) { a + 6.283185307179586 * g.int(-3, 3) as f64 } else { a }) }; let (a, b, c) = (ang(), ang(), ang()); g.note("angles", &(a, b, c)); let r = |x: f64| SO2::exp(T::c(x)); let m = |x: f64| DM::from_fn(2, 2, |i, j| [[x.cos(), -x.sin()], [x.sin(), x.cos()]][i][j]);
    close!(g, dist(&dm(&r(a).to_matrix()), &m(a)), 0.0, e * 2.0, "matrix"); ensure!(r(a) == SO2::from_angle(T::c(a)) && r(a).cos_sin() == (T::c(a).cos(), T::c(a).sin())); close!(g, dist(&dm(&(r(a) * r(b)).to_matrix()), &m(a).mul(&m(b))), 0.0, e * 6.0, "compose"); ensure!(r(a) * r(b) == r(a).compose(r(b))); close!(g, dist(&dm(&r(a).inverse().to_matrix()), &m(-a)), 0.0, e * 2.0, "inverse"); let (l, k) = ((r(a) * r(b)) * r(c), r(a) * (r(b) * r(c))); close!(g, dist(&dm(&l.to_matrix()), &dm(&k.to_matrix())), 0.0, e * 16.0, "associative");
    let wrap = |x: f64| x.sin().atan2(x.cos()); let lg = r(a).log().g(); let d = wrap(lg - a); close!(g, d, 0.0, e * 8.0, "log"); ensure!(lg.abs() <= std::f64::consts::PI * (1.0 + e)); let p = trans::<T>(g); let w = r(a).act(Vector::new([T::c(p[0]), T::c(p[1])])); let (s, co) = a.sin_cos(); let n = nrm(&p[..2]); close!(g, w[0].g(), co * p[0] - s * p[1], e * 6.0 * n, "act"); close!(g, w[1].g(), s * p[0] + co * p[1], e * 6.0 * n, "act");
    ensure!(r(a).adjoint() == T::ONE && SO2::left_jacobian(T::c(a)) == T::ONE && SO2::right_jacobian(T::c(a)) == T::ONE && SO2::left_jacobian_inverse(T::c(a)) == T::ONE && SO2::right_jacobian_inverse(T::c(a)) == T::ONE); let h = SO2::hat(T::c(a)); ensure!(SO2::vee(h) == T::c(a) && h[(0, 1)] == -T::c(a) && h[(0, 0)] == T::ZERO && h[(1, 1)] == T::ZERO); ensure!(SO2::<T>::default() == SO2::identity() && SO2::<T>::identity() * r(a) == r(a)); close!(g, r(a).norm().g(), 1.0, e * 4.0, "norm"); close!(g, (l.normalized()).norm().g(), 1.0, e * 4.0, "normalized");
    let t = rnd::<T>(g.f(-1.0, 2.0)); let dd = wrap(b - a); if dd.abs() < 3.14 { let it = r(a).interpolate(r(b), T::c(t)).log().g(); close!(g, wrap(it - (a + t * dd)), 0.0, e * 64.0 + e * 4.0 * (a.abs() + b.abs()), "interpolate"); }
    mat_ok2::<T>(g, a)?; g.nontrivial_if(a != 0.0); Ok(())
}
fn mat_ok2<T: Fl>(g: &mut G, a: f64) -> R {
    let e = T::EPS; let m = SO2::exp(T::c(a)).to_matrix(); match SO2::try_from_matrix(m) { Some(r) => { close!(g, dist(&dm(&r.to_matrix()), &dm(&m)), 0.0, e * 8.0, "matrix round trip"); close!(g, r.norm().g(), 1.0, e * 4.0, "norm"); } None => bad!("its own matrix rejected") }
    let mut b = m; let k = match g.below(4) { 0 => { b[(g.below(2), g.below(2))] = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])); "non-finite" } 1 => { let s = T::c(if g.bool() { 1.0 + g.log10(e.log10() + 2.5, 0.0) } else { 1.0 - g.log10(e.log10() + 2.5, -0.1) }); b = m.scale(s); "scaled" } 2 => { b[(0, 1)] = -b[(0, 1)]; b[(1, 1)] = -b[(1, 1)]; "reflected" } _ => { let (i, j) = (g.below(2), g.below(2)); b[(i, j)] += T::c(g.sign() * g.log10(e.log10() + 3.5, 0.0) * 3.0); let d = dm(&b); let q = d.t().mul(&d).sub(&DM::eye(2)).max_abs(); if q < e * 200.0 || d.det().f() < 0.0 { return Ok(()); } "sheared" } }; ensure!(SO2::try_from_matrix(b).is_none(), "{k} matrix accepted: {b:?}"); Ok(())
}
fn se2<T: Fl>(g: &mut G) -> R {
    let e = T::EPS; let mut tw = || { let p = trans::<T>(g); let a = angle::<T>(g) * g.sign(); [p[0], p[1], rnd::<T>(a)] }; let (x, y) = (tw(), tw()); g.note("twists", &(x, y)); let hat = |x: V3| DM::from_fn(3, 3, |i, j| [[0.0, -x[2], x[0]], [x[2], 0.0, x[1]], [0.0, 0.0, 0.0]][i][j]); let nx = nrm(&x[..2]); let ny = nrm(&y[..2]);
    let (a, b) = (SE2::exp(v3::<T>(x)), SE2::exp(v3::<T>(y))); let (ma, mb) = (hat(x).expm(), hat(y).expm()); let tol = e * 24.0 * (1.0 + nx); let close = |g: &mut G, m: &DM, w: &DM, s: f64, what: &str| -> R { for i in 0..3 { for j in 0..3 { let t = if j == 2 && i < 2 { e * 40.0 * s } else { e * 16.0 }; close!(g, m.f(i, j), w.f(i, j), t + 1e-300, "{what} ({i},{j})"); } } Ok(()) };
    close(g, &dm(&a.to_matrix()), &ma, nx, "exp")?; close(g, &dm(&(a * b).to_matrix()), &ma.mul(&mb), nx + ny, "compose")?; ensure!(a * b == a.compose(b)); close(g, &dm(&a.inverse().to_matrix()), &ma.inv().unwrap(), nx, "inverse")?; let _ = tol;
    let l = g3(a.log()); if x[2].abs() < 3.14159 { close!(g, l[2], x[2], e * 8.0, "log angle"); for i in 0..2 { close!(g, l[i], x[i], e * 60.0 * nx, "log"); } }
    let p = trans::<T>(g); let np = nrm(&p[..2]); let w = a.act(Vector::new([T::c(p[0]), T::c(p[1])])); for i in 0..2 { close!(g, w[i].g(), ma.f(i, 0) * p[0] + ma.f(i, 1) * p[1] + ma.f(i, 2), e * 40.0 * (np + nx), "act"); }
    ensure!(a.rotation() == SO2::exp(T::c(x[2])) && SE2::from_parts(a.rotation(), a.translation()) == a && SE2::<T>::default() == SE2::identity()); let h = SE2::hat(v3::<T>(x)); ensure!(dist(&dm(&h), &hat(x)) == 0.0 && g3(SE2::vee(h)) == x);
    // Adjoint: hat(Ad y) = A hat(y) A^-1
    let ad = dm(&a.adjoint()); let z = mv(&ad, y); let w = ma.mul(&hat(y)).mul(&ma.inv().unwrap()); close!(g, dist(&hat(z), &w), 0.0, e * 60.0 * (ny + y[2].abs() * (1.0 + nx)) + 1e-300, "adjoint");
    // Jacobians: the integral of exp(s ad)
    let adm = DM::from_fn(3, 3, |i, j| [[0.0, -x[2], x[1]], [x[2], 0.0, -x[0]], [0.0, 0.0, 0.0]][i][j]); let jac = |s: f64| { let i3 = DM::eye(3); let big = block(6, 6, &[(0, 0, &adm.scale(s)), (0, 3, &i3)]); let x = big.expm(); DM::from_fn(3, 3, |i, j| x.f(i, j + 3)) }; let (jl, jr) = (jac(1.0), jac(-1.0));
    close(g, &dm(&SE2::left_jacobian(v3::<T>(x))), &jl, nx * 8.0, "left Jacobian")?; close(g, &dm(&SE2::right_jacobian(v3::<T>(x))), &jr, nx * 8.0, "right Jacobian")?; close(g, &dm(&SE2::left_jacobian_inverse(v3::<T>(x))), &jl.inv().unwrap(), nx * 16.0, "left inverse")?; close(g, &dm(&SE2::right_jacobian_inverse(v3::<T>(x))), &jr.inv().unwrap(), nx * 16.0, "right inverse")?;
    // interpolation follows the screw
    let t = rnd::<T>(g.f(-0.5, 1.5)); let rel = ma.inv().unwrap().mul(&mb); let dth = rel.f(1, 0).atan2(rel.f(0, 0)); if dth.abs() < 3.0 { let it = dm(&a.interpolate(b, T::c(t)).to_matrix()); let lg = a.inverse().compose(b).log(); let w = ma.mul(&hat(g3(lg)).scale(t).expm()); close(g, &it, &w, (nx + ny) * 8.0, "interpolate")?; }
    // matrices in and out
    match SE2::try_from_matrix(a.to_matrix()) { Some(r) => close(g, &dm(&r.to_matrix()), &dm(&a.to_matrix()), nx, "matrix round trip")?, None => bad!("its own matrix rejected") } let mut bm = a.to_matrix(); let k = g.below(4); match k { 0 => bm[(g.below(3), g.below(3))] = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])), 1 => bm[(2, g.below(2))] += T::c(g.sign() * g.log10(e.log10() + 2.0, 1.0)), 2 => bm[(2, 2)] += T::c(g.sign() * g.log10(e.log10() + 2.0, 1.0)), _ => { bm[(0, 0)] = -bm[(0, 0)]; bm[(1, 0)] = -bm[(1, 0)]; } } ensure!(SE2::try_from_matrix(bm).is_none(), "malformed matrix (kind {k}) accepted {bm:?}");
    // derivatives of the action with respect to the tangent
    let kx = g.below(3); let du = Vector::<3, Dual<T>>::from_fn(|i| Dual::new(T::c(x[i]), if i == kx { T::ONE } else { T::ZERO })); let w = SE2::exp(du).act(Vector::new([Dual::constant(T::c(p[0])), Dual::constant(T::c(p[1]))])); let col: V3 = [0, 1, 2].map(|i| jl.f(i, kx)); let at: Vec<f64> = (0..2).map(|i| ma.f(i, 0) * p[0] + ma.f(i, 1) * p[1] + ma.f(i, 2)).collect(); let wd = [col[0] - col[2] * at[1], col[1] + col[2] * at[0]]; for i in 0..2 { close!(g, w[i].deriv.g(), wd[i], e.powf(0.66) * 30.0 * (1.0 + np + nx), "derivative of exp in {kx}"); }
    g.nontrivial_if(x[2].abs() > 1e-9 && nx > 0.0); g.label_if(x[2].abs() < 1e-5 && x[2] != 0.0, "small angle"); Ok(())
}
fn so3<T: Fl>(g: &mut G) -> R {
    let e = T::EPS; let (x, y, z) = (rotvec::<T>(g), rotvec::<T>(g), rotvec::<T>(g)); g.note("rotation vectors", &(x, y, z)); let f = |v: V3| SO3::exp(v3::<T>(v)); let (a, b, c) = (f(x), f(y), f(z)); let (ma, mb) = (skew(x).expm(), skew(y).expm()); let th = nrm(&x);
    close!(g, dist(&dm(&a.to_matrix()), &ma), 0.0, e * 16.0, "exp"); ensure!(a.to_matrix() == a.adjoint()); close!(g, dist(&dm(&(a * b).to_matrix()), &ma.mul(&mb)), 0.0, e * 32.0, "compose"); ensure!(a * b == a.compose(b)); close!(g, dist(&dm(&a.inverse().to_matrix()), &ma.t()), 0.0, e * 16.0, "inverse"); close!(g, dist(&dm(&((a * b) * c).to_matrix()), &dm(&(a * (b * c)).to_matrix())), 0.0, e * 32.0, "associative");
    let l = g3(a.log()); if th < std::f64::consts::PI - e * 40.0 { for i in 0..3 { close!(g, l[i], x[i], e * 16.0 + e * 16.0 * th, "log"); } if th < 1.0 { for i in 0..3 { close!(g, l[i], x[i], e * 24.0 * th + 1e-40, "log keeps relative accuracy"); } } } ensure!(nrm(&l) <= std::f64::consts::PI * (1.0 + e * 2.0));
    let p = trans::<T>(g); let np = nrm(&p); let (u, w) = (g3(a.act(v3::<T>(p))), mv(&ma, p)); for i in 0..3 { close!(g, u[i], w[i], e * 40.0 * np, "act"); } ensure!(dist(&dm(&SO3::hat(v3::<T>(x))), &skew(x)) == 0.0 && g3(SO3::vee(SO3::hat(v3::<T>(x)))) == x); ensure!(SO3::<T>::default() == SO3::identity()); let q = unit::<T>(g); let k = T::c(if T::IS32 { g.log10(-3.0, 3.0) } else { g.log10(-10.0, 10.0) }); let fq = SO3::from_quaternion(q * k); close!(g, fq.quaternion().norm().g(), 1.0, e * 6.0, "from_quaternion normalises"); ensure!(SO3::try_from_quaternion(q * k) == Some(fq)); ensure!(SO3::try_from_quaternion(q * T::ZERO).is_none() && SO3::try_from_quaternion(q * T::c(f64::NAN)).is_none() && SO3::try_from_quaternion(q * T::c(f64::INFINITY)).is_none()); close!(g, ((a * b) * c).normalized().quaternion().norm().g(), 1.0, e * 4.0, "normalized");
    let jac = |s: f64| { let i3 = DM::eye(3); let big = block(6, 6, &[(0, 0, &skew(x).scale(s)), (0, 3, &i3)]).expm(); DM::from_fn(3, 3, |i, j| big.f(i, j + 3)) }; let (jl, jr) = (jac(1.0), jac(-1.0)); let x3 = v3::<T>(x); close!(g, dist(&dm(&SO3::left_jacobian(x3)), &jl), 0.0, e * 160.0, "left Jacobian"); close!(g, dist(&dm(&SO3::right_jacobian(x3)), &jr), 0.0, e * 160.0, "right Jacobian"); close!(g, dist(&dm(&SO3::left_jacobian_inverse(x3)), &jl.inv().unwrap()), 0.0, e * 200.0, "left inverse"); close!(g, dist(&dm(&SO3::right_jacobian_inverse(x3)), &jr.inv().unwrap()), 0.0, e * 200.0, "right inverse");
    match SO3::try_from_matrix(a.to_matrix()) { Some(r) => close!(g, dist(&dm(&r.to_matrix()), &ma), 0.0, e * 40.0, "matrix round trip"), None => bad!("its own matrix rejected") } let mut bm = a.to_matrix(); let k = g.below(4); match k { 0 => bm[(g.below(3), g.below(3))] = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])), 1 => { let s = T::c(1.0 + g.sign() * g.log10(e.log10() + 2.2, -0.1)); bm = bm.scale(s); } 2 => { let s = g.below(3); for i in 0..3 { bm[(i, s)] = -bm[(i, s)]; } } _ => { let (i, j) = (g.below(3), g.below(3)); bm[(i, j)] += T::c(g.sign() * g.log10(e.log10() + 3.5, 0.0)); let d = dm(&bm); if d.t().mul(&d).sub(&DM::eye(3)).max_abs() < e * 60.0 { return Ok(()); } } } ensure!(SO3::try_from_matrix(bm).is_none(), "malformed matrix (kind {k}) accepted {bm:?}");
    let t = rnd::<T>(g.f(0.0, 1.0)); let rel = dm(&(a.inverse() * b).to_matrix()); let w = nrm(&g3((a.inverse() * b).log())); if w < 3.0 { let lg = g3((a.inverse() * b).log()); let _ = rel; let want = ma.mul(&skew(lg).scale(t).expm()); close!(g, dist(&dm(&a.interpolate(b, T::c(t)).to_matrix()), &want), 0.0, e * 400.0, "interpolate"); }
    let kx = g.below(3); let du = Vector::<3, Dual<T>>::from_fn(|i| Dual::new(T::c(x[i]), if i == kx { T::ONE } else { T::ZERO })); let w = SO3::exp(du).act(Vector::from_fn(|i| Dual::constant(T::c(p[i])))); let at = mv(&ma, p); let wd = cross([0, 1, 2].map(|i| jl.f(i, kx)), at); for i in 0..3 { close!(g, w[i].deriv.g(), wd[i], e * 120.0 * np, "derivative of exp in {kx}"); }
    g.nontrivial_if(th > 1e-9); Ok(())
}
fn direction_pairs<T: Fl>(g: &mut G) -> R {
    let e = T::EPS; let r = rotvec::<T>(g); let m = skew(r).expm(); let (a, b) = (dirs(g), dirs(g)); let s = nrm(&cross(a, b)); if s < 0.05 { discard!() } let (l1, l2, l3, l4) = (g.log10(-3.0, 3.0), g.log10(-3.0, 3.0), g.log10(-3.0, 3.0), g.log10(-3.0, 3.0)); let noise = if g.bool() { 0.0 } else { g.u(0.0, 0.2) }; let c: V3 = { let w = mv(&m, b); let n = dirs(g); [0, 1, 2].map(|i| w[i] + noise * n[i]) };
    let (ao, bo, ar, br) = (a.map(|x| rnd::<T>(x * l1)), b.map(|x| rnd::<T>(x * l2)), mv(&m, a).map(|x| rnd::<T>(x * l3)), c.map(|x| rnd::<T>(x * l4))); let un = |v: V3| { let n = nrm(&v); v.map(|x| x / n) }; g.note("pairs", &(ao, bo, ar, br)); let s2 = nrm(&cross(un(ar), un(br))); if s2 < 0.05 { discard!() }
    let Some(q) = SO3::from_two_direction_pairs(v3::<T>(ao), v3(bo), v3(ar), v3(br)) else { bad!("independent directions rejected") }; let w = g3(q.act(v3::<T>(un(ao)))); for i in 0..3 { close!(g, w[i], un(ar)[i], e * 60.0, "primary direction carried exactly"); } let w = g3(q.act(v3::<T>(un(bo)))); let nn = un(cross(un(ar), un(br))); let off: f64 = (0..3).map(|i| w[i] * nn[i]).sum(); close!(g, off, 0.0, e * 400.0, "secondary stays in the reference plane"); let side: f64 = { let t = cross(nn, un(ar)); (0..3).map(|i| w[i] * t[i]).sum() }; ensure!(side > 0.0, "secondary on the wrong side"); if noise == 0.0 { close!(g, dist(&dm(&q.to_matrix()), &m), 0.0, e * 2000.0, "recovered rotation"); }
    let z = [0.0; 3]; let par = ao.map(|x| -x * 2.0); let mut nf = ao; nf[g.below(3)] = g.pick(&[f64::NAN, f64::INFINITY]); ensure!(SO3::from_two_direction_pairs(v3::<T>(z), v3(bo), v3(ar), v3(br)).is_none() && SO3::from_two_direction_pairs(v3::<T>(ao), v3(z), v3(ar), v3(br)).is_none() && SO3::from_two_direction_pairs(v3::<T>(ao), v3(par), v3(ar), v3(br)).is_none() && SO3::from_two_direction_pairs(v3::<T>(ao), v3(bo), v3(ar), v3(ar)).is_none()); let k = g.below(4); let args = [ao, bo, ar, br]; let mut args = args; args[k] = nf; ensure!(SO3::from_two_direction_pairs(v3::<T>(args[0]), v3(args[1]), v3(args[2]), v3(args[3])).is_none(), "non-finite argument {k}"); g.nontrivial(); Ok(())
}
fn hat6(x: &[f64; 6]) -> DM { DM::from_fn(4, 4, |i, j| [[0.0, -x[5], x[4], x[0]], [x[5], 0.0, -x[3], x[1]], [-x[4], x[3], 0.0, x[2]], [0.0; 4]][i][j]) }
fn se3<T: Fl>(g: &mut G) -> R {
    let e = T::EPS; let mut tw = || { let p = trans::<T>(g); let r = rotvec::<T>(g); [p[0], p[1], p[2], r[0], r[1], r[2]] }; let (x, y) = (tw(), tw()); g.note("twists", &(x, y)); let v6 = |x: [f64; 6]| Vector::<6, T>::new(x.map(T::c)); let (nx, ny) = (nrm(&x[..3]), nrm(&y[..3])); let (rx, ry) = ([x[3], x[4], x[5]], [y[3], y[4], y[5]]); let th = nrm(&rx);
    let (a, b) = (SE3::exp(v6(x)), SE3::exp(v6(y))); let (ma, mb) = (hat6(&x).expm(), hat6(&y).expm()); let close = |g: &mut G, m: &DM, w: &DM, s: f64, what: &str| -> R { for i in 0..4 { for j in 0..4 { let t = if j == 3 && i < 3 { e * 300.0 * s } else { e * 32.0 }; close!(g, m.f(i, j), w.f(i, j), t + 1e-300, "{what} ({i},{j})"); } } Ok(()) };
    close(g, &dm(&a.to_matrix()), &ma, nx, "exp")?; close(g, &dm(&(a * b).to_matrix()), &ma.mul(&mb), nx + ny, "compose")?; ensure!(a * b == a.compose(b)); let mi = ma.inv().unwrap(); close(g, &dm(&a.inverse().to_matrix()), &mi, nx, "inverse")?; ensure!(a.rotation() == SO3::exp(v3(rx)) && SE3::from_parts(a.rotation(), a.translation()) == a && SE3::<T>::default() == SE3::identity());
    if th < std::f64::consts::PI - 1e-3 { let l = a.log(); for i in 0..3 { close!(g, l[i].g(), x[i], e * 100.0 * nx, "log linear"); close!(g, l[i + 3].g(), x[i + 3], e * 32.0, "log angular"); } } let l: [f64; 6] = a.log().as_array().map(|v| v.g()); close(g, &dm(&SE3::exp(v6(l)).to_matrix()), &ma, nx * 4.0, "exp(log)")?;
    let p = trans::<T>(g); let np = nrm(&p); let w = g3(a.act(v3(p))); for i in 0..3 { close!(g, w[i], (0..3).map(|j| ma.f(i, j) * p[j]).sum::<f64>() + ma.f(i, 3), e * 300.0 * (np + nx), "act"); } let h = SE3::hat(v6(x)); ensure!(dist(&dm(&h), &hat6(&x)) == 0.0 && SE3::vee(h) == v6(x));
    let m6 = |m: &DM, v: &[f64; 6]| -> [f64; 6] { core::array::from_fn(|i| (0..6).map(|j| m.f(i, j) * v[j]).sum()) }; let z = m6(&dm(&a.adjoint()), &y); let w = ma.mul(&hat6(&y)).mul(&mi); close!(g, dist(&hat6(&z), &w), 0.0, e * 100.0 * (ny + nrm(&ry) * (1.0 + nx)) + 1e-300, "adjoint"); let fa = dm(&a.force_adjoint()); let ai = dm(&a.inverse().adjoint()); close!(g, dist(&fa, &ai.t()), 0.0, e * 100.0 * (1.0 + nx), "force adjoint is the inverse transpose");
    let mut adm = DM::zeros(6, 6); { let (s, r) = (skew(rx), skew([x[0], x[1], x[2]])); for i in 0..3 { for j in 0..3 { adm.set(i, j, s.at(i, j)); adm.set(i + 3, j + 3, s.at(i, j)); adm.set(i, j + 3, r.at(i, j)); } } }
    let jac = |s: f64| { let i6 = DM::eye(6); let big = block(12, 12, &[(0, 0, &adm.scale(s)), (0, 6, &i6)]).expm(); DM::from_fn(6, 6, |i, j| big.f(i, j + 6)) }; let (jl, jr) = (jac(1.0), jac(-1.0)); let cj = |g: &mut G, m: &DM, w: &DM, s: f64, what: &str| -> R { for i in 0..6 { for j in 0..6 { let t = if i < 3 && j >= 3 { e * s * nx } else { e * s }; close!(g, m.f(i, j), w.f(i, j), t + 1e-300, "{what} ({i},{j})"); } } Ok(()) };
    cj(g, &dm(&SE3::left_jacobian(v6(x))), &jl, 2000.0, "left Jacobian")?; cj(g, &dm(&SE3::right_jacobian(v6(x))), &jr, 2000.0, "right Jacobian")?; cj(g, &dm(&SE3::left_jacobian_inverse(v6(x))), &jl.inv().unwrap(), 6000.0, "left inverse")?; cj(g, &dm(&SE3::right_jacobian_inverse(v6(x))), &jr.inv().unwrap(), 6000.0, "right inverse")?;
    let t = rnd::<T>(g.f(-0.5, 1.5)); let rel = a.inverse().compose(b); let lg: [f64; 6] = rel.log().as_array().map(|v| v.g()); if nrm(&lg[3..]) < 3.0 { let w = ma.mul(&hat6(&lg).scale(t).expm()); close(g, &dm(&a.interpolate(b, T::c(t)).to_matrix()), &w, (nx + ny) * 8.0, "interpolate")?; }
    match SE3::try_from_matrix(a.to_matrix()) { Some(r) => close(g, &dm(&r.to_matrix()), &dm(&a.to_matrix()), nx, "matrix round trip")?, None => bad!("its own matrix rejected") } let mut bm = a.to_matrix(); let k = g.below(4); match k { 0 => bm[(g.below(4), g.below(4))] = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])), 1 => bm[(3, g.below(3))] += T::c(g.sign() * g.log10(e.log10() + 2.0, 1.0)), 2 => bm[(3, 3)] += T::c(g.sign() * g.log10(e.log10() + 2.0, 1.0)), _ => { let c = g.below(3); for i in 0..3 { bm[(i, c)] = -bm[(i, c)]; } } } ensure!(SE3::try_from_matrix(bm).is_none(), "malformed matrix (kind {k}) accepted {bm:?}");
    let kx = g.below(6); let du = Vector::<6, Dual<T>>::from_fn(|i| Dual::new(T::c(x[i]), if i == kx { T::ONE } else { T::ZERO })); let w = SE3::exp(du).act(Vector::from_fn(|i| Dual::constant(T::c(p[i])))); let at: V3 = [0, 1, 2].map(|i| (0..3).map(|j| ma.f(i, j) * p[j]).sum::<f64>() + ma.f(i, 3)); let c = cross([jl.f(3, kx), jl.f(4, kx), jl.f(5, kx)], at); for i in 0..3 { close!(g, w[i].deriv.g(), jl.f(i, kx) + c[i], e.powf(0.66) * 30.0 * (1.0 + np + nx), "derivative of exp in {kx}"); }
    g.nontrivial_if(th > 1e-9 && nx > 0.0); g.label_if(th < 1e-5 && th > 0.0, "small angle"); g.label_if(th > 3.1, "near a half turn"); Ok(())
}
fn mats(_: &mut G) -> R { let z: Matrix<3, 3> = Matrix::zeros(); ensure!(SO3::try_from_matrix(z).is_none() && Q::try_from_rotation_matrix(z).is_none_or(|q| q.norm().is_finite())); Ok(()) }
fn main() {
    run("C12", &["rotations of unit quaternions and tangents up to half a turn; tolerances are multiples of the scalar's epsilon, f32 and f64", "Euler angles are compared as rotations, to the square root of the tolerance at the gimbal poles"], &[
        law!("algebra", 40000, algebra::<f64>, "non-zero quaternions"), law!("algebra_f32", 20000, algebra::<f32>, "non-zero quaternions"),
        law!("rotations", 40000, rotations::<f64>, "an angle above 1e-3"), law!("rotations_f32", 20000, rotations::<f32>, "an angle above 1e-3"),
        law!("two_vectors", 30000, two_vectors::<f64>, "directions apart"), law!("two_vectors_f32", 15000, two_vectors::<f32>, "directions apart"),
        law!("so2", 20000, so2::<f64>, "a non-zero angle"), law!("so2_f32", 10000, so2::<f32>, "a non-zero angle"),
        law!("se2", 15000, se2::<f64>, "rotation and translation"), law!("se2_f32", 8000, se2::<f32>, "rotation and translation"),
        law!("so3", 15000, so3::<f64>, "a rotation"), law!("so3_f32", 8000, so3::<f32>, "a rotation"),
        law!("direction_pairs", 20000, direction_pairs::<f64>, "every case"), law!("direction_pairs_f32", 8000, direction_pairs::<f32>, "every case"),
        law!("se3", 8000, se3::<f64>, "rotation and translation"), law!("se3_f32", 5000, se3::<f32>, "rotation and translation"),
        law!("degenerate", 4, mats, "every case"),
    ]);
}
