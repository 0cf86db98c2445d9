//! C13: twists, wrenches, inertias and rigid-body motion against clouds of point masses.
use checks::util::*;
use multicalc::dynamics::{free_joint_from_state_vector, state_vector_from_free_joint, RigidBody};
use multicalc::error::{DynamicsError, SpatialError};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::spatial::{FreeJointState, Quaternion, SpatialInertia, Twist, Wrench, SE3, SO3};
use vk::*;

type V3 = [f64; 3];
type M3 = [[f64; 3]; 3];
fn v3<T: Fl>(a: V3) -> Vector<3, T> { Vector::new(a.map(T::c)) }
fn g3<T: Fl>(v: Vector<3, T>) -> V3 { v.as_array().map(|x| x.g()) }
fn nrm(a: &[f64]) -> f64 { a.iter().map(|x| x * x).sum::<f64>().sqrt() }
fn cross(a: V3, b: V3) -> V3 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn dot(a: V3, b: V3) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn add(a: V3, b: V3) -> V3 { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
fn sub(a: V3, b: V3) -> V3 { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn sc(a: V3, k: f64) -> V3 { a.map(|x| x * k) }
fn mv(m: &M3, v: V3) -> V3 { [dot(m[0], v), dot(m[1], v), dot(m[2], v)] }
fn tr(m: &M3) -> M3 { [0, 1, 2].map(|i| [0, 1, 2].map(|j| m[j][i])) }
fn rot<T: Fl>(q: Quaternion<T>) -> M3 { let a = q.as_array().map(|x| x.g()); let n = nrm(&a); let [w, x, y, z] = a.map(|v| v / n); [[1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)], [2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)], [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)]] }
fn vec3<T: Fl>(g: &mut G, s: f64) -> V3 { if g.chance(1, 12) { return [0.0; 3]; } if g.chance(1, 6) { let mut a = [0.0; 3]; a[g.below(3)] = rnd::<T>(g.sign() * s); return a; } [0; 3].map(|_| rnd::<T>(g.f(-2.0, 2.0) * s)) }
fn ori<T: Fl>(g: &mut G) -> SO3<T> { let v = if g.chance(1, 8) { [0.0; 3] } else { [0; 3].map(|_| g.f(-3.0, 3.0)) }; SO3::exp(v3(v)) }
fn scale<T: Fl>(g: &mut G) -> f64 { if g.chance(1, 3) { if T::IS32 { g.log10(-3.0, 3.0) } else { g.log10(-6.0, 6.0) } } else { 1.0 } }
fn cl(g: &mut G, a: &[f64], b: &[f64], tol: f64, what: &str) -> R { for i in 0..a.len() { close!(g, a[i], b[i], tol, "{what} [{i}]"); } Ok(()) }
fn tw<T: Fl>(v: V3, w: V3) -> Twist<T> { Twist::new(v3(v), v3(w)) }
fn wr<T: Fl>(f: V3, t: V3) -> Wrench<T> { Wrench::new(v3(f), v3(t)) }

/// Frame changes and cross products of motions and forces.
fn transport<T: Fl>(g: &mut G) -> R {
    let e = T::EPS; let s = [scale::<T>(g), scale::<T>(g), scale::<T>(g), scale::<T>(g)]; let (v, w, f, t) = (vec3::<T>(g, s[0]), vec3::<T>(g, s[1]), vec3::<T>(g, s[2]), vec3::<T>(g, s[3])); let (v2, w2) = (vec3::<T>(g, s[0]), vec3::<T>(g, s[1])); let p = { let k = scale::<T>(g); vec3::<T>(g, k) }; let o = ori::<T>(g); g.note("v,w,f,t", &(v, w, f, t)); g.note("pose", &(o, p)); let x = SE3::from_parts(o, v3(p)); let r = rot(o.quaternion()); let (nv, nw, nf, nt, np, nv2, nw2) = (nrm(&v), nrm(&w), nrm(&f), nrm(&t), nrm(&p), nrm(&v2), nrm(&w2)); let (a, b, c) = (tw::<T>(v, w), tw::<T>(v2, w2), wr::<T>(f, t));
    let aw = mv(&r, w); let av = add(mv(&r, v), cross(p, aw)); let m = x.act_twist(a); cl(g, &g3(m.angular()), &aw, e * 24.0 * nw, "act_twist angular")?; cl(g, &g3(m.linear()), &av, e * 40.0 * (nv + np * nw), "act_twist linear")?; let back = x.inverse_act_twist(m); cl(g, &g3(back.angular()), &w, e * 60.0 * nw, "inverse_act_twist")?; cl(g, &g3(back.linear()), &v, e * 120.0 * (nv + np * nw), "inverse_act_twist linear")?; let l = x.adjoint() * a.to_vector(); for i in 0..6 { close!(g, l[i].g(), m.as_array()[i].g(), if i < 3 { e * 60.0 * (nv + np * nw) } else { e * 40.0 * nw }, "adjoint matrix {i}"); }
    let bf = mv(&r, f); let bt = add(mv(&r, t), cross(p, bf)); let n = x.act_wrench(c); cl(g, &g3(n.force()), &bf, e * 24.0 * nf, "act_wrench force")?; cl(g, &g3(n.torque()), &bt, e * 40.0 * (nt + np * nf), "act_wrench torque")?; let back = x.inverse_act_wrench(n); cl(g, &g3(back.force()), &f, e * 60.0 * nf, "inverse_act_wrench")?; cl(g, &g3(back.torque()), &t, e * 120.0 * (nt + np * nf), "inverse_act_wrench torque")?; let l = x.force_adjoint() * c.to_vector(); for i in 0..6 { close!(g, l[i].g(), n.as_array()[i].g(), if i >= 3 { e * 60.0 * (nt + np * nf) } else { e * 40.0 * nf }, "force adjoint {i}"); }
    let (i1, i2) = (x.inverse().act_twist(a), x.inverse_act_twist(a)); cl(g, &g3(i1.linear()), &g3(i2.linear()), e * 120.0 * (nv + np * nw), "two ways back")?; let (i1, i2) = (x.inverse().act_wrench(c), x.inverse_act_wrench(c)); cl(g, &g3(i1.torque()), &g3(i2.torque()), e * 120.0 * (nt + np * nf), "two ways back (wrench)")?;
    let pw = dot(v, f) + dot(w, t); let pn = nv * nf + nw * nt; close!(g, a.dot_wrench(c).g(), pw, e * 8.0 * pn, "power"); close!(g, m.dot_wrench(n).g(), pw, e * 200.0 * (pn + np * nw * nf), "power in the other frame");
    // cross products: definition, duality, antisymmetry, equivariance
    let k = a.cross(b); cl(g, &g3(k.angular()), &cross(w, w2), e * 6.0 * nw * nw2, "cross angular")?; cl(g, &g3(k.linear()), &add(cross(w, v2), cross(v, w2)), e * 12.0 * (nw * nv2 + nv * nw2), "cross linear")?; let d = b.cross(a); cl(g, &d.as_array().map(|x| -x.g()), &k.as_array().map(|x| x.g()), e * 24.0 * (nw * nw2 + nw * nv2 + nv * nw2), "antisymmetry")?;
    let cw = a.cross_wrench(c); cl(g, &g3(cw.force()), &cross(w, f), e * 6.0 * nw * nf, "cross_wrench force")?; cl(g, &g3(cw.torque()), &add(cross(w, t), cross(v, f)), e * 12.0 * (nw * nt + nv * nf), "cross_wrench torque")?; let mag = nv * nw2 * nf + nw * nv2 * nf + nw * nw2 * nt; close!(g, k.dot_wrench(c).g(), -b.dot_wrench(cw).g(), e * 60.0 * mag, "motion and force cross products are dual");
    // arithmetic and conversions
    let (aa, bb) = (a.as_array(), b.as_array()); for i in 0..6 { ensure!((a + b).as_array()[i] == aa[i] + bb[i] && (a - b).as_array()[i] == aa[i] - bb[i] && (-a).as_array()[i] == -aa[i] && a.scale(bb[1]).as_array()[i] == aa[i] * bb[1] && a.to_vector()[i] == aa[i]); } ensure!(Twist::from_array(aa) == a && Twist::from_vector(a.to_vector()) == a && Twist::from(Vector::from(a)) == a && g3(a.linear()) == v && g3(a.angular()) == w && Twist::<T>::default() == Twist::zeros() && Twist::<T>::zeros().as_array() == [T::ZERO; 6]);
    let d = wr::<T>(v2, w2); let (ca, da) = (c.as_array(), d.as_array()); for i in 0..6 { ensure!((c + d).as_array()[i] == ca[i] + da[i] && (c - d).as_array()[i] == ca[i] - da[i] && (-c).as_array()[i] == -ca[i] && c.scale(da[2]).as_array()[i] == ca[i] * da[2] && c.to_vector()[i] == ca[i]); } ensure!(Wrench::from_array(ca) == c && Wrench::from_vector(c.to_vector()) == c && Wrench::from(Vector::from(c)) == c && g3(c.force()) == f && g3(c.torque()) == t && Wrench::<T>::default() == Wrench::zeros());
    g.nontrivial_if(nv > 0.0 && nw > 0.0 && nf > 0.0 && nt > 0.0); Ok(())
}
/// Point masses standing for a rigid body.
fn cloud<T: Fl>(g: &mut G, k: f64, at: V3) -> Vec<(f64, V3)> { let n = 4 + g.below(4); (0..n).map(|_| (g.u(0.2, 2.0), add(at, [0; 3].map(|_| g.f(-1.0, 1.0) * k)))).collect() }
fn props(c: &[(f64, V3)]) -> (f64, V3, M3) { let m: f64 = c.iter().map(|x| x.0).sum(); let com = sc(c.iter().fold([0.0; 3], |s, x| add(s, sc(x.1, x.0))), 1.0 / m); (m, com, about(c, com)) }
fn about(c: &[(f64, V3)], p: V3) -> M3 { let mut j = [[0.0; 3]; 3]; for (m, r) in c { let d = sub(*r, p); for a in 0..3 { for b in 0..3 { j[a][b] += m * (if a == b { dot(d, d) } else { 0.0 } - d[a] * d[b]); } } } j }
fn body<T: Fl>(c: &[(f64, V3)]) -> Option<SpatialInertia<T>> { let (m, p, j) = props(c); SpatialInertia::new(T::c(m), v3(p), Matrix::from_fn(|a, b| T::c(j[a.min(b)][a.max(b)]))).ok() }
fn spread(c: &[(f64, V3)]) -> f64 { let (m, _, j) = props(c); let d = j[0][0] * (j[1][1] * j[2][2] - j[1][2] * j[2][1]) - j[0][1] * (j[1][0] * j[2][2] - j[1][2] * j[2][0]) + j[0][2] * (j[1][0] * j[2][1] - j[1][1] * j[2][0]); let t = (j[0][0] + j[1][1] + j[2][2]) / 3.0; if m > 0.0 && t > 0.0 { d / (t * t * t) } else { 0.0 } }
fn inertia<T: Fl>(g: &mut G) -> R {
    let e = T::EPS; let k = scale::<T>(g).clamp(1e-3, 1e3); let at = if g.bool() { [0.0; 3] } else { [0; 3].map(|_| g.f(-2.0, 2.0) * k) }; let c1 = cloud::<T>(g, k, at); let at2 = [0; 3].map(|_| g.f(-2.0, 2.0) * k); let c2 = cloud::<T>(g, k, at2); g.note("clouds", &(&c1, &c2)); if spread(&c1) < 1e-3 || spread(&c2) < 1e-3 { discard!() }
    let (Some(b1), Some(b2)) = (body::<T>(&c1), body::<T>(&c2)) else { bad!("a body of point masses was rejected") }; let (m1, p1, j1) = props(&c1); let (ext, mt) = (nrm(&at) + nrm(&at2) + 4.0 * k, m1 + props(&c2).0); let js = mt * ext * ext; ensure!(b1.mass() == T::c(m1) && b1.center_of_mass() == v3(p1) && b1.is_finite()); for a in 0..3 { for b in 0..3 { ensure!(b1.rotational_inertia()[(a, b)] == T::c(j1[a.min(b)][a.max(b)])); } }
    let q = { let k2 = g.f(-3.0, 3.0); sc([g.f(-1.0, 1.0), g.f(-1.0, 1.0), 1.0], k * k2) }.map(|x| rnd::<T>(x)); let ja = about(&c1, q); let ji = b1.inertia_about(v3(q)); for a in 0..3 { for b in 0..3 { close!(g, ji[(a, b)].g(), ja[a][b], e * 40.0 * (js + m1 * dot(q, q)), "inertia about a point"); } }
    let (v, w) = (vec3::<T>(g, 1.0), vec3::<T>(g, 1.0 / k)); let vel = tw::<T>(v, w); let (mut lin, mut ang, mut ke) = ([0.0; 3], [0.0; 3], 0.0); for (m, r) in &c1 { let u = add(v, cross(w, *r)); lin = add(lin, sc(u, *m)); ang = add(ang, cross(*r, sc(u, *m))); ke += 0.5 * m * dot(u, u); } let (sv, so) = (nrm(&v) + nrm(&w) * ext, nrm(&w)); let h = b1.momentum(vel); cl(g, &g3(h.force()), &lin, e * 60.0 * mt * sv, "linear momentum")?; cl(g, &g3(h.torque()), &ang, e * 80.0 * mt * sv * ext, "angular momentum")?; close!(g, b1.kinetic_energy(vel).g(), ke, e * 100.0 * mt * sv * sv, "kinetic energy");
    let mm = b1.to_matrix() * vel.to_vector(); for i in 0..6 { close!(g, mm[i].g(), h.as_array()[i].g(), e * 100.0 * mt * sv * if i < 3 { 1.0 } else { ext }, "6x6 inertia row {i}"); } for i in 0..6 { for j in 0..6 { ensure!((b1.to_matrix()[(i, j)] - b1.to_matrix()[(j, i)]).g().abs() <= e * 8.0 * js.max(m1), "6x6 symmetric"); } }
    let bw = b1.bias_wrench(vel); cl(g, &g3(bw.force()), &cross(w, lin), e * 100.0 * mt * sv * so, "bias force")?; cl(g, &g3(bw.torque()), &add(cross(w, ang), cross(v, lin)), e * 200.0 * mt * sv * (so * ext + nrm(&v)), "bias torque")?;
    // merged bodies and bodies seen from elsewhere
    let all: Vec<_> = c1.iter().chain(&c2).copied().collect(); let (ma, pa, ja) = props(&all); let cb = b1.combined(b2); close!(g, cb.mass().g(), ma, e * 8.0 * ma, "combined mass"); cl(g, &g3(cb.center_of_mass()), &pa, e * 16.0 * ext, "combined balance point")?; for a in 0..3 { for b in 0..3 { close!(g, cb.rotational_inertia()[(a, b)].g(), ja[a][b], e * 80.0 * js, "combined inertia"); } } let bc = b2.combined(b1); for a in 0..3 { for b in 0..3 { close!(g, bc.rotational_inertia()[(a, b)].g(), ja[a][b], e * 80.0 * js, "combined the other way"); } }
    let o = ori::<T>(g); let p: V3 = { let z = g.f(-2.0, 2.0); sc([1.0, g.f(-1.0, 1.0), g.f(-1.0, 1.0)], z * k) }.map(|x| rnd::<T>(x)); let x = SE3::from_parts(o, v3(p)); let r = rot(o.quaternion()); let moved: Vec<_> = c1.iter().map(|(m, q)| (*m, add(mv(&r, *q), p))).collect(); let (mm_, pm, jm) = props(&moved); let xb = x.act_inertia(b1); let ext2 = ext + nrm(&p); close!(g, xb.mass().g(), mm_, e * 8.0 * m1, "moved mass"); cl(g, &g3(xb.center_of_mass()), &pm, e * 40.0 * ext2, "moved balance point")?; for a in 0..3 { for b in 0..3 { close!(g, xb.rotational_inertia()[(a, b)].g(), jm[a][b], e * 80.0 * js, "moved inertia"); } } let back = x.inverse_act_inertia(xb); cl(g, &g3(back.center_of_mass()), &p1, e * 120.0 * ext2, "moved back")?; for a in 0..3 { for b in 0..3 { close!(g, back.rotational_inertia()[(a, b)].g(), j1[a][b], e * 160.0 * js, "moved back inertia"); } }
    close!(g, xb.kinetic_energy(x.act_twist(vel)).g(), ke, e * 1000.0 * mt * (sv + so * nrm(&p)) * (sv + so * nrm(&p)), "kinetic energy is frame independent"); let (h2, h3) = (xb.momentum(x.act_twist(vel)), x.act_wrench(h)); cl(g, &g3(h2.force()), &g3(h3.force()), e * 400.0 * mt * (sv + so * nrm(&p)), "momentum moves as a wrench")?; cl(g, &g3(h2.torque()), &g3(h3.torque()), e * 400.0 * mt * (sv + so * nrm(&p)) * ext2, "momentum moves as a wrench (torque)")?;
    g.nontrivial_if(so > 0.0); Ok(())
}
/// Which mass properties are refused, and how.
fn refusal<T: Fl>(g: &mut G) -> R {
    let m = T::c(g.pick(&[1.0, 1e-6, 100.0])); let c = vec3::<T>(g, 1.0); let d = [0; 3].map(|_| T::c(g.u(0.1, 5.0))); let mut j = Matrix::<3, 3, T>::from_diagonal(d); let off = T::c(g.f(-0.02, 0.02)); let (a, b) = (g.below(3), g.below(3)); if a != b { j[(a, b)] = off; j[(b, a)] = off; } ensure!(SpatialInertia::new(m, v3(c), j).is_ok()); g.note("J", &j); g.note("m", &m);
    let bad = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])); let mut cb = v3::<T>(c); cb[g.below(3)] = bad; let mut jb = j; jb[(g.below(3), g.below(3))] = bad; ensure!(SpatialInertia::new(bad, v3(c), j) == Err(SpatialError::NonFinite) && SpatialInertia::new(m, cb, j) == Err(SpatialError::NonFinite) && SpatialInertia::new(m, v3(c), jb) == Err(SpatialError::NonFinite)); ensure!(SpatialInertia::new(T::ZERO, v3(c), j) == Err(SpatialError::NonPositiveMass) && SpatialInertia::new(-m, v3(c), j) == Err(SpatialError::NonPositiveMass));
    let mut ja = j; let (p, q) = { let i = g.below(3); (i, (i + 1 + g.below(2)) % 3) }; ja[(p, q)] += T::c(g.sign() * g.log10(-3.0, 1.0)); ensure!(SpatialInertia::new(m, v3(c), ja) == Err(SpatialError::NotSymmetric), "asymmetric inertia"); let mut jn = j; let i = g.below(3); jn[(i, i)] = if g.bool() { T::ZERO } else { -jn[(i, i)] }; ensure!(SpatialInertia::new(m, v3(c), jn) == Err(SpatialError::NonPositiveInertia)); let dg = Vector::new(d); ensure!(SpatialInertia::from_diagonal_inertia(m, v3(c), dg) == SpatialInertia::new(m, v3(c), Matrix::from_diagonal(d))); let mut dn = dg; dn[g.below(3)] = T::c(-1.0); ensure!(SpatialInertia::from_diagonal_inertia(m, v3(c), dn) == Err(SpatialError::NonPositiveInertia));
    // positive diagonal but not positive definite
    let mut ji = Matrix::<3, 3, T>::from_diagonal(d); let big = T::c((d[p].g() * d[q].g()).sqrt() * g.u(1.01, 3.0)); ji[(p, q)] = big; ji[(q, p)] = big; let gr = [0.0, 0.0, -9.81]; match SpatialInertia::new(m, v3(c), ji) { Ok(b) => ensure!(RigidBody::new(b, v3(gr)) == Err(DynamicsError::NonPositiveInertia), "indefinite inertia"), Err(e) => bad!("{e:?}") } let ok = SpatialInertia::new(m, v3(c), j).unwrap(); let mut gb = v3::<T>(gr); gb[g.below(3)] = bad; ensure!(RigidBody::new(ok, gb) == Err(DynamicsError::NonFinite)); match RigidBody::new(ok, v3(gr)) { Ok(r) => ensure!(r.inertia() == ok && r.gravity() == v3(gr)), Err(e) => bad!("{e:?}") } g.nontrivial(); Ok(())
}
/// Newton and Euler for the cloud of point masses, from the accelerations reported for the body.
fn dynamics<T: Fl>(g: &mut G) -> R {
    let e = T::EPS; let k = if g.chance(1, 3) { g.log10(-2.0, 1.0) } else { 1.0 }; let at = if g.chance(1, 3) { [0.0; 3] } else { [0; 3].map(|_| g.f(-1.0, 1.0) * k) }; let c = cloud::<T>(g, k, at); let sp = spread(&c); if sp < 1e-2 { discard!() } let Some(b) = body::<T>(&c) else { bad!("rejected") }; let gr: V3 = if g.bool() { [0.0, 0.0, -9.81] } else { vec3::<T>(g, 5.0) }; let rb = match RigidBody::new(b, v3(gr)) { Ok(r) => r, Err(e) => bad!("{e:?}") }; let o = ori::<T>(g); let r = rot(o.quaternion()); let w = vec3::<T>(g, 2.0); let (f, t) = (vec3::<T>(g, 5.0), vec3::<T>(g, 5.0 * k)); g.note("cloud", &c); g.note("o,w,f,t", &(o, w, f, t));
    let a = rb.accelerations(o, v3(w), wr(f, t)); let al = g3(a.angular()); let lin = mv(&tr(&r), g3(a.linear())); let gb = mv(&tr(&r), gr); let (mut s, mut h) = ([0.0; 3], [0.0; 3]); let ext = nrm(&at) + 2.0 * k; let m: f64 = c.iter().map(|x| x.0).sum(); for (mi, q) in &c { let acc = sub(add(lin, add(cross(al, *q), cross(w, cross(w, *q)))), gb); s = add(s, sc(acc, *mi)); h = add(h, cross(*q, sc(acc, *mi))); } let mag = nrm(&f) + m * (nrm(&lin) + nrm(&gb) + ext * (nrm(&al) + nrm(&w) * nrm(&w))); let tol = e * 600.0 / sp; cl(g, &s, &f, tol * mag, "mass times acceleration")?; cl(g, &h, &t, tol * (mag * ext + nrm(&t)), "rate of angular momentum")?;
    // thirteen-number form
    let pos = vec3::<T>(g, 3.0); let v = vec3::<T>(g, 3.0); let st = FreeJointState::new(SE3::from_parts(o, v3(pos)), tw::<T>(v, w)); let x = state_vector_from_free_joint(st); let q = o.quaternion().as_array(); for i in 0..3 { ensure!(x[i] == T::c(pos[i]) && x[i + 7] == T::c(v[i]) && x[i + 10] == T::c(w[i])); } for i in 0..4 { ensure!(x[3 + i] == q[i]); } ensure!(st.generalized_position() == core::array::from_fn::<T, 7, _>(|i| x[i]) && st.generalized_velocity() == core::array::from_fn::<T, 6, _>(|i| x[i + 7]));
    let y = free_joint_from_state_vector(&x).unwrap(); cl(g, &y.generalized_position().map(|z| z.g()), &st.generalized_position().map(|z| z.g()), e * 8.0 * (1.0 + nrm(&pos)), "state round trip")?; ensure!(y.velocity() == st.velocity() && y.pose().translation() == st.pose().translation());
    let mut xs = x; let k2 = T::c(g.log10(-2.0, 2.0)); for i in 3..7 { xs[i] = x[i] * k2; } let d = rb.state_derivative(&xs, wr(f, t)); for i in 0..3 { ensure!(d[i] == x[i + 7]); let tol = e * 60.0 / sp; close!(g, d[i + 7].g(), g3(a.linear())[i], tol * (nrm(&f) / m + nrm(&gr) + ext * (nrm(&al) + nrm(&w) * nrm(&w))), "derivative of velocity"); close!(g, d[i + 10].g(), al[i], tol * nrm(&al) + 1e-300, "derivative of rate"); } let qs: [f64; 4] = core::array::from_fn(|i| xs[3 + i].g()); let want = [-0.5 * (qs[1] * w[0] + qs[2] * w[1] + qs[3] * w[2]), 0.5 * (qs[0] * w[0] + qs[2] * w[2] - qs[3] * w[1]), 0.5 * (qs[0] * w[1] + qs[3] * w[0] - qs[1] * w[2]), 0.5 * (qs[0] * w[2] + qs[1] * w[1] - qs[2] * w[0])]; for i in 0..4 { close!(g, d[3 + i].g(), want[i], e * 12.0 * nrm(&qs) * nrm(&w), "derivative of the orientation"); } match free_joint_from_state_vector(&xs) { Some(y) => { let n = y.pose().rotation().quaternion(); for i in 0..4 { close!(g, n.as_array()[i].g(), q[i].g(), e * 16.0, "scaled orientation accepted"); } } None => bad!("scaled orientation rejected") }
    let mut xz = x; for i in 3..7 { xz[i] = T::ZERO; } ensure!(rb.state_derivative(&xz, wr(f, t)) == Vector::zeros() && free_joint_from_state_vector(&xz).is_none());
    // the midpoint step
    let h = rnd::<T>(g.log10(-4.0, -0.5)); let n = rb.stepped(st, wr(f, t), T::c(h)); let hw = add(w, sc(al, h / 2.0)); let hv = add(v, sc(g3(a.linear()), h / 2.0)); let oh = SO3::exp(v3(sc(w, h / 2.0))); let mid = rb.accelerations(o * oh, v3(hw), wr(f, t)); let wn = nrm(&w) + h * nrm(&al); let am = nrm(&g3(mid.linear())) + nrm(&g3(a.linear())) + nrm(&gr); let tol = e * 100.0 / sp; cl(g, &g3(n.pose().translation()), &add(pos, sc(hv, h)), tol * (nrm(&pos) + nrm(&v) * h + am * h * h), "midpoint position")?; cl(g, &g3(n.velocity().linear()), &add(v, sc(g3(mid.linear()), h)), tol * (nrm(&v) + (am + ext * wn * wn) * h), "midpoint velocity")?; cl(g, &g3(n.velocity().angular()), &add(w, sc(g3(mid.angular()), h)), tol * (wn + h * (nrm(&g3(mid.angular())) + wn * wn + nrm(&t) / (m * k * k) + nrm(&f) / (m * k))), "midpoint rate")?; let on = rot((o * SO3::exp(v3(sc(hw, h)))).quaternion()); let got = rot(n.pose().rotation().quaternion()); for i in 0..3 { cl(g, &got[i], &on[i], tol * (1.0 + h * wn), "midpoint orientation")?; } close!(g, n.pose().rotation().quaternion().norm().g(), 1.0, e * 8.0, "unit orientation");
    g.nontrivial_if(nrm(&w) > 0.0 && nrm(&f) > 0.0); Ok(())
}
/// A free body keeps its energy and angular momentum; halving the tick quarters the error.
fn conservation(g: &mut G) -> R {
    let at = if g.bool() { [0.0; 3] } else { [0; 3].map(|_| g.f(-0.5, 0.5)) }; let c = cloud::<f64>(g, 1.0, at); if spread(&c) < 0.05 { discard!() } let Some(b) = body::<f64>(&c) else { bad!("rejected") }; let gr = if g.bool() { [0.0; 3] } else { [0.0, 0.0, -9.81] }; let rb = RigidBody::new(b, v3(gr)).unwrap(); let o = ori::<f64>(g); let w = vec3::<f64>(g, 1.0); let v = vec3::<f64>(g, 1.0); g.note("cloud", &c); g.note("o,w,v", &(o, w, v)); let st = FreeJointState::new(SE3::from_parts(o, v3([0.0; 3])), tw::<f64>(v, w));
    // energy and world angular momentum about the balance point, all from the point masses
    let meas = |s: FreeJointState| { let r = rot(s.pose().rotation().quaternion()); let (om, vl, p) = (g3(s.velocity().angular()), g3(s.velocity().linear()), g3(s.pose().translation())); let (m, com, _) = props(&c); let cw = add(p, mv(&r, com)); let vb = mv(&tr(&r), vl); let vc = add(vl, mv(&r, cross(om, com))); let mut en = -m * dot(gr, cw); let mut l = [0.0; 3]; for (mi, q) in &c { let u = mv(&r, add(vb, cross(om, *q))); en += 0.5 * mi * dot(u, u); l = add(l, cross(sub(add(p, mv(&r, *q)), cw), sc(sub(u, vc), *mi))); } (en, l, cw, vc) };
    let (e0, l0, c0, v0) = meas(st); let t = 0.5; let steps = g.pick(&[200usize, 400]); let h = t / steps as f64; let run = |n: usize| { let mut s = st; for _ in 0..n { s = rb.stepped(s, Wrench::zeros(), t / n as f64); } s }; let s = run(steps); let s2 = run(steps * 2); let wmax = 2.0 * nrm(&w) * 10.0 + 1.0; let (e1, l1, c1, v1) = meas(s); let (e2, l2, _, _) = meas(s2); let sc_ = e0.abs() + 40.0; let lin = nrm(&l0) + 1.0; let bound = 2.0 * (wmax * h).powi(2) * (1.0 + wmax * t);
    close!(g, e1, e0, bound * sc_ + 1e-9, "energy"); for i in 0..3 { close!(g, l1[i], l0[i], bound * lin * 4.0 + 1e-9, "angular momentum {i}"); close!(g, c1[i], c0[i] + v0[i] * t + 0.5 * gr[i] * t * t, bound * 20.0 + 1e-8, "balance point flies a parabola {i}"); close!(g, v1[i], v0[i] + gr[i] * t, bound * 20.0 + 1e-8, "balance point velocity {i}"); }
    // fourth-order reference through the thirteen-number form
    let mut x = state_vector_from_free_joint(st); let n = 400; let hh = t / n as f64; for _ in 0..n { let f = |x: &Vector<13, f64>| rb.state_derivative(x, Wrench::zeros()); let k1 = f(&x); let k2 = f(&(x + k1 * (hh / 2.0))); let k3 = f(&(x + k2 * (hh / 2.0))); let k4 = f(&(x + k3 * hh)); x = x + (k1 + k2 * 2.0 + k3 * 2.0 + k4) * (hh / 6.0); } let rf = free_joint_from_state_vector(&x).unwrap(); let (er, lr, _, _) = meas(rf); close!(g, er, e0, 1e-6 * sc_, "energy through the fourth-order integrator"); for i in 0..3 { close!(g, lr[i], l0[i], 1e-6 * lin, "angular momentum through the fourth-order integrator"); }
    let diff = |a: FreeJointState| { let (p, q) = (a.generalized_position(), rf.generalized_position()); let s = if (3..7).map(|i| p[i] * q[i]).sum::<f64>() < 0.0 { -1.0 } else { 1.0 }; (0..7).map(|i| (p[i] - if i < 3 { 1.0 } else { s } * q[i]).abs()).chain((0..6).map(|i| (a.generalized_velocity()[i] - rf.generalized_velocity()[i]).abs())).fold(0.0, f64::max) }; let (d1, d2) = (diff(s), diff(s2)); if d1 > 1e-6 { let q = d1 / d2; ensure!(q > 2.5, "halving the tick only divided the error by {q} ({d1:e} -> {d2:e})"); g.label("second-order error seen"); } let _ = (e2, l2); g.nontrivial_if(nrm(&w) > 0.0); Ok(())
}
fn main() {
    run("C13", &["bodies are built from 4 to 7 point masses whose principal inertias are within about 1:100", "conservation is over half a second at rates to a few rad/s, to the documented second-order error"], &[
        law!("transport", 40000, transport::<f64>, "all four vectors non-zero"), law!("transport_f32", 20000, transport::<f32>, "all four vectors non-zero"),
        law!("inertia", 30000, inertia::<f64>, "a spinning body"), law!("inertia_f32", 15000, inertia::<f32>, "a spinning body"),
        law!("refusal", 10000, refusal::<f64>, "every case"), law!("refusal_f32", 5000, refusal::<f32>, "every case"),
        law!("dynamics", 30000, dynamics::<f64>, "a pushed, spinning body"), law!("dynamics_f32", 15000, dynamics::<f32>, "a pushed, spinning body"),
        law!("conservation", 400, conservation, "a spinning body"),
    ]);
}
