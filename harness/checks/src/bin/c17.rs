//! C17: collision distances against segment geometry worked out independently, and queries against a list model.
use checks::util::*;
use multicalc::error::KinematicsError as KE;
use multicalc::kinematics::{capsule_capsule_distance, sphere_capsule_distance, sphere_sphere_distance, CollisionQuery, CollisionReport, CollisionSource as CS, Joint, JointParent, KinematicTree, Primitive};
use multicalc::linear_algebra::Vector;
use multicalc::spatial::{SE3, SO3};
use vk::*;

type V3 = [f64; 3];
fn v3<T: Fl>(a: V3) -> Vector<3, T> { Vector::new(a.map(T::c)) }
fn sub(a: V3, b: V3) -> V3 { core::array::from_fn(|i| a[i] - b[i]) }
fn axpy(a: V3, s: f64, d: V3) -> V3 { core::array::from_fn(|i| a[i] + s * d[i]) }
fn dot(a: V3, b: V3) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: V3, b: V3) -> V3 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn nrm(a: V3) -> f64 { dot(a, a).sqrt() }
fn point_seg(p: V3, a: V3, b: V3) -> f64 { let d = sub(b, a); let l = dot(d, d); let s = if l > 0.0 { (dot(sub(p, a), d) / l).clamp(0.0, 1.0) } else { 0.0 }; nrm(sub(p, axpy(a, s, d))) }
/// The least distance between two segments: an end against the other segment, or the two lines' common perpendicular when it falls inside both.
fn seg_seg(a: V3, b: V3, c: V3, d: V3) -> f64 {
    let mut m = point_seg(a, c, d).min(point_seg(b, c, d)).min(point_seg(c, a, b)).min(point_seg(d, a, b)); let (u, v, w) = (sub(b, a), sub(d, c), sub(c, a)); let n = cross(u, v); let nn = dot(n, n);
    if nn > 0.0 { let s = dot(cross(w, v), n) / nn; let t = dot(cross(w, u), n) / nn; if (0.0..=1.0).contains(&s) && (0.0..=1.0).contains(&t) { m = m.min(point_seg(axpy(a, s, u), c, d)).min(point_seg(axpy(c, t, v), a, b)); } } m
}
fn zaxis<T: Fl>(x: &SE3<T>) -> V3 { let q = x.rotation().quaternion().as_array().map(|v| v.g()); let n = q.iter().map(|v| v * v).sum::<f64>().sqrt(); let [w, x, y, z] = q.map(|v| v / n); [2.0 * (x * z + w * y), 2.0 * (y * z - w * x), 1.0 - 2.0 * (x * x + y * y)] }
fn at<T: Fl>(x: &SE3<T>) -> V3 { x.translation().as_array().map(|v| v.g()) }
fn size<T: Fl>(p: &Primitive<T>) -> (f64, f64) { match *p { Primitive::Sphere { radius } => (radius.g(), 0.0), Primitive::Capsule { radius, half_length } => (radius.g(), half_length.g()) } }
fn ends<T: Fl>(p: &Primitive<T>, x: &SE3<T>) -> (V3, V3) { let h = size(p).1; let z = zaxis(x); (axpy(at(x), -h, z), axpy(at(x), h, z)) }
fn true_distance<T: Fl>(p: &Primitive<T>, x: &SE3<T>, o: &Primitive<T>, y: &SE3<T>) -> f64 { let ((a, b), (c, d)) = (ends(p, x), ends(o, y)); seg_seg(a, b, c, d) - size(p).0 - size(o).0 }
fn prim<T: Fl>(g: &mut G, s: f64) -> Primitive<T> { let radius = T::c(if g.chance(1, 6) { 0.0 } else { s * g.f(0.01, 0.6) }); if g.chance(1, 3) { Primitive::Sphere { radius } } else { let half_length = T::c(match g.below(6) { 0 => 0.0, 1 => s * g.log10(-6.0, 0.0), _ => s * g.f(0.05, 1.0) }); Primitive::Capsule { radius, half_length } } }
fn turn<T: Fl>(g: &mut G) -> SO3<T> { match g.below(4) { 0 => SO3::identity(), 1 => { let mut r = [0.0; 3]; r[g.below(3)] = g.pick(&[1.0, 2.0, -1.0]) * std::f64::consts::FRAC_PI_2; SO3::exp(v3(r)) } 2 => { let k = g.log10(-10.0, -1.0); SO3::exp(v3([k * g.bell(), k * g.bell(), g.f(-1.0, 1.0)])) } _ => SO3::exp(v3([g.f(-3.0, 3.0), g.f(-3.0, 3.0), g.f(-3.0, 3.0)])) } }
fn pose<T: Fl>(g: &mut G, s: f64) -> SE3<T> { let p = match g.below(5) { 0 => [0.0; 3], 1 => { let mut p = [0.0; 3]; p[g.below(3)] = s * g.f(-2.0, 2.0); p } _ => [0; 3].map(|_| s * g.f(-2.0, 2.0)) }; SE3::from_parts(turn(g), v3(p)) }
fn scale<T: Fl>(g: &mut G) -> f64 { if g.chance(1, 2) { 1.0 } else if T::IS32 { g.log10(-3.0, 2.0) } else { g.log10(-6.0, 3.0) } }

fn pair<T: Fl>(g: &mut G) -> R {
    let s = scale::<T>(g); let (a, b) = (prim::<T>(g, s), prim::<T>(g, s)); let (x, mut y) = (pose::<T>(g, s), pose::<T>(g, s)); if g.chance(1, 4) { let r = if g.chance(1, 2) { x.rotation() } else { x.rotation() * turn(g) }; y = SE3::from_parts(r, y.translation()); g.label("related orientation"); } if g.chance(1, 8) { let z = zaxis(&x); y = SE3::from_parts(y.rotation(), v3(axpy(at(&x), s * g.f(-2.0, 2.0), z))); g.label("centre on the other axis"); }
    g.note("shapes", &(a, b)); g.note("poses", &(x, y)); let far = nrm(at(&x)) + nrm(at(&y)) + [&a, &b].iter().map(|p| size(*p).0 + size(*p).1).sum::<f64>(); let tol = T::EPS * 30.0 * far; let w = true_distance(&a, &x, &b, &y); let d = a.distance_to(x, b, y); close!(g, d.g(), w, tol, "distance"); close!(g, b.distance_to(y, a, x).g(), w, tol, "swapped");
    let f = match (a, b) { (Primitive::Sphere { radius: r }, Primitive::Sphere { radius: q }) => { g.label("sphere-sphere"); sphere_sphere_distance(x, r, y, q) } (Primitive::Sphere { radius: r }, Primitive::Capsule { radius: q, half_length: h }) => { g.label("sphere-capsule"); sphere_capsule_distance(x, r, y, q, h) } (Primitive::Capsule { radius: q, half_length: h }, Primitive::Sphere { radius: r }) => sphere_capsule_distance(y, r, x, q, h), (Primitive::Capsule { radius: r, half_length: h }, Primitive::Capsule { radius: q, half_length: k }) => { g.label("capsule-capsule"); capsule_capsule_distance(x, r, h, y, q, k) } }; ensure!(f == d, "the closed form for the pair gives another distance");
    let m = pose::<T>(g, s); let moved = a.distance_to(m * x, b, m * y); close!(g, moved.g(), w, T::EPS * 60.0 * (far + nrm(at(&m))), "moved together"); g.label_if(w < 0.0, "overlap"); g.nontrivial_if(size(&a).1 + size(&b).1 > 0.0); Ok(())
}
const S: usize = 5;
const E: usize = 3;
const X: usize = 4;
fn query<T: Fl>(g: &mut G) -> R {
    let s = scale::<T>(g); let nj = 1 + g.below(4); let mut t = KinematicTree::<4, 4, T>::new(); for i in 0..nj { let o = pose::<T>(g, s); let j = if g.chance(1, 2) { Joint::revolute(v3([0.0, 0.6, 0.8]), o) } else { Joint::fixed(o) }; t.push(j, if i == 0 { JointParent::World } else { JointParent::Joint(g.below(i)) }).unwrap(); } let q = Vector::<4, T>::from_fn(|_| T::c(g.f(-3.0, 3.0))); let st = t.forward_kinematics(&q).unwrap();
    let mut c = CollisionQuery::<S, E, X, T>::new(); let mut mine: Vec<(usize, Primitive<T>, SE3<T>)> = vec![]; let mut env: Vec<(Primitive<T>, SE3<T>)> = vec![]; let mut ex: Vec<(usize, usize)> = vec![]; let stray = g.chance(1, 10); let ops = g.below(16);
    for _ in 0..ops { match g.below(6) { 0 | 1 | 2 => { let fr = if stray { g.below(nj + 2) } else { g.below(nj) }; let (p, x) = (prim::<T>(g, s), pose::<T>(g, s * 0.3)); match c.push_self_primitive(fr, p, x) { Ok(i) => { ensure!(i == mine.len() && mine.len() < S, "index {i}"); mine.push((fr, p, x)); } Err(e) => { ensure!(e == KE::CollisionCapacityExceeded && mine.len() == S, "{e:?}"); g.label("full"); } } } 3 | 4 => { let (p, x) = (prim::<T>(g, s), pose::<T>(g, s * 1.5)); match c.push_environment_primitive(p, x) { Ok(i) => { ensure!(i == env.len() && env.len() < E); env.push((p, x)); } Err(e) => { ensure!(e == KE::CollisionCapacityExceeded && env.len() == E, "{e:?}"); } } } _ => { let e = (g.below(S), g.below(S)); match c.exclude_pair(e.0, e.1) { Ok(()) => { ensure!(ex.len() < X); ex.push(e); } Err(k) => { ensure!(k == KE::CollisionCapacityExceeded && ex.len() == X, "{k:?}"); } } } } ensure!(c.self_primitive_count() == mine.len() && c.environment_primitive_count() == env.len()); }
    g.note("own", &mine); g.note("environment", &env); g.note("excluded", &ex); let r = c.check(&st); if mine.iter().any(|m| m.0 >= nj) { ensure!(r.as_ref().err() == Some(&KE::ToolIndexOutOfRange), "{r:?}"); g.label("frame out of range"); return Ok(()); } let r = match r { Ok(r) => r, Err(e) => bad!("{e:?}") };
    let world: Vec<SE3<T>> = mine.iter().map(|m| st.pose(m.0).unwrap() * m.2).collect(); let mut pairs: Vec<((CS, CS), f64)> = vec![]; for i in 0..mine.len() { for j in i + 1..mine.len() { if !ex.contains(&(i, j)) && !ex.contains(&(j, i)) { pairs.push(((CS::SelfPrimitive(i), CS::SelfPrimitive(j)), true_distance(&mine[i].1, &world[i], &mine[j].1, &world[j]))); } } for (k, e) in env.iter().enumerate() { pairs.push(((CS::SelfPrimitive(i), CS::Environment(k)), true_distance(&mine[i].1, &world[i], &e.0, &e.1))); } }
    let far = world.iter().map(|x| nrm(at(x))).chain(env.iter().map(|x| nrm(at(&x.1)))).fold(0.0, f64::max) + 2.0 * s; let tol = T::EPS * 60.0 * far; let best = pairs.iter().map(|p| p.1).fold(f64::INFINITY, f64::min);
    match r.closest_pair { None => { ensure!(pairs.is_empty() && r.minimum_clearance == T::ZERO, "no pair reported of {}", pairs.len()); ensure!(r.is_clear(T::c(1e9)), "nothing was checked, yet not clear"); g.label("no pair"); } Some(p) => { let same = |a: &(CS, CS)| *a == p || (a.1, a.0) == p; let Some(k) = pairs.iter().find(|x| same(&x.0)) else { bad!("{p:?} is not a pair to check") }; close!(g, r.minimum_clearance.g(), best, tol, "minimum clearance"); close!(g, k.1, best, 2.0 * tol, "the reported pair {p:?} is not the closest"); let m = r.minimum_clearance; ensure!(r.is_clear(m) && r.is_clear(m - T::c(s)) && !r.is_clear(m + T::c(s + far * 1e-3))); } }
    if !mine.is_empty() && !env.is_empty() { // the order obstacles and pairs were given in does not matter
        let mut o = CollisionQuery::<S, E, X, T>::new(); let n = mine.len(); for m in mine.iter().rev() { o.push_self_primitive(m.0, m.1, m.2).unwrap(); } for e in env.iter().rev() { o.push_environment_primitive(e.0, e.1).unwrap(); } for e in ex.iter().rev() { o.exclude_pair(if e.1 < n { n - 1 - e.1 } else { S }, if e.0 < n { n - 1 - e.0 } else { S }).unwrap(); } let z = o.check(&st).unwrap(); close!(g, z.minimum_clearance.g(), r.minimum_clearance.g(), tol, "given in another order"); }
    ensure!(CollisionQuery::<S, E, X, T>::default().check(&st).is_ok_and(|r| r.closest_pair.is_none())); g.label_if(!ex.is_empty(), "exclusions"); g.nontrivial_if(pairs.len() > 1); Ok(())
}
/// A shape that is not a number is never silently clear.
fn broken<T: Fl>(g: &mut G) -> R {
    let mut t = KinematicTree::<1, 1, T>::new(); t.push(Joint::fixed(SE3::identity()), JointParent::World).unwrap(); let st = t.forward_kinematics(&Vector::zeros()).unwrap(); let nan = T::c(f64::NAN); let bad_pose = { let mut p = [0.3, 0.1, 0.2].map(T::c); p[g.below(3)] = nan; SE3::from_parts(SO3::identity(), Vector::new(p)) }; let good = |g: &mut G| (prim::<T>(g, 1.0), pose::<T>(g, 1.0)); let broken = |g: &mut G| match g.below(3) { 0 => (Primitive::Sphere { radius: nan }, pose(g, 1.0)), 1 => (Primitive::Capsule { radius: T::c(0.1), half_length: nan }, pose(g, 1.0)), _ => (prim::<T>(g, 1.0), bad_pose) };
    let mut c = CollisionQuery::<4, 4, 1, T>::new(); let n = 1 + g.below(3); let own = g.chance(1, 2); let k = g.below(n); for i in 0..n { let (p, x) = if own && i == k { broken(g) } else { good(g) }; c.push_self_primitive(0, p, x).unwrap(); } let m = 1 + g.below(3); for i in 0..m { let (p, x) = if !own && i == k % m { broken(g) } else { good(g) }; c.push_environment_primitive(p, x).unwrap(); } g.note("query", &c); let r = c.check(&st); let silent = |r: &CollisionReport<T>| r.is_clear(T::c(-1e30)); ensure!(match &r { Err(e) => *e == KE::NonFinite, Ok(r) => !silent(r) }, "a shape with no place was reported clear: {r:?}"); g.nontrivial(); Ok(())
}
fn main() {
    run("C17", &["distances judged to 30 rounding errors of the coordinates involved, sizes from 1e-6 to 1e3 (1e-3 to 1e2 in f32)"], &[
        law!("pair", 30000, pair::<f64>, "a capsule with length is involved"), law!("pair_f32", 20000, pair::<f32>, "a capsule with length is involved"), law!("query", 12000, query::<f64>, "more than one pair is checked"), law!("query_f32", 6000, query::<f32>, "more than one pair is checked"), law!("broken", 3000, broken::<f64>, "always"), law!("broken_f32", 1000, broken::<f32>, "always"),
    ]);
}
