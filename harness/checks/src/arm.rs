//! Random kinematic trees and their reference geometry: products of homogeneous matrices.
use crate::util::*;
use multicalc::kinematics::{Joint, JointKind, JointParent, KinematicTree};
use multicalc::linear_algebra::Vector;
use multicalc::spatial::{SE3, SO3};
use vk::*;

pub const NJ: usize = 8;
pub const NC: usize = 14;
pub type V3 = [f64; 3];
pub type H = [[f64; 4]; 4];
pub type Tree<T> = KinematicTree<NJ, NC, T>;
pub const ID: H = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]];
pub fn v3<T: Fl>(a: V3) -> Vector<3, T> { Vector::new(a.map(T::c)) }
pub fn nrm(a: &[f64]) -> f64 { a.iter().map(|x| x * x).sum::<f64>().sqrt() }
pub fn mul(a: &H, b: &H) -> H { core::array::from_fn(|i| core::array::from_fn(|j| (0..4).map(|k| a[i][k] * b[k][j]).sum())) }
pub fn rt(r: [[f64; 3]; 3], p: V3) -> H { core::array::from_fn(|i| core::array::from_fn(|j| if i == 3 { if j == 3 { 1.0 } else { 0.0 } } else if j == 3 { p[i] } else { r[i][j] })) }
pub fn act(h: &H, p: V3) -> V3 { core::array::from_fn(|i| (0..3).map(|j| h[i][j] * p[j]).sum::<f64>() + h[i][3]) }
pub fn rod(u: V3, a: f64) -> [[f64; 3]; 3] { let (s, c) = a.sin_cos(); let k = [[0.0, -u[2], u[1]], [u[2], 0.0, -u[0]], [-u[1], u[0], 0.0]]; core::array::from_fn(|i| core::array::from_fn(|j| (if i == j { c } else { 0.0 }) + s * k[i][j] + (1.0 - c) * u[i] * u[j])) }
/// d rod / d angle
pub fn drod(u: V3, a: f64) -> [[f64; 3]; 3] { let (s, c) = a.sin_cos(); let k = [[0.0, -u[2], u[1]], [u[2], 0.0, -u[0]], [-u[1], u[0], 0.0]]; core::array::from_fn(|i| core::array::from_fn(|j| (if i == j { -s } else { 0.0 }) + c * k[i][j] + s * u[i] * u[j])) }
pub fn qrot(q: [f64; 4]) -> [[f64; 3]; 3] { let n = nrm(&q); let [w, x, y, z] = q.map(|v| v / n); [[1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)], [2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)], [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)]] }
pub fn hom<T: Fl>(x: &SE3<T>) -> H { rt(qrot(x.rotation().quaternion().as_array().map(|v| v.g())), x.translation().as_array().map(|v| v.g())) }
pub fn dir(g: &mut G) -> V3 { loop { let a = if g.chance(1, 2) { let mut a = [0.0; 3]; a[g.below(3)] = g.sign(); a } else { [g.bell(), g.bell(), g.bell()] }; let n = nrm(&a); if n > 0.05 { return a; } if g.pos() > 4000 { return [1.0, 0.0, 0.0]; } } }
pub fn origin<T: Fl>(g: &mut G, turned: bool) -> SE3<T> { let r = if turned && g.chance(2, 3) { v3([g.f(-3.0, 3.0), g.f(-3.0, 3.0), g.f(-3.0, 3.0)]) } else { v3([0.0; 3]) }; let p = if g.chance(1, 5) { [0.0; 3] } else { [0; 3].map(|_| g.f(-1.0, 1.0)) }; SE3::from_parts(SO3::exp(r), v3(p)) }
/// What the reference knows of a joint.
#[derive(Clone, Debug)]
pub struct J { pub kind: JointKind, pub u: V3, pub anchor: V3, pub o: H, pub zero: f64, pub parent: Option<usize> }
pub fn joint<T: Fl>(g: &mut G, first: bool) -> Joint<T> {
    let k = g.below(if first { 6 } else { 5 }); let o = origin::<T>(g, true); let a = { let d = dir(g); let l = if g.chance(1, 3) { g.log10(-3.0, 3.0) } else { 1.0 }; v3::<T>(d.map(|x| x * l)) }; let mut j = match k { 0 | 4 => Joint::revolute(a, o), 1 => Joint::prismatic(a, o), 2 => Joint::continuous(a, o), 3 => Joint::fixed(o), _ => Joint::floating(o) };
    if g.chance(1, 3) { j = j.with_anchor(v3([g.f(-0.5, 0.5), g.f(-0.5, 0.5), g.f(-0.5, 0.5)])); } if g.chance(1, 3) { j = j.with_zero_offset(T::c(g.f(-1.0, 1.0))); } if k != 2 && g.chance(1, 4) { let lo = g.f(-2.0, 1.0); j = j.with_limits(T::c(lo), T::c(lo + g.u(0.0, 2.0))); } if g.chance(1, 5) { j = j.with_armature(T::c(0.1)).with_damping(T::c(0.2)).with_friction_loss(T::c(0.3)); } j
}
pub fn describe<T: Fl>(j: Joint<T>, parent: JointParent) -> J { let a = j.axis().as_array().map(|x| x.g()); let n = nrm(&a); J { kind: j.kind(), u: a.map(|x| x / n), anchor: j.anchor().as_array().map(|x| x.g()), o: hom(&j.origin()), zero: j.zero_offset().g(), parent: match parent { JointParent::World => None, JointParent::Joint(i) => Some(i) } } }
pub fn tree<T: Fl>(g: &mut G) -> Option<(Tree<T>, Vec<J>)> {
    let n = 1 + g.below(NJ); let shape = g.below(3); let mut t = Tree::<T>::new(); let mut js = vec![]; let mut given = vec![]; let mut ps = vec![];
    for i in 0..n { let j = joint::<T>(g, i == 0); let p = if i == 0 || g.chance(1, 10) { JointParent::World } else { match shape { 0 => JointParent::Joint(i - 1), 1 => JointParent::Joint(g.below(i)), _ => JointParent::Joint(i - 1 - g.below(i.min(2))) } }; js.push(describe(j, p)); given.push(j); ps.push(p); if t.push(j, p).is_err() { return None; } }
    match Tree::try_from_joints(&given, &ps) { Ok(b) if b == t => Some((t, js)), _ => None }
}
pub fn floating(js: &[J]) -> bool { js.first().is_some_and(|j| j.kind == JointKind::Floating) }
pub fn config<T: Fl>(g: &mut G, js: &[J]) -> Vector<NC, T> {
    let w = if g.chance(1, 6) { 20.0 } else { 3.2 }; let mut q = Vector::<NC, T>::from_fn(|_| T::c(if g.chance(1, 8) { 0.0 } else { g.f(-w, w) })); if floating(js) { loop { let k = g.log10(-1.0, 1.0); let c = [0; 4].map(|_| g.f(-1.0, 1.0) * k); if nrm(&c) > 0.05 { for i in 0..4 { q[3 + i] = T::c(c[i]); } break; } if g.pos() > 4000 { q[3] = T::ONE; break; } } } q
}
pub fn locals(js: &[J], q: &[f64]) -> Vec<H> { let f = floating(js); js.iter().enumerate().map(|(i, j)| { let o = if f && i > 0 { i + 6 } else { i }; match j.kind { JointKind::Revolute | JointKind::Continuous => { let r = rod(j.u, q[o] - j.zero); let ra = act(&rt(r, [0.0; 3]), j.anchor); rt(r, core::array::from_fn(|k| j.anchor[k] - ra[k])) } JointKind::Prismatic => rt([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], j.u.map(|x| x * (q[o] - j.zero))), JointKind::Fixed => ID, JointKind::Floating => rt(qrot([q[3], q[4], q[5], q[6]]), [q[0], q[1], q[2]]) } }).collect() }
pub fn poses(js: &[J], loc: &[H]) -> Vec<H> { let mut w: Vec<H> = vec![]; for (i, j) in js.iter().enumerate() { let p = j.parent.map_or(ID, |k| w[k]); w.push(mul(&mul(&p, &j.o), &loc[i])); } w }
pub fn reach(js: &[J], q: &[f64]) -> f64 { 1.0 + js.iter().map(|j| nrm(&[j.o[0][3], j.o[1][3], j.o[2][3]]) + 2.0 * nrm(&j.anchor)).sum::<f64>() + q.iter().map(|x| x.abs()).sum::<f64>() + js.iter().map(|j| j.zero.abs()).sum::<f64>() }
