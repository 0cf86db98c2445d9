//! C15: kinematic trees against products of homogeneous matrices and their exact derivatives.
use checks::arm::*;
use checks::lin::*;
use checks::util::*;
use multicalc::error::KinematicsError as KE;
use multicalc::kinematics::{JacobianFrame, Joint, JointKind, JointParent, KinematicTree, SingularityKind};
use multicalc::linear_algebra::Vector;
use multicalc::spatial::{SE3, SO3};
use multicalc::Dual;
use vk::mat::M as DM;
use vk::*;


fn forward<T: Fl>(g: &mut G) -> R {
    let Some((t, js)) = tree::<T>(g) else { bad!("a valid tree was refused, or try_from_joints differs from push") }; let q = config::<T>(g, &js); g.note("joints", &js); g.note("q", &q); let qs: Vec<f64> = (0..NC).map(|i| q[i].g()).collect(); let loc = locals(&js, &qs); let w = poses(&js, &loc); let e = T::EPS; let rc = reach(&js, &qs); let wide = 1.0 + qs.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    let s = match t.forward_kinematics(&q) { Ok(s) => s, Err(e) => bad!("{e:?}") }; ensure!(s.len() == js.len() && !s.is_empty() && s.poses().len() == js.len() && s.pose(js.len()).is_none());
    for (i, h) in w.iter().enumerate() { let p = s.pose(i).unwrap(); ensure!(p == s.poses()[i]); let m = hom(&p); for r in 0..3 { for c in 0..4 { close!(g, m[r][c], h[r][c], e * 30.0 * (i + 2) as f64 * wide * if c == 3 { rc } else { 1.0 }, "pose {i} ({r},{c})"); } } close!(g, p.rotation().quaternion().norm().g(), 1.0, e * 40.0, "unit rotation"); }
    // slots of fixed joints and slots past the tree are ignored
    let f = floating(&js); let mut q2 = q; for (i, j) in js.iter().enumerate() { if j.kind == JointKind::Fixed { q2[if f { i + 6 } else { i }] = T::c(g.pick(&[f64::NAN, f64::INFINITY, 5.0])); } } for i in t.config_len()..NC { q2[i] = T::c(f64::NAN); } ensure!(t.forward_kinematics(&q2) == Ok(s), "an ignored slot changed the answer");
    let k = g.below(t.config_len()); let ji = if f { k.saturating_sub(6) } else { k }; if js[ji].kind != JointKind::Fixed { let mut q3 = q; q3[k] = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])); ensure!(t.forward_kinematics(&q3) == Err(KE::NonFinite), "non-finite reading {k}"); } if f { let mut q4 = q; for i in 3..7 { q4[i] = T::ZERO; } ensure!(t.forward_kinematics(&q4) == Err(KE::OrientationHasNoDirection)); }
    // a full turn of a turning joint changes nothing
    if let Some((i, _)) = js.iter().enumerate().find(|(_, j)| matches!(j.kind, JointKind::Revolute | JointKind::Continuous)) { let o = if f { i + 6 } else { i }; let mut q5 = q; q5[o] += T::TWO * T::PI; let z = t.forward_kinematics(&q5).unwrap(); for i in 0..js.len() { let (a, b) = (hom(&z.poses()[i]), hom(&s.poses()[i])); for r in 0..3 { for c in 0..4 { close!(g, a[r][c], b[r][c], e * 100.0 * wide * rc, "a full turn"); } } } }
    // the same sweep carries derivatives
    ensure!(t.is_empty() == false && Tree::<T>::CAPACITY == NJ); g.label_if(f, "floating base"); g.label_if(js.iter().any(|j| j.kind == JointKind::Prismatic), "prismatic"); g.nontrivial_if(js.len() > 1); Ok(())
}
fn jacobian<T: Fl>(g: &mut G) -> R {
    let Some((t, js)) = tree::<T>(g) else { bad!("valid tree refused") }; let q = config::<T>(g, &js); let tool = g.below(js.len()); g.note("joints", &js); g.note("q", &q); g.note("tool", &tool); let qs: Vec<f64> = (0..NC).map(|i| q[i].g()).collect(); let loc = locals(&js, &qs); let w = poses(&js, &loc); let e = T::EPS; let rc = reach(&js, &qs); let wide = 1.0 + qs.iter().fold(0.0f64, |a, b| a.max(b.abs())); let f = floating(&js);
    // exact derivative of the matrix product with respect to one generalised velocity
    let mut chain = vec![tool]; while let Some(p) = js[*chain.last().unwrap()].parent { chain.push(p); } chain.reverse(); let mut want = vec![[0.0; 6]; NC];
    for &i in &chain { let vo = if f && i > 0 { i + 5 } else { i }; let dirs: Vec<H> = match js[i].kind { JointKind::Revolute | JointKind::Continuous => { let d = drod(js[i].u, qs[if f && i > 0 { i + 6 } else { i }] - js[i].zero); let a = js[i].anchor; let p: V3 = core::array::from_fn(|r| -(0..3).map(|c| d[r][c] * a[c]).sum::<f64>()); let mut h = rt(d, p); h[3][3] = 0.0; vec![h] } JointKind::Prismatic => { let mut h = [[0.0; 4]; 4]; for r in 0..3 { h[r][3] = js[i].u[r]; } vec![h] } JointKind::Fixed => vec![], JointKind::Floating => (0..6).map(|k| { let mut h = [[0.0; 4]; 4]; if k < 3 { for r in 0..3 { h[r][3] = js[i].o[k][r]; } } else { let mut u = [0.0; 3]; u[k - 3] = 1.0; let s = drod(u, 0.0); for r in 0..3 { for c in 0..3 { h[r][c] = (0..3).map(|m| loc[i][r][m] * s[m][c]).sum(); } } } h }).collect() };
        for (s, d) in dirs.iter().enumerate() { let mut m = mul(&js[i].parent.map_or(ID, |k| w[k]), &js[i].o); m = mul(&m, d); for &c in chain.iter().skip_while(|c| **c != i).skip(1) { m = mul(&mul(&m, &js[c].o), &loc[c]); } let rw = &w[tool]; let om = |a: usize, b: usize| -> f64 { (0..3).map(|k| m[a][k] * rw[b][k]).sum() }; want[vo + s] = [m[0][3], m[1][3], m[2][3], om(2, 1), om(0, 2), om(1, 0)]; } }
    let s = t.forward_kinematics(&q).unwrap(); for frame in [JacobianFrame::World, JacobianFrame::Body] { let j = match t.geometric_jacobian(&s, tool, frame) { Ok(j) => j, Err(e) => bad!("{e:?}") }; ensure!(t.geometric_jacobian_at(&q, tool, frame) == Ok(j)); ensure!(j.columns() == t.velocity_len() && j.frame() == frame && !j.is_empty() && j.column(j.columns()).is_none()); let rate = Vector::<NC, T>::from_fn(|_| T::c(g.f(-1.0, 1.0))); let tw = j.tool_twist(&rate).as_array(); let mut sum = [0.0; 6]; for c in 0..NC { let mut x = want[c]; if frame == JacobianFrame::Body { let r = &w[tool]; x = core::array::from_fn(|k| (0..3).map(|m| r[m][k % 3] * want[c][m + 3 * (k / 3)]).sum()); } for r in 0..6 { close!(g, j.matrix()[(r, c)].g(), x[r], e * 60.0 * (js.len() + 2) as f64 * wide * if r < 3 { rc } else { 1.0 }, "{frame:?} Jacobian row {r} column {c}"); sum[r] += j.matrix()[(r, c)].g() * rate[c].g(); } if c < j.columns() { let col = j.column(c).unwrap().as_array(); for r in 0..6 { ensure!(col[r] == j.matrix()[(r, c)]); } } } for r in 0..6 { close!(g, tw[r].g(), sum[r], e * 40.0 * wide * rc, "tool twist {r}"); } }
    ensure!(t.geometric_jacobian(&s, js.len(), JacobianFrame::World) == Err(KE::ToolIndexOutOfRange)); if js.len() > 1 { let mut t2 = Tree::<T>::new(); t2.push(Joint::fixed(SE3::identity()), JointParent::World).unwrap(); ensure!(t2.geometric_jacobian(&s, 0, JacobianFrame::World) == Err(KE::StateShapeMismatch)); }
    let mut qb = q; let b = t.config_offset(tool).unwrap(); if js[tool].kind != JointKind::Fixed { qb[b] = T::c(f64::NAN); ensure!(t.geometric_jacobian_at(&qb, tool, JacobianFrame::Body) == Err(KE::NonFinite)); } g.label_if(f, "floating base"); g.nontrivial_if(chain.len() > 1 && want.iter().any(|c| c.iter().any(|x| *x != 0.0))); Ok(())
}
/// Forward kinematics on dual numbers agrees with the geometric Jacobian.
fn dual(g: &mut G) -> R {
    let mut t = KinematicTree::<6, 6, f64>::new(); let mut td = KinematicTree::<6, 6, Dual<f64>>::new(); let n = 1 + g.below(6); for i in 0..n { let a = dir(g); let (r, p) = ([g.f(-2.0, 2.0), g.f(-2.0, 2.0), g.f(-2.0, 2.0)], [g.f(-1.0, 1.0), g.f(-1.0, 1.0), g.f(-1.0, 1.0)]); let an = [g.f(-0.3, 0.3), 0.0, g.f(-0.3, 0.3)]; let c = |x: V3| Vector::new(x.map(Dual::constant)); let o = SE3::from_parts(SO3::exp(v3(r)), v3(p)); let od = { let q = o.rotation().quaternion().as_array().map(Dual::constant); SE3::from_parts(SO3::from_quaternion(multicalc::spatial::Quaternion::from_array(q)), c(p)) }; let pa = if i == 0 { JointParent::World } else { JointParent::Joint(i - 1) }; let (j, d) = match g.below(3) { 0 | 1 => (Joint::revolute(v3(a), o), Joint::revolute(c(a), od)), _ => (Joint::prismatic(v3(a), o), Joint::prismatic(c(a), od)) }; t.push(j.with_anchor(v3(an)), pa).unwrap(); td.push(d.with_anchor(c(an)), pa).unwrap(); }
    let q = Vector::<6, f64>::from_fn(|_| if g.chance(1, 6) { 0.0 } else { g.f(-3.0, 3.0) }); let k = g.below(n); let qd = Vector::<6, Dual<f64>>::from_fn(|i| Dual::new(q[i], if i == k { 1.0 } else { 0.0 })); let s = td.forward_kinematics(&qd).unwrap(); let j = t.geometric_jacobian_at(&q, n - 1, JacobianFrame::World).unwrap(); let p = s.pose(n - 1).unwrap(); for r in 0..3 { close!(g, p.translation()[r].deriv, j.matrix()[(r, k)], 1e-8, "derivative of the tool position"); } let m = p.rotation().to_matrix(); let om = |a: usize, b: usize| (0..3).map(|x| m[(a, x)].deriv * m[(b, x)].value).sum::<f64>(); let w = [om(2, 1), om(0, 2), om(1, 0)]; for r in 0..3 { close!(g, w[r], j.matrix()[(r + 3, k)], 1e-8, "derivative of the tool rotation"); } g.nontrivial_if(n > 1); Ok(())
}
/// A history of pushes, good and bad, against a list.
fn building<T: Fl>(g: &mut G) -> R {
    const MJ: usize = 5; const MC: usize = 9; let mut t = KinematicTree::<MJ, MC, T>::new(); let mut kept: Vec<(Joint<T>, JointParent)> = vec![]; let mut log = vec![]; ensure!(t == KinematicTree::default() && t.is_empty() && t.config_len() == 0 && t.velocity_len() == 0 && !t.has_floating_base());
    for _ in 0..1 + g.below(12) { let fl0 = g.chance(1, 5); let mut j = joint::<T>(g, fl0); if kept.is_empty() && g.chance(1, 4) { j = Joint::floating(origin(g, true)); } let mut p = if kept.is_empty() || g.chance(1, 4) { JointParent::World } else { JointParent::Joint(g.below(kept.len())) }; let bad = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])); let kind = g.below(12); let o = j.origin(); let mut bv = v3::<T>([0.5, 0.25, 1.0]); bv[g.below(3)] = bad; match kind { 0 => p = JointParent::Joint(kept.len() + g.below(3)), 1 => j = j.with_zero_offset(bad), 2 => j = j.with_anchor(bv), 3 => j = j.with_limits(T::ZERO, bad), 4 => j = j.with_limits(T::ONE, T::c(0.5)), 5 => j = Joint::continuous(v3([1.0, 0.0, 0.0]), o).with_limits(T::ZERO, T::ONE), 6 => j = match g.below(3) { 0 => Joint::revolute(v3([0.0; 3]), o), 1 => Joint::prismatic(v3([0.0; 3]), o), _ => Joint::continuous(v3([0.0; 3]), o) }, 7 => j = match g.below(4) { 0 => j.with_armature(bad), 1 => j.with_damping(bad), 2 => j.with_friction_loss(bad), _ => Joint::revolute(bv, o) }, 8 => { let x = SE3::from_parts(o.rotation(), bv); j = Joint::fixed(x) } _ => () }
        let len = kept.len(); let fl = kept.first().is_some_and(|k| k.0.kind() == JointKind::Floating); let width = if len == 0 { 0 } else if fl { len + 6 } else { len }; let axis = j.axis(); let moving = matches!(j.kind(), JointKind::Revolute | JointKind::Prismatic | JointKind::Continuous); let fin = j.origin().translation().is_finite() && axis.is_finite() && j.anchor().is_finite() && [j.zero_offset(), j.armature(), j.damping(), j.friction_loss()].iter().all(|x| x.is_finite()) && j.limits().is_none_or(|(a, b)| a.is_finite() && b.is_finite());
        let mut faults = vec![]; if len == MJ { faults.push(KE::CapacityExceeded); } if matches!(p, JointParent::Joint(i) if i >= len) { faults.push(KE::ParentOutOfOrder); } if j.kind() == JointKind::Floating && (len != 0 || p != JointParent::World) { faults.push(KE::FloatingJointNotAtRoot); } if !fin { faults.push(KE::NonFinite); } if j.limits().is_some_and(|(a, b)| a > b) { faults.push(KE::LimitsReversed); } if j.kind() == JointKind::Continuous && j.limits().is_some() { faults.push(KE::ContinuousJointHasLimits); } if moving && axis.norm() == T::ZERO { faults.push(KE::AxisHasNoDirection); } if width + if j.kind() == JointKind::Floating { 7 } else { 1 } > MC { faults.push(KE::ConfigurationCapacityExceeded); }
        let before = t; let r = t.push(j, p); log.push((j.kind(), p, kind, r)); g.note("pushes", &log); match r { Ok(()) => { ensure!(faults.is_empty(), "accepted despite {faults:?}"); kept.push((j, p)); } Err(e) => { ensure!(faults.contains(&e), "{e:?} where the faults are {faults:?}"); ensure!(t == before, "a refused joint changed the tree"); g.label("refused"); } }
        let n = kept.len(); let fl = n > 0 && kept[0].0.kind() == JointKind::Floating; ensure!(t.len() == n && t.has_floating_base() == fl && t.config_len() == n + if fl { 6 } else { 0 } && t.velocity_len() == n + if fl { 5 } else { 0 } && t.config_offset(n).is_none() && t.velocity_offset(n).is_none() && t.joint(n).is_none() && t.parent(n).is_none());
        for (i, (k, p)) in kept.iter().enumerate() { let x = t.joint(i).unwrap(); ensure!(t.parent(i) == Some(*p) && x.kind() == k.kind() && x.limits() == k.limits() && x.origin() == k.origin() && x.anchor() == k.anchor() && x.zero_offset() == k.zero_offset() && x.armature() == k.armature() && x.damping() == k.damping() && x.friction_loss() == k.friction_loss()); if matches!(k.kind(), JointKind::Revolute | JointKind::Prismatic | JointKind::Continuous) { let a = k.axis().as_array().map(|v| v.g()); let m = nrm(&a); for c in 0..3 { close!(g, x.axis()[c].g(), a[c] / m, T::EPS * 4.0, "stored axis"); } } let off = if fl && i > 0 { 6 } else { 0 }; ensure!(t.config_offset(i) == Some(i + off) && t.velocity_offset(i) == Some(i + if off > 0 { 5 } else { 0 })); } }
    let js: Vec<Joint<T>> = kept.iter().map(|k| k.0).collect(); let ps: Vec<JointParent> = kept.iter().map(|k| k.1).collect(); ensure!(KinematicTree::<MJ, MC, T>::try_from_joints(&js, &ps) == Ok(t)); if !ps.is_empty() { ensure!(KinematicTree::<MJ, MC, T>::try_from_joints(&js, &ps[1..]) == Err(KE::JointCountMismatch)); } g.nontrivial_if(kept.len() > 1); Ok(())
}
/// Singular values, damped inverses and null-space projection against double-double linear algebra.
fn analysis<T: Fl>(g: &mut G) -> R {
    let Some((t, js)) = tree::<T>(g) else { bad!("valid tree refused") }; let q = config::<T>(g, &js); let tool = js.len() - 1; let j = t.geometric_jacobian_at(&q, tool, JacobianFrame::World).unwrap(); g.note("joints", &js); g.note("q", &q); let n = j.columns(); let a = dm(&j.matrix()); let e = T::EPS; let mut ev = a.mul(&a.t()).sym_eigs(); ev.sort_by(|x, y| x.partial_cmp(y).unwrap()); let smax = ev[5].max(0.0).sqrt(); let smin = ev[0].max(0.0).sqrt(); let tol = e.sqrt() * 30.0 * smax.max(1e-30); let tm = |s: f64| (e * 200.0 * smax * smax / s.max(1e-300)).min(tol); let sv = j.smallest_singular_value().unwrap().g(); close!(g, sv, smin, tm(smin), "smallest singular value");
    let th = g.log10(-4.0, 1.0); let c = j.classify_singularity(T::c(th)).unwrap(); if smin > th + tol { ensure!(c == SingularityKind::None, "{c:?} at sigma {smin:e} threshold {th:e}"); } if smin < th - tol { ensure!(c != SingularityKind::None); if ev[1].max(0.0).sqrt() - smin > 0.05 * smax && ev[0] < ev[1] * 0.5 { let gram = a.mul(&a.t()); let sh = gram.sub(&DM::eye(6).scale(ev[0] - 1e-3 * (ev[1] - ev[0]))); if let Some(inv) = sh.inv() { let mut v = DM::from_fn(6, 1, |i, _| 1.0 + 0.3 * i as f64 + if i % 2 == 0 { 0.37 } else { -0.2 }); for _ in 0..12 { v = inv.mul(&v); v = v.scale(1.0 / v.frob()); } let l: f64 = (0..3).map(|i| v.f(i, 0).powi(2)).sum(); let k = if l > 2.0 / 3.0 { SingularityKind::Positional } else if l < 1.0 / 3.0 { SingularityKind::Rotational } else { SingularityKind::Mixed }; if (l - 2.0 / 3.0).abs() > 0.02 && (l - 1.0 / 3.0).abs() > 0.02 { ensure!(c == k, "degenerate direction is {k:?} (linear share {l}), reported {c:?}"); g.label("degenerate direction classified"); } } } }
    // weighted damped inverse
    let wt = Vector::<NC, T>::from_fn(|_| T::c(g.log10(-1.0, 1.0))); let lam = g.pick(&[0.0, 1e-2, 0.1, 1.0]); g.note("weights,damping", &(wt, lam)); let wi = DM::from_fn(NC, NC, |r, c| if r == c && r < n { 1.0 / wt[r].g() } else { 0.0 }); let wtr = wi.mul(&a.t()); let core = a.mul(&wtr).add(&DM::eye(6).scale(rnd::<T>(lam) * rnd::<T>(lam))); let k = j.damped_pseudo_inverse(&wt, T::c(lam)).unwrap(); let kd = dm(&k); let pr = dm(&j.null_space_projector(&wt, T::c(lam)).unwrap()); let want = DM::eye(NC).sub(&kd.mul(&a)); close!(g, max_diff(&pr, &want), 0.0, e * 60.0 * (1.0 + kd.max_abs() * a.max_abs()), "projector is I - J+ J");
    let mut cev = core.sym_eigs(); cev.sort_by(|x, y| x.partial_cmp(y).unwrap()); let cond = cev[5] / cev[0].max(1e-300); if cev[0] > cev[5] * 1e3 * e && cev[0] > 0.0 { let w = wtr.mul(&core.inv().unwrap()); close!(g, max_diff(&kd, &w), 0.0, e * 200.0 * cond * w.max_abs(), "damped inverse"); g.label("damped inverse compared"); } else if lam == 0.0 { let gap = cev.windows(2).any(|p| p[0] < cev[5] * e * 20.0 && p[1] > cev[5] * e * 0.02 && p[1] < cev[5] * 1e-3) || cev.iter().any(|x| *x > cev[5] * e * 0.02 && *x < cev[5] * 1e-4); if !gap && smax > 0.0 { let back = a.mul(&kd).mul(&a); close!(g, max_diff(&back, &a), 0.0, 1e6 * e * a.max_abs(), "J J+ J = J"); let tw = a.mul(&pr); close!(g, tw.max_abs(), 0.0, 1e6 * e * a.max_abs() * 3.0, "projected rates move nothing"); g.label("rank-deficient inverse"); } }
    for r in n..NC { for c in 0..6 { ensure!(k[(r, c)] == T::ZERO, "an unused slot is driven"); } } let mut wb = wt; let i = g.below(n); wb[i] = g.pick(&[T::ZERO, -T::ONE]); ensure!(j.damped_pseudo_inverse(&wb, T::c(lam)) == Err(KE::NonPositiveWeight) && j.null_space_projector(&wb, T::c(lam)) == Err(KE::NonPositiveWeight)); if n < NC { let mut wo = wt; wo[NC - 1] = T::c(-1.0); ensure!(j.damped_pseudo_inverse(&wo, T::c(lam)).is_ok(), "an unused weight matters"); } g.nontrivial_if(smax > 0.0); g.label_if(smin > 1e-3, "full rank"); Ok(())
}
fn distance<T: Fl>(g: &mut G) -> R {
    let Some((t, js)) = tree::<T>(g) else { bad!("valid tree refused") }; let (a, b) = (config::<T>(g, &js), config::<T>(g, &js)); g.note("joints", &js); g.note("a,b", &(a, b)); let f = floating(&js); let mut sq = 0.0; let mut near_pi = false; let pi = std::f64::consts::PI; for (i, j) in js.iter().enumerate() { let o = if f && i > 0 { i + 6 } else { i }; let d = a[o].g() - b[o].g(); sq += match j.kind { JointKind::Fixed => 0.0, JointKind::Continuous => { let w = d.sin().atan2(d.cos()); near_pi |= w.abs() > pi - 1e-3; w * w } JointKind::Floating => { let p: f64 = (0..3).map(|k| (a[k].g() - b[k].g()).powi(2)).sum(); let q = |v: &Vector<NC, T>| { let c = [3, 4, 5, 6].map(|k| v[k].g()); let n = nrm(&c); c.map(|x| x / n) }; let (x, y) = (q(&a), q(&b)); let s: f64 = (0..4).map(|k| x[k] * y[k]).sum(); let v = [x[0] * y[1] - x[1] * y[0] - x[2] * y[3] + x[3] * y[2], x[0] * y[2] - x[2] * y[0] - x[3] * y[1] + x[1] * y[3], x[0] * y[3] - x[3] * y[0] - x[1] * y[2] + x[2] * y[1]]; let th = 2.0 * nrm(&v).atan2(s.abs()); p + th * th } _ => d * d }; } let want = sq.sqrt(); let tol = T::EPS * 60.0 * (1.0 + (0..NC).map(|i| a[i].g().abs() + b[i].g().abs()).sum::<f64>()); let _ = near_pi; close!(g, t.configuration_distance(&a, &b).g(), want, tol, "distance"); close!(g, t.configuration_distance(&b, &a).g(), want, tol, "symmetric"); close!(g, t.configuration_distance(&a, &a).g(), 0.0, T::EPS * 20.0, "to itself"); if let Some(i) = js.iter().position(|j| j.kind == JointKind::Continuous) { let o = t.config_offset(i).unwrap(); let mut c = a; c[o] += T::TWO * T::PI; close!(g, t.configuration_distance(&a, &c).g(), 0.0, T::EPS * 100.0 * (1.0 + a[o].g().abs()), "a full turn of a continuous joint"); } g.nontrivial_if(want > 0.0); Ok(())
}
fn main() {
    run("C15", &["trees of up to 8 joints of every kind, branching, with a floating base; axis lengths 1e-3 to 1e3", "a floating base's linear rates are along the world axes, its angular rates along its own"], &[
        law!("forward", 25000, forward::<f64>, "more than one joint"), law!("forward_f32", 12000, forward::<f32>, "more than one joint"), law!("jacobian", 20000, jacobian::<f64>, "a moving chain"), law!("jacobian_f32", 10000, jacobian::<f32>, "a moving chain"), law!("dual", 10000, dual, "more than one joint"), law!("building", 20000, building::<f64>, "more than one joint"), law!("building_f32", 8000, building::<f32>, "more than one joint"), law!("analysis", 6000, analysis::<f64>, "something moves"), law!("analysis_f32", 3000, analysis::<f32>, "something moves"), law!("distance", 20000, distance::<f64>, "apart"), law!("distance_f32", 8000, distance::<f32>, "apart"),
    ]);
}
