//! C16: inverse kinematics reports against reference geometry, single steps against double-double linear algebra, multi-start against a list.
use checks::arm::*;
use checks::lin::*;
use checks::util::*;
use multicalc::error::KinematicsError as KE;
use multicalc::kinematics::{InverseKinematics, InverseKinematicsReport, InverseKinematicsTermination as End, JacobianFrame, Joint, JointKind, JointParent, MultiStartInverseKinematics, SecondaryObjective as Goal};
use multicalc::linear_algebra::Vector;
use multicalc::random::{Pcg32, RandomScalar, RandomSource};
use multicalc::spatial::{SE3, SO3};
use vk::mat::M as DM;
use vk::*;

type Solver<T> = InverseKinematics<NC, T>;
const PI: f64 = std::f64::consts::PI;
/// The size of a pose error's logarithm: translation part, rotation part, and the plain distance between the origins.
fn pose_error(cur: &H, tgt: &H) -> (f64, f64, f64) {
    let d: [[f64; 3]; 3] = core::array::from_fn(|i| core::array::from_fn(|j| (0..3).map(|k| cur[k][i] * tgt[k][j]).sum())); let p: V3 = core::array::from_fn(|i| (0..3).map(|k| cur[k][i] * (tgt[k][3] - cur[k][3])).sum()); let v = [d[2][1] - d[1][2], d[0][2] - d[2][0], d[1][0] - d[0][1]]; let s = nrm(&v) / 2.0; let c = (d[0][0] + d[1][1] + d[2][2] - 1.0) / 2.0; let th = s.atan2(c);
    let ax: V3 = if s > 1e-6 { v.map(|x| x / (2.0 * s)) } else if c > 0.0 { [0.0; 3] } else { let i = (0..3).max_by(|a, b| d[*a][*a].total_cmp(&d[*b][*b])).unwrap(); let n: V3 = core::array::from_fn(|k| (d[k][i] + if k == i { 1.0 } else { 0.0 }) / 2.0); let m = nrm(&n); n.map(|x| x / m) }; let par: f64 = (0..3).map(|k| ax[k] * p[k]).sum(); let pp: f64 = p.iter().map(|x| x * x).sum(); let h = th / 2.0; let k = if h > 1e-9 { h / h.sin() } else { 1.0 }; ((par * par + (pp - par * par).max(0.0) * k * k).sqrt(), th, pp.sqrt())
}
fn limits_of<T: Fl>(t: &Tree<T>) -> Vec<(usize, T, T)> { (0..t.len()).filter_map(|i| { let j = t.joint(i)?; let (a, b) = j.limits()?; if j.kind() == JointKind::Floating { None } else { Some((t.config_offset(i)?, a, b)) } }).collect() }
fn goal<T: Fl>(g: &mut G) -> Goal<NC, T> { match g.below(3) { 0 => Goal::None, 1 => Goal::PreferredPosture(Vector::from_fn(|_| T::c(g.f(-2.0, 2.0)))), _ => Goal::JointLimitMargin } }
fn weights<T: Fl>(g: &mut G) -> Vector<NC, T> { if g.chance(1, 2) { Vector::from_fn(|_| T::ONE) } else { Vector::from_fn(|_| T::c(g.log10(-1.0, 1.0))) } }
fn target<T: Fl>(g: &mut G, t: &Tree<T>, js: &[J], tool: usize, seed: &Vector<NC, T>) -> SE3<T> {
    match g.below(6) { 0 => SE3::from_parts(SO3::exp(v3([g.f(-3.0, 3.0), g.f(-3.0, 3.0), g.f(-3.0, 3.0)])), v3([g.f(-3.0, 3.0), g.f(-3.0, 3.0), g.f(-3.0, 3.0)])), 1 => { let k = g.log10(0.0, 4.0); SE3::from_parts(SO3::identity(), v3([k * g.bell(), k * g.bell(), k * g.bell()])) } 2 => t.forward_kinematics(seed).unwrap().pose(tool).unwrap() * SE3::from_parts(SO3::exp(v3([PI, 0.0, 0.0])), v3([g.f(-1.0, 1.0), 0.0, 0.0])), _ => { let mut q = config::<T>(g, js); for (o, a, b) in limits_of(t) { q[o] = q[o].max(a).min(b); } if g.chance(1, 2) { let k = T::c(g.log10(-6.0, 0.0)); let f = floating(js); q = Vector::from_fn(|i| if f && (3..7).contains(&i) { seed[i] } else { seed[i] + (q[i] - seed[i]) * k }); } t.forward_kinematics(&q).unwrap().pose(tool).unwrap() } }
}
fn judge<T: Fl>(g: &mut G, t: &Tree<T>, js: &[J], tool: usize, tgt: &SE3<T>, r: &InverseKinematicsReport<NC, T>, pt: f64, ot: f64, lim: bool, budget: usize) -> R {
    ensure!(r.joint_positions.is_finite(), "the returned configuration is not finite"); let qs: Vec<f64> = (0..NC).map(|i| r.joint_positions[i].g()).collect(); if lim { for (o, a, b) in limits_of(t) { ensure!(r.joint_positions[o] >= a && r.joint_positions[o] <= b, "reading {o} = {:?} leaves its limits {a:?}..{b:?}", r.joint_positions[o]); g.label_if(r.joint_positions[o] == a || r.joint_positions[o] == b, "at a limit"); } }
    let w = poses(js, &locals(js, &qs)); let h = hom(tgt); let (p, o, d) = pose_error(&w[tool], &h); let e = T::EPS; let wide = 1.0 + qs.iter().fold(0.0f64, |a, b| a.max(b.abs())); let tol = e * 100.0 * (js.len() + 2) as f64 * wide * (reach(js, &qs) + d); let near = o > PI - e.sqrt() * 100.0 * wide; let kx = if o > 1.0 { (1.0 / (1.0 + (o / 2.0).cos() - 0.0)).max(1.0) * 4.0 } else { 1.0 }; close!(g, r.orientation_error.g(), o, if near { e.sqrt() * 100.0 * wide } else { tol * 4.0 + e * 300.0 }, "orientation error"); close!(g, r.position_error.g(), p, tol * 4.0 * kx + if near { e.sqrt() * 200.0 * wide * (d + 1.0) } else { 0.0 }, "position error");
    let inside = r.position_error.g() <= pt && r.orientation_error.g() <= ot; ensure!((r.termination == End::Converged) == inside, "{:?} with errors {:?} {:?} against tolerances {pt:e} {ot:e}", r.termination, r.position_error, r.orientation_error); ensure!(r.iterations <= budget, "{} iterations of {budget}", r.iterations); if r.termination == End::IterationBudget { ensure!(r.iterations == budget, "the budget ran out after {} of {budget}", r.iterations); } match r.termination { End::Converged => g.label("converged"), End::Stalled => g.label("stalled"), _ => g.label("budget") } Ok(())
}
/// Whatever is asked, what comes back is what it says it is.
fn report<T: Fl>(g: &mut G) -> R {
    let Some((t, js)) = tree::<T>(g) else { discard!() }; let tool = g.below(js.len()); let seed = config::<T>(g, &js); let tgt = target(g, &t, &js, tool, &seed); let (pt, ot) = if T::IS32 { (g.log10(-4.5, -1.0), g.log10(-4.5, -1.0)) } else { (g.log10(-9.0, -1.0), g.log10(-9.0, -1.0)) }; let (pt, ot) = (rnd::<T>(pt), rnd::<T>(ot)); let budget = g.pick(&[0, 1, 2, 5, 20, 60]); let lim = g.chance(3, 4); let step = T::c(g.pick(&[0.2, 0.05, 1.0, 1e30])); let damp = T::c(g.pick(&[1e-2, 0.3])); let mut s = Solver::<T>::new().with_position_tolerance(T::c(pt)).with_orientation_tolerance(T::c(ot)).with_maximum_iterations(budget).with_respect_limits(lim).with_maximum_step_norm(step).with_maximum_damping(damp).with_joint_weights(weights(g)).with_secondary_objective(goal(g)).with_singular_value_threshold(T::c(g.pick(&[1e-3, 0.1]))).with_secondary_gain(T::c(g.f(0.0, 0.9))); if g.chance(1, 3) { s = s.with_minimum_step_norm(T::c(g.log10(-8.0, -1.0))); }
    g.note("joints", &js); g.note("tool", &tool); g.note("seed", &seed); g.note("target", &tgt); g.note("solver", &s); let r = match s.solve(&t, tool, tgt, &seed) { Ok(r) => r, Err(e) => bad!("{e:?}") }; let z = s.solve(&t, tool, tgt, &seed).unwrap(); ensure!(z.joint_positions == r.joint_positions && z.iterations == r.iterations, "the same question, another answer"); g.nontrivial_if(r.iterations > 1); judge(g, &t, &js, tool, &tgt, &r, pt, ot, lim, budget)
}
fn arm<T: Fl>(g: &mut G, float: bool, rot: bool) -> (Tree<T>, Vec<J>) {
    let n = if float { 1 + g.below(3) } else { 6 + g.below(NJ - 5) }; let mut t = Tree::<T>::new(); let mut js = vec![]; for i in 0..n { let mut o = origin::<T>(g, true); if float && i == 0 { if rot { o = SE3::from_parts(SO3::exp(v3([g.f(-3.0, 3.0), g.f(-3.0, 3.0), g.f(-3.0, 3.0)])), o.translation()); } } let a = v3::<T>(dir(g)); let mut j = if float && i == 0 { Joint::floating(o) } else { match g.below(4) { 0 => Joint::prismatic(a, o), 1 => Joint::continuous(a, o), _ => Joint::revolute(a, o) } }; if j.kind() != JointKind::Floating { if g.chance(1, 4) { j = j.with_zero_offset(T::c(g.f(-1.0, 1.0))); } if g.chance(1, 4) { j = j.with_anchor(v3([g.f(-0.3, 0.3), g.f(-0.3, 0.3), g.f(-0.3, 0.3)])); } if j.kind() != JointKind::Continuous && g.chance(1, 3) { j = j.with_limits(T::c(-9.0), T::c(9.0)); } } let p = if i == 0 { JointParent::World } else { JointParent::Joint(i - 1) }; js.push(describe(j, p)); t.push(j, p).unwrap(); } (t, js)
}
/// A target a short, well-conditioned way from the start is reached.
fn reached<T: Fl>(g: &mut G) -> R {
    let float = g.chance(1, 4); let (t, js) = arm::<T>(g, float, true); let mut q = config::<T>(g, &js); for i in 0..NC { q[i] = T::c(q[i].g().clamp(-3.2, 3.2)); } let tool = js.len() - 1; let j = t.geometric_jacobian_at(&q, tool, JacobianFrame::Body).unwrap(); let sv = { let a = dm(&j.matrix()); let ev = a.mul(&a.t()).sym_eigs(); ev.iter().fold(f64::INFINITY, |m, x| m.min(*x)).max(0.0).sqrt() }; if sv < 0.05 { discard!(); } let qs: Vec<f64> = (0..NC).map(|i| q[i].g()).collect(); let rc = reach(&js, &qs); let size = 0.1 * sv.min(1.0) / rc; let d = { let v: Vec<f64> = (0..NC).map(|_| g.bell()).collect(); let n = nrm(&v).max(1e-3); let k = size * g.unit() / n; v.into_iter().map(|x| x * k).collect::<Vec<_>>() };
    let f = floating(&js); let mut seed = q; for i in 0..NC { seed[i] += T::c(d[i] * if f && (3..7).contains(&i) { nrm(&qs[3..7]) * 0.5 } else { 1.0 }); } let tgt = t.forward_kinematics(&q).unwrap().pose(tool).unwrap(); g.note("joints", &js); g.note("goal", &q); g.note("seed", &seed); g.note("least singular value", &sv); let tol = if T::IS32 { 3e-5 * rc } else { 1e-9 * rc }; let s = Solver::<T>::new().with_position_tolerance(T::c(tol)).with_orientation_tolerance(T::c(tol)).with_joint_weights(if f { Vector::from_fn(|_| T::ONE) } else { weights(g) }); let r = match s.solve(&t, tool, tgt, &seed) { Ok(r) => r, Err(e) => bad!("{e:?}") }; ensure!(r.termination == End::Converged && r.iterations < 30, "{:?} after {} iterations, errors {:?} {:?}", r.termination, r.iterations, r.position_error, r.orientation_error); g.label_if(f, "floating base"); g.label_if(r.iterations > 3, "over three iterations"); g.nontrivial_if(r.iterations > 1); judge(g, &t, &js, tool, &tgt, &r, rnd::<T>(tol), rnd::<T>(tol), true, 100)
}
/// One iteration against the damped least-squares formula in double-double arithmetic.
fn one_step(g: &mut G) -> R {
    let full = g.chance(1, 2); let (t, js) = if full { arm::<f64>(g, false, false) } else { match tree::<f64>(g) { Some(t) if !floating(&t.1) => t, _ => discard!() } }; let n = js.len(); let tool = n - 1; let seed0 = config::<f64>(g, &js); let wt = weights::<f64>(g); let lim = g.chance(1, 2); let mut seed = seed0; if lim { for (o, a, b) in limits_of(&t) { seed[o] = seed[o].max(a).min(b); } } let tgt = target(g, &t, &js, tool, &seed); let gl = goal::<f64>(g); let gain = g.f(0.0, 1.0); let cap = g.pick(&[0.2, 1e3, 1e30]); let (th, md) = (g.pick(&[1e-3, 0.2]), g.pick(&[1e-2, 0.3])); let s = Solver::<f64>::new().with_maximum_iterations(1).with_respect_limits(lim).with_joint_weights(wt).with_maximum_step_norm(cap).with_secondary_objective(gl).with_secondary_gain(gain).with_singular_value_threshold(th).with_maximum_damping(md).with_minimum_step_norm(0.0); g.note("joints", &js); g.note("seed", &seed); g.note("target", &tgt); g.note("solver", &s);
    let here = t.forward_kinematics(&seed).unwrap().pose(tool).unwrap(); let err = (here.inverse() * tgt).log(); if (err[3].powi(2) + err[4].powi(2) + err[5].powi(2)).sqrt() > 3.0 { discard!(); } let a = dm(&t.geometric_jacobian_at(&seed, tool, JacobianFrame::Body).unwrap().matrix()); let wi = DM::from_fn(NC, NC, |r, c| if r == c && r < n { 1.0 / wt[r] } else { 0.0 }); let wtr = wi.mul(&a.t()); let core = a.mul(&wtr); let mut ev = core.sym_eigs(); ev.sort_by(|x, y| x.partial_cmp(y).unwrap()); let sm = ev[0].max(0.0).sqrt(); let big = ev[5].max(0.0).sqrt(); if (sm - th).abs() < 0.02 * th || (sm < th && sm > 0.0 && sm < 1e-6 * big && 1e-6 * big > 0.01 * th) { discard!(); } let l2 = if sm >= th { 0.0 } else { md * md * (1.0 - (sm / th).powi(2)) }; let m = core.add(&DM::eye(6).scale(l2)); let low = ev[0].max(0.0) + l2; if low <= 1e-9 * big * big || low == 0.0 { discard!(); } let Some(inv) = m.inv() else { discard!() };
    let mut bias = DM::zeros(NC, 1); for i in 0..n { let q = seed[i]; let b = match (&gl, js[i].kind) { (_, JointKind::Fixed | JointKind::Floating) | (Goal::None, _) => 0.0, (Goal::PreferredPosture(p), k) => { let d = p[i] - q; gain * if k == JointKind::Continuous { d.sin().atan2(d.cos()) } else { d } } (Goal::JointLimitMargin, _) => match t.joint(i).unwrap().limits() { Some((a, b)) if b > a => gain * ((a + b) / 2.0 - q) / (b - a), _ => 0.0 } }; bias.set(i, 0, DD_(b)); if js[i].kind == JointKind::Continuous && matches!(gl, Goal::PreferredPosture(_)) { g.label("posture of a continuous joint"); } }
    let e = DM::from_fn(6, 1, |i, _| err[i]); let step = wtr.mul(&inv.mul(&e)).add(&bias).sub(&wtr.mul(&inv.mul(&a.mul(&bias)))); let mut d: Vec<f64> = (0..NC).map(|i| if i < n && js[i].kind != JointKind::Fixed { step.f(i, 0) } else { 0.0 }).collect(); let nn = nrm(&d); if nn > cap { for x in &mut d { *x *= cap / nn; } g.label("step capped"); } let mut want: Vec<f64> = (0..NC).map(|i| seed[i] + d[i]).collect(); if lim { for (o, a, b) in limits_of(&t) { want[o] = want[o].max(a).min(b); } }
    let kappa = big * big / low; let tol = 3e-11 * kappa * (1.0 + nn.min(cap)) + 1e-10 * (1.0 + nn.min(cap)) + 1e-15 * want.iter().fold(0.0f64, |a, b| a.max(b.abs())); if tol > 1e-3 * (1.0 + nn.min(cap)) { discard!(); } let r = s.solve(&t, tool, tgt, &seed0).unwrap(); if r.termination != End::IterationBudget && r.iterations == 1 && r.joint_positions == seed { g.label("already there"); let (p, o) = ((err[0].powi(2) + err[1].powi(2) + err[2].powi(2)).sqrt(), (err[3].powi(2) + err[4].powi(2) + err[5].powi(2)).sqrt()); ensure!((p <= 1e-6 && o <= 1e-6) || nn <= tol || (0..NC).all(|i| (want[i] - seed[i]).abs() <= tol), "stopped at the start with a step of {nn:e} to take"); return Ok(()); } for i in 0..NC { close!(g, r.joint_positions[i], want[i], tol, "joint {i} after one iteration"); } g.label_if(l2 > 0.0, "damped"); g.label_if(l2 == 0.0, "undamped"); g.label_if(!matches!(gl, Goal::None), "secondary objective"); g.nontrivial_if(nn > 0.0); Ok(())
}
#[allow(non_snake_case)]
fn DD_(x: f64) -> vk::dd::DD { vk::dd::DD::new(x) }
fn same<T: Fl>(a: &InverseKinematicsReport<NC, T>, b: &InverseKinematicsReport<NC, T>) -> bool { a.joint_positions == b.joint_positions && a.position_error == b.position_error && a.orientation_error == b.orientation_error && a.iterations == b.iterations && a.termination == b.termination }
const MS: usize = 6;
fn starts<T: Fl + RandomScalar>(g: &mut G) -> R {
    let float = g.chance(1, 5); let (t, js) = if g.chance(3, 4) { arm::<T>(g, float, false) } else { match tree::<T>(g) { Some(x) => x, _ => discard!() } }; let tool = js.len() - 1; let base = config::<T>(g, &js); let tgt = target(g, &t, &js, tool, &base); let tol = T::c(if T::IS32 { 1e-3 } else { 1e-6 }); let s = Solver::<T>::new().with_position_tolerance(tol).with_orientation_tolerance(tol).with_maximum_iterations(40).with_maximum_step_norm(T::c(g.pick(&[0.2, 1.0]))); let th = T::c(g.pick(&[1e-3, 0.0, 0.3, 1e9])); let span = T::c(g.pick(&[PI, 0.5, 0.0])); let ms = MultiStartInverseKinematics::<MS, NC, T>::new().with_solver(s).with_distinct_threshold(th).with_jitter_span(span); g.note("joints", &js); g.note("base", &base); g.note("target", &tgt); g.note("threshold,span", &(th, span));
    let n = g.below(MS + 2); let mut seeds = vec![]; let seeded = g.chance(1, 2); let word = g.raw(0); let mut src = Pcg32::<T>::new(word); let r = if seeded { let mut mine = Pcg32::<T>::new(word); for k in 0..n { let mut q = base; if k > 0 { for i in 0..t.len() { let j = t.joint(i).unwrap(); if matches!(j.kind(), JointKind::Fixed | JointKind::Floating) { continue; } let o = t.config_offset(i).unwrap(); let u = RandomSource::<T>::next_unit(&mut mine); q[o] = match j.limits() { Some((a, b)) => a + u * (b - a), None => base[o] + (u * T::TWO - T::ONE) * span }; } } seeds.push(q); } ms.solve_seeded(&t, tool, tgt, &base, &mut src, n) } else { for k in 0..n { seeds.push(if k > 0 && g.chance(1, 3) { seeds[g.below(k)] } else { config::<T>(g, &js) }); } ms.solve_from_seeds(&t, tool, tgt, &seeds) };
    if n > MS { ensure!(r.err() == Some(KE::StartCapacityExceeded)); g.label("too many"); return Ok(()); } let r = match r { Ok(r) => r, Err(e) => bad!("{e:?}") }; let mut keep: Vec<InverseKinematicsReport<NC, T>> = vec![]; for q in &seeds { let a = s.solve(&t, tool, tgt, q).unwrap(); if a.termination == End::Converged { if keep.iter().all(|k| t.configuration_distance(&k.joint_positions, &a.joint_positions) >= th) { keep.push(a); } else { g.label("duplicate dropped"); } } }
    ensure!(r.attempts() == n && r.len() == keep.len() && r.is_empty() == keep.is_empty() && r.solutions().len() == keep.len(), "{} kept of {}, expected {}", r.len(), r.attempts(), keep.len()); for (a, b) in r.solutions().iter().zip(&keep) { ensure!(same(a, b), "kept solutions or their order differ"); } let to = config::<T>(g, &js); let best = keep.iter().map(|k| t.configuration_distance(&k.joint_positions, &to)).fold(None, |m: Option<T>, d| Some(m.map_or(d, |m| m.min(d)))); match (r.closest_to(&t, &to), best) { (None, None) => (), (Some(a), Some(d)) => ensure!(t.configuration_distance(&a.joint_positions, &to) == d && keep.iter().any(|k| same(k, a)), "not the closest"), _ => bad!("closest_to and the solutions disagree") } g.label_if(keep.len() > 1, "several branches"); g.label_if(seeded, "jittered"); g.nontrivial_if(!keep.is_empty()); Ok(())
}
fn refused<T: Fl>(g: &mut G) -> R {
    let Some((t, js)) = tree::<T>(g) else { discard!() }; let tool = g.below(js.len()); let mut q = config::<T>(g, &js); let mut tgt = target(g, &t, &js, tool, &q); let mut s = Solver::<T>::new().with_maximum_iterations(10); let bad = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])); let kind = g.below(6); g.note("kind,bad", &(kind, bad)); let mut w = weights::<T>(g); let (want, tool) = match kind { 0 => (KE::ToolIndexOutOfRange, js.len() + g.below(3)), 1 => { q[g.below(NC)] = bad; (KE::NonFinite, tool) } 2 => { let mut p = tgt.translation(); p[g.below(3)] = bad; tgt = SE3::from_parts(tgt.rotation(), p); (KE::NonFinite, tool) } 3 => { let i = g.below(t.velocity_len()); w[i] = g.pick(&[T::ZERO, -T::ONE]); s = s.with_joint_weights(w); (KE::NonPositiveWeight, tool) } 4 => { let i = g.below(t.velocity_len()); w[i] = T::c(f64::NAN); s = s.with_joint_weights(w); match s.solve(&t, tool, tgt, &q) { Err(_) => return Ok(()), Ok(r) => { ensure!(r.iterations <= 1 && r.joint_positions.is_finite(), "a NaN weight was used: {r:?}"); return Ok(()); } } } _ => { if t.velocity_len() == NC { discard!(); } w[NC - 1] = T::c(-1.0); s = s.with_joint_weights(w); ensure!(s.solve(&t, tool, tgt, &q).is_ok(), "an unused weight matters"); return Ok(()); } }; let r = s.solve(&t, tool, tgt, &q); ensure!(matches!(&r, Err(e) if *e == want), "{:?} where {want:?} is due", r.err()); g.nontrivial(); Ok(())
}
fn main() {
    run("C16", &["the position residual is judged as the translation part of the pose error's logarithm", "reaching is required from starts within a tenth of the least singular value over the reach"], &[
        law!("report", 3000, report::<f64>, "more than one iteration was taken"), law!("report_f32", 1500, report::<f32>, "more than one iteration was taken"), law!("reached", 4000, reached::<f64>, "more than one iteration was taken"), law!("reached_f32", 2000, reached::<f32>, "more than one iteration was taken"), law!("one_step", 5000, one_step, "the step is not zero"), law!("starts", 600, starts::<f64>, "a solution was found"), law!("starts_f32", 300, starts::<f32>, "a solution was found"), law!("refused", 1500, refused::<f64>, "a typed error is due"), law!("refused_f32", 500, refused::<f32>, "a typed error is due"),
    ]);
}
