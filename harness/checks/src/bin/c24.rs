//! C24: the gap follower against an independent reading of its documentation.
use checks::dims;
use checks::util::*;
use multicalc::control::FollowTheGap;
use multicalc::error::ControlError as CE;
use vk::*;

#[derive(Clone, Copy, Debug)]
struct Setup { fov: f64, max: f64, width: f64, thr: f64, cruise: f64, gain: f64, bias: f64, stop: f64, clear: f64, half: f64 }
fn make<const B: usize, T: Fl>(g: &mut G) -> (Setup, FollowTheGap<B, T>) {
    let r = rnd::<T>; let two_pi = T::TWO_PI.g();
    let fov = r(match g.below(6) { 0 => g.pick(&[std::f64::consts::PI, 2.0 * std::f64::consts::FRAC_PI_3, std::f64::consts::FRAC_PI_2]), 1 => two_pi, 2 => g.f(3.2, 6.28), 3 => g.f(0.1, 1.0), _ => g.f(0.5, 3.2) }).min(two_pi);
    let max = r(if g.chance(1, 3) { 4.0 } else { g.log10(-1.0, 2.0) }); let width = r(max * g.log10(-2.5, 0.0)); let thr = r(max * if g.chance(1, 6) { 1.0 } else { g.f(0.02, 1.0) }).min(max); let cruise = r(g.log10(-1.0, 1.0));
    let c = FollowTheGap::<B, T>::try_new(T::c(fov), T::c(max), T::c(width), T::c(thr), T::c(cruise)).expect("valid follower"); let mut s = Setup { fov, max, width, thr, cruise, gain: 1.5, bias: 0.5, stop: width * 0.5, clear: max, half: fov / 4.0 }; let mut c = c;
    if g.bool() { s.gain = r(g.log10(-1.0, 1.0)); c = c.with_steering_gain(T::c(s.gain)).expect("gain"); }
    if g.bool() { s.bias = r(if g.chance(1, 4) { 0.0 } else { g.log10(-1.5, 1.5) }); c = c.with_goal_bias(T::c(s.bias)).expect("bias"); }
    if g.bool() { s.stop = r(if g.chance(1, 5) { 0.0 } else { max * g.f(0.01, 0.6) }); s.clear = r(s.stop + max * g.log10(-2.0, 0.5)); if s.stop < s.clear { c = c.with_speed_scaling(T::c(s.stop), T::c(s.clear)).expect("scaling"); } else { s.stop = width * 0.5; s.clear = max; } }
    if g.bool() { s.half = r(fov * g.f(0.02, 0.499)); c = c.with_frontal_half_angle(T::c(s.half)).expect("half angle"); }
    (s, c)
}
fn scan<const B: usize, T: Fl>(g: &mut G, s: &Setup) -> [T; B] {
    let mode = g.below(6); let mut open = g.bool(); let mut left = 0usize; let mut base = s.max; let run = 1 + g.below(B.min(12));
    core::array::from_fn(|_| {
        if left == 0 { left = 1 + g.below(run); open = !open; base = if open { s.thr + (s.max - s.thr) * g.f(0.0, 1.0) } else { s.thr * if mode == 0 { g.log10(-3.0, 0.0) } else { g.f(0.3, 1.0) } }; } left -= 1;
        let v = if mode == 5 { s.max * g.f(0.0, 1.2) } else if mode == 4 { s.thr * g.f(0.05, 0.99) } else if g.chance(1, 10) { g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, -1.0, s.thr, s.max, s.max * 3.0]) } else if open { base.max(s.thr) } else { base * g.f(0.9, 1.0) }; T::c(v)
    })
}
fn clean<const B: usize, T: Fl>(s: &Setup, v: &[T; B]) -> Vec<f64> { v.iter().map(|x| { let x = x.g(); if x.is_finite() && x > 0.0 { x.min(s.max) } else { s.max } }).collect() }
#[derive(Debug)]
struct Gap { start: usize, end: usize, sure: bool, aims: Vec<f64>, score: f64 }
/// Every stretch of open beams the robot fits through, judged from the documentation.
fn gaps(s: &Setup, r: &[f64], goal: f64, eps: f64) -> Vec<Gap> {
    let n = r.len(); let at = |i: usize| -s.fov / 2.0 + s.fov * i as f64 / (n - 1) as f64; let mut out = vec![]; let mut i = 0;
    while i < n { if r[i] < s.thr { i += 1; continue; } let a = i; while i < n && r[i] >= s.thr { i += 1; } let b = i - 1;
        let mut sure = true; if a > 0 && b + 1 < n { let (p, q) = (r[a - 1], r[b + 1]); let sep = at(b + 1) - at(a - 1); if sep < std::f64::consts::PI + 20.0 * eps { let (x, y) = (q * sep.cos() - p, q * sep.sin()); let w = x.hypot(y); let slack = eps * 40.0 * (p * p + q * q) / w.max(s.width); if w < s.width - slack { if sep < std::f64::consts::PI - 20.0 * eps { continue; } sure = false; } else if w < s.width + slack { sure = false; } } }
        let low = at(a) + if a > 0 { (s.width / 2.0 / r[a - 1]).atan() } else { 0.0 }; let high = at(b) - if b + 1 < n { (s.width / 2.0 / r[b + 1]).atan() } else { 0.0 };
        let mut aims = vec![]; let t = 30.0 * eps; if low <= high + t { aims.push(goal.max(low).min(high)); } if low >= high - t { aims.push((at(a) + at(b)) / 2.0); } let score = aims.iter().map(|x| (high - low).max(0.0) - s.bias * (x - goal).abs()).fold(f64::INFINITY, f64::min);
        out.push(Gap { start: a, end: b, sure: sure && aims.len() == 1, aims, score }); }
    out
}
fn follow<const B: usize, T: Fl>(g: &mut G) -> R {
    let (s, c) = make::<B, T>(g); let v = scan::<B, T>(g, &s); let goal = T::c(if g.chance(1, 4) { 0.0 } else if g.chance(1, 6) { g.f(-12.0, 12.0) } else { g.f(-0.6, 0.6) * s.fov }); g.note("follower", &s); g.note("ranges", &v); g.note("goal", &goal);
    let o = match c.compute(&v, goal) { Ok(o) => o, Err(e) => bad!("{e:?}") }; let (e, gl) = (T::EPS, goal.g()); let r = clean(&s, &v); let all = gaps(&s, &r, gl, e); let at = |i: usize| -s.fov / 2.0 + s.fov * i as f64 / (B - 1) as f64;
    for i in 0..B { let Some(a) = c.beam_angle(i) else { bad!("beam {i} has no angle") }; close!(g, a.g(), at(i), e * 4.0 * s.fov, "beam angle {i}"); } ensure!(c.beam_angle(B).is_none() && c.beam_angle(usize::MAX).is_none());
    ensure!(o.minimum_clearance().g() == r.iter().fold(s.max, |a, b| a.min(*b)), "clearance {:?}", o.minimum_clearance());
    let (lin, ang, head) = (o.body_twist().linear().g(), o.body_twist().angular().g(), o.heading().g());
    if o.is_blocked() { ensure!(all.iter().all(|x| !x.sure || (x.aims.is_empty())), "reported blocked with a way through: {all:?}"); ensure!(lin == 0.0 && ang == 0.0 && head == 0.0 && o.gap_start_index() == 0 && o.gap_end_index() == 0, "a blocked robot moves"); g.label("blocked"); g.nontrivial(); return Ok(()); }
    let Some(me) = all.iter().find(|x| x.start == o.gap_start_index() && x.end == o.gap_end_index()) else { bad!("{}..{} is no gap: {all:?}", o.gap_start_index(), o.gap_end_index()) };
    let tol = e * 40.0 * (s.fov + gl.abs()); ensure!(me.aims.iter().any(|a| (a - head).abs() <= tol), "aims at {head}, the gap's own {:?}", me.aims); ensure!(head >= at(me.start) - tol && head <= at(me.end) + tol, "heads out of its gap"); let st = e * 60.0 * (s.fov + s.bias * (s.fov + gl.abs())); for x in &all { if x.sure && me.aims.len() == 1 { ensure!(me.score >= x.score - st, "gap {me:?} taken over {x:?}"); } }
    close!(g, ang, s.gain * head, e * 4.0 * (s.gain * head).abs(), "turn rate");
    let near = |slack: f64| (0..B).filter(|&i| at(i).abs() <= s.half + slack).map(|i| r[i]).fold(s.max, f64::min); let speed = |f: f64| s.cruise * ((f - s.stop) / (s.clear - s.stop)).clamp(0.0, 1.0); let t = e * 20.0 * s.cruise * (1.0 + s.max / (s.clear - s.stop)); let (lo, hi) = (speed(near(e * 20.0 * s.fov)), speed(near(-e * 20.0 * s.fov))); ensure!(lin >= lo - t && lin <= hi + t, "speed {lin} outside [{lo}, {hi}]"); ensure!((0.0..=s.cruise * (1.0 + 2.0 * e)).contains(&lin), "speed {lin}");
    let ahead = near(e * 20.0 * s.fov); if ahead <= s.stop * (1.0 - 8.0 * e) && lo == hi { ensure!(lin == 0.0, "an obstacle inside the stopping distance and the robot still drives at {lin}"); g.label("stopped"); }
    g.label_if(all.len() > 1, "several gaps"); g.label_if(me.aims.iter().any(|a| (a - (at(me.start) + at(me.end)) / 2.0).abs() < 1e-12), "middle"); g.nontrivial_if(all.len() > 1 || lo < s.cruise); Ok(())
}
/// A beam exactly on the edge of "ahead" counts; one just outside does not. Angles are exact binary fractions.
fn frontal_edge(g: &mut G) -> R {
    const B: usize = 17; let fov = g.pick(&[1.0, 2.0, 4.0]); let i = g.below(B); let a = (-fov / 2.0 + fov * i as f64 / 16.0f64).abs(); if a == 0.0 { discard!(); }
    let d = g.u(0.3, 3.0); let outside = g.bool(); let half = if outside { a - fov / 100.0 } else { a }; let c = FollowTheGap::<B>::try_new(fov, 4.0, 0.05, 0.2, 1.0).unwrap().with_speed_scaling(0.1, 4.0).unwrap().with_frontal_half_angle(half).unwrap();
    let mut v = [4.0f64; B]; v[i] = d; g.note("view, beam, range, half", &(fov, i, d, half)); let got = c.compute(&v, 0.0).unwrap().body_twist().linear(); let want = if outside { 1.0 } else { (d - 0.1) / 3.9 }; close!(g, got, want, 1e-12, "speed"); g.nontrivial(); Ok(())
}
/// Relations between scans: mirroring, cleaning, closing in, changing units.
fn relate<const B: usize, T: Fl>(g: &mut G) -> R {
    let (s, c) = make::<B, T>(g); let v = scan::<B, T>(g, &s); let goal = T::c(if g.chance(1, 4) { 0.0 } else { g.f(-0.6, 0.6) * s.fov }); g.note("follower", &s); g.note("ranges", &v); g.note("goal", &goal); let o = c.compute(&v, goal).unwrap(); let r = clean(&s, &v); let e = T::EPS;
    let tidy: [T; B] = core::array::from_fn(|i| T::c(r[i])); ensure!(c.compute(&tidy, goal).unwrap() == o, "an unusable reading did not read as open space"); let twice = c; ensure!(twice.compute(&v, goal).unwrap() == o);
    let all = gaps(&s, &r, goal.g(), e); let mut sc: Vec<f64> = all.iter().map(|x| x.score).collect(); sc.sort_by(|a, b| b.total_cmp(a)); let clear = all.iter().all(|x| x.sure) && (sc.len() < 2 || sc[0] - sc[1] > 1e-3);
    if clear { let mut m = v; m.reverse(); let q = c.compute(&m, -goal).unwrap(); ensure!(q.is_blocked() == o.is_blocked() && q.minimum_clearance() == o.minimum_clearance(), "mirroring changed the verdict"); if !o.is_blocked() { ensure!(q.gap_start_index() == B - 1 - o.gap_end_index() && q.gap_end_index() == B - 1 - o.gap_start_index(), "mirrored gap"); close!(g, q.heading().g(), -o.heading().g(), e * 60.0 * (s.fov + goal.g().abs()), "mirrored heading"); let edge = (0..B).any(|i| ((-s.fov / 2.0 + s.fov * i as f64 / (B - 1) as f64).abs() - s.half).abs() < e * 40.0 * s.fov); if !edge { close!(g, q.body_twist().linear().g(), o.body_twist().linear().g(), e * 8.0 * s.cruise, "mirrored speed"); } }
        let k = 2f64.powi(g.int(-3, 3) as i32); let big = FollowTheGap::<B, T>::try_new(T::c(s.fov), T::c(s.max * k), T::c(s.width * k), T::c(s.thr * k), T::c(s.cruise)).unwrap().with_goal_bias(T::c(s.bias)).unwrap().with_steering_gain(T::c(s.gain)).unwrap().with_speed_scaling(T::c(s.stop * k), T::c(s.clear * k)).unwrap().with_frontal_half_angle(T::c(s.half)).unwrap(); let base = FollowTheGap::<B, T>::try_new(T::c(s.fov), T::c(s.max), T::c(s.width), T::c(s.thr), T::c(s.cruise)).unwrap().with_goal_bias(T::c(s.bias)).unwrap().with_steering_gain(T::c(s.gain)).unwrap().with_speed_scaling(T::c(s.stop), T::c(s.clear)).unwrap().with_frontal_half_angle(T::c(s.half)).unwrap();
        let scaled = v.map(|x| x * T::c(k)); let q = big.compute(&scaled, goal).unwrap(); let p = base.compute(&v, goal).unwrap(); ensure!(q.is_blocked() == p.is_blocked() && q.gap_start_index() == p.gap_start_index() && q.gap_end_index() == p.gap_end_index() && q.heading() == p.heading() && q.body_twist() == p.body_twist(), "changing the unit of length changed the command"); }
    // an obstacle creeping closer never speeds the robot up while the gap is unchanged
    let i = g.below(B); let mut w = tidy; w[i] = w[i] * T::c(g.f(0.3, 1.0)); let q = c.compute(&w, goal).unwrap(); ensure!(q.minimum_clearance() <= o.minimum_clearance()); if !q.is_blocked() && !o.is_blocked() { ensure!(q.body_twist().linear() <= o.body_twist().linear(), "an obstacle closer, a robot faster"); } g.nontrivial_if(!o.is_blocked()); Ok(())
}
fn refuse(g: &mut G) -> R {
    let mut a = [g.f(0.1, 6.2), g.f(1.0, 10.0), g.f(0.1, 1.0), g.f(0.05, 0.9), g.f(0.1, 3.0)]; for _ in 0..1 + g.below(2) { let i = g.below(5); a[i] = match g.below(4) { 0 => g.hostile(), 1 => 0.0, 2 => -g.f(0.0, 2.0), _ => g.f(0.0, 25.0) }; } g.note("arguments", &a); let [fov, max, width, thr, cruise] = a;
    let want = if a.iter().any(|x| !x.is_finite()) { Some(CE::NonFinite) } else if !(fov > 0.0 && fov <= 2.0 * std::f64::consts::PI) { Some(CE::InvalidFieldOfView) } else if !(max > 0.0 && thr > 0.0 && thr <= max) { Some(CE::NonPositiveRange) } else if !(width > 0.0 && width * 0.5 < max) { Some(CE::NonPositiveChassisWidth) } else if !(cruise > 0.0) { Some(CE::NonPositiveSpeed) } else { None };
    let r = FollowTheGap::<9, f64>::try_new(fov, max, width, thr, cruise); ensure!(r.as_ref().err() == want.as_ref(), "{r:?}, wanted {want:?}"); ensure!(FollowTheGap::<1, f64>::try_new(1.0, 1.0, 0.1, 0.5, 1.0).err() == Some(CE::InvalidBeamCount) && FollowTheGap::<0, f64>::try_new(1.0, 1.0, 0.1, 0.5, 1.0).err() == Some(CE::InvalidBeamCount));
    let c = FollowTheGap::<9, f64>::try_new(2.0, 4.0, 0.5, 1.0, 1.0).unwrap(); let (x, y) = (g.mostly(-1.0, 3.0), g.mostly(-1.0, 3.0)); g.note("options", &(x, y)); let bad = |v: f64| !v.is_finite();
    let want = if bad(x) { Some(CE::NonFinite) } else if x <= 0.0 { Some(CE::NonPositiveSpeed) } else { None }; ensure!(c.with_steering_gain(x).err() == want, "gain"); let want = if bad(x) { Some(CE::NonFinite) } else if x < 0.0 { Some(CE::NegativeGoalBias) } else { None }; ensure!(c.with_goal_bias(x).err() == want, "bias"); let want = if bad(x) || bad(y) { Some(CE::NonFinite) } else if x < 0.0 || x >= y { Some(CE::InvalidSpeedScaling) } else { None }; ensure!(c.with_speed_scaling(x, y).err() == want, "scaling"); let want = if bad(x) { Some(CE::NonFinite) } else if x <= 0.0 || x > 1.0 { Some(CE::InvalidFieldOfView) } else { None }; ensure!(c.with_frontal_half_angle(x).err() == want, "half angle");
    let v = core::array::from_fn(|_| g.mostly(-1.0, 5.0)); let r = c.compute(&v, x); if bad(x) { ensure!(r.err() == Some(CE::NonFinite), "goal {x}"); } else { ensure!(r.is_ok()); } g.nontrivial(); Ok(())
}
fn follow_all(g: &mut G) -> R { dims!(g, follow, f64, 2, 3, 4, 5, 8, 9, 16, 31, 64, 181, 361) }
fn follow_all32(g: &mut G) -> R { dims!(g, follow, f32, 2, 3, 5, 9, 31, 64) }
fn relate_all(g: &mut G) -> R { dims!(g, relate, f64, 3, 5, 8, 9, 31, 64) }
fn relate_all32(g: &mut G) -> R { dims!(g, relate, f32, 5, 9, 31) }
fn main() {
    vk::run("C24", &["between gaps whose scores agree to rounding either may be taken", "two obstacles a half turn or more apart never make a gap too narrow"], &[
        law!("follow", 60000, follow_all, "blocked, several gaps, or slowed"), law!("follow_f32", 40000, follow_all32, "blocked, several gaps, or slowed"),
        law!("frontal_edge", 4000, frontal_edge, "always"),
        law!("relate", 30000, relate_all, "not blocked"), law!("relate_f32", 20000, relate_all32, "not blocked"), law!("refuse", 20000, refuse, "always"),
    ]);
}
