//! C25: motion profiles against closed-loop bisection, minimum-snap paths against the degree-7 spline.
use checks::dims;
use checks::util::*;
use multicalc::error::MotionError as ME;
use multicalc::linear_algebra::Vector;
use multicalc::motion::*;
use multicalc::Dual;
use vk::mat::M as DM;
use vk::*;

/// The quickest rest-to-rest move: phase lengths, peak speed, peak acceleration.
#[derive(Debug, Clone)]
struct Best { d: [f64; 7], v: f64, a: f64, total: f64, jerk: f64, sign: f64 }
fn best(dist: f64, vm: f64, am: f64, jm: Option<f64>) -> Best {
    let sign = if dist < 0.0 { -1.0 } else { 1.0 }; let d = dist.abs(); if d == 0.0 { return Best { d: [0.0; 7], v: 0.0, a: 0.0, total: 0.0, jerk: 0.0, sign }; }
    let ramp = |v: f64| match jm { None => (0.0, v / am), Some(j) => if v * j < am * am { ((v / j).sqrt(), 0.0) } else { (am / j, v / am - am / j) } };
    let need = |v: f64| { let (j, h) = ramp(v); v * (2.0 * j + h) }; let v = if need(vm) <= d { vm } else { let (mut lo, mut hi) = (0.0f64, vm); for _ in 0..2000 { let m = 0.5 * (lo + hi); if m == lo || m == hi { break; } if need(m) <= d { lo = m } else { hi = m } } lo };
    let (j, h) = ramp(v); let c = ((d - need(v)) / v).max(0.0); let ds = [j, h, j, c, j, h, j]; Best { d: ds, v, a: jm.map_or(am, |x| x * j), total: ds.iter().sum(), jerk: jm.unwrap_or(0.0), sign }
}
impl Best {
    /// Position, velocity, acceleration at a time, with the distance to the nearest phase boundary.
    fn at(&self, t: f64) -> ([f64; 4], f64) {
        let (mut p, mut v, mut s, mut edge) = (0.0, 0.0, 0.0, f64::INFINITY); let acc = if self.jerk == 0.0 { [0.0, self.a, 0.0, 0.0, 0.0, -self.a, 0.0] } else { [0.0, self.a, self.a, 0.0, 0.0, -self.a, -self.a] }; let jk = [self.jerk, 0.0, -self.jerk, 0.0, -self.jerk, 0.0, self.jerk]; let mut out = None;
        for i in 0..7 { edge = edge.min((t - s).abs()); let e = (t - s).min(self.d[i]).max(0.0); let f = |e: f64| [p + v * e + acc[i] * e * e / 2.0 + jk[i] * e * e * e / 6.0, v + acc[i] * e + jk[i] * e * e / 2.0, acc[i] + jk[i] * e, jk[i]]; if out.is_none() && t < s + self.d[i] { out = Some(f(e)); } let x = f(self.d[i]); p = x[0]; v = x[1]; s += self.d[i]; }
        edge = edge.min((t - s).abs()); let o = out.unwrap_or([p, 0.0, 0.0, 0.0]); (o.map(|x| x * self.sign), edge)
    }
}
#[derive(Debug, Clone, Copy)]
struct Lim { v: f64, a: f64, j: Option<f64> }
fn limits<T: Fl>(g: &mut G) -> (Lim, ProfileLimits<T>) { let r = rnd::<T>; let l = Lim { v: r(g.log10(-2.0, 2.0)), a: r(g.log10(-2.0, 2.0)), j: if g.chance(2, 3) { Some(r(g.log10(-2.0, 3.0))) } else { None } }; let p = ProfileLimits::try_new(T::c(l.v), T::c(l.a), l.j.map(T::c)).expect("valid limits"); (l, p) }
fn distance<T: Fl>(g: &mut G, l: &Lim) -> f64 { let a = l.a; let d = match g.below(7) { 0 => l.v * l.v / a, 1 => l.j.map_or(1.0, |j| 2.0 * a * a * a / (j * j)), 2 => l.v * (l.v / a + l.j.map_or(0.0, |j| a / j)), 3 => l.v * l.v / a * g.f(0.1, 3.0), 4 => g.log10(-6.0, -2.0), 5 => if g.chance(1, 6) { 0.0 } else { g.log10(-3.0, 1.0) }, _ => g.log10(-3.0, 4.0) }; rnd::<T>(d.clamp(0.0, 1e6) * g.sign()) }
fn profile<T: Fl>(g: &mut G) -> R {
    let (l, pl) = limits::<T>(g); let d = distance::<T>(g, &l); let strat = g.pick(&[ProfileStrategy::Automatic, ProfileStrategy::Automatic, ProfileStrategy::Trapezoidal, ProfileStrategy::JerkLimited]); g.note("limits", &l); g.note("distance", &d); g.note("strategy", &strat); let planner = MotionProfilePlanner::new(pl).with_strategy(strat); ensure!(planner.strategy() == strat && planner.limits() == pl && pl.speed().g() == l.v && pl.acceleration().g() == l.a && pl.jerk().map(|x| x.g()) == l.j && MotionProfilePlanner::new(pl).strategy() == ProfileStrategy::Automatic);
    let p = match planner.plan(T::c(d)) { Ok(p) => { ensure!(!(strat == ProfileStrategy::JerkLimited && l.j.is_none()), "planned a jerk-limited move without a jerk limit"); p } Err(e) => { ensure!(e == ME::JerkLimitRequired && strat == ProfileStrategy::JerkLimited && l.j.is_none(), "{e:?}"); discard!() } };
    let b = best(d, l.v, l.a, if strat == ProfileStrategy::Trapezoidal { None } else { l.j }); let e = T::EPS; let t = p.duration(); close!(g, t.g(), b.total, e * 20.0 * b.total, "time taken"); close!(g, p.distance().g(), d, e * 20.0 * d.abs(), "displacement"); close!(g, p.peak_speed().g(), b.v * b.sign, e * 20.0 * b.v, "peak speed"); let ph = p.phase_durations(); for i in 0..7 { ensure!(ph[i].g() >= 0.0, "phase {i} lasts {:?}", ph[i]); close!(g, ph[i].g(), b.d[i], e * 40.0 * b.total, "length of phase {i}"); } ensure!(p.peak_speed().g().abs() <= l.v * (1.0 + 4.0 * e), "speed limit");
    let mut ends = vec![T::ZERO]; for x in ph { let y = ends[ends.len() - 1] + x; ends.push(y); } let mut times: Vec<T> = (0..12).map(|_| T::c(g.f(0.0, 1.0) * t.g())).collect(); for x in ends { times.push(x); times.push(T::c(x.g() * (1.0 - 3.0 * e))); } let n = times.len(); times.push(T::c(-g.f(0.0, 3.0))); times.push(T::c(t.g() * 1.5 + 1.0)); times.push(t);
    let mirror = planner.plan(T::c(-d)).unwrap();
    for (i, &x) in times.iter().enumerate() {
        let s = match p.state_at(x) { Ok(s) => s, Err(e) => bad!("{e:?} at {x:?}") }; let m = mirror.state_at(x).unwrap(); ensure!(m.position == -s.position && m.velocity == -s.velocity && m.acceleration == -s.acceleration && m.jerk == -s.jerk, "the opposite move is no mirror image at {x:?}: {s:?} {m:?}");
        if x.g() >= t.g() { ensure!(s.position == p.distance() && s.velocity == T::ZERO && s.acceleration == T::ZERO && s.jerk == T::ZERO, "not at rest on target after the end: {s:?}"); continue; }
        let (w, edge) = b.at(x.g().max(0.0)); let (ps, vs, aa, js) = (s.position.g(), s.velocity.g(), s.acceleration.g(), s.jerk.g()); let far = edge > 60.0 * e * b.total;
        ensure!(vs.abs() <= l.v * (1.0 + 40.0 * e) + l.a * 40.0 * e * b.total && aa.abs() <= l.a * (1.0 + 20.0 * e) + b.jerk * 40.0 * e * b.total && js.abs() <= b.jerk, "limits broken at {x:?}: {s:?}"); ensure!(vs * b.sign >= -(b.a * 60.0 * e * b.total + b.v * 20.0 * e), "backs up at {x:?}: {s:?}");
        close!(g, ps, w[0], e * 200.0 * d.abs(), "position at {x:?}"); close!(g, vs, w[1], e * (100.0 * b.a * b.total + 40.0 * b.v), "velocity at {x:?}"); if far { close!(g, aa, w[2], e * (20.0 * b.a + 100.0 * b.jerk * b.total), "acceleration at {x:?}"); ensure!(js == w[3], "jerk at {x:?}: {js} for {}", w[3]); } else if b.jerk > 0.0 { close!(g, aa, w[2], e * (20.0 * b.a + 200.0 * b.jerk * b.total), "acceleration joins at {x:?}"); } if i < n { let q = p.state_at(T::c(t.g() - x.g())).unwrap(); close!(g, q.position.g() + ps, d, e * 100.0 * d.abs() , "the move is symmetric"); }
    }
    ensure!(p.state_at(T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]))).err() == Some(ME::NonFinite));
    // slowed down, the same path in the same shape
    let k = g.log10(-1.0, 1.5); let q = p.stretched_to(t * T::c(k)); if k <= 1.0 || d == 0.0 { ensure!(q == p || k > 1.0 - 1e-9 && k < 1.0 + 1e-6 || d == 0.0 && q == p, "a stretch to less is no stretch"); } else { let to = (t * T::c(k)).g(); let k = to / t.g(); ensure!(q.duration().g() == to && q.distance() == p.distance()); for &x in times.iter().take(10) { let (s, r) = (p.state_at(x).unwrap(), q.state_at(T::c(x.g() * k)).unwrap()); let edge = b.at(x.g()).1 < 60.0 * e * b.total; close!(g, r.position.g(), s.position.g(), e * 200.0 * d.abs(), "stretched position"); close!(g, r.velocity.g() * k, s.velocity.g(), e * (200.0 * b.a * b.total + 40.0 * b.v), "stretched velocity"); if !edge { close!(g, r.acceleration.g() * k * k, s.acceleration.g(), e * (40.0 * b.a + 200.0 * b.jerk * b.total), "stretched acceleration"); close!(g, r.jerk.g() * k * k * k, s.jerk.g(), e * 20.0 * b.jerk, "stretched jerk"); } } let r = q.state_at(q.duration()).unwrap(); close!(g, r.position.g(), d, e * 100.0 * d.abs(), "stretched end"); }
    ensure!([f64::NAN, f64::INFINITY, 0.0, -1.0].iter().all(|&x| p.stretched_to(T::c(x)) == p)); g.label_if(b.d[3] > 0.0, "cruise"); g.label_if(b.d[1] > 0.0 && b.jerk > 0.0, "hold"); g.nontrivial_if(d != 0.0); Ok(())
}
fn together<const N: usize, T: Fl>(g: &mut G) -> R {
    let axes: [MotionProfile<T>; N] = core::array::from_fn(|_| { let (l, pl) = limits::<T>(g); let d = distance::<T>(g, &l); MotionProfilePlanner::new(pl).plan(T::c(d)).unwrap() }); let slow = axes.iter().map(|a| a.duration().g()).fold(0.0, f64::max); g.note("axes", &axes.map(|a| (a.distance(), a.duration()))); let want = T::c(slow * g.log10(-1.0, 1.0) + if g.chance(1, 4) { 1.0 } else { 0.0 }); let over = g.bool(); g.note("asked", &(over, want));
    let s = if over { match SynchronizedProfile::try_from_profiles_over(axes, want) { Ok(s) => s, Err(e) => { ensure!(e == ME::DurationNotPositive && want.g() <= 0.0, "{e:?}"); discard!() } } } else { SynchronizedProfile::from_profiles(axes) }; let total = if over { want.g().max(slow) } else { slow }; ensure!(s.duration().g() == total, "{:?} for {total}", s.duration()); ensure!(s.axis(N).is_none() && s.axis(usize::MAX).is_none());
    for i in 0..N { let Some(a) = s.axis(i) else { bad!("no axis {i}") }; ensure!(*a == axes[i].stretched_to(T::c(total)) , "axis {i} is not its own profile slowed down"); if axes[i].duration() > T::ZERO { ensure!(a.duration().g() == total, "axis {i} finishes at {:?}", a.duration()); } } for _ in 0..6 { let t = T::c(total * g.f(-0.1, 1.2)); let x = s.state_at(t).unwrap(); for i in 0..N { let y = s.axis(i).unwrap().state_at(t).unwrap(); ensure!(x.position[i] == y.position && x.velocity[i] == y.velocity && x.acceleration[i] == y.acceleration && x.jerk[i] == y.jerk, "axis {i} at {t:?}: {x:?}"); } }
    let x = s.state_at(s.duration()).unwrap(); let e = T::EPS; for i in 0..N { let d = axes[i].distance().g(); close!(g, x.position[i].g(), d, e * 100.0 * d.abs(), "axis {i} at the end"); close!(g, x.velocity[i].g(), 0.0, e * 200.0 * axes[i].peak_speed().g().abs() * (1.0 + axes[i].duration().g() / axes[i].phase_durations()[0].g().max(axes[i].phase_durations()[1].g()).max(1e-300)), "axis {i} at rest"); } ensure!(s.state_at(T::c(f64::NAN)).err() == Some(ME::NonFinite)); for x in [f64::NAN, f64::INFINITY, 0.0, -1.0] { ensure!(SynchronizedProfile::try_from_profiles_over(axes, T::c(x)).err() == Some(ME::DurationNotPositive)); } g.nontrivial_if(N > 1 && slow > 0.0); Ok(())
}
fn together_all(g: &mut G) -> R { dims!(g, together, f64, 1, 2, 3, 7, 12) }
fn together_all32(g: &mut G) -> R { dims!(g, together, f32, 1, 2, 3) }
/// Derivatives of every reading with respect to the displacement and the limits.
fn profile_dual(g: &mut G) -> R {
    let (l, _) = limits::<f64>(g); let d = distance::<f64>(g, &l) * g.f(1.02, 1.3); if d == 0.0 { discard!() } let which = g.below(if l.j.is_some() { 4 } else { 3 }); let frac = g.f(0.02, 0.98); g.note("limits", &l); g.note("distance", &d); g.note("which,at", &(which, frac));
    let base = [d, l.v, l.a, l.j.unwrap_or(1.0)]; let h = base[which].abs() * 1e-6; let at = |x: [f64; 4], t: Option<f64>| { let p = MotionProfilePlanner::new(ProfileLimits::try_new(x[1], x[2], l.j.map(|_| x[3])).unwrap()).plan(x[0]).unwrap(); let s = t.map(|t| p.state_at(t).unwrap()); (p.duration(), s.map_or(0.0, |s| s.position), s.map_or(0.0, |s| s.velocity), p.phase_durations().map(|x| x > 1e-9 * p.duration())) }; let t = at(base, None).0 * frac; let shift = |s: f64| { let mut x = base; x[which] += s * h; at(x, Some(t)) }; let (m, z, p) = (shift(-1.0), shift(0.0), shift(1.0));
    if m.3 != p.3 || z.3 != p.3 { discard!() }
    let c: [Dual<f64>; 4] = core::array::from_fn(|i| Dual::new(base[i], if i == which { 1.0 } else { 0.0 })); let q = MotionProfilePlanner::new(ProfileLimits::try_new(c[1], c[2], l.j.map(|_| c[3])).unwrap()).plan(c[0]).unwrap(); let s = q.state_at(Dual::new(t, 0.0)).unwrap(); let got = [(q.duration().value, q.duration().deriv), (s.position.value, s.position.deriv), (s.velocity.value, s.velocity.deriv)]; let (m, z, p) = ([m.0, m.1, m.2], [z.0, z.1, z.2], [p.0, p.1, p.2]);
    let mut used = false; for i in 0..3 { let (b, f) = ((z[i] - m[i]) / h, (p[i] - z[i]) / h); let sc = b.abs().max(f.abs()) + z[i].abs() / base[which].abs(); if (b - f).abs() > 1e-3 * sc { continue; } used = true; let size = [z[0], d.abs(), l.v][i]; close!(g, got[i].0, z[i], 1e-12 * (size + z[i].abs()), "value {i}"); close!(g, got[i].1, (b + f) / 2.0, 2e-3 * sc + 1e-8 * size / base[which].abs(), "derivative of reading {i}"); } if !used { discard!() } g.nontrivial(); Ok(())
}
fn profile_errors(g: &mut G) -> R {
    let v = [g.mostly(-1.0, 3.0), g.mostly(-1.0, 3.0), g.mostly(-1.0, 3.0)]; let j = if g.bool() { Some(v[2]) } else { None }; g.note("limits", &(v, j)); let ok = |x: f64| x.is_finite() && x > 0.0; let r = ProfileLimits::try_new(v[0], v[1], j); ensure!(r.is_ok() == (ok(v[0]) && ok(v[1]) && j.is_none_or(ok)), "{r:?}"); if let Err(e) = r { ensure!(e == ME::LimitNotPositive, "{e:?}"); } if let Ok(l) = r { let d = g.mostly(-5.0, 5.0); let p = MotionProfilePlanner::new(l).plan(d); ensure!(p.err() == if d.is_finite() { None } else { Some(ME::NonFinite) }, "{d}: {p:?}"); } g.nontrivial_if(v.iter().any(|x| !ok(*x))); Ok(())
}

fn fact(k: usize) -> f64 { (1..=k).map(|x| x as f64).product() }
/// The degree-7 spline of least snap: smooth to the sixth derivative at every inner knot. One column per axis, eight rows per segment, each on its own unit clock.
fn spline(w: &[Vec<f64>], h: &[f64], s: &[Vec<f64>; 3], e: &[Vec<f64>; 3]) -> Option<DM> {
    let n = h.len(); let dim = w[0].len(); let hm = h.iter().fold(f64::INFINITY, |a, b| a.min(*b)); let mut a = DM::zeros(8 * n, 8 * n); let mut r = DM::zeros(8 * n, dim); let mut row = 0; let der = |k: usize, c: usize, end: bool| if c < k { 0.0 } else if end { fact(c) / fact(c - k) / fact(k) } else if c == k { 1.0 } else { 0.0 };
    let put = |m: &mut DM, row: usize, i: usize, k: usize, end: bool, f: f64| for c in 0..8 { let v = der(k, c, end) * f; if v != 0.0 { m.set(row, 8 * i + c, m.at(row, 8 * i + c) + vk::dd::DD::new(v)); } };
    for i in 0..n { for end in [false, true] { put(&mut a, row, i, 0, end, 1.0); for d in 0..dim { r.set(row, d, vk::dd::DD::new(w[i + end as usize][d])); } row += 1; } }
    for k in 1..4 { put(&mut a, row, 0, k, false, 1.0); for d in 0..dim { r.set(row, d, vk::dd::DD::new(s[k - 1][d] * h[0].powi(k as i32) / fact(k))); } row += 1; put(&mut a, row, n - 1, k, true, 1.0); for d in 0..dim { r.set(row, d, vk::dd::DD::new(e[k - 1][d] * h[n - 1].powi(k as i32) / fact(k))); } row += 1; }
    for i in 0..n - 1 { for k in 1..7 { put(&mut a, row, i, k, true, (hm / h[i]).powi(k as i32)); put(&mut a, row, i + 1, k, false, -(hm / h[i + 1]).powi(k as i32)); row += 1; } } a.solve(&r)
}
fn snap<const S: usize, const F: usize, const D: usize, T: Fl>(g: &mut G) -> R {
    let n = 1 + g.below(S); let even = g.bool(); let h0 = if T::IS32 { g.log10(0.2, 1.0) } else { g.log10(-1.0, 1.0) }; let h: Vec<f64> = (0..n).map(|_| rnd::<T>(h0 * if even { g.f(0.9, 1.1) } else { g.log10(-0.4, 0.4) })).collect(); let scale = g.log10(-1.0, 1.5); let mut w: Vec<Vec<f64>> = (0..=n).map(|_| (0..D).map(|_| rnd::<T>(g.f(-1.0, 1.0) * scale)).collect()).collect(); if g.chance(1, 6) { let k = 1 + g.below(n); w[k] = w[k - 1].clone(); }
    let moving = g.chance(2, 3); let mut bd = || -> [Vec<f64>; 3] { core::array::from_fn(|k| (0..D).map(|_| if moving { rnd::<T>(g.f(-1.0, 1.0) * scale / h0.powi(k as i32 + 1)) } else { 0.0 }).collect()) }; let (s, e) = (bd(), bd()); g.note("waypoints", &w); g.note("durations", &h); g.note("start,end", &(&s, &e));
    let vec = |v: &Vec<f64>| Vector::<D, T>::from_fn(|i| T::c(v[i])); let bound = |b: &[Vec<f64>; 3]| BoundaryDerivatives { velocity: vec(&b[0]), acceleration: vec(&b[1]), jerk: vec(&b[2]) }; let planner = MinimumSnapPlanner::<S, F, D, T>::new(); let planner = if moving { planner.with_start(bound(&s)).with_end(bound(&e)) } else { planner }; let wp: Vec<Vector<D, T>> = w.iter().map(vec).collect(); let ht: Vec<T> = h.iter().map(|x| T::c(*x)).collect();
    let c = match planner.plan(&wp, &ht) { Ok(c) => { ensure!(3 * (n - 1) <= F, "planned beyond its workspace"); c } Err(er) => { ensure!(er == ME::WorkspaceTooSmall && 3 * (n - 1) > F, "{er:?}"); discard!() } }; ensure!(c.piece_count() == n); for i in 0..n { ensure!(c.span(i).map(|x| x.g()) == Some(h[i])); }
    let Some(o) = spline(&w, &h, &s, &e) else { discard!() }; let loose = if T::IS32 { 2e5 } else { 1e6 }; let eps = T::EPS * loose; let size = o.max_abs().max(scale); let hmin = h.iter().fold(f64::INFINITY, |a, b| a.min(*b)); let hmax = h.iter().fold(0.0f64, |a, b| a.max(*b)); let rat = (hmax / hmin).powi(3); if eps * rat > 0.3 { discard!() }
    for i in 0..n { for d in 0..D { let Some(p) = c.piece_polynomial(i, d) else { bad!("no piece {i},{d}") }; let q = p.coefficients(); for k in 0..8 { close!(g, q[k].g(), o.f(8 * i + k, d), eps * rat * size, "segment {i} axis {d} power {k}"); } } }
    // through every waypoint, at rest or moving as asked, without a jump up to jerk
    let knot = |i: usize, d: usize, k: usize, end: bool| { let q = c.piece_polynomial(i, d).unwrap().coefficients(); (k..8).map(|x| q[x].g() * fact(x) / fact(x - k) * if end { 1.0 } else if x == k { 1.0 } else { 0.0 }).sum::<f64>() / h[i].powi(k as i32) }; let kt = |i: usize, k: usize| T::EPS * if T::IS32 { 3e2 } else { 1e3 } * size * fact(k + 3) / h[i].powi(k as i32);
    for i in 0..n { for d in 0..D { close!(g, knot(i, d, 0, false), w[i][d], kt(i, 0), "waypoint {i}"); close!(g, knot(i, d, 0, true), w[i + 1][d], kt(i, 0), "waypoint {}", i + 1); for k in 1..4 { if i == 0 { close!(g, knot(i, d, k, false), s[k - 1][d], kt(i, k), "start derivative {k}"); } if i + 1 == n { close!(g, knot(i, d, k, true), e[k - 1][d], kt(i, k), "end derivative {k}"); } else { close!(g, knot(i, d, k, true), knot(i + 1, d, k, false), kt(i, k) + kt(i + 1, k), "derivative {k} joins at knot {}", i + 1); } } } }
    let t = h.iter().sum::<f64>() * g.unit(); let got = c.evaluate(T::c(t)).unwrap(); let (mut i, mut u) = (0, t); while i + 1 < n && u > h[i] { u -= h[i]; i += 1; } let u = (u / h[i]).min(1.0); for d in 0..D { let v = (0..8).map(|k| o.f(8 * i + k, d) * u.powi(k as i32)).sum::<f64>(); close!(g, got[d].g(), v, eps * rat * size * 8.0, "position at {t}"); } g.label_if(moving, "moving ends"); g.nontrivial_if(n > 1); Ok(())
}
/// No other curve through the same waypoints with the same ends and joins costs less snap; slowing everything down keeps the path.
fn snap_relations(g: &mut G) -> R {
    let n = 2 + g.below(3); let h: Vec<f64> = (0..n).map(|_| g.f(0.6, 1.6)).collect(); let w: Vec<Vector<2, f64>> = (0..=n).map(|_| Vector::new([g.f(-2.0, 2.0), g.f(-2.0, 2.0)])).collect(); g.note("waypoints", &w); g.note("durations", &h); let p = MinimumSnapPlanner::<4, 9, 2, f64>::default(); let c = match p.plan(&w, &h) { Ok(c) => c, Err(e) => bad!("{e:?}") };
    let total: f64 = h.iter().sum(); let at = |c: &PiecewisePolynomial<4, 8, 2, f64>, t: f64| c.evaluate(t).unwrap(); let k = g.log10(-0.7, 0.7); let slow: Vec<f64> = h.iter().map(|x| x * k).collect(); let q = p.plan(&w, &slow).unwrap(); let rev: Vec<Vector<2, f64>> = w.iter().rev().copied().collect(); let hr: Vec<f64> = h.iter().rev().copied().collect(); let r = p.plan(&rev, &hr).unwrap(); let shift = Vector::new([g.f(-3.0, 3.0), g.f(-3.0, 3.0)]); let moved: Vec<Vector<2, f64>> = w.iter().map(|x| *x + shift).collect(); let m = p.plan(&moved, &h).unwrap(); let size = 20.0;
    for _ in 0..5 { let t = total * g.unit(); let a = at(&c, t); for d in 0..2 { close!(g, at(&q, t * k)[d], a[d], 1e-9 * size, "slowed down"); close!(g, at(&r, total - t)[d], a[d], 1e-9 * size, "run backwards"); close!(g, at(&m, t)[d], a[d] + shift[d], 1e-9 * size, "moved"); } }
    // snap cost by exact quadrature, against the same problem split differently: fixing the inner derivatives to anything else costs more
    let cost = |c: &PiecewisePolynomial<4, 8, 2, f64>| { let s = c.nth_derivative(4); let mut sum = 0.0; let mut t0 = 0.0; for x in &h { for (u, wt) in [(0.5 - 0.4305681557970263, 0.1739274225687269), (0.5 - 0.1699905217924281, 0.3260725774312731), (0.5 + 0.1699905217924281, 0.3260725774312731), (0.5 + 0.4305681557970263, 0.1739274225687269)] { let v = s.evaluate(t0 + u * x).unwrap(); sum += wt * x * (v[0] * v[0] + v[1] * v[1]); } t0 += x; } sum }; let j0 = cost(&c);
    let i = 1 + g.below(n - 1); let st: f64 = h[..i].iter().sum(); let [_, vel, acc, jk] = c.evaluate_with_derivatives::<4>(st).unwrap(); let a = g.log10(-3.0, 0.0); let mut mv = |v: Vector<2, f64>| v + Vector::new([g.f(-1.0, 1.0) * a, g.f(-1.0, 1.0) * a]); let b = BoundaryDerivatives { velocity: mv(vel), acceleration: mv(acc), jerk: mv(jk) }; let one = p.with_end(b).plan(&w[..=i], &h[..i]).unwrap(); let two = p.with_start(b).plan(&w[i..], &h[i..]).unwrap();
    let part = |c: &PiecewisePolynomial<4, 8, 2, f64>, h: &[f64]| { let s = c.nth_derivative(4); let mut sum = 0.0; let mut t0 = 0.0; for x in h { for (u, wt) in [(0.5 - 0.4305681557970263, 0.1739274225687269), (0.5 - 0.1699905217924281, 0.3260725774312731), (0.5 + 0.1699905217924281, 0.3260725774312731), (0.5 + 0.4305681557970263, 0.1739274225687269)] { let v = s.evaluate(t0 + u * x).unwrap(); sum += wt * x * (v[0] * v[0] + v[1] * v[1]); } t0 += x; } sum }; let j1 = part(&one, &h[..i]) + part(&two, &h[i..]); ensure!(j1 >= j0 * (1.0 - 1e-9), "another path costs {j1}, the planned one {j0}"); g.nontrivial(); Ok(())
}
fn snap_errors(g: &mut G) -> R {
    let n = g.below(7); let m = if g.chance(1, 4) { g.below(7) } else { n.saturating_sub(1) }; let mut w: Vec<Vector<2, f64>> = (0..n).map(|_| Vector::new([g.f(-2.0, 2.0), g.f(-2.0, 2.0)])).collect(); let mut h: Vec<f64> = (0..m).map(|_| g.f(0.5, 2.0)).collect(); let mut b = BoundaryDerivatives::<2, f64>::default(); let k = g.below(4); if k == 0 && n > 0 { let i = g.below(n); w[i][g.below(2)] = g.pick(&[f64::NAN, f64::INFINITY]); } if k == 1 && m > 0 { let i = g.below(m); h[i] = g.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY]); } if k == 2 { let v = g.pick(&[f64::NAN, f64::NEG_INFINITY]); match g.below(3) { 0 => b.velocity[1] = v, 1 => b.acceleration[0] = v, _ => b.jerk[1] = v } } let end = g.bool(); let small = g.bool(); g.note("waypoints", &w); g.note("durations", &h); g.note("boundary", &(b, end, small));
    let want = if n < 2 { Some(ME::PathTooShort) } else if n - 1 > 4 { Some(ME::CapacityExceeded) } else if m != n - 1 { Some(ME::SegmentCountMismatch) } else if k == 1 { Some(ME::DurationNotPositive) } else if k == 0 || k == 2 { Some(ME::NonFinite) } else if small && 3 * (n - 2) > 5 { Some(ME::WorkspaceTooSmall) } else { None };
    let e = if small { let p = MinimumSnapPlanner::<4, 5, 2, f64>::new(); if end { p.with_end(b) } else { p.with_start(b) }.plan(&w, &h).err() } else { let p = MinimumSnapPlanner::<4, 9, 2, f64>::new(); if end { p.with_end(b) } else { p.with_start(b) }.plan(&w, &h).err() }; ensure!(e == want, "{e:?}, wanted {want:?}");
    let v = g.mostly(-0.5, 3.0); let slots = if g.chance(1, 4) { g.below(7) } else { n.saturating_sub(1) }; let mut out = vec![7.0; slots]; let same = n >= 2 && g.chance(1, 3); let at = if same { 1 + g.below(n - 1) } else { 0 }; if same { w[at] = w[at - 1]; } g.note("speed", &(v, slots, at)); let r = durations_from_average_speed(&w, v, &mut out); let want = if n < 2 { Err(ME::PathTooShort) } else if slots != n - 1 { Err(ME::SegmentCountMismatch) } else if !(v.is_finite() && v > 0.0) { Err(ME::DurationNotPositive) } else if w.iter().any(|x| !x.is_finite()) { Err(ME::NonFinite) } else if w.windows(2).any(|p| p[0] == p[1]) { Err(ME::DurationNotPositive) } else { Ok(()) }; ensure!(r == want, "{r:?}, wanted {want:?}"); if r.is_ok() { for i in 0..slots { let d = (w[i + 1][0] - w[i][0]).hypot(w[i + 1][1] - w[i][1]); close!(g, out[i], d / v, 1e-14 * d / v, "duration {i}"); } } g.nontrivial_if(want.is_err()); Ok(())
}
fn snap_all(g: &mut G) -> R { match g.below(6) { 0 => snap::<1, 0, 2, f64>(g), 1 => snap::<2, 3, 3, f64>(g), 2 => snap::<4, 9, 2, f64>(g), 3 => snap::<5, 8, 1, f64>(g), 4 => snap::<3, 12, 3, f64>(g), _ => snap::<7, 18, 1, f64>(g) } }
fn snap_all32(g: &mut G) -> R { match g.below(4) { 0 => snap::<1, 0, 2, f32>(g), 1 => snap::<2, 3, 3, f32>(g), 2 => snap::<3, 6, 2, f32>(g), _ => snap::<3, 9, 1, f32>(g) } }
fn main() {
    vk::run("C25", &["displacements of at least a micrometre in metres and limits between 0.01 and 1000", "segment durations within a factor of six of each other"], &[
        law!("profile", 40000, profile::<f64>, "a real displacement"), law!("profile_f32", 30000, profile::<f32>, "a real displacement"), law!("together", 15000, together_all, "more than one axis moving"), law!("together_f32", 10000, together_all32, "more than one axis moving"), law!("profile_dual", 15000, profile_dual, "always"), law!("profile_errors", 20000, profile_errors, "an unusual limit"),
        law!("snap", 2500, snap_all, "an inner waypoint"), law!("snap_f32", 2500, snap_all32, "an inner waypoint"), law!("snap_relations", 3000, snap_relations, "always"), law!("snap_errors", 20000, snap_errors, "refused"),
    ]);
}
