//! C09: ODE integrators advance the state by the method they name, within tolerance, covering the span asked for.
use checks::util::*;
use checks::{dims};
use multicalc::error::IntegrateError as E;
use multicalc::linear_algebra::{Vector, Vector3D};
use multicalc::ode::{ExponentialMap, Rk4, Rk45, Step};
use multicalc::spatial::SO3;
use std::cell::RefCell;
use vk::mat::M as DM;
use vk::*;

/// y' = A y + B [cos(w t + p), sin(w t + p)] + c sin(y_rot); c = 0 makes it exactly solvable.
#[derive(Debug, Clone)]
struct Sys { n: usize, a: Vec<f64>, b: Vec<f64>, w: f64, p: f64, c: Vec<f64>, t0: f64 }
impl Sys {
    fn gen(g: &mut G, n: usize, lip: f64, linear: bool) -> Sys {
        let k = lip / (n.max(1) as f64); let t0 = if g.bool() { 0.0 } else { g.f(-4.0, 4.0) };
        Sys { n, a: g.vec(n * n, -k, k), b: if g.bool() { vec![0.0; 2 * n] } else { g.vec(2 * n, -1.0, 1.0) }, w: g.f(0.0, 2.0), p: g.f(-3.0, 3.0), c: if linear { vec![0.0; n] } else { g.vec(n, -0.5, 0.5) }, t0 }
    }
    /// f on the real line: arithmetic in f64
    fn f(&self, t: f64, y: &[f64]) -> Vec<f64> { let th = self.w * (t - self.t0) + self.p; (0..self.n).map(|i| { let mut s = self.b[2 * i] * th.cos() + self.b[2 * i + 1] * th.sin() + self.c[i] * y[(i + 1) % self.n].sin(); for j in 0..self.n { s += self.a[i * self.n + j] * y[j]; } s }).collect() }
    fn lib<const N: usize, T: Fl>(&self, t: T, y: &Vector<N, T>) -> Vector<N, T> { let v: Vec<f64> = (0..N).map(|i| y[i].g()).collect(); let r = self.f(t.g(), &v); Vector::from_fn(|i| T::c(r[i])) }
    fn norm(&self) -> f64 { (0..self.n).map(|i| (0..self.n).map(|j| self.a[i * self.n + j].abs()).sum::<f64>() + self.c[i].abs()).fold(0.0, f64::max) }
    fn bmax(&self) -> f64 { self.b.iter().fold(0.0f64, |a, b| a.max(b.abs())) * 2.0 }
    /// exact solution of the linear system at t from y0 at t1
    fn exact(&self, t1: f64, y0: &[f64], t: f64) -> Vec<f64> {
        let n = self.n; let h = t - t1; let th = self.w * (t1 - self.t0) + self.p;
        let m = DM::from_fn(n + 2, n + 2, |i, j| h * if i < n { if j < n { self.a[i * n + j] } else { self.b[2 * i + j - n] } } else if i == n && j == n + 1 { -self.w } else if i == n + 1 && j == n { self.w } else { 0.0 });
        let e = m.expm(); let x = DM::from_fn(n + 2, 1, |i, _| if i < n { y0[i] } else if i == n { th.cos() } else { th.sin() }); let r = e.mul(&x); (0..n).map(|i| r.f(i, 0)).collect()
    }
}
fn av(v: &[f64]) -> f64 { v.iter().fold(0.0, |a, b| a.max(b.abs())) }
fn axpy(y: &[f64], h: f64, ks: &[(f64, &Vec<f64>)]) -> Vec<f64> { (0..y.len()).map(|i| y[i] + h * ks.iter().map(|(c, k)| c * k[i]).sum::<f64>()).collect() }
fn ref_rk4(s: &Sys, t: f64, y: &[f64], h: f64) -> (Vec<f64>, f64) {
    let k1 = s.f(t, y); let k2 = s.f(t + h / 2.0, &axpy(y, h, &[(0.5, &k1)])); let k3 = s.f(t + h / 2.0, &axpy(y, h, &[(0.5, &k2)])); let k4 = s.f(t + h, &axpy(y, h, &[(1.0, &k3)]));
    let km = av(&k1).max(av(&k2)).max(av(&k3)).max(av(&k4)); (axpy(y, h / 6.0, &[(1.0, &k1), (2.0, &k2), (2.0, &k3), (1.0, &k4)]), km)
}
/// Dormand-Prince 5(4) from its published tableau; returns (y5, error vector, largest slope).
fn ref_dp(s: &Sys, t: f64, y: &[f64], h: f64) -> (Vec<f64>, Vec<f64>, f64) {
    let a: [&[f64]; 6] = [&[0.2], &[3.0 / 40.0, 9.0 / 40.0], &[44.0 / 45.0, -56.0 / 15.0, 32.0 / 9.0], &[19372.0 / 6561.0, -25360.0 / 2187.0, 64448.0 / 6561.0, -212.0 / 729.0], &[9017.0 / 3168.0, -355.0 / 33.0, 46732.0 / 5247.0, 49.0 / 176.0, -5103.0 / 18656.0], &[35.0 / 384.0, 0.0, 500.0 / 1113.0, 125.0 / 192.0, -2187.0 / 6784.0, 11.0 / 84.0]];
    let c = [0.2, 0.3, 0.8, 8.0 / 9.0, 1.0, 1.0]; let b4 = [5179.0 / 57600.0, 0.0, 7571.0 / 16695.0, 393.0 / 640.0, -92097.0 / 339200.0, 187.0 / 2100.0, 1.0 / 40.0];
    let mut k = vec![s.f(t, y)]; let mut y5 = y.to_vec();
    for i in 0..6 { let terms: Vec<(f64, &Vec<f64>)> = a[i].iter().copied().zip(k.iter()).collect(); y5 = axpy(y, h, &terms); let v = s.f(t + c[i] * h, &y5); k.push(v); }
    let e = (0..y.len()).map(|i| h * (0..7).map(|j| ((if j < 6 { a[5][j] } else { 0.0 }) - b4[j]) * k[j][i]).sum::<f64>()).collect();
    let km = k.iter().map(|v| av(v)).fold(0.0, f64::max); (y5, e, km)
}
fn y0gen<const N: usize, T: Fl>(g: &mut G) -> Vector<N, T> { let s = if g.chance(1, 3) { g.log10(-3.0, 3.0) } else { 1.0 }; let z = g.chance(1, 10); Vector::from_fn(|_| T::c(if z { 0.0 } else { g.f(-2.0, 2.0) * s })) }
fn f64s<const N: usize, T: Fl>(v: &Vector<N, T>) -> Vec<f64> { (0..N).map(|i| v[i].g()).collect() }

fn rk4<const N: usize, T: Fl>(g: &mut G) -> R {
    let s = Sys::gen(g, N, 3.0, false); let t = T::c(g.f(-5.0, 5.0)); let h = T::c(g.sign() * g.log10(-4.0, 0.3)); let y = y0gen::<N, T>(g); g.note("sys", &s); g.note("t,h", &(t, h)); g.note("y", &y);
    let calls = RefCell::new(vec![]); let f = |t: T, y: &Vector<N, T>| { calls.borrow_mut().push(t.g()); s.lib(t, y) };
    let got = Rk4::step(&f, t, &y, h); let (want, km) = ref_rk4(&s, t.g(), &f64s(&y), h.g());
    let hl = h.g().abs(); let tol = T::EPS * 40.0 * (av(&f64s(&y)) + hl * km + hl * (t.g().abs() + hl) * s.bmax()) * (1.0 + hl * s.norm()).powi(3) + 1e-40;
    for i in 0..N { close!(g, got[i].g(), want[i], tol, "RK4 step component {i}"); }
    ensure!(calls.borrow().len() == 4, "{} evaluations in one RK4 step", calls.borrow().len());
    // integrate is the iterated step, seen by the observer from the first state to the last
    let steps = g.size(0, 12); let mut seen = vec![]; let end = Rk4::integrate(&|t: T, y: &Vector<N, T>| s.lib(t, y), t, &y, h, steps, |t, y: &Vector<N, T>| seen.push((t, *y)));
    ensure!(seen.len() == steps + 1, "{} observations of {} steps", seen.len(), steps); ensure!(seen[0] == (t, y)); ensure!(seen[steps].1 == end);
    for k in 0..steps { let tk = t.g() + k as f64 * h.g(); close!(g, seen[k].0.g(), tk, T::EPS * (k as f64) * (t.g().abs() + steps as f64 * hl), "observed time"); let w = Rk4::step(&|t: T, y: &Vector<N, T>| s.lib(t, y), seen[k].0, &seen[k].1, h); for i in 0..N { close!(g, seen[k + 1].1[i].g(), w[i].g(), tol * 10.0 + T::EPS * 50.0 * av(&f64s(&w)), "integrate step {k}"); } }
    g.nontrivial_if(N > 0 && steps > 1); Ok(())
}
fn rk4_all(g: &mut G) -> R { dims!(g, rk4, f64, 0, 1, 2, 3, 4, 6, 9) }
fn rk4_all32(g: &mut G) -> R { dims!(g, rk4, f32, 1, 2, 3) }
/// RK4 integrates a cubic right-hand side exactly, over any number of steps.
fn rk4_cubic(g: &mut G) -> R {
    let c: [f64; 4] = g.arr(-2.0, 2.0); let (t0, h) = (g.f(-2.0, 2.0), g.sign() * g.log10(-2.0, 0.0)); let n = g.size(1, 40); let y0 = g.f(-3.0, 3.0);
    let f = |t: f64, _: &Vector<1>| Vector::new([c[0] + t * (c[1] + t * (c[2] + t * c[3]))]); let y = Rk4::integrate(&f, t0, &Vector::new([y0]), h, n, |_, _| {});
    let anti = |t: f64| t * (c[0] + t * (c[1] / 2.0 + t * (c[2] / 3.0 + t * c[3] / 4.0))); let tf = t0 + n as f64 * h; let m = t0.abs().max(tf.abs()) + 1.0;
    close!(g, y[0], y0 + anti(tf) - anti(t0), 1e-14 * n as f64 * (y0.abs() + 8.0 * m.powi(4)), "RK4 of a cubic"); g.nontrivial(); Ok(())
}

struct Cfg { rtol: f64, atol: f64, first: f64, min: f64, max: f64, steps: usize, dflt: bool }
fn cfg<T: Fl>(g: &mut G, span: f64) -> Cfg {
    let dflt = g.chance(1, 5); let lo = if T::IS32 { -5.0 } else { -11.0 };
    Cfg { dflt, rtol: rnd::<T>(if dflt { 1e-6 } else { g.log10(lo, -1.5) }), atol: rnd::<T>(if dflt { 1e-9 } else { g.log10(lo, -1.5) }), first: if dflt || g.bool() { 0.0 } else { rnd::<T>(span * g.log10(-4.0, 0.3)) }, min: if dflt || g.chance(2, 3) { 0.0 } else { rnd::<T>(span * g.log10(-5.0, -0.7)) }, max: if dflt || g.bool() { f64::INFINITY } else { rnd::<T>(span * g.log10(-2.0, 0.3)) }, steps: if dflt { 100_000 } else if g.chance(1, 4) { g.size(0, 40) } else { 20_000 } }
}
fn solver<T: Fl>(c: &Cfg) -> Rk45<T> { if c.dflt { Rk45::default() } else { Rk45::default().with_rtol(T::c(c.rtol)).with_atol(T::c(c.atol)).with_first_step(T::c(c.first)).with_min_step(T::c(c.min)).with_max_step(T::c(c.max)).with_max_steps(c.steps) } }
fn enorm(e: &[f64], y0: &[f64], y1: &[f64], at: f64, rt: f64) -> (f64, f64) { if e.is_empty() { return (0.0, 1.0); } let mut s = 0.0; let mut m = f64::INFINITY; for i in 0..e.len() { let sc = at + rt * y0[i].abs().max(y1[i].abs()); m = m.min(sc); s += (e[i] / sc).powi(2); } ((s / e.len() as f64).sqrt(), m) }

fn steps<const N: usize, T: Fl>(g: &mut G) -> R {
    let lip = g.log10(-1.0, 1.0); let s = Sys::gen(g, N, lip, false); let span = g.log10(-2.0, 0.7); let t0 = T::c(if g.chance(1, 8) { g.slog10(1.0, if T::IS32 { 2.0 } else { 6.0 }) } else { g.f(-4.0, 4.0) }); let s = Sys { t0: t0.g(), ..s }; let tf = T::c(t0.g() + g.sign() * span); if tf == t0 { discard!(); }
    let y0 = y0gen::<N, T>(g); let c = cfg::<T>(g, (tf - t0).g().abs()); let sol = solver::<T>(&c); g.note("sys", &s); g.note("t0,tf", &(t0, tf)); g.note("y0", &y0); g.note("rtol,atol,first,min,max,steps", &(c.rtol, c.atol, c.first, c.min, c.max, c.steps));
    let log: RefCell<Vec<(f64, Vec<f64>)>> = RefCell::new(vec![]); let f = |t: T, y: &Vector<N, T>| { log.borrow_mut().push((t.g(), f64s(y))); s.lib(t, y) };
    let mut st: Vec<Step<N, T>> = vec![]; let res = sol.for_each_step(&f, t0, &y0, tf, |x: &Step<N, T>| st.push(*x)); let log = log.borrow();
    let dir = if tf > t0 { 1.0 } else { -1.0 }; let tmax = t0.g().abs().max(tf.g().abs()); let ulp = T::EPS * tmax;
    // the accepted steps chain from the start towards the end
    let mut prev: Option<&Step<N, T>> = None;
    for (k, x) in st.iter().enumerate() {
        match prev { None => { ensure!(x.time_start == t0 && x.state_start == y0, "the first step does not start at the start") } Some(p) => { ensure!(x.time_start == p.time_end && x.state_start == p.state_end && x.derivative_start == p.derivative_end, "step {k} does not continue the previous one") } }
        ensure!((x.time_end - x.time_start).g() * dir >= 0.0, "step {k} goes backwards"); ensure!((tf - x.time_end).g() * dir >= -T::EPS * (1.0 + tf.g().abs()), "step {k} overshoots the end: {:?} > {tf:?}", x.time_end);
        let h = (x.time_end - x.time_start).g(); let (ha, rel) = (h.abs(), if h != 0.0 { 3.0 * ulp / h.abs() } else { 1.0 });
        ensure!(ha <= c.max * (1.0 + 4.0 * T::EPS) + 3.0 * ulp, "step {k} of {ha:e} exceeds max_step {:e}", c.max);
        if c.min > 0.0 && k > 0 && k + 1 < st.len() { ensure!(ha >= c.min * (1.0 - 4.0 * T::EPS) - 3.0 * ulp, "step {k} of {ha:e} is below min_step {:e}", c.min); }
        if rel > 1e-3 { prev = Some(x); continue; }
        let (ys, ye) = (f64s(&x.state_start), f64s(&x.state_end)); let (w, e, km) = ref_dp(&s, x.time_start.g(), &ys, h); let sc = av(&ys) + ha * km * (1.0 + ha * s.norm()).powi(4) * 12.0; let tol = T::EPS * 60.0 * (sc + ha * (tmax + ha) * s.bmax()) + 60.0 * rel * ha * km * (1.0 + ha * s.norm()).powi(5) + 1e-40;
        for i in 0..N { close!(g, ye[i], w[i], tol, "step {k} of {h:e}, component {i}"); }
        let de = s.f(x.time_end.g(), &ye); let ds = s.f(x.time_start.g(), &ys); for i in 0..N { let dt = T::EPS * 8.0 * (km + s.bmax() * (1.0 + tmax) + av(&ye) * s.norm()) + s.bmax() * s.w * 3.0 * ulp + 1e-40; close!(g, x.derivative_end[i].g(), de[i], dt, "end derivative"); close!(g, x.derivative_start[i].g(), ds[i], dt, "start derivative"); }
        let (en, m) = enorm(&e, &ys, &ye, c.atol, c.rtol); ensure!(en <= 1.0 + 1e-4 + tol / m, "step {k} accepted with error norm {en} (slack {:e})", tol / m);
        prev = Some(x);
    }
    for (t, _) in log.iter() { ensure!((t - t0.g()) * dir >= -4.0 * ulp && (tf.g() - t) * dir >= -4.0 * ulp, "f was evaluated at {t:e}, outside [{t0:?}, {tf:?}]"); }
    // every attempt is six evaluations; find the rejected ones
    let auto = !(c.first > 0.0); let pre = if log.len() <= 1 { 1 } else { 1 + auto as usize }; ensure!(log[0] == (t0.g(), f64s(&y0)), "the first evaluation is not at the start");
    if log.len() >= pre { ensure!((log.len() - pre) % 6 == 0, "{} evaluations are not whole attempts", log.len()); }
    let att = (log.len().max(pre) - pre) / 6; let (mut time, mut y) = (t0.g(), f64s(&y0)); let mut next = 0; let mut last: Option<(f64, bool)> = None;
    for a in 0..att {
        let l = &log[pre + 6 * a + 5]; let h = l.0 - time; let acc = next < st.len() && f64s(&st[next].state_end) == l.1 && (st[next].time_end.g() - l.0).abs() <= 4.0 * ulp;
        let rel = 4.0 * ulp / h.abs(); if rel < 1e-6 {
            if let Some((lh, lacc)) = last { if lacc { ensure!(h.abs() <= lh * 10.01 + 8.0 * ulp, "step grew from {lh:e} to {h:e}") } else { ensure!(h.abs() < lh, "a rejected step did not shrink: {lh:e} then {h:e}") } } else if c.first > 0.0 { close!(g, h.abs(), c.first.min(c.max).min((tf - t0).g().abs()), 8.0 * T::EPS * h.abs() + 4.0 * ulp, "first attempt"); }
            if !acc { let (w, e, km) = ref_dp(&s, time, &y, h); let (en, m) = enorm(&e, &y, &w, c.atol, c.rtol); let sl = (T::EPS * 60.0 * (av(&y) + h.abs() * km * 12.0 + h.abs() * tmax * s.bmax()) + 60.0 * rel * h.abs() * km) * (1.0 + h.abs() * s.norm()).powi(5) / m; ensure!(!(en < 1.0 - 1e-4 - sl), "attempt {a} with error norm {en} was rejected (slack {sl:e})"); g.label("rejection"); }
        }
        last = Some((h.abs(), acc)); if acc { time = st[next].time_end.g(); y = f64s(&st[next].state_end); next += 1; }
    }
    ensure!(next == st.len(), "observed {} steps, {next} attempts match", st.len()); ensure!(att <= c.steps, "{att} attempts above max_steps {}", c.steps);
    match res {
        Ok(v) => { let l = match st.last() { Some(l) => l, None => bad!("Ok without a step") }; ensure!(v == l.state_end, "the result is not the last state"); ensure!((tf - l.time_end).g().abs() <= T::EPS * (1.0 + tf.g().abs()), "stopped at {:?}, not {tf:?}", l.time_end); g.nontrivial_if(st.len() > 2 && N > 0); g.label_if(st.len() > 20, "many steps"); let again = sol.solve(&|t: T, y: &Vector<N, T>| s.lib(t, y), t0, &y0, tf); ensure!(again == Ok(v), "solve and for_each_step differ"); }
        Err(E::DidNotConverge { steps }) => { ensure!(steps == c.steps && att == c.steps, "steps {steps}, attempts {att}, budget {}", c.steps); g.label("budget"); }
        Err(E::StepSizeTooSmall) => { ensure!(c.min > 0.0); if let Some((h, _)) = last { ensure!(h * 0.2 <= c.min * (1.0 + 1e-4) + 4.0 * ulp, "StepSizeTooSmall after a step of {h:e}, floor {:e}", c.min); } g.label("too small"); }
        Err(e) => bad!("{e:?} on a smooth problem"),
    }
    Ok(())
}
fn steps_all(g: &mut G) -> R { dims!(g, steps, f64, 0, 1, 2, 3, 5, 9) }
fn steps_all32(g: &mut G) -> R { dims!(g, steps, f32, 1, 2, 3) }

/// Against the exact solution: the global error is within what the accepted local errors allow, on the span and on a grid.
fn accuracy<const N: usize, T: Fl>(g: &mut G) -> R {
    let s = Sys::gen(g, N, 2.0, true); let t0 = s.t0; let tf = t0 + g.sign() * g.log10(-1.0, 0.5); let y0 = y0gen::<N, f64>(g); let c = cfg::<f64>(g, (tf - t0).abs()); let c = Cfg { min: 0.0, steps: 200_000, ..c }; let sol = solver::<f64>(&c);
    let k = g.size(1, 8); let mut ts: Vec<f64> = (0..k).map(|_| t0 + (tf - t0) * g.f(0.0, 1.0)).collect(); if g.bool() { ts[0] = t0; } if g.bool() { ts.push(tf); } if g.chance(1, 4) { let d = ts[k - 1]; ts.push(d); } ts.sort_by(|a, b| if tf > t0 { a.partial_cmp(b).unwrap() } else { b.partial_cmp(a).unwrap() });
    g.note("sys", &s); g.note("t0,tf", &(t0, tf)); g.note("y0", &y0); g.note("ts", &ts); g.note("rtol,atol,first,max", &(c.rtol, c.atol, c.first, c.max)); if *ts.last().unwrap() == t0 { discard!(); }
    let f = |t: f64, y: &Vector<N>| s.lib(t, y); let mut out = vec![Vector::<N>::from_fn(|_| f64::NAN); ts.len()]; let res = sol.solve_on_grid(&f, t0, &y0, &ts, &mut out); ensure!(res.is_ok(), "grid solve failed: {res:?}");
    let end = *ts.last().unwrap(); let mut st: Vec<Step<N>> = vec![]; let fin = sol.for_each_step(&f, t0, &y0, end, |x: &Step<N>| st.push(*x)); ensure!(fin.is_ok());
    let ymax = st.iter().map(|x| av(&f64s(&x.state_start)).max(av(&f64s(&x.state_end)))).fold(0.0, f64::max); let l = s.norm(); let grow = (l * (end - t0).abs()).exp(); let base = |k: usize| 10.0 * (k + 1) as f64 * (N as f64).sqrt() * (c.atol + c.rtol * ymax) * grow + 1e-13 * (ymax + s.bmax()) * grow * (1.0 + k as f64);
    for (q, t) in ts.iter().enumerate() {
        let i = st.iter().position(|x| if end > t0 { *t <= x.time_end } else { *t >= x.time_end }); let i = match i { Some(i) => i, None => bad!("grid time {t:e} is past the last step") }; let x = &st[i]; let h = (x.time_end - x.time_start).abs(); let d4 = (l + s.w + 0.1).powi(4) * (ymax * 2.0 + s.bmax() * 2.0);
        let w = s.exact(t0, &f64s(&y0), *t); let tol = base(i) + 2.0 * d4 * h.powi(4) / 384.0; for j in 0..N { close!(g, out[q][j], w[j], tol, "grid point {q} at {t:e}, component {j}"); }
        // and it is the dense output of that very step
        let hv = x.interpolate(*t); for j in 0..N { close!(g, out[q][j], hv[j], 1e-13 * (ymax + h * (l * ymax + s.bmax())), "grid point {q} is not the dense output of its step"); }
    }
    let w = s.exact(t0, &f64s(&y0), end); let v = fin.unwrap(); for j in 0..N { close!(g, v[j], w[j], base(st.len()), "final state component {j} after {} steps", st.len()); }
    if end == tf && *ts.last().unwrap() == tf { let q = ts.len() - 1; for j in 0..N { close!(g, out[q][j], v[j], 1e-14 * ymax, "the grid point at the end is not the final state"); } }
    g.nontrivial_if(st.len() > 2); Ok(())
}
fn accuracy_all(g: &mut G) -> R { dims!(g, accuracy, f64, 1, 2, 3, 4) }
/// Tightening the tolerance a thousandfold must not make the answer worse, and really makes it accurate.
fn tighten(g: &mut G) -> R {
    // logistic growth and Gaussian decay: known closed forms, nonlinear and non-autonomous
    let (y0, r, t0) = (g.u(0.05, 1.5), g.u(0.2, 2.0), g.f(-2.0, 2.0)); let tf = t0 + g.sign() * g.u(0.1, 3.0); let kind = g.below(3); let dt = tf - t0;
    let f = |t: f64, y: &Vector<1>| Vector::new([match kind { 0 => r * y[0] * (1.0 - y[0]), 1 => -2.0 * r * t * y[0], _ => y[0].sin() * 0.0 + r * (t.cos()) * y[0] }]);
    let want = match kind { 0 => { let e = (r * dt).exp(); let d = 1.0 + y0 * (e - 1.0); if d < 0.3 { discard!() } y0 * e / d } 1 => y0 * (-r * (tf * tf - t0 * t0)).exp(), _ => y0 * (r * (tf.sin() - t0.sin())).exp() };
    g.note("kind,y0,r,t0,tf", &(kind, y0, r, t0, tf)); let mx = 1.0 + y0.max(want.abs()) * if kind == 1 { (r * (t0 * t0).max(tf * tf)).exp() } else { 8.0 };
    for tol in [1e-4, 1e-7, 1e-10] { let v = Rk45::default().with_rtol(tol).with_atol(tol * 1e-2).solve(&f, t0, &Vector::new([y0]), tf); let v = match v { Ok(v) => v[0], Err(e) => bad!("{e:?}") }; close!(g, v, want, 300.0 * tol * mx + 1e-12 * mx, "tolerance {tol:e}"); }
    g.nontrivial(); Ok(())
}
fn hermite<const N: usize, T: Fl>(g: &mut G) -> R {
    let (t0, h) = (T::c(g.f(-3.0, 3.0)), g.sign() * g.log10(-2.0, 1.0)); let t1 = T::c(t0.g() + h); let h = (t1 - t0).g(); if h == 0.0 { discard!(); }
    let c: Vec<[f64; 4]> = (0..N).map(|_| g.arr(-2.0, 2.0)).collect(); let v = |i: usize, u: f64| c[i][0] + u * (c[i][1] + u * (c[i][2] + u * c[i][3])); let d = |i: usize, u: f64| (c[i][1] + u * (2.0 * c[i][2] + 3.0 * u * c[i][3])) / h;
    let s = Step::<N, T> { time_start: t0, time_end: t1, state_start: Vector::from_fn(|i| T::c(v(i, 0.0))), state_end: Vector::from_fn(|i| T::c(v(i, 1.0))), derivative_start: Vector::from_fn(|i| T::c(d(i, 0.0))), derivative_end: Vector::from_fn(|i| T::c(d(i, 1.0))) };
    g.note("step", &s); ensure!(s.interpolate(t0) == s.state_start, "the dense output does not start at state_start"); ensure!(s.interpolate(t1) == s.state_end, "the dense output does not end at state_end");
    for _ in 0..4 { let u = g.f(0.0, 1.0); let t = T::c(t0.g() + u * h); let u = (t.g() - t0.g()) / h; let got = s.interpolate(t); for i in 0..N { close!(g, got[i].g(), v(i, u), T::EPS * 120.0, "cubic at {u}"); } }
    let z = Step { time_end: t0, ..s }; let got = z.interpolate(t0); for i in 0..N { ensure!(got[i].is_finite(), "a zero-width step interpolates to {got:?}"); }
    g.nontrivial(); Ok(())
}
fn hermite_all(g: &mut G) -> R { if g.bool() { dims!(g, hermite, f64, 1, 3) } else { dims!(g, hermite, f32, 1, 3) } }
fn errors(g: &mut G) -> R {
    let f = |_: f64, y: &Vector<2>| Vector::new([-y[1], y[0]]); let s = Rk45::<f64>::default(); let (t0, tf) = (g.f(-2.0, 2.0), g.f(-2.0, 2.0)); let y = Vector::new([1.0, 0.5]); let bad_t = g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); let mut n = 0;
    ensure!(s.solve(&f, t0, &y, t0) == Err(E::LimitsIllDefined)); ensure!(s.solve(&f, bad_t, &y, tf) == Err(E::LimitsIllDefined)); ensure!(s.for_each_step(&f, t0, &y, bad_t, |_| n += 1) == Err(E::LimitsIllDefined)); ensure!(n == 0);
    ensure!(t0 == tf || s.solve(&f, t0, &Vector::new([bad_t, 1.0]), tf) == Err(E::NonFinite), "a non-finite start");
    g.note("t0,tf", &(t0, tf, bad_t)); let nan_at = t0 + (tf - t0) * g.u(0.0, 0.99); g.note("nan_at", &nan_at); let fn_ = |t: f64, y: &Vector<2>| if (t - nan_at) * (tf - t0) > 0.0 { Vector::new([bad_t, 0.0]) } else { f(t, y) }; if t0 != tf { let mut last = t0; let r = s.for_each_step(&fn_, t0, &y, tf, |x: &Step<2>| last = x.time_end); ensure!(r == Err(E::NonFinite), "a non-finite derivative gave {r:?}"); ensure!((last - tf).abs() > 1e-12); }
    let mut o2 = [y; 2]; let mut o1 = [y; 1]; ensure!(s.solve_on_grid(&f, t0, &y, &[t0, tf], &mut o1) == Err(E::LimitsIllDefined)); ensure!(s.solve_on_grid(&f, t0, &y, &[], &mut []) == Ok(()));
    if t0 != tf { let (a, b) = (t0 + (tf - t0) * 0.7, t0 + (tf - t0) * 0.3); ensure!(s.solve_on_grid(&f, t0, &y, &[t0 - (tf - t0) * 0.5, tf], &mut o2) == Err(E::LimitsIllDefined), "a grid time before the start"); let mut o3 = [y; 3]; ensure!(s.solve_on_grid(&f, t0, &y, &[tf, a, b], &mut o3).is_err(), "an unsorted grid was accepted"); ensure!(s.solve_on_grid(&f, t0, &y, &[bad_t, tf], &mut o2).is_err()); }
    // the attitude integrator
    let r = |_: f64, _: SO3<f64>| Vector3D::new([0.1, 0.2, 0.3]); let mut n = 0; for dt in [0.0, -0.0, -g.log10(-3.0, 0.0)] { ensure!(ExponentialMap::integrate_attitude(&r, t0, SO3::identity(), dt, 3, |_, _| n += 1) == Err(E::NonPositiveTimestep)); } ensure!(ExponentialMap::integrate_attitude(&r, t0, SO3::identity(), bad_t, 3, |_, _| n += 1) == Err(E::NonFinite)); ensure!(n == 0);
    let k = g.size(0, 4); let rn = |t: f64, _: SO3<f64>| if t > t0 + (k as f64 + 0.25) * 0.1 { Vector3D::new([0.0, bad_t, 0.0]) } else { Vector3D::new([0.1, 0.2, 0.3]) }; let mut n = 0; ensure!(ExponentialMap::integrate_attitude(&rn, t0, SO3::identity(), 0.1, 6, |_, _| n += 1) == Err(E::NonFinite)); ensure!(n == k + 1, "{n} observations before the bad rate, expected {}", k + 1);
    g.nontrivial(); Ok(())
}
/// Rotation matrix of a rotation vector, in f64 by Rodrigues (series for small angles).
fn rodr(w: [f64; 3]) -> [[f64; 3]; 3] {
    let t2: f64 = w.iter().map(|x| x * x).sum(); let t = t2.sqrt(); let (a, b) = if t < 1e-3 { (1.0 - t2 / 6.0 + t2 * t2 / 120.0, 0.5 - t2 / 24.0 + t2 * t2 / 720.0) } else { (t.sin() / t, 2.0 * (t / 2.0).sin().powi(2) / t2) };
    let k = [[0.0, -w[2], w[1]], [w[2], 0.0, -w[0]], [-w[1], w[0], 0.0]]; let mut m = [[0.0; 3]; 3]; for i in 0..3 { for j in 0..3 { m[i][j] = (i == j) as u8 as f64 + a * k[i][j] + b * (w[i] * w[j] - if i == j { t2 } else { 0.0 }); } } m
}
fn mm(a: [[f64; 3]; 3], b: [[f64; 3]; 3]) -> [[f64; 3]; 3] { let mut m = [[0.0; 3]; 3]; for i in 0..3 { for j in 0..3 { for k in 0..3 { m[i][j] += a[i][k] * b[k][j]; } } } m }
fn rm<T: Fl>(q: &SO3<T>) -> [[f64; 3]; 3] { let m = q.to_matrix(); core::array::from_fn(|i| core::array::from_fn(|j| m[(i, j)].g())) }
fn attitude<T: Fl>(g: &mut G) -> R {
    let s = g.log10(-3.0, 1.0); let dt = T::c(g.log10(-3.0, 0.3)); let w: [f64; 3] = core::array::from_fn(|_| rnd::<T>(g.f(-1.0, 1.0) * s)); let al: [f64; 3] = core::array::from_fn(|_| rnd::<T>(g.f(-1.0, 1.0) * s)); let r0: [f64; 3] = g.arr(-2.0, 2.0); let q0 = SO3::exp(Vector::from_fn(|i| T::c(r0[i]))); let m0 = rm(&q0); g.note("w,al,dt,r0", &(w, al, dt, r0));
    let v = |x: [f64; 3]| Vector3D::<T>::from_fn(|i| T::c(x[i])); let d = dt.g(); let tol = |a: f64| T::EPS * 40.0 * (1.0 + a);
    let got = rm(&ExponentialMap::attitude_step(q0, v(w), dt)); let want = mm(m0, rodr(w.map(|x| x * d))); let an = av(&w) * d; for i in 0..3 { for j in 0..3 { close!(g, got[i][j], want[i][j], tol(an), "attitude_step"); } }
    let got = rm(&ExponentialMap::attitude_step_with_angular_acceleration(q0, v(w), v(al), dt)); let th: [f64; 3] = core::array::from_fn(|i| w[i] * d + 0.5 * al[i] * d * d); let want = mm(m0, rodr(th)); for i in 0..3 { for j in 0..3 { close!(g, got[i][j], want[i][j], tol(an + av(&al) * d * d), "attitude_step_with_angular_acceleration"); } }
    // midpoint integration against a reference, with a rate that depends on time and attitude
    let n = g.size(0, 10); let t0 = T::c(g.f(-2.0, 2.0)); let body = |t: f64, m: [[f64; 3]; 3]| -> [f64; 3] { core::array::from_fn(|i| w[i] + 0.3 * al[i] * t.sin() + 0.2 * m[i][(i + 1) % 3]) };
    let f = |t: T, q: SO3<T>| v(body(t.g(), rm(&q))); let mut seen = vec![]; let res = match ExponentialMap::integrate_attitude(&f, t0, q0, dt, n, |t: T, q: SO3<T>| seen.push((t.g(), rm(&q)))) { Ok(q) => q, Err(e) => bad!("{e:?}") };
    ensure!(seen.len() == n + 1, "{} observations of {n} steps", seen.len()); ensure!(seen[0] == (t0.g(), m0)); ensure!(seen[n].1 == rm(&res), "the result is not the last attitude");
    for k in 0..n { let (t, m) = seen[k]; let w1 = body(t, m); let mid = mm(m, rodr(w1.map(|x| x * d / 2.0))); let w2 = body(t + d / 2.0, mid); let want = mm(m, rodr(w2.map(|x| x * d))); let a = (av(&w2) + av(&w1) + 3.0 * av(&al)) * d * (1.0 + d); for i in 0..3 { for j in 0..3 { close!(g, seen[k + 1].1[i][j], want[i][j], tol(a * 4.0) * 2.0, "midpoint step {k}"); } } close!(g, seen[k + 1].0, t0.g() + (k + 1) as f64 * d, T::EPS * (k + 1) as f64 * (t0.g().abs() + n as f64 * d), "observed time"); }
    // drift stays on the rotation group
    for (_, m) in &seen { let p = mm(*m, core::array::from_fn(|i| core::array::from_fn(|j| m[j][i]))); for i in 0..3 { for j in 0..3 { close!(g, p[i][j], (i == j) as u8 as f64, T::EPS * 20.0 * (1.0 + n as f64), "attitude left the rotation group"); } } }
    g.nontrivial_if(n > 1); Ok(())
}
fn attitude_all(g: &mut G) -> R { if g.chance(1, 3) { attitude::<f32>(g) } else { attitude::<f64>(g) } }
/// Dense output stays finite and exact at the ends even when the steps fall below the time resolution.
fn tiny_steps(g: &mut G) -> R {
    let t0 = g.pick(&[1e3f32, 1e4, 3e4, -1e4]); let tf = t0 + g.u(0.01, 0.5) as f32; let y0 = g.u(0.1, 2.0) as f32; let mx = g.log10(-5.0, -2.0) as f32; g.note("t0,tf,y0,mx", &(t0, tf, y0, mx)); if tf == t0 { discard!(); }
    let f = |_: f32, y: &Vector<1, f32>| Vector::new([-y[0]]); let mut out = [Vector::new([f32::NAN]); 3]; let ts = [t0, t0 + (tf - t0) * 0.5, tf];
    match Rk45::<f32>::default().with_max_step(mx).solve_on_grid(&f, t0, &Vector::new([y0]), &ts, &mut out) { Ok(()) => { for k in 0..3 { let w = y0 as f64 * (-((ts[k] - t0) as f64)).exp(); close!(g, out[k][0] as f64, w, 2e-2 * y0 as f64, "grid point {k}"); } ensure!(out[0][0] == y0, "the grid point at the start is {:?}", out[0]); g.nontrivial(); } Err(E::DidNotConverge { .. }) => {} Err(e) => bad!("{e:?}") }
    Ok(())
}
/// A right-hand side that would overflow beyond the span is no obstacle inside it.
fn slow_start(g: &mut G) -> R {
    let (a, k, span) = (g.log10(-4.0, -1.0), g.u(0.3, 3.0), g.u(0.5, 4.0)); let y0 = g.log10(0.0, 6.0); let t0 = g.f(-2.0, 2.0); let d = g.sign(); g.note("a,k,span,y0,t0,d", &(a, k, span, y0, t0, d));
    let f = |t: f64, _: &Vector<1>| Vector::new([a * (k * (t - t0) * d).exp()]); let want = y0 + d * a / k * ((k * span).exp() - 1.0); let tf = t0 + d * span;
    match Rk45::default().solve(&f, t0, &Vector::new([y0]), tf) { Ok(v) => close!(g, v[0], want, 1e-3 * (want - y0).abs() + 3e-5 * (y0 + want.abs()), "slow exponential"), Err(e) => bad!("{e:?} on a smooth problem") } g.nontrivial(); Ok(())
}
fn main() {
    run("C09", &["right-hand sides: linear + harmonic forcing + bounded nonlinearity; exact solutions come from a double-double matrix exponential", "step-level reference is the published Dormand-Prince 5(4) tableau; the step-size controller's constants are not pinned"], &[
        law!("rk4", 60_000, rk4_all, "at least two steps of a non-empty state"), law!("rk4_f32", 20_000, rk4_all32, "at least two steps"), law!("rk4_cubic", 20_000, rk4_cubic, "all"),
        law!("rk45_steps", 30_000, steps_all, "more than two accepted steps"), law!("rk45_steps_f32", 12_000, steps_all32, "more than two accepted steps"), law!("rk45_accuracy", 12_000, accuracy_all, "more than two accepted steps"), law!("rk45_closed_forms", 10_000, tighten, "all"),
        law!("slow_start", 5_000, slow_start, "all"), law!("dense_output", 20_000, hermite_all, "all"), law!("tiny_steps", 1_000, tiny_steps, "grid solve succeeded"), law!("errors", 10_000, errors, "all"), law!("attitude", 30_000, attitude_all, "more than one step"),
    ]);
}
