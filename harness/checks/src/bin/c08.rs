//! C08: least-squares solvers improve, report truthfully, and solve what they must.
use checks::lin::*;
use checks::prog::{self, PF};
use checks::util::*;
use multicalc::error::{LinalgError, SolveError as E};
use multicalc::linear_algebra::Matrix;
use multicalc::numerical_derivative::{AutoDiffMulti, FiniteDifferenceMulti};
use multicalc::optimization::*;
use multicalc::{Dual, Numeric, VectorFn};
use std::cell::RefCell;
use vk::mat::M as DM;
use vk::*;

#[derive(Clone, Debug)]
enum Kind { Linear(Vec<f64>, Vec<f64>), Bent(Vec<f64>, Vec<f64>, f64), ExpFit(Vec<f64>, Vec<f64>), Circle(Vec<[f64; 2]>), Rosen(f64), Powell, Flat, Progs(Vec<prog::Prog>), NanPast(f64) }
struct Ls { k: Kind, s: f64, u: f64, log: RefCell<Vec<(Vec<f64>, Vec<f64>)>> }
impl Ls {
    fn new(k: Kind) -> Self { Ls { k, s: 1.0, u: 1.0, log: RefCell::new(vec![]) } }
    fn body<const N: usize, const M: usize, S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        let c = |v: f64| S::from_f64(v); let scaled: [S; N] = core::array::from_fn(|i| x[i] * c(self.u)); let x = &scaled;
        core::array::from_fn(|i| {
            let y = match &self.k {
                Kind::Linear(a, b) => { let mut y = c(-b[i]); for j in 0..N { y = y + c(a[i * N + j]) * x[j]; } y }
                Kind::Bent(a, r, q) => { let mut y = c(0.0); for j in 0..N { y = y + c(a[i * N + j]) * (x[j] - c(r[j])); } let d = x[i % N] - c(r[i % N]); y + c(*q) * d * d * d }
                Kind::ExpFit(t, y) => { let mut m = c(0.0); if N >= 2 { m = x[0] * (x[1] * c(t[i])).exp(); } if N >= 3 { m = m + x[2]; } m - c(y[i]) }
                Kind::Circle(p) => { let (dx, dy) = (x[0] - c(p[i][0]), x[1 % N] - c(p[i][1])); (dx * dx + dy * dy).sqrt() - x[N - 1] }
                Kind::Rosen(k) => if i + 1 < N { c(*k) * (x[i + 1] - x[i] * x[i]) } else if i < 2 * N - 1 { S::ONE - x[(i + 1) % N] } else { c(0.0) },
                Kind::Powell => { let g = |k: usize| x[k % N]; match i % 4 { 0 => g(0) + c(10.0) * g(1), 1 => c(5f64.sqrt()) * (g(2) - g(3)), 2 => { let d = g(1) - c(2.0) * g(2); d * d } _ => { let d = g(0) - g(3); c(10f64.sqrt()) * d * d } } }
                Kind::Flat => c(1.0 + i as f64), Kind::Progs(p) => multicalc::ScalarFnN::<N>::eval(&PF(p[i].clone()), x), Kind::NanPast(p) => if x[0] > c(*p) { c(f64::NAN) } else { x[i % N] - c(3.0) },
            };
            y * c(self.s)
        })
    }
}
impl<const N: usize, const M: usize> VectorFn<N, M> for Ls { fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] { let y: [S; M] = self.body(x); if plain(x[0]).is_some() { self.log.borrow_mut().push((x.iter().map(|v| plain(*v).unwrap()).collect(), y.iter().map(|v| plain(*v).unwrap()).collect())); } y } }
fn nrm(v: &[f64]) -> f64 { let m = v.iter().fold(0.0f64, |a, b| a.max(b.abs())); if m == 0.0 || !m.is_finite() { return m; } m * v.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt() }
fn jac<const N: usize, const M: usize>(f: &Ls, x: &[f64; N]) -> (DM, DM) {
    let mut j = DM::zeros(M, N); let mut r = DM::zeros(M, 1);
    for k in 0..N { let p: [Dual<f64>; N] = core::array::from_fn(|i| Dual::new(x[i], if i == k { 1.0 } else { 0.0 })); let y: [Dual<f64>; M] = f.body(&p); for i in 0..M { j.set(i, k, y[i].deriv.into()); } } let y: [f64; M] = f.body(x); for i in 0..M { r.set(i, 0, y[i].into()); } (j, r)
}
/// Largest cosine between the residual and a Jacobian column.
fn cosine(j: &DM, r: &DM) -> f64 { let rn = r.frob(); if rn == 0.0 { return 0.0; } (0..j.c).map(|k| { let (mut d, mut n) = (0.0, 0.0); for i in 0..j.r { d += j.f(i, k) * r.f(i, 0); n += j.f(i, k) * j.f(i, k); } if n < 1e-280 { 0.0 } else { (d / n.sqrt() / rn).abs() } }).fold(0.0, f64::max) }
fn kind<const N: usize, const M: usize>(g: &mut G) -> (Kind, [f64; N]) {
    let x0: [f64; N] = g.arr(-2.0, 2.0);
    let k = match g.below(9) {
        0 | 1 => { let mut a = if M >= N && g.bool() { let sv = sv_list(g, N, 2.0, 1.0); with_sv(g, M, N, &sv) } else { DM::from_fn(M, N, |_, _| g.f(-2.0, 2.0)) }; if g.chance(1, 6) { let j = g.below(N); for i in 0..M { a.set(i, j, 0.0.into()); } } else if N > 1 && g.chance(1, 8) { for i in 0..M { let v = a.at(i, 0); a.set(i, 1, v); } } Kind::Linear((0..M * N).map(|k| a.f(k / N, k % N)).collect(), g.vec(M, -3.0, 3.0)) }
        2 => { let sv = sv_list(g, N.min(M), 1.0, 0.5); let a = if M >= N { with_sv(g, M, N, &sv) } else { DM::from_fn(M, N, |_, _| g.f(-1.0, 1.0)) }; Kind::Bent((0..M * N).map(|k| a.f(k / N, k % N)).collect(), g.vec(N, -2.0, 2.0), g.f(-1.0, 1.0)) }
        3 if N >= 2 => { let t: Vec<f64> = (0..M).map(|i| i as f64 * 0.4 - 0.5).collect(); let (a, b, c) = (g.f(0.5, 2.0), g.f(-1.5, 1.0), g.f(-1.0, 1.0)); let nz = if g.bool() { 0.0 } else { 0.1 }; let y = t.iter().map(|t| a * (b * t).exp() + if N >= 3 { c } else { 0.0 } + nz * g.bell()).collect(); Kind::ExpFit(t, y) }
        4 if N == 3 => { let (cx, cy, r) = (g.f(-1.0, 1.0), g.f(-1.0, 1.0), g.f(0.5, 2.0)); Kind::Circle((0..M).map(|_| { let th = g.u(0.0, 6.28); let e = 0.05 * g.bell(); [cx + (r + e) * th.cos(), cy + (r + e) * th.sin()] }).collect()) }
        5 => Kind::Rosen(g.log10(0.0, 1.5)), 6 => Kind::Powell, 7 => if g.chance(1, 3) { Kind::Flat } else if g.bool() { Kind::NanPast(g.f(-2.0, 2.0)) } else { Kind::Rosen(10.0) },
        _ => { let l = g.size(1, 4); Kind::Progs((0..M).map(|_| prog::gen(g, &x0, l.max(N), prog::TAME, 1e-3)).collect()) }
    };
    (k, x0)
}
#[derive(Clone, Copy, Debug)]
struct Cfg { lm: bool, fd: bool, back: bool, scale: bool, ftol: f64, xtol: f64, gtol: f64, pat: usize, sb: f64, dflt: bool }
fn cfg(g: &mut G) -> Cfg { let t = |g: &mut G| if g.chance(1, 4) { 0.0 } else { g.log10(-14.0, -2.0) }; Cfg { lm: g.bool(), fd: g.chance(1, 6), back: g.bool(), scale: g.bool(), ftol: t(g), xtol: t(g), gtol: t(g), pat: if g.chance(1, 3) { g.size(0, 12) } else { 100 }, sb: g.log10(-2.0, 2.0), dflt: g.chance(1, 3) } }
fn solve<const N: usize, const M: usize>(c: &Cfg, f: &Ls, x0: &[f64; N]) -> Result<MinimizationReport<N>, E> {
    let (ad, fd) = (AutoDiffMulti::<f64>::new(), FiniteDifferenceMulti::<f64>::default());
    match (c.lm, c.fd, c.dflt) {
        (true, false, true) => LevenbergMarquardt::new().with_patience(c.pat).minimize::<Ls, N, M>(f, x0), (false, false, true) => GaussNewton::new().with_backtracking(c.back).with_patience(c.pat).minimize::<Ls, N, M>(f, x0),
        (true, false, false) => LevenbergMarquardt::from_derivator(ad).with_ftol(c.ftol).with_xtol(c.xtol).with_gtol(c.gtol).with_patience(c.pat).with_stepbound(c.sb).with_scale_diag(c.scale).minimize::<Ls, N, M>(f, x0), (true, true, _) => LevenbergMarquardt::from_derivator(fd).with_scale_diag(c.scale).with_stepbound(c.sb).with_patience(c.pat).with_gtol(c.gtol).with_xtol(c.xtol).with_ftol(c.ftol).minimize::<Ls, N, M>(f, x0),
        (false, false, false) => GaussNewton::from_derivator(ad).with_ftol(c.ftol).with_xtol(c.xtol).with_gtol(c.gtol).with_patience(c.pat).with_backtracking(c.back).minimize::<Ls, N, M>(f, x0), (false, true, _) => GaussNewton::from_derivator(fd).with_backtracking(c.back).with_patience(c.pat).with_gtol(c.gtol).with_xtol(c.xtol).with_ftol(c.ftol).minimize::<Ls, N, M>(f, x0),
    }
}
fn truth<const N: usize, const M: usize>(g: &mut G) -> R {
    let (k, x0) = kind::<N, M>(g); let mut c = cfg(g); let f = Ls::new(k); let x0 = if g.chance(1, 40) { let mut x = x0; x[g.below(N)] = f64::NAN; x } else { x0 }; if c.dflt && !c.fd { c.ftol = f64::EPSILON * 30.0; c.xtol = c.ftol; c.gtol = c.ftol; c.sb = 100.0; c.scale = true; }
    g.note("f", &f.k); g.note("x0", &x0); g.note("cfg", &c); let res = solve::<N, M>(&c, &f, &x0); let log = f.log.borrow().clone(); let start = nrm(&f.body::<N, M, f64>(&x0)); let bad = |l: &(Vec<f64>, Vec<f64>)| l.1.iter().any(|v| !v.is_finite());
    if M < N && start.is_finite() && c.pat > 0 { match res { Err(E::Linalg(LinalgError::Underdetermined)) => {} Err(E::NonFinite) => { let (j, _) = jac::<N, M>(&f, &x0); ensure!(j.d.iter().any(|v| !v.f().is_finite()) || c.fd); } r => bad!("{M} residuals, {N} parameters: {r:?}") } g.label("underdetermined"); return Ok(()); }
    if !c.fd { let budget = 1 + c.pat * if c.lm { 100 } else if c.back { 21 } else { 1 }; ensure!(log.len() <= budget, "{} evaluations", log.len()); }
    match res {
        Ok(rep) => {
            ensure!(rep.solution.iter().all(|v| v.is_finite()) || x0.iter().any(|v| v.is_nan()), "non-finite solution"); if x0.iter().any(|v| v.is_nan()) { return Ok(()); } let y: [f64; M] = f.body(&rep.solution); let n = nrm(&y); close!(g, rep.objective_function, 0.5 * n * n, 1e-13 * n * n + 1e-300, "objective at the solution"); if !c.fd { ensure!(rep.evaluations == log.len(), "{} evaluations reported, {} made", rep.evaluations, log.len()); } ensure!(rep.evaluations >= 1);
            if c.lm { ensure!(n <= start * (1.0 + 1e-12), "objective grew from {start:e} to {n:e}"); }
            if !c.lm && c.back && !c.fd { let mut worst = 0; let mut run = 0; let mut best = start; for l in &log[1..] { let v = if bad(l) { f64::INFINITY } else { nrm(&l.1) }; if v < best { best = v; run = 0; } else { run += 1; worst = worst.max(run); } } if worst < 21 { ensure!(n <= start * (1.0 + 1e-12), "backtracking ended worse: {start:e} to {n:e}"); } }
            ensure!(log.iter().any(|l| l.0 == rep.solution.to_vec()), "the solution was never evaluated");
            let (j, r) = jac::<N, M>(&f, &rep.solution); let cs = cosine(&j, &r);
            match rep.termination {
                TerminationReason::Gtol => if !c.fd { ensure!(cs <= c.gtol * (1.0 + 1e-6) + 1e-13, "Gtol claimed at cosine {cs:e}, gtol {:e}", c.gtol); },
                TerminationReason::Xtol => if !c.lm && !c.fd { let d = if c.back { log[..log.len() - 1].iter().map(|l| nrm(&l.0.iter().zip(&rep.solution).map(|(a, b)| a - b).collect::<Vec<_>>())).fold(f64::INFINITY, f64::min) } else { nrm(&log[log.len() - 2].0.iter().zip(&rep.solution).map(|(a, b)| a - b).collect::<Vec<_>>()) }; ensure!(d <= c.xtol * nrm(&rep.solution) * (1.0 + 1e-6) + 4e-15 * nrm(&rep.solution), "Xtol claimed after a step of {d:e}"); },
                TerminationReason::Ftol => if !c.lm && !c.fd && !c.back { let p = nrm(&log[log.len() - 2].1); ensure!((p - n).abs() <= c.ftol * p * (1.0 + 1e-6) + 4e-15 * p, "Ftol claimed at {p:e} -> {n:e}"); },
                _ => {}
            }
            g.nontrivial_if(rep.evaluations > 3); g.label(match rep.termination { TerminationReason::Gtol => "gtol", TerminationReason::Xtol => "xtol", _ => "ftol" });
        }
        Err(E::NonFinite) => { if !c.fd { let l = log.last().unwrap(); let x: [f64; N] = core::array::from_fn(|i| l.0[i]); let (j, _) = jac::<N, M>(&f, &x); ensure!(log.iter().any(|l| bad(l) || l.0.iter().any(|v| !v.is_finite())) || j.d.iter().any(|v| !v.f().is_finite()), "NonFinite on finite data"); } g.label("nonfinite"); }
        Err(E::DidNotConverge { iters }) => { if !c.fd { ensure!(iters == log.len(), "iters {iters}, evaluations {}", log.len()); } g.label("budget"); }
        Err(E::Linalg(e)) => { ensure!(!c.lm, "LM failed with {e:?}"); ensure!(e == LinalgError::Singular, "{e:?}"); if !c.fd { let x: [f64; N] = core::array::from_fn(|i| log.last().unwrap().0[i]); let (j, _) = jac::<N, M>(&f, &x); let cn = DM::from_fn(M, N, |i, k| { let n = (0..M).map(|i| j.f(i, k) * j.f(i, k)).sum::<f64>().sqrt(); if n > 0.0 { j.f(i, k) / n } else { 0.0 } }); let e = cn.t().mul(&cn).sym_eigs()[0]; let e0 = { let jj = j.scale(1.0 / j.max_abs().max(1e-300)); jj.t().mul(&jj).sym_eigs()[0] }; ensure!(e < 1e-12 || e0 < 1e-12, "full-rank Jacobian called singular: smallest squared singular values {e:e} {e0:e}"); } g.label("rank deficient"); }
        Err(e) => bad!("{e:?}"),
    }
    Ok(())
}
fn truth_all(g: &mut G) -> R { let k = g.below(8); [truth::<1, 1>, truth::<1, 4>, truth::<2, 2>, truth::<2, 5>, truth::<3, 3>, truth::<3, 7>, truth::<4, 8>, truth::<3, 2>][k](g) }

/// Linear problems: the least-squares solution, from any start; rank-deficient ones reach the minimal residual with LM.
fn linear<const N: usize, const M: usize, T: Fl>(g: &mut G) -> R where AutoDiffMulti<T>: multicalc::numerical_derivative::DerivatorMultiVariable<Scalar = T> {
    let def = N > 1 && g.chance(1, 4); let mut sv = sv_list(g, N, 1.5, 1.0); if def { sv[N - 1] = 0.0; } let a = with_sv(g, M, N, &sv); let a: Matrix<M, N, T> = lib(&a); let da = dm(&a); let b: Vec<f64> = (0..M).map(|_| rnd::<T>(g.f(-3.0, 3.0))).collect(); let xr: [f64; N] = g.arr(-2.0, 2.0); let consistent = g.chance(1, 3); let b = if consistent { (0..M).map(|i| (0..N).map(|j| da.f(i, j) * xr[j]).sum::<f64>()).collect() } else { b };
    let f = Ls::new(Kind::Linear((0..M * N).map(|k| da.f(k / N, k % N)).collect(), b.clone())); let x0: [T; N] = core::array::from_fn(|_| T::c(g.f(-5.0, 5.0))); let lm = g.bool() || def; g.note("f", &f.k); g.note("x0", &x0); g.note("lm", &lm);
    let ad: AutoDiffMulti<T> = Default::default(); let back = g.bool(); let sc = g.bool(); let sb = T::c(g.log10(-1.0, 2.0)); let res = if lm { LevenbergMarquardt::from_derivator(ad).with_scale_diag(sc).with_stepbound(sb).minimize::<Ls, N, M>(&f, &x0) } else { GaussNewton::from_derivator(ad).with_backtracking(back).minimize::<Ls, N, M>(&f, &x0) };
    let rep = match res { Ok(r) => r, Err(e) => { if def && T::IS32 { discard!() } bad!("{e:?}") } };
    let x = DM::from_fn(N, 1, |i, _| rep.solution[i].g()); let db = DM::from_fn(M, 1, |i, _| b[i]); let r = da.mul(&x).sub(&db); let gr = da.t().mul(&r); let e = T::EPS; let scale = da.frob(); let rn = r.frob();
    // stationarity of the normal equations
    let tol = e * 2e3 * scale * (db.frob() + scale * x.frob()) + 10.0 * (30.0 * e).sqrt() * 0.1 * scale * if def { rn } else { 0.0 } + if T::IS32 { 1e-36 } else { 1e-290 }; close!(g, gr.max_abs(), 0.0, tol, "normal equations, residual {rn:e}");
    if !def { let w = da.t().mul(&da).solve(&da.t().mul(&db)).unwrap(); let k = 10f64.powf(1.5); let tol = e * 1e4 * k * k * (w.frob() + db.frob() / scale + 1e-3); close!(g, x.sub(&w).max_abs(), 0.0, tol, "least-squares solution"); if !lm && rn > 1e-3 * db.frob() && db.frob() > 0.0 { ensure!(rep.evaluations <= 6 + if back { 60 } else { 0 }, "{} evaluations on a linear problem", rep.evaluations); } }
    g.label_if(def, "rank deficient"); g.nontrivial_if(N > 1); Ok(())
}
fn linear_all(g: &mut G) -> R { let k = g.below(7); [linear::<1, 1, f64>, linear::<2, 2, f64>, linear::<2, 5, f64>, linear::<3, 3, f64>, linear::<3, 6, f64>, linear::<4, 7, f64>, linear::<6, 9, f64>][k](g) }
fn linear_all32(g: &mut G) -> R { let k = g.below(4); [linear::<1, 2, f32>, linear::<2, 3, f32>, linear::<3, 5, f32>, linear::<2, 2, f32>][k](g) }

/// Scaling the residuals by a power of two changes nothing but the objective.
fn pow2<const N: usize, const M: usize>(g: &mut G) -> R {
    let (k, x0) = kind::<N, M>(g); let mut c = cfg(g); c.fd = false; c.xtol = c.xtol.max(1e-14); let e = g.int(-20, 20) as i32; let f = Ls::new(k.clone()); let mut h = Ls::new(k); h.s = 2f64.powi(e); if g.bool() { h.u = 2f64.powi(g.int(-12, 12) as i32); } let u = h.u; g.note("parameters", &u); g.note("f", &f.k); g.note("x0", &x0); g.note("cfg", &c); g.note("power", &e);
    { let (j, _) = jac::<N, M>(&f, &x0); if x0.iter().all(|v| *v == 0.0) || (0..N).any(|k| (0..M).all(|i| j.f(i, k) == 0.0)) { discard!() } }
    let (a, b) = (solve::<N, M>(&c, &f, &x0), solve::<N, M>(&c, &h, &x0.map(|v| v / u))); let tiny = |f: &Ls| f.log.borrow().iter().any(|l| l.1.iter().any(|v| (*v != 0.0 && v.abs() < 1e-100) || v.abs() > 1e100)); if tiny(&f) || tiny(&h) { discard!() }
    match (a, b) { (Ok(a), Ok(b)) => { ensure!(a.solution == b.solution.map(|v| v * u) && a.evaluations == b.evaluations && a.termination == b.termination, "scaling the residuals or all parameters changed the run: {a:?} {b:?}"); ensure!(b.objective_function == a.objective_function * h.s * h.s || a.objective_function < 1e-250, "objective"); g.nontrivial_if(a.evaluations > 3); } (Err(a), Err(b)) => ensure!(a == b, "{a:?} {b:?}"), (a, b) => bad!("{a:?} against {b:?}") }
    ensure!(f.log.borrow().iter().map(|l| l.0.clone()).eq(h.log.borrow().iter().map(|l| l.0.iter().map(|v| v * u).collect::<Vec<_>>())), "different trial points"); Ok(())
}
fn pow2_all(g: &mut G) -> R { let k = g.below(5); [pow2::<1, 3>, pow2::<2, 2>, pow2::<2, 5>, pow2::<3, 4>, pow2::<4, 6>][k](g) }

/// Patience only cuts a run short: more of it never changes an answer already given, and the trial points are a prefix.
fn patience<const N: usize, const M: usize>(g: &mut G) -> R {
    let (k, x0) = kind::<N, M>(g); let mut c = cfg(g); c.dflt = false; c.pat = g.size(0, 15); let d = Cfg { pat: c.pat + g.size(1, 60), ..c }; let (f, h) = (Ls::new(k.clone()), Ls::new(k)); g.note("f", &f.k); g.note("x0", &x0); g.note("cfg", &c); g.note("more", &d.pat);
    let (a, b) = (solve::<N, M>(&c, &f, &x0), solve::<N, M>(&d, &h, &x0)); let (lf, lh) = (f.log.borrow().clone(), h.log.borrow().clone());
    match (&a, &b) {
        (Err(E::DidNotConverge { .. }), _) => { ensure!(lf.len() <= lh.len() && lf.iter().map(|l| &l.0).zip(lh.iter().map(|l| &l.0)).all(|(p, q)| p.iter().zip(q).all(|(u, v)| u == v || u.is_nan() && v.is_nan())), "the longer run took other trial points"); g.label("cut short"); g.nontrivial_if(lf.len() > 2); }
        (Ok(a), Ok(b)) => { ensure!(a.solution == b.solution && a.evaluations == b.evaluations && a.termination == b.termination && a.objective_function == b.objective_function, "more patience changed the answer: {a:?} {b:?}"); g.nontrivial_if(a.evaluations > 2); }
        (Err(a), Err(b)) => ensure!(a == b, "{a:?} {b:?}"), _ => bad!("{a:?} then, with more patience, {b:?}"),
    }
    Ok(())
}
fn patience_all(g: &mut G) -> R { let k = g.below(5); [patience::<1, 3>, patience::<2, 2>, patience::<2, 5>, patience::<3, 4>, patience::<4, 6>][k](g) }

/// The first trial step obeys the trust radius (in the documented scaling) and is a damped normal-equation step.
fn first_step<const N: usize, const M: usize>(g: &mut G) -> R {
    let (k, mut x0) = kind::<N, M>(g); if g.chance(1, 8) { x0 = [0.0; N]; } let f = Ls::new(k); let sb = g.log10(-2.5, 1.0); let scale = g.bool(); g.note("f", &f.k); g.note("x0", &x0); g.note("stepbound,scale", &(sb, scale));
    let _ = LevenbergMarquardt::new().with_stepbound(sb).with_scale_diag(scale).with_patience(1).with_gtol(0.0).minimize::<Ls, N, M>(&f, &x0); let log = f.log.borrow(); if log.len() < 2 { discard!() }
    let (j, r) = jac::<N, M>(&f, &x0); if j.d.iter().chain(&r.d).any(|v| !v.f().is_finite()) { discard!() } let d: Vec<f64> = (0..N).map(|k| { let n = nrm(&(0..M).map(|i| j.f(i, k)).collect::<Vec<_>>()); if !scale || n == 0.0 { 1.0 } else { n } }).collect();
    let p: Vec<f64> = (0..N).map(|i| x0[i] - log[1].0[i]).collect(); let dp = nrm(&(0..N).map(|i| d[i] * p[i]).collect::<Vec<_>>()); let dx = nrm(&(0..N).map(|i| d[i] * x0[i]).collect::<Vec<_>>()); let rad = if dx == 0.0 { sb } else { sb * dx };
    ensure!(dp <= rad * 1.1 * (1.0 + 1e-9) + 1e-13 * dx, "first step {dp:e} exceeds the radius {rad:e}"); 
    // (JtJ + lambda D^2) p = Jt r for some lambda >= 0
    let jr = j.t().mul(&r); let jp = j.t().mul(&j).mul(&DM::from_fn(N, 1, |i, _| p[i])); let (mut num, mut den) = (0.0, 0.0); for i in 0..N { let q = d[i] * d[i] * p[i]; num += q * (jr.f(i, 0) - jp.f(i, 0)); den += q * q; } if den == 0.0 { discard!() } let lam = num / den; let sc = j.frob() * (r.frob() + j.frob() * nrm(&p)) + lam.abs() * d.iter().fold(0.0f64, |a, b| a.max(*b)).powi(2) * nrm(&p);
    ensure!(lam >= -1e-9 * sc / den.sqrt(), "negative damping {lam:e}"); let ill = { let jj = j.scale(1.0 / j.max_abs().max(1e-300)); jj.t().mul(&jj).sym_eigs()[0] < 1e-8 } || cosine(&j, &r) < 1e-6; if !ill { for i in 0..N { close!(g, jp.f(i, 0) + lam * d[i] * d[i] * p[i], jr.f(i, 0), 1e-8 * sc, "damped normal equations, lambda {lam:e}"); } if dp > 0.0 && lam > 1e-6 * j.frob().powi(2) / d.iter().fold(0.0f64, |a, b| a.max(*b)).powi(2) { ensure!(dp >= 0.85 * rad, "damped step {dp:e} well inside the radius {rad:e}"); g.label("damped"); g.nontrivial(); } } Ok(())
}
fn first_all(g: &mut G) -> R { let k = g.below(5); [first_step::<1, 3>, first_step::<2, 2>, first_step::<2, 5>, first_step::<3, 4>, first_step::<4, 6>][k](g) }

/// Well-posed problems: the known minimiser is reached.
fn reach(g: &mut G) -> R {
    fn go<const N: usize, const M: usize>(g: &mut G, k: Kind, x0: [f64; N], w: [f64; N], tol: f64, gn: bool, what: &str) -> R {
        let f = Ls::new(k); g.note("f", &f.k); g.note("x0", &x0); let sc = g.bool(); let lm = LevenbergMarquardt::default_ad().with_scale_diag(sc).minimize::<Ls, N, M>(&f, &x0); let rep = match lm { Ok(r) => r, Err(e) => bad!("LM on {what}: {e:?}") }; for i in 0..N { close!(g, rep.solution[i], w[i], tol, "LM on {what}, parameter {i}, objective {:e}", rep.objective_function); } g.ratio(line!(), rep.evaluations as f64);
        if gn { let rep = match GaussNewton::new().with_backtracking(g.bool()).minimize::<Ls, N, M>(&f, &x0) { Ok(r) => r, Err(e) => bad!("GN on {what}: {e:?}") }; for i in 0..N { close!(g, rep.solution[i], w[i], tol, "GN on {what}, parameter {i}"); } ensure!(rep.evaluations <= 120); }
        g.nontrivial(); Ok(())
    }
    match g.below(4) {
        0 => { let x0: [f64; 2] = g.arr(-2.0, 2.0); let c = g.log10(0.0, 1.0); go::<2, 3>(g, Kind::Rosen(c), x0, [1.0, 1.0], 1e-6, false, "Rosenbrock") }
        1 => { let r: [f64; 3] = g.arr(-2.0, 2.0); let sv = sv_list(g, 3, 0.7, 0.5); let a = with_sv(g, 5, 3, &sv); let q = 0.05 * a.max_abs() * g.f(-1.0, 1.0); let x0: [f64; 3] = core::array::from_fn(|i| r[i] + g.u(-0.4, 0.4)); go::<3, 5>(g, Kind::Bent((0..15).map(|k| a.f(k / 3, k % 3)).collect(), r.to_vec(), q), x0, r, 1e-8, true, "bent linear") }
        2 => { let t: Vec<f64> = (0..8).map(|i| i as f64 * 0.3).collect(); let (a, b) = (g.u(0.5, 3.0), g.u(-1.5, 0.8)); let y = t.iter().map(|t| a * (b * t).exp()).collect(); let x0 = [a * g.u(0.7, 1.3), b + g.u(-0.3, 0.3)]; go::<2, 8>(g, Kind::ExpFit(t, y), x0, [a, b], 1e-8, true, "exponential fit") }
        _ => { let (cx, cy, r) = (g.u(-1.0, 1.0), g.u(-1.0, 1.0), g.u(0.8, 2.0)); let ph = g.u(0.0, 6.28); let p = (0..7).map(|i| { let th = ph + i as f64 * 0.9 + g.u(-0.1, 0.1); [cx + r * th.cos(), cy + r * th.sin()] }).collect(); let x0 = [cx + g.u(-0.3, 0.3), cy + g.u(-0.3, 0.3), r + g.u(-0.2, 0.2)]; go::<3, 7>(g, Kind::Circle(p), x0, [cx, cy, r], 1e-8, true, "circle fit") }
    }
}
trait D { fn default_ad() -> LevenbergMarquardt<AutoDiffMulti>; }
impl D for LevenbergMarquardt<AutoDiffMulti> { fn default_ad() -> Self { LevenbergMarquardt::<AutoDiffMulti>::default() } }
/// A Gauss-Newton or LM iterate that runs off to infinity is an error, never a solution.
fn runaway(g: &mut G) -> R {
    struct Inv(f64, f64); impl VectorFn<1, 1> for Inv { fn eval<S: Numeric>(&self, x: &[S; 1]) -> [S; 1] { [S::from_f64(self.0) + S::from_f64(self.1) / x[0]] } }
    let f = Inv(g.u(0.1, 2.0), g.u(0.1, 2.0)); let x0 = [g.log10(-1.0, 2.0)]; g.note("f", &(f.0, f.1)); g.note("x0", &x0);
    if let Ok(r) = GaussNewton::new().with_backtracking(g.bool()).minimize::<Inv, 1, 1>(&f, &x0) { ensure!(r.solution[0].is_finite()); } if let Ok(r) = LevenbergMarquardt::new().minimize::<Inv, 1, 1>(&f, &x0) { ensure!(r.solution[0].is_finite()); } g.nontrivial(); Ok(())
}
fn main() {
    run("C08", &["residual functions log every plain evaluation; claims are checked against that log and against dual-number Jacobians", "Gauss-Newton without backtracking is documented to diverge; monotone decrease is demanded of LM and of backtracking only"], &[
        law!("truthful", 60_000, truth_all, "more than three evaluations"), law!("linear", 25_000, linear_all, "more than one parameter"), law!("linear_f32", 10_000, linear_all32, "more than one parameter"), law!("residual_scaling", 25_000, pow2_all, "more than three evaluations"), law!("patience", 15_000, patience_all, "more than two evaluations"), law!("first_step", 25_000, first_all, "the radius was active"), law!("reach", 15_000, reach, "all"), law!("runaway", 5_000, runaway, "all"),
    ]);
}
