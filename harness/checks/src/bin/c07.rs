//! C07: root finders report a genuine root, truthfully, within budget.
use checks::lin::*;
use checks::prog::{self, PF};
use checks::util::*;
use multicalc::error::{LinalgError, SolveError as E};
use multicalc::linear_algebra::Matrix;
use multicalc::numerical_derivative::{AutoDiffMulti, AutoDiffSingle, FiniteDifferenceMulti, FiniteDifferenceSingle};
use multicalc::root_finding::*;
use multicalc::{Numeric, ScalarFn, VectorFn};
use std::cell::RefCell;
use vk::*;

#[derive(Clone, Debug)]
enum Kind { Poly(Vec<f64>), Cubic, Exp(f64), Atan(f64), Power(i32), Step(f64, f64), Wild(f64), Ratio, Line, NanPast(f64), Tanh(f64) }
/// s * k((x - r)/w): a function with a known crossing at r for the monotone kinds, logging plain evaluations.
struct F1 { k: Kind, r: f64, w: f64, s: f64, log: RefCell<Vec<(f64, f64)>>, prog: Option<PF> }
impl F1 {
    fn new(k: Kind, r: f64, w: f64, s: f64) -> Self { F1 { k, r, w, s, log: RefCell::new(vec![]), prog: None } }
    fn body<S: Numeric>(&self, x: S) -> S {
        if let Some(p) = &self.prog { return ScalarFn::eval(p, x); }
        let c = |v: f64| S::from_f64(v); let t = (x - c(self.r)) / c(self.w); let one = S::ONE;
        let y = match &self.k {
            Kind::Poly(cs) => { let mut y = c(0.0); for &v in cs.iter().rev() { y = y * t + c(v); } y }
            Kind::Cubic => t * t * t + t, Kind::Exp(k) => (t * c(*k)).exp() - one, Kind::Atan(k) => (t * c(*k)).atan(), Kind::Power(n) => t.powi(*n),
            Kind::Step(a, b) => if x < c(self.r) { c(-*a) - t * t * c(0.1) } else { c(*b) + t * t * c(0.1) },
            Kind::Wild(f) => t + (t * c(*f)).sin() * c(0.9 / f), Kind::Ratio => t / (one + t * t).sqrt(), Kind::Line => t,
            Kind::NanPast(p) => if (t - c(*p)).abs() < c(0.3) { c(f64::NAN) } else { t }, Kind::Tanh(k) => (t * c(*k)).tanh(),
        };
        y * c(self.s)
    }
}
impl ScalarFn for F1 { fn eval<S: Numeric>(&self, x: S) -> S { let y = self.body(x); if let (Some(p), Some(v)) = (plain(x), plain(y)) { self.log.borrow_mut().push((p, v)); } y } }
fn kind(g: &mut G, monotone: bool) -> Kind {
    match g.below(if monotone { 8 } else { 11 }) { 0 => Kind::Line, 1 => Kind::Cubic, 2 => Kind::Exp(g.u(0.2, 3.0) * g.sign()), 3 => Kind::Atan(g.log10(-1.0, 1.5)), 4 => Kind::Ratio, 5 => Kind::Wild(g.u(0.5, 8.0)), 6 => Kind::Tanh(g.log10(-1.0, 1.0)), 7 => Kind::Power(g.pick(&[3, 5, 7])), 8 => Kind::Step(g.log10(-3.0, 1.0), g.log10(-3.0, 1.0)), 9 => Kind::NanPast(g.u(-1.0, 1.0)), _ => { let n = g.size(2, 6); Kind::Poly(g.vec(n, -2.0, 2.0)) } }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Br { Bisect, Brent }
fn bracketed<T: Fl>(g: &mut G) -> R {
    let which = if g.bool() { Br::Bisect } else { Br::Brent }; let w = if g.bool() { 1.0 } else { g.log10(-3.0, 3.0) }; let r = if g.chance(1, 5) { 0.0 } else { g.f(-3.0, 3.0) * w }; let s = g.sign() * if g.bool() { 1.0 } else if T::IS32 { g.log10(-6.0, 6.0) } else { g.log10(-150.0, 150.0) };
    let mut f = F1::new(kind(g, false), r, w, s); let mut lo = r - w * g.f(-0.3, 4.0); let mut hi = r + w * g.f(-0.3, 4.0);
    if g.chance(1, 3) { let [x0] = g.arr(-2.0, 2.0); let len = g.size(1, 5); let p = prog::gen(g, &[x0], len, prog::TAME, 1e-3); f.prog = Some(PF(p)); lo = g.f(-4.0, 4.0); hi = g.f(-4.0, 4.0); }
    if g.chance(1, 25) { let v = g.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, if T::IS32 { 3e38 } else { 1.7e308 }, if T::IS32 { -3e38 } else { -1.7e308 }]); if g.bool() { lo = v } else { hi = v } if g.bool() { if lo == v { hi = -v } else { lo = -v } } }
    let (lo, hi) = (T::c(lo), T::c(hi)); let (a, b) = if g.bool() { (lo, hi) } else { (hi, lo) };
    let xtol = match g.below(4) { 0 => 0.0, 1 => T::EPS * 4.0, _ => g.log10(-12.0, -1.0) }; let ftol = match g.below(4) { 0 => 0.0, 1 => T::EPS * 4.0, _ => g.log10(-12.0, -1.0) * s.abs() }; let (xt, ft) = (T::c(xtol), T::c(ftol)); let max = if g.bool() { 100 } else { g.size(0, 120) }; let dflt = g.chance(1, 4); let (xt, ft, max) = if dflt { (T::EPSILON_X4, T::EPSILON_X4, 100) } else { (xt, ft, max) };
    g.note("method", &which); g.note("f", &(&f.k, f.r, f.w, f.s, f.prog.as_ref().map(|p| &p.0.steps))); g.note("a,b", &(a, b)); g.note("tol,max", &(xt, ft, max));
    let res = match which { Br::Bisect => { let s = if dflt { if g.bool() { Bisection::new() } else { Bisection::default() } } else { Bisection::new().with_xtol(xt).with_ftol(ft).with_max_iterations(max) }; s.solve(&f, a, b) } Br::Brent => { let s = if dflt { if g.bool() { Brent::new() } else { Brent::default() } } else { Brent::new().with_xtol(xt).with_ftol(ft).with_max_iterations(max) }; s.solve(&f, a, b) } };
    let log = f.log.borrow().clone(); let (l, h) = (a.g().min(b.g()), a.g().max(b.g())); let (fa, fb) = (f.body(a).g(), f.body(b).g());
    for &(x, _) in &log { ensure!(!(x < l || x > h), "evaluated {x:e} outside the bracket [{l:e},{h:e}]"); }
    let bad = log.iter().any(|p| !p.1.is_finite());
    match res {
        Ok(rep) => {
            let (x, fx) = (rep.root, rep.residual); ensure!((x.g() >= l && x.g() <= h && x.is_finite()) || (fx == T::ZERO && (x == a || x == b || !x.is_finite())), "root {x:?} outside the bracket"); ensure!(f.body(x) == fx, "reported residual {fx:?}, true {:?}", f.body(x)); ensure!(!bad, "a non-finite evaluation was swallowed");
            ensure!(rep.iterations <= max, "iterations {} above the budget {max}", rep.iterations); ensure!(log.len() <= rep.iterations + 2, "{} evaluations for {} iterations", log.len(), rep.iterations);
            ensure!(fa == 0.0 || fb == 0.0 || (fa > 0.0) != (fb > 0.0), "no sign change at the ends but a root was reported");
            match rep.termination {
                RootTermination::ResidualTolerance => ensure!(fx.abs() <= ft || fx == T::ZERO, "residual {fx:?} above ftol {ft:?}"),
                RootTermination::BracketWidth => {
                    let lim = xt.g() * (1.0 + x.g().abs()) * 2.0 * (1.0 + 1e-5) + 4.0 * T::EPS * x.g().abs(); // a sign change was witnessed this close to the root
                    let ok = log.iter().any(|&(p, v)| (v == 0.0 || (v > 0.0) != (fx.g() > 0.0)) && (p - x.g()).abs() <= lim); ensure!(ok, "bracket width reported, but no opposite sign was seen within {lim:e} of {x:?}");
                }
                t => bad!("termination {t:?} from a bracketed method"),
            }
            if which == Br::Bisect && rep.iterations > 0 && (h - l).is_finite() {
                // the bracket really halves: after k midpoints the nearest opposite sign is within width / 2^(k-1)
                let lim = (h - l) * 0.5f64.powi(rep.iterations as i32 - 1) * (1.0 + 1e-5) + 4.0 * T::EPS * l.abs().max(h.abs()); ensure!(log.iter().any(|&(p, v)| (v == 0.0 || fx == T::ZERO || (v > 0.0) != (fx.g() > 0.0)) && (p - x.g()).abs() <= lim), "bisection did not halve: {} iterations", rep.iterations);
            }
            g.nontrivial_if(rep.iterations > 3); g.label(match rep.termination { RootTermination::ResidualTolerance => "residual", _ => "width" });
        }
        Err(E::NonFinite) => ensure!(bad, "NonFinite though every evaluation was finite"),
        Err(E::InvalidBracket) => { ensure!(fa.is_finite() && fb.is_finite()); ensure!((fa != 0.0 && fb != 0.0 && (fa > 0.0) == (fb > 0.0)) || !a.is_finite() || !b.is_finite(), "a sign change was called an invalid bracket: {fa:e} {fb:e}"); ensure!(log.len() == 2, "{} evaluations before rejecting", log.len()); g.label("invalid bracket"); }
        Err(E::DidNotConverge { iters }) => {
            ensure!(iters == max, "iters {iters}"); ensure!(log.len() <= max + 2); g.label("budget");
            if which == Br::Bisect && xt.g() > T::EPS { let need = ((h - l) / (xt.g() * (1.0 + l.abs().min(h.abs()) * if l < 0.0 && h > 0.0 { 0.0 } else { 1.0 }))).log2().max(0.0) + 2.0; ensure!((max as f64) < need, "bisection gave up after {max}, {need} suffice"); }
            if dflt && f.prog.is_none() && h - l < 1e6 && s.abs() == 1.0 && which == Br::Bisect && !T::IS32 { bad!("default budget exhausted"); }
            for &(_, v) in log.iter().skip(2) { ensure!(v != 0.0 && v.abs() > ft.g(), "the residual tolerance was met at an evaluated point yet the solve failed"); }
        }
        Err(e) => bad!("unexpected {e:?}"),
    }
    Ok(())
}
/// Monotone functions with a known root: defaults succeed and the answer is that root.
fn known_root<T: Fl>(g: &mut G) -> R {
    let brent = g.bool(); let w = g.log10(-2.0, 2.0); let r = rnd::<T>(g.f(-3.0, 3.0) * w); let s = g.sign() * g.log10(-3.0, 3.0); let k = kind(g, true); let pw = matches!(k, Kind::Power(_)); let f = F1::new(k, r, w, s); let (lo, hi) = (T::c(r - w * g.u(0.01, 3.0)), T::c(r + w * g.u(0.01, 3.0))); let (a, b) = if g.bool() { (lo, hi) } else { (hi, lo) }; let xt = T::c(g.log10(if T::IS32 { -6.0 } else { -13.0 }, -3.0)); let ft = T::ZERO; g.note("f", &(&f.k, r, w, s)); g.note("ab", &(a, b)); g.note("brent", &brent); g.note("xtol", &xt);
    let res = if brent { Brent::new().with_xtol(xt).with_ftol(ft).with_max_iterations(4000).solve(&f, a, b) } else { Bisection::new().with_xtol(xt).with_ftol(ft).solve(&f, a, b) };
    let rep = match res { Ok(r) => r, Err(e) => bad!("a bracketed monotone function failed: {e:?}") };
    close!(g, rep.root.g(), r, xt.g() * 2.2 * (1.0 + r.abs() + w) + 16.0 * T::EPS * (r.abs() + w), "root (brent {brent})");
    let n = f.log.borrow().len(); let bis = (((hi - lo).g() / xt.g()).log2().max(0.0) + 4.0) as usize; if !brent { ensure!(n <= bis + 2, "{n} evaluations, bisection needs {bis}"); } else if !pw { ensure!(n <= 3 * bis + 12, "brent used {n} evaluations, bisection would need {bis}"); }
    g.ratio(line!(), n as f64 / (bis as f64)); g.nontrivial(); Ok(())
}
/// Superlinear: on gently curved functions Brent needs far fewer evaluations than bisection.
fn brent_fast(g: &mut G) -> R {
    let r = g.f(-2.0, 2.0); let f = F1::new(match g.below(4) { 0 => Kind::Line, 1 => Kind::Exp(g.u(0.2, 1.5)), 2 => Kind::Atan(g.u(0.3, 1.2)), _ => Kind::Cubic }, r, 1.0, g.sign() * g.log10(-2.0, 2.0)); let (a, b) = (r - g.u(0.05, 1.5), r + g.u(0.05, 1.5)); g.note("f", &(&f.k, r)); g.note("ab", &(a, b));
    let rep = Brent::new().with_xtol(1e-12).with_ftol(1e-12 * f.s.abs()).solve(&f, a, b); let Ok(rep) = rep else { bad!("{rep:?}") }; close!(g, rep.root, r, 1e-11, "root"); let n = f.log.borrow().len(); g.ratio(line!(), n as f64 / 24.0); ensure!(n <= 24, "{n} evaluations"); g.nontrivial(); Ok(())
}

fn newton<T: Fl>(g: &mut G, fd: bool, back: bool, f: &F1, x0: T, xt: T, ft: T, max: usize, dflt: bool) -> Result<RootReport<T>, E> where AutoDiffSingle<T>: multicalc::numerical_derivative::DerivatorSingleVariable<Scalar = T>, FiniteDifferenceSingle<T>: multicalc::numerical_derivative::DerivatorSingleVariable<Scalar = T>, FiniteDifferenceSingle<T>: Default {
    let _ = g; let ad: AutoDiffSingle<T> = Default::default();
    if fd { Newton::from_derivator(FiniteDifferenceSingle::<T>::default()).with_xtol(xt).with_ftol(ft).with_max_iterations(max).with_backtracking(back).solve(f, x0) } else if dflt { Newton::from_derivator(ad).with_backtracking(back).solve(f, x0) } else { Newton::from_derivator(ad).with_backtracking(back).with_max_iterations(max).with_ftol(ft).with_xtol(xt).solve(f, x0) }
}
fn newton_law(g: &mut G) -> R { newton_t::<f64>(g) }
fn newton_law32(g: &mut G) -> R { newton_t::<f32>(g) }
fn newton_t<T: Fl>(g: &mut G) -> R where AutoDiffSingle<T>: multicalc::numerical_derivative::DerivatorSingleVariable<Scalar = T>, FiniteDifferenceSingle<T>: multicalc::numerical_derivative::DerivatorSingleVariable<Scalar = T>, FiniteDifferenceSingle<T>: Default {
    let fd = g.chance(1, 4); let back = g.bool(); let w = if g.bool() { 1.0 } else { g.log10(-2.0, 2.0) }; let r = g.f(-2.0, 2.0) * w; let mut f = F1::new(kind(g, false), r, w, g.sign() * if g.bool() { 1.0 } else { g.log10(-8.0, 8.0) }); let mut x0 = r + w * g.f(-3.0, 3.0); if g.chance(1, 20) { x0 = g.slog10(2.0, if T::IS32 { 37.0 } else { 300.0 }); } if g.chance(1, 40) { x0 = g.pick(&[f64::NAN, f64::INFINITY]); }
    if g.chance(1, 3) { let len = g.size(1, 5); let x = g.f(-2.0, 2.0); let p = prog::gen(g, &[x], len, prog::TAME, 1e-3); f.prog = Some(PF(p)); x0 = g.f(-3.0, 3.0); }
    if g.chance(1, 15) { f.k = Kind::Poly(vec![1.0, 0.0, g.f(-1.0, 2.0)]); f.prog = None; x0 = if g.bool() { r } else { x0 }; }
    let dflt = !fd && g.chance(1, 3); let (xt, ft, max) = if dflt { (T::EPSILON_X30, T::EPSILON_X30, 100) } else { (T::c(if g.chance(1, 4) { 0.0 } else { g.log10(-13.0, -1.0) }), T::c(if g.chance(1, 4) { 0.0 } else { g.log10(-13.0, -1.0) }), g.size(0, 60)) };
    g.note("f", &(&f.k, f.r, f.w, f.s, f.prog.as_ref().map(|p| &p.0.steps))); g.note("x0", &x0); g.note("fd,back", &(fd, back)); g.note("tol,max", &(xt, ft, max)); let x0 = T::c(x0);
    let res = newton(g, fd, back, &f, x0, xt, ft, max, dflt); let log = f.log.borrow().clone(); let bad = log.iter().any(|p| !p.1.is_finite());
    if !fd { ensure!(log.len() <= 1 + max * if back { 21 } else { 1 }, "{} evaluations for a budget of {max}", log.len()); }
    match res {
        Ok(rep) => {
            let x = rep.root; ensure!((x.is_finite() || !x0.is_finite()) && rep.residual.is_finite(), "reported a non-finite root {rep:?}"); ensure!(f.body(x) == rep.residual, "residual {:?} true {:?}", rep.residual, f.body(x)); ensure!(rep.iterations >= 1 && rep.iterations <= max, "iterations {}", rep.iterations);
            if !fd && !back { ensure!(log.len() <= rep.iterations + 1 && log.len() + 1 >= rep.iterations, "{} evaluations, {} iterations", log.len(), rep.iterations); ensure!(log.last().unwrap().0 == x.g(), "root is not the last iterate"); }
            match rep.termination {
                RootTermination::ResidualTolerance => ensure!(rep.residual.abs() <= ft, "residual {:?} above {ft:?}", rep.residual),
                RootTermination::StepTolerance => if !fd { let lim = xt.g() * (1.0 + x.g().abs()) * (1.0 + 1e-5) + T::EPS * x.g().abs(); ensure!(log.len() >= 2); let ok = if back { log[..log.len() - 1].iter().any(|p| (p.0 - x.g()).abs() <= lim) } else { (log[log.len() - 2].0 - x.g()).abs() <= lim }; ensure!(ok, "last step longer than {lim:e}"); },
                t => bad!("{t:?}"),
            }
            // x is one of the points the function was actually evaluated at, and backtracking never ends worse than it began
            ensure!(log.iter().any(|p| p.0 == x.g())); if back && !fd { let worst = log.windows(1).len(); let _ = worst; if log.len() < 20 { ensure!(rep.residual.g().abs() <= log[0].1.abs(), "backtracking made |f| worse"); } } g.nontrivial_if(rep.iterations > 2);
        }
        Err(E::NonFinite) => if !bad && !fd { g.label("nonfinite derivative or iterate"); let l = *log.last().unwrap(); let d = multicalc::Dual::<T>::variable(T::c(l.0)); let y = f.body(d); ensure!(!y.deriv.is_finite() || !l.0.is_finite() || !y.value.is_finite(), "NonFinite though f and f' are finite at {:e}", l.0); },
        Err(E::Linalg(LinalgError::Singular)) => if !fd { let zero = log.iter().any(|l| { let y = f.body(multicalc::Dual::<T>::variable(T::c(l.0))); y.deriv == T::ZERO }); ensure!(zero, "Singular but the derivative never vanished"); g.label("flat"); },
        Err(E::DidNotConverge { iters }) => { ensure!(iters == max); if !back && !fd { ensure!(log.len() == max + 1, "gave up after {} evaluations of {max}", log.len()); for p in &log[..log.len() - 1] { ensure!(p.1.abs() > ft.g(), "residual tolerance met at {:e} but not reported", p.0); } } }
        Err(e) => bad!("{e:?}"),
    }
    Ok(())
}
/// Global convergence: convex increasing functions from the right; and backtracking rescues arctangent-like overshoot.
fn newton_good(g: &mut G) -> R {
    let r = g.f(-2.0, 2.0); let s = g.sign() * g.log10(-2.0, 2.0); let (k, x0, back) = match g.below(5) { 0 => (Kind::Exp(g.u(0.3, 2.0)), r + g.u(0.0, 4.0), g.bool()), 1 => (Kind::Cubic, r + g.u(-4.0, 4.0), g.bool()), 2 => (Kind::Atan(1.0), r + g.u(-30.0, 30.0), true), 3 => (Kind::Line, r + g.u(-1e3, 1e3), g.bool()), _ => (Kind::Ratio, r + g.u(-6.0, 6.0), true) };
    let f = F1::new(k.clone(), r, 1.0, s); g.note("f", &(&k, r, s)); g.note("x0", &x0); g.note("back", &back); let fd = g.chance(1, 3);
    let rep = if fd { Newton::from_derivator(FiniteDifferenceSingle::<f64>::default()).with_backtracking(back).with_ftol(1e-12 * s.abs()).with_xtol(1e-12).solve(&f, x0) } else { Newton::from_derivator(AutoDiffSingle::<f64>::new()).with_backtracking(back).with_ftol(1e-13 * s.abs()).solve(&f, x0) };
    let Ok(rep) = rep else { bad!("{rep:?}") }; close!(g, rep.root, r, 1e-10, "root"); if !fd { g.ratio(line!(), rep.iterations as f64 / 30.0); ensure!(rep.iterations <= 30, "{} iterations: quadratic convergence lost", rep.iterations); if matches!(k, Kind::Line) { ensure!(rep.iterations <= 3, "a line took {} iterations", rep.iterations); } } g.nontrivial(); Ok(())
}

/// F(x) = A (x - r) + c * cubic(x - r) rows, logging.
struct Sys { n: usize, a: Vec<f64>, r: Vec<f64>, c: f64, log: RefCell<Vec<(Vec<f64>, Vec<f64>)>> }
impl Sys { fn body<const N: usize, S: Numeric>(&self, x: &[S; N]) -> [S; N] { let c = |v: f64| S::from_f64(v); let d: [S; N] = core::array::from_fn(|i| x[i] - c(self.r[i])); core::array::from_fn(|i| { let mut y = c(0.0); for j in 0..N { y = y + c(self.a[i * self.n + j]) * d[j]; } let j = (i + 1) % N; y + c(self.c) * (d[i] * d[i] * d[j] + d[j].sin() * d[j]) }) } }
impl<const N: usize> VectorFn<N, N> for Sys { fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; N] { let y = self.body(x); if plain(x[0]).is_some() { self.log.borrow_mut().push((x.iter().map(|v| plain(*v).unwrap()).collect(), y.iter().map(|v| plain(*v).unwrap()).collect())); } y } }
fn system<const N: usize>(g: &mut G) -> R {
    let a: Matrix<N, N> = if g.chance(1, 12) { mgen(g, -1.0, 1.0) } else { well(g, 1.0, 1.0) }; let mut a = dm(&a); let sing = g.chance(1, 12); if sing { let i = g.below(N); for j in 0..N { a.set(i, j, 0.0.into()); } }
    let sc = a.max_abs(); let r: [f64; N] = g.arr(-2.0, 2.0); let c = match g.below(3) { 0 => 0.0, 1 => 0.02 * sc, _ => g.f(-1.0, 1.0) * sc }; let c = if sing { 0.0 } else { c }; let f = Sys { n: N, a: (0..N * N).map(|k| a.f(k / N, k % N)).collect(), r: r.to_vec(), c, log: RefCell::new(vec![]) };
    let rad = g.log10(-3.0, 0.5); let x0: [f64; N] = core::array::from_fn(|i| r[i] + rad * g.u(-1.0, 1.0)); let back = g.bool(); let fd = g.chance(1, 4); let max = if g.bool() { 100 } else { g.size(0, 30) }; let (xt, ft) = if g.bool() { (f64::EPSILON * 30.0, f64::EPSILON * 30.0) } else { (g.log10(-12.0, -2.0), g.log10(-12.0, -2.0)) };
    g.note("A", &f.a); g.note("root", &r); g.note("cubic", &c); g.note("x0", &x0); g.note("back,fd,max", &(back, fd, max)); g.note("tol", &(xt, ft));
    let res = if fd { NewtonSystem::from_derivator(FiniteDifferenceMulti::<f64>::default()).with_backtracking(back).with_max_iterations(max).with_xtol(xt).with_ftol(ft).solve(&f, &x0) } else { NewtonSystem::from_derivator(AutoDiffMulti::<f64>::new()).with_ftol(ft).with_xtol(xt).with_max_iterations(max).with_backtracking(back).solve(&f, &x0) };
    let log = f.log.borrow().clone(); if !fd { ensure!(log.len() <= 1 + max * if back { 21 } else { 1 }, "{} evaluations", log.len()); } let nrm = |v: &[f64]| v.iter().map(|x| x * x).sum::<f64>().sqrt();
    match res {
        Ok(rep) => {
            let y = f.body(&rep.root); close!(g, rep.residual_norm, nrm(&y), 1e-13 * nrm(&y), "residual norm"); ensure!(rep.iterations >= 1 && rep.iterations <= max); ensure!(rep.root.iter().all(|v| v.is_finite()));
            match rep.termination { RootTermination::ResidualTolerance => ensure!(rep.residual_norm <= ft), RootTermination::StepTolerance => if !fd { let p = if back { log[..log.len() - 1].iter().map(|l| nrm(&l.0.iter().zip(&rep.root).map(|(a, b)| a - b).collect::<Vec<_>>())).fold(f64::INFINITY, f64::min) } else { let l = &log[log.len() - 2]; nrm(&l.0.iter().zip(&rep.root).map(|(a, b)| a - b).collect::<Vec<_>>()) }; ensure!(p <= xt * (1.0 + nrm(&rep.root)) * (1.0 + 1e-6) + 1e-15 * nrm(&rep.root), "step {p:e}"); }, t => bad!("{t:?}") }
            if back && !fd && log.len() <= 20 { ensure!(rep.residual_norm <= nrm(&log[0].1) * (1.0 + 1e-12), "backtracking made the residual worse"); }
            if c == 0.0 && !sing { if let Some((k, _)) = cond(&a) { if k < 1e6 { let tol = (ft / sc + xt * 4.0 * k + 1e-13) * k * 4.0; for i in 0..N { close!(g, rep.root[i], r[i], tol, "linear root {i}"); } if !fd && ft < 1e-6 && rep.residual_norm < 1e-8 * sc { ensure!(rep.iterations <= 5, "{} iterations on a linear system", rep.iterations); } } } }
            g.nontrivial_if(rep.iterations > 2 && N > 1);
        }
        Err(E::Linalg(e)) => { ensure!(matches!(e, LinalgError::Singular | LinalgError::IllConditioned)); g.label("singular"); if c == 0.0 && !sing && !fd { if let Some((k, _)) = cond(&a) { ensure!(k > 1e5, "condition {k:e} called singular"); } } }
        Err(E::DidNotConverge { iters }) => { ensure!(iters == max); if c == 0.0 && !sing && !fd && max > 6 { ensure!(ft < 1e-11 * sc.max(1.0) && xt < 1e-12, "a linear system did not converge in {max}"); } }
        Err(E::NonFinite) => ensure!(log.iter().any(|l| l.0.iter().chain(&l.1).any(|v| !v.is_finite())) || fd || c != 0.0, "NonFinite on finite data"), Err(e) => bad!("{e:?}"),
    }
    if sing && !fd && max > 0 { let start = nrm(&f.body(&x0)); if start > ft { ensure!(matches!(res, Err(E::Linalg(_))), "singular Jacobian gave {res:?}"); } }
    Ok(())
}
fn system_all(g: &mut G) -> R { let k = g.below(5); [system::<1>, system::<2>, system::<3>, system::<4>, system::<6>][k](g) }
/// Close to a simple root the system solver always converges, quadratically.
fn system_good<const N: usize>(g: &mut G) -> R {
    let a: Matrix<N, N> = well(g, 0.7, 1.0); let a = dm(&a); let sc = a.max_abs(); let r: [f64; N] = g.arr(-2.0, 2.0); let f = Sys { n: N, a: (0..N * N).map(|k| a.f(k / N, k % N)).collect(), r: r.to_vec(), c: 0.05 * sc * g.f(-1.0, 1.0), log: RefCell::new(vec![]) }; let x0: [f64; N] = core::array::from_fn(|i| r[i] + 0.2 * g.u(-1.0, 1.0)); g.note("A", &f.a); g.note("x0", &x0); g.note("r", &r);
    let res = if g.bool() { NewtonSystem::new().with_ftol(1e-11 * sc).solve(&f, &x0) } else { NewtonSystem::<AutoDiffMulti<f64>>::default().with_backtracking(true).with_ftol(1e-11 * sc).solve(&f, &x0) }; let Ok(rep) = res else { bad!("{res:?}") }; for i in 0..N { close!(g, rep.root[i], r[i], 1e-8, "root {i}"); } ensure!(rep.iterations <= 8, "{} iterations", rep.iterations); g.nontrivial();
    let mut nanf = x0; nanf[g.below(N)] = g.pick(&[f64::NAN, f64::INFINITY]); ensure!(matches!(NewtonSystem::new().solve(&f, &nanf), Err(E::NonFinite)), "non-finite start"); Ok(())
}
fn system_good_all(g: &mut G) -> R { let k = g.below(4); [system_good::<1>, system_good::<2>, system_good::<3>, system_good::<5>][k](g) }
/// Random smooth programs: whatever the outcome, it is truthful.
fn system_prog(g: &mut G) -> R {
    let x: [f64; 2] = g.arr(-1.5, 1.5); let len = g.size(2, 5); let p = prog::gen(g, &x, len, prog::TAME, 1e-3); let p2 = prog::gen(g, &x, len, prog::TAME, 1e-3); g.note("x", &x); g.note("p", &(&p.steps, &p2.steps)); let f = VF2(p, p2); let back = g.bool();
    let res = NewtonSystem::new().with_backtracking(back).solve(&f, &x); if let Ok(rep) = res { let y = VectorFn::<2, 2>::eval(&f, &rep.root); let n = y[0].hypot(y[1]); close!(g, rep.residual_norm, n, 1e-13 * n, "norm"); if rep.termination == RootTermination::ResidualTolerance { ensure!(n <= f64::EPSILON * 30.0 * 1.0001); } g.nontrivial_if(rep.iterations > 2); } Ok(())
}
struct VF2(prog::Prog, prog::Prog);
impl VectorFn<2, 2> for VF2 { fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] { [multicalc::ScalarFnN::<2>::eval(&PF(self.0.clone()), x), multicalc::ScalarFnN::<2>::eval(&PF(self.1.clone()), x)] } }
/// The function mirrored left to right and scaled by a power of two.
struct Mirror<'a> { f: &'a F1, flip: bool, p: f64 }
impl ScalarFn for Mirror<'_> { fn eval<S: Numeric>(&self, x: S) -> S { self.f.body(if self.flip { -x } else { x }) * S::from_f64(self.p) } }
/// The budget only cuts a solve short: a budget of at least the iterations reported changes nothing, a smaller one is DidNotConverge.
/// And scaling the function by a power of two, or mirroring it, scales or mirrors the whole solve.
fn budget(g: &mut G) -> R {
    let w = if g.bool() { 1.0 } else { g.log10(-2.0, 2.0) }; let r = g.f(-2.0, 2.0) * w; let mut f = F1::new(kind(g, false), r, w, g.sign() * if g.bool() { 1.0 } else { g.log10(-8.0, 8.0) });
    let (a, b) = (r - w * g.u(0.0, 4.0), r + w * g.u(0.0, 4.0)); if g.chance(1, 3) { let len = g.size(1, 5); let x = g.f(-2.0, 2.0); let p = prog::gen(g, &[x], len, prog::TAME, 1e-3); f.prog = Some(PF(p)); }
    let m = g.below(4); let back = g.bool(); let xt = if g.chance(1, 4) { 0.0 } else { g.log10(-13.0, -1.0) }; let ft = if g.chance(1, 4) { 1e-40 } else { g.log10(-13.0, -1.0) }; let big = g.size(0, 90); let p = 2f64.powi(g.int(-20, 20) as i32);
    g.note("f", &(&f.k, f.r, f.w, f.s, f.prog.as_ref().map(|p| &p.0.steps))); g.note("a,b", &(a, b)); g.note("method,back", &(m, back)); g.note("tol,max,p", &(xt, ft, big, p));
    let go = |q: Mirror, max: usize| { let sg = if q.flip { -1.0 } else { 1.0 }; let ft = ft * q.p; match m {
        0 => Bisection::new().with_xtol(xt).with_ftol(ft).with_max_iterations(max).solve(&q, sg * a, sg * b), 1 => Brent::new().with_xtol(xt).with_ftol(ft).with_max_iterations(max).solve(&q, sg * a, sg * b),
        _ => Newton::from_derivator(AutoDiffSingle::<f64>::new()).with_backtracking(back).with_xtol(xt).with_ftol(ft).with_max_iterations(max).solve(&q, sg * a) } };
    let base = go(Mirror { f: &f, flip: false, p: 1.0 }, big); g.note("outcome", &base);
    let same = |u: &Result<RootReport<f64>, E>, v: &Result<RootReport<f64>, E>, sx: f64, sf: f64| match (u, v) { (Ok(u), Ok(v)) => v.root == sx * u.root && v.residual == sf * u.residual && v.iterations == u.iterations && v.termination == u.termination, (Err(u), Err(v)) => u == v, _ => false };
    match &base {
        Ok(rep) => {
            let k = rep.iterations; for max in [k.max(1), k.max(1) + g.below(5), 300] { let o = go(Mirror { f: &f, flip: false, p: 1.0 }, max); ensure!(same(&base, &o, 1.0, 1.0), "a budget of {max} changed the solve of {k} iterations: {o:?}"); }
            if k > 0 { let max = g.below(k); let o = go(Mirror { f: &f, flip: false, p: 1.0 }, max); ensure!(o.as_ref().err() == Some(&E::DidNotConverge { iters: max }), "a budget of {max} gave {o:?}, but {k} were needed"); g.nontrivial_if(k > 1); }
        }
        Err(E::DidNotConverge { .. }) => if big > 0 { let max = g.below(big); let o = go(Mirror { f: &f, flip: false, p: 1.0 }, max); ensure!(o.as_ref().err() == Some(&E::DidNotConverge { iters: max }), "a budget of {max} gave {o:?}, {big} were not enough"); }
        Err(_) => {}
    }
    let o = go(Mirror { f: &f, flip: false, p }, big); let over = matches!(o, Err(E::NonFinite)) || matches!(base, Err(E::NonFinite)); ensure!(over || same(&base, &o, 1.0, p), "scaled by {p}: {o:?}");
    if m != 0 { let o = go(Mirror { f: &f, flip: true, p: 1.0 }, big); ensure!(same(&base, &o, -1.0, 1.0), "mirrored: {o:?}"); }
    Ok(())
}
fn main() {
    run("C07", &["functions log every plain evaluation; claims are checked against that log", "convergence is demanded only where theory guarantees it (bracketed monotone, convex, near a simple root, linear)"], &[
        law!("bracketed", 60_000, bracketed::<f64>, "converged after more than three iterations"), law!("bracketed_f32", 30_000, bracketed::<f32>, "converged after more than three iterations"), law!("known_root", 30_000, known_root::<f64>, "all"), law!("known_root_f32", 15_000, known_root::<f32>, "all"), law!("budget", 30_000, budget, "more than one iteration was needed"), law!("brent_fast", 15_000, brent_fast, "all"),
        law!("newton", 60_000, newton_law, "converged after more than two iterations"), law!("newton_f32", 25_000, newton_law32, "converged after more than two iterations"), law!("newton_good", 20_000, newton_good, "all"), law!("system", 30_000, system_all, "several iterations, size above 1"), law!("system_good", 15_000, system_good_all, "all"), law!("system_prog", 20_000, system_prog, "several iterations"),
    ]);
}
