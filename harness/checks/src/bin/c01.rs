//! C01: autodiff scalars carry exact values and derivatives.
use checks::prog::{self, Op};
use checks::util::*;
use multicalc::{Dual, HyperDual, Jet, Numeric, Primal};
use vk::taylor::Tay;
use vk::*;

/// A (possibly nested) autodiff scalar seen as truncated polynomial coefficients.
trait K: Numeric + Primal {
    fn degs(ax: usize, d: &mut [usize; 3]);
    fn make(pre: [usize; 3], ax: usize, t: &Tay) -> Self;
    fn read(self, pre: [usize; 3], ax: usize, t: &mut Tay);
}
macro_rules! base { ($t:ty) => { impl K for $t {
    fn degs(_: usize, _: &mut [usize; 3]) {}
    fn make(p: [usize; 3], _: usize, t: &Tay) -> Self { t.at(p[0], p[1], p[2]) as $t }
    fn read(self, p: [usize; 3], _: usize, t: &mut Tay) { t.set(p[0], p[1], p[2], self as f64) }
} } }
base!(f64); base!(f32);
fn at(mut p: [usize; 3], ax: usize, v: usize) -> [usize; 3] { p[ax] = v; p }
impl<T: K> K for Dual<T> {
    fn degs(ax: usize, d: &mut [usize; 3]) { d[ax] = 1; T::degs(ax + 1, d) }
    fn make(p: [usize; 3], ax: usize, t: &Tay) -> Self { Dual { value: T::make(p, ax + 1, t), deriv: T::make(at(p, ax, 1), ax + 1, t) } }
    fn read(self, p: [usize; 3], ax: usize, t: &mut Tay) { self.value.read(p, ax + 1, t); self.deriv.read(at(p, ax, 1), ax + 1, t) }
}
impl<T: K> K for HyperDual<T> {
    fn degs(ax: usize, d: &mut [usize; 3]) { d[ax] = 1; d[ax + 1] = 1; T::degs(ax + 2, d) }
    fn make(p: [usize; 3], ax: usize, t: &Tay) -> Self { HyperDual::new(T::make(p, ax + 2, t), T::make(at(p, ax, 1), ax + 2, t), T::make(at(p, ax + 1, 1), ax + 2, t), T::make(at(at(p, ax, 1), ax + 1, 1), ax + 2, t)) }
    fn read(self, p: [usize; 3], ax: usize, t: &mut Tay) { self.real.read(p, ax + 2, t); self.eps1.read(at(p, ax, 1), ax + 2, t); self.eps2.read(at(p, ax + 1, 1), ax + 2, t); self.eps1eps2.read(at(at(p, ax, 1), ax + 1, 1), ax + 2, t) }
}
impl<T: K, const N: usize> K for Jet<T, N> {
    fn degs(ax: usize, d: &mut [usize; 3]) { d[ax] = N - 1; T::degs(ax + 1, d) }
    fn make(p: [usize; 3], ax: usize, t: &Tay) -> Self { Jet { coeffs: core::array::from_fn(|k| T::make(at(p, ax, k), ax + 1, t)) } }
    fn read(self, p: [usize; 3], ax: usize, t: &mut Tay) { for k in 0..N { self.coeffs[k].read(at(p, ax, k), ax + 1, t) } }
}

fn inputs<S: K>(g: &mut G, f32s: bool) -> Vec<Tay> {
    let mut d = [0; 3]; S::degs(0, &mut d);
    let n = g.size(1, 3);
    let order: usize = d.iter().sum();
    let style = g.below(3);
    (0..n).map(|i| {
        let mut t = Tay::zero(d);
        for (k, c) in t.c.iter_mut().enumerate() {
            let v = if k == 0 { g.f(-3.0, 3.0) } else { match style { 0 => 0.0, 1 => g.f(-1.5, 1.5), _ => if order > 3 { g.f(-0.5, 0.5) } else { g.f(-2.0, 2.0) } } };
            *c = if f32s { v as f32 as f64 } else { v };
        }
        if style == 0 { // canonical seeding: one variable per direction
            let (a, b, c) = ((i == 0) as usize, (i == 1 % n) as usize, (i == 2 % n) as usize);
            if d[0] > 0 && a == 1 { t.set(1, 0, 0, 1.0); } if d[1] > 0 && b == 1 { t.set(0, 1, 0, 1.0); } if d[2] > 0 && c == 1 { t.set(0, 0, 1, 1.0); }
        }
        t
    }).collect()
}
fn check<S: K>(g: &mut G, f32s: bool, ops: &[Op], maxlen: usize) -> R {
    let x = inputs::<S>(g, f32s);
    let len = g.size(1, maxlen);
    let xv: Vec<f64> = x.iter().map(|t| t.v()).collect();
    let p = prog::gen(g, &xv, len, ops, if f32s { 0.02 } else { 1e-6 });
    g.note("x", &x.iter().map(|t| t.c.clone()).collect::<Vec<_>>()); g.note("prog", &p.steps);
    let eps = if f32s { f32::EPSILON as f64 } else { f64::EPSILON };
    let (want, tol) = prog::oracle(&p, &x, eps);
    let lib: Vec<S> = prog::run(&p, &x.iter().map(|t| S::make([0; 3], 0, t)).collect::<Vec<S>>());
    let mut nt = false;
    for i in 0..want.len() {
        // skip what conditioning made meaningless (a huge tolerance or overflow of the type)
        let lim = if f32s { 1e30 } else { 1e250 };
        let mut got = Tay::zero(want[i].deg); lib[i].read([0; 3], 0, &mut got);
        for k in 0..got.c.len() {
            let (w, t) = (want[i].c[k], tol[i].c[k]);
            if !(w.abs() < lim) || !(t < 0.1 * (1.0 + want[i].c.iter().fold(0.0f64, |a, v| a.max(v.abs())))) { g.label("ill-conditioned, rest skipped"); return Ok(()); }
            close!(g, got.c[k], w, t, "register {i} ({:?}) coefficient {k}", if i >= xv.len() { Some(p.steps[i - xv.len()]) } else { None });
            if k > 0 && w.abs() > 1e-9 && i >= xv.len() { nt = true; }
        }
    }
    g.nontrivial_if(nt);
    for s in &p.steps { g.label(opname(s.op)); }
    Ok(())
}
fn opname(o: Op) -> &'static str { use std::collections::HashMap; use std::sync::OnceLock; static M: OnceLock<HashMap<String, &'static str>> = OnceLock::new();
    let m = M.get_or_init(|| prog::ALL.iter().map(|o| { let s = format!("{o:?}"); (s.clone(), &*Box::leak(s.into_boxed_str())) }).collect()); m[&format!("{o:?}")] }

fn dual64(g: &mut G) -> R { check::<Dual<f64>>(g, false, prog::ALL, 8) }
fn hyper64(g: &mut G) -> R { check::<HyperDual<f64>>(g, false, prog::ALL, 7) }
fn jets64(g: &mut G) -> R { match g.below(6) { 0 => check::<Jet<f64, 2>>(g, false, prog::ALL, 6), 1 => check::<Jet<f64, 3>>(g, false, prog::ALL, 6), 2 => check::<Jet<f64, 4>>(g, false, prog::ALL, 6), 3 => check::<Jet<f64, 5>>(g, false, prog::ALL, 5), 4 => check::<Jet<f64, 7>>(g, false, prog::ALL, 4), _ => check::<Jet<f64, 8>>(g, false, prog::ALL, 3) } }
fn nested(g: &mut G) -> R { match g.below(8) {
    0 => check::<Dual<Dual<f64>>>(g, false, prog::ALL, 5), 1 => check::<Dual<HyperDual<f64>>>(g, false, prog::ALL, 5), 2 => check::<HyperDual<Dual<f64>>>(g, false, prog::ALL, 5),
    3 => check::<Jet<Dual<f64>, 4>>(g, false, prog::ALL, 4), 4 => check::<Dual<Jet<f64, 4>>>(g, false, prog::ALL, 4), 5 => check::<Dual<Dual<Dual<f64>>>>(g, false, prog::ALL, 4),
    6 => check::<HyperDual<Jet<f64, 3>>>(g, false, prog::ALL, 4), _ => check::<Jet<HyperDual<f64>, 3>>(g, false, prog::ALL, 4) } }
fn single32(g: &mut G) -> R { match g.below(4) { 0 => check::<Dual<f32>>(g, true, prog::ALL, 5), 1 => check::<HyperDual<f32>>(g, true, prog::ALL, 4), 2 => check::<Jet<f32, 4>>(g, true, prog::ALL, 4), _ => check::<Dual<Dual<f32>>>(g, true, prog::ALL, 4) } }
fn plain(g: &mut G) -> R { if g.bool() { check::<f64>(g, false, prog::ALL, 8) } else { check::<f32>(g, true, prog::ALL, 6) } }

/// One operation at an exact special point (zeros of either sign, units, equal operands), with any payload.
fn special(g: &mut G) -> R {
    fn one<S: K>(g: &mut G, f32s: bool) -> R {
        let mut x = inputs::<S>(g, f32s); while x.len() < 3 { let t = x[0].clone(); x.push(t); }
        for t in x.iter_mut() { if g.chance(3, 4) { t.c[0] = g.pick(&[0.0, 0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -2.0]); } }
        let k = g.int(-16, 16) as f64 / 8.0; let st = prog::Step { op: g.pick(prog::ALL), a: 0, b: 1, c: 2, k, k2: k + g.int(0, 16) as f64 / 8.0, n: g.int(-3, 6) as i32 };
        let v: Vec<f64> = x.iter().map(|t| t.v()).collect(); g.note("x", &x.iter().map(|t| t.c.clone()).collect::<Vec<_>>()); g.note("op", &st);
        if !(prog::domain(&st, &v, 1e-3) || st.op == Op::Copysign && v[0] != 0.0) { discard!() }
        if st.op == Op::Atan2 && v[0] == 0.0 && v[1] < 0.0 { discard!() }
        let p = prog::Prog { nin: 3, steps: vec![st] }; let (want, tol) = prog::oracle(&p, &x, if f32s { f32::EPSILON as f64 } else { f64::EPSILON });
        let lib: Vec<S> = prog::run(&p, &x.iter().map(|t| S::make([0; 3], 0, t)).collect::<Vec<S>>());
        let mut got = Tay::zero(want[3].deg); lib[3].read([0; 3], 0, &mut got); let mut nt = false;
        for q in 0..got.c.len() { close!(g, got.c[q], want[3].c[q], tol[3].c[q], "coefficient {q} of {:?}", st.op); nt |= q > 0 && want[3].c[q].abs() > 1e-9; }
        g.label(opname(st.op)); g.nontrivial_if(nt); Ok(())
    }
    match g.below(9) {
        0 => one::<Dual<f64>>(g, false), 1 => one::<HyperDual<f64>>(g, false), 2 => one::<Jet<f64, 3>>(g, false), 3 => one::<Jet<f64, 6>>(g, false), 4 => one::<Dual<Dual<f64>>>(g, false),
        5 => one::<HyperDual<Dual<f64>>>(g, false), 6 => one::<Jet<f32, 4>>(g, true), 7 => one::<Dual<f32>>(g, true), _ => one::<HyperDual<f32>>(g, true),
    }
}
/// The value slot of one operation equals the plain float's result, over the whole finite range.
fn value_matches_plain(g: &mut G) -> R {
    fn one<T: Fl, S: Numeric + Primal>(g: &mut G, mk: impl Fn(T) -> S) -> R {
        let wide = |g: &mut G| -> f64 { let v = match g.below(4) { 0 => g.f(-10.0, 10.0), 1 => g.slog10(-30.0, 30.0), 2 => g.slog10(-5.0, 3.5), _ => g.f(-1.0, 1.0) }; rnd::<T>(v) };
        let (a, b, c) = (wide(g), wide(g), wide(g));
        let op = g.pick(prog::ALL); let k = g.int(-16, 16) as f64 / 8.0;
        let st = prog::Step { op, a: 0, b: 1, c: 2, k, k2: k + g.int(0, 16) as f64 / 8.0, n: g.int(-9, 12) as i32 };
        g.note("op", &st); g.note("args", &(a, b, c));
        let tv: [T; 3] = [T::c(a), T::c(b), T::c(c)];
        let want = prog::apply::<T>(&st, &tv).g();
        let got = prog::apply::<S>(&st, &[mk(tv[0]), mk(tv[1]), mk(tv[2])]).to_f64();
        // documented exceptions: powf needs a positive base, signum maps zeros to 0
        if op == Op::Powf && !(a > 0.0) { discard!() }
        if (op == Op::Recip || op == Op::SafeDiv) && want.is_infinite() && (if op == Op::Recip { a } else { b }) == 0.0 { discard!() } // the documented zero rule ignores the sign of zero
        if op == Op::Signum && a == 0.0 { ensure!(got == 0.0, "signum of zero {got}"); return Ok(()); }
        if want.is_nan() { ensure!(got.is_nan(), "plain float gives NaN, autodiff value {got}"); return Ok(()); }
        g.nontrivial();
        // conditioning of formulas built from other operations
        let e = T::EPS;
        let max = T::MAX.g();
        let scale = match op {
            Op::Sinh | Op::Cosh | Op::Expm1 => (a.abs() + 2.0) * (want.abs() + 1.0).min(max),
            Op::Powf => want.abs() * (2.0 + (b * a.ln()).abs()) + T::MIN_POSITIVE.g(),
            Op::Powi => want.abs() * 24.0 + T::MIN_POSITIVE.g() * 8.0,
            Op::Wrap => a.abs() + 4.0, Op::MulAdd => (a * b).abs() + c.abs() + T::MIN_POSITIVE.g(), Op::Tan | Op::Atan2 | Op::Log2 | Op::Log10 => want.abs() + 1e-3 * want.abs() + T::MIN_POSITIVE.g(),
            Op::Asin | Op::Acos => 50.0 * want.abs() + if op == Op::Acos { 20.0 } else { T::MIN_POSITIVE.g() },
            Op::Tanh => 2.0, _ => want.abs() * 2.0 + T::MIN_POSITIVE.g(),
        };
        if op == Op::Sinh || op == Op::Cosh { if a.abs() > (if T::IS32 { 87.0 } else { 708.0 }) { discard!() } } // intermediate exp overflows near the limit
        if op == Op::Powi && (want == 0.0 || !want.is_finite()) { discard!() }
        if (op == Op::Asin || op == Op::Acos) && a.abs() > 0.999 || op == Op::Wrap && a.abs() > 1e12 { discard!() }
        if want.is_infinite() { ensure!(got == want || (op == Op::Powf && got.abs() > 1e30), "plain float gives {want}, autodiff value {got}"); return Ok(()); }
        if op == Op::Powf && want.abs() > max * 1e-3 { discard!() }
        let got = if op == Op::Wrap && (got - want).abs() > 3.0 { got - std::f64::consts::TAU * (got - want).signum() } else { got };
        close!(g, got, want, 10.0 * e * scale, "value of {op:?}");
        Ok(())
    }
    match g.below(8) {
        0 => one::<f64, Dual<f64>>(g, Dual::variable), 1 => one::<f64, HyperDual<f64>>(g, HyperDual::variable), 2 => one::<f64, Jet<f64, 4>>(g, Jet::variable),
        3 => one::<f64, Dual<Jet<f64, 3>>>(g, |v| Dual::variable(Jet::variable(v))), 4 => one::<f32, Dual<f32>>(g, Dual::variable), 5 => one::<f32, HyperDual<f32>>(g, HyperDual::variable),
        6 => one::<f32, Jet<f32, 3>>(g, Jet::variable), _ => one::<f64, Dual<Dual<f64>>>(g, |v| Dual::variable(Dual::variable(v))),
    }
}

/// f64/f32 operations against std, over wide and special arguments.
fn floats_vs_std(g: &mut G) -> R {
    let h = |g: &mut G| if g.chance(1, 3) { g.hostile() } else { match g.below(3) { 0 => g.slog10(-20.0, 20.0), 1 => g.f(-20.0, 20.0), _ => g.f(-1.0, 1.0) } };
    let (a, b, c) = (h(g), h(g), h(g)); let n = g.int(-6, 8) as i32; let op = g.below(36);
    g.note("op", &op); g.note("abc", &(a, b, c)); g.note("n", &n);
    macro_rules! go { ($t:ident, $ulps:expr) => {{
        let (a, b, c) = (a as $t, b as $t, c as $t);
        let (got, want): ($t, $t) = match op {
            0 => (Numeric::abs(a), a.abs()), 1 => (Numeric::sqrt(a), a.sqrt()), 2 => (Numeric::cbrt(a), a.cbrt()), 3 => (Numeric::sin(a), a.sin()), 4 => (Numeric::cos(a), a.cos()), 5 => (Numeric::tan(a), a.tan()),
            6 => (Numeric::exp(a), a.exp()), 7 => (Numeric::log(a), a.ln()), 8 => (Numeric::expm1(a), a.exp_m1()), 9 => (Numeric::ln_1p(a), a.ln_1p()), 10 => (Numeric::log2(a), a.log2()), 11 => (Numeric::log10(a), a.log10()),
            12 => (Numeric::atan2(a, b), a.atan2(b)), 13 => (Numeric::copysign(a, b), a.copysign(b)), 14 => (Numeric::floor(a), a.floor()), 15 => (Numeric::ceil(a), a.ceil()), 16 => (Numeric::round(a), a.round()), 17 => (Numeric::trunc(a), a.trunc()),
            18 => { if !(b <= c) { discard!() } (Numeric::clamp(a, b, c), a.clamp(b, c)) } 19 => (Numeric::signum(a), a.signum()), 20 => (Numeric::max(a, b), a.max(b)), 21 => (Numeric::min(a, b), a.min(b)),
            22 => (Numeric::to_radians(a), if (a as f64).abs() < 1e30 && (a as f64).abs() > 1e-30 { a.to_radians() } else { discard!() }), 23 => (Numeric::to_degrees(a), if (a as f64).abs() < 1e30 && (a as f64).abs() > 1e-30 { a.to_degrees() } else { discard!() }),
            24 => (Numeric::atan(a), a.atan()), 25 => (Numeric::asin(a), a.asin()), 26 => (Numeric::acos(a), a.acos()), 27 => (Numeric::sinh(a), a.sinh()), 28 => (Numeric::cosh(a), a.cosh()), 29 => (Numeric::tanh(a), a.tanh()),
            30 => (Numeric::hypot(a, b), a.hypot(b)), 31 => (Numeric::powf(a, b), a.powf(b)), 32 => (Numeric::mul_add(a, b, c), a.mul_add(b, c)), 33 => (Numeric::recip(a), a.recip()),
            34 => { let w = a.powi(n); if !w.is_finite() || w == 0.0 || w.abs() < $t::MIN_POSITIVE * 1e6 || w.abs() > $t::MAX / 1e6 { discard!() } (Numeric::powi(a, n), w) }
            _ => { let w = if b == 0.0 { a / b.abs() } else { a / b }; (Numeric::safe_div(a, b), w) }
        };
        if want.is_nan() { ensure!(got.is_nan(), "{got} vs NaN"); return Ok(()); }
        g.nontrivial_if(want.is_finite());
        if got == want { ensure!(got.is_sign_negative() == want.is_sign_negative() || matches!(op, 35 | 20 | 21), "sign of zero {got} {want}"); return Ok(()); }
        let tol = $ulps * ($t::EPSILON as f64) * (want.abs() as f64) + 4.0 * ($t::from_bits(1) as f64);
        ensure!(((got as f64) - (want as f64)).abs() <= tol, "{} op {op}: got {got:e} want {want:e}", stringify!($t));
    }} }
    if g.bool() { go!(f64, 6.0) } else { go!(f32, 6.0) }
    Ok(())
}
fn wrap_range(g: &mut G) -> R {
    let turns = g.int(-1000, 1000) as f64; let t0 = g.f(-3.1, 3.1);
    g.note("turns", &turns); g.note("theta", &t0);
    let x = t0 + turns * std::f64::consts::TAU;
    let w = Numeric::wrap_to_pi(x);
    close!(g, w, t0, 1e-15 * (8.0 + x.abs() * 2.0), "wrap of {x}");
    let d = Numeric::wrap_to_pi(Dual::<f64>::variable(x));
    ensure!(d.value == w && d.deriv == 1.0, "dual wrap {d:?}");
    let y = g.f(-1e4, 1e4); ensure!(Numeric::wrap_to_pi(y).abs() <= std::f64::consts::PI + 1e-12 * (1.0 + y.abs()), "range");
    let w32 = Numeric::wrap_to_pi(y as f32); ensure!(w32.abs() as f64 <= std::f64::consts::PI + 4.0 * 1.2e-7 * (1.0 + y.abs()), "range f32");
    close!(g, (w32 as f64 - (y as f32) as f64).sin(), 0.0, 4.0 * 1.2e-7 * (1.0 + y.abs()), "congruent");
    g.nontrivial(); Ok(())
}
fn consts<S: K>(name: &str, eps: f64, max: f64, minp: f64, pi: f64) -> R {
    let mut d = [0; 3]; S::degs(0, &mut d);
    let chk = |s: S, v: f64, n: &str| -> R { let mut t = Tay::zero(d); s.read([0; 3], 0, &mut t); ensure!(t.c[0] == v || (v.is_nan() && t.c[0].is_nan()), "{name} {n} = {} want {v}", t.c[0]); ensure!(t.c[1..].iter().all(|x| *x == 0.0), "{name} {n} carries a derivative {:?}", t.c); Ok(()) };
    chk(S::ZERO, 0.0, "ZERO")?; chk(S::ONE, 1.0, "ONE")?; chk(S::TWO, 2.0, "TWO")?; chk(S::THREE, 3.0, "THREE")?; chk(S::HALF, 0.5, "HALF")?; chk(S::TEN, 10.0, "TEN")?; chk(S::HUNDRED, 100.0, "HUNDRED")?; chk(S::ONE_HUNDRED_EIGHTY, 180.0, "180")?;
    chk(S::PI, pi, "PI")?; chk(S::TWO_PI, 2.0 * pi, "TWO_PI")?; chk(S::EPSILON, eps, "EPS")?; chk(S::EPSILON_X4, 4.0 * eps, "EPS4")?; chk(S::EPSILON_X30, 30.0 * eps, "EPS30")?; chk(S::NAN, f64::NAN, "NAN")?; chk(S::INFINITY, f64::INFINITY, "INF")?; chk(S::NEG_INFINITY, f64::NEG_INFINITY, "NINF")?; chk(S::MAX, max, "MAX")?; chk(S::MIN_POSITIVE, minp, "MINP")?;
    Ok(())
}
/// Conversions, constants, comparisons, classification and projection look at the value only.
fn conversions(g: &mut G) -> R {
    fn one<S: K>(g: &mut G, f32s: bool) -> R {
        let mut d = [0; 3]; S::degs(0, &mut d);
        let r = |x: f64| if f32s { x as f32 as f64 } else { x };
        let flat = |s: S| { let mut t = Tay::zero(d); s.read([0; 3], 0, &mut t); t.c };
        let v = g.hostile(); let n = g.raw(0) >> g.below(64); g.note("v", &v); g.note("n", &n);
        let c = flat(S::from_f64(v)); ensure!(c[0] == r(v) || v.is_nan() && c[0].is_nan()); ensure!(c[1..].iter().all(|x| *x == 0.0));
        let c = flat(S::from_u64(n)); ensure!(c[0] == if f32s { n as f32 as f64 } else { n as f64 } && c[1..].iter().all(|x| *x == 0.0), "from_u64 {c:?}");
        let c = flat(S::from_usize(n as usize)); ensure!(c[0] == if f32s { n as f32 as f64 } else { n as f64 } && c[1..].iter().all(|x| *x == 0.0), "from_usize {c:?}");
        let w = if g.chance(1, 4) { v } else { g.hostile() }; g.note("w", &w);
        let mk = |g: &mut G, x: f64| { let mut t = Tay::zero(d); for q in t.c.iter_mut() { *q = g.hostile(); } t.c[0] = x; (S::make([0; 3], 0, &t), t) };
        let ((sv, tv), (sw, _)) = (mk(g, v), mk(g, w)); let (rv, rw) = (r(v), r(w));
        ensure!((sv == sw) == (rv == rw), "eq"); ensure!(sv.partial_cmp(&sw) == rv.partial_cmp(&rw), "cmp"); ensure!((sv < sw) == (rv < rw) && (sv > sw) == (rv > rw) && (sv <= sw) == (rv <= rw) && (sv >= sw) == (rv >= rw));
        ensure!(sv.is_nan() == rv.is_nan() && sv.is_finite() == rv.is_finite() && sv.is_infinite() == rv.is_infinite(), "classes");
        ensure!(sv.to_f64() == rv || rv.is_nan() && sv.to_f64().is_nan(), "to_f64"); ensure!(sv.to_f32() == rv as f32 || rv.is_nan(), "to_f32");
        // step functions: value of the float, zero derivative; negation exact
        for (s, x) in [(sv.floor(), rv.floor()), (sv.ceil(), rv.ceil()), (sv.round(), rv.round()), (sv.trunc(), rv.trunc())] { let c = flat(s); ensure!(c[0] == x || x.is_nan() && c[0].is_nan(), "step fn {} {}", c[0], x); ensure!(c[1..].iter().all(|q| *q == 0.0), "step fn slope"); }
        let c = flat(-sv); for k in 0..c.len() { let q = r(tv.c[k]); ensure!(c[k] == -q || q.is_nan() && c[k].is_nan(), "neg"); }
        // selection keeps the whole payload of the selected operand
        if rv != rw && !rv.is_nan() && !rw.is_nan() {
            let pick = |a: Vec<f64>, b: Vec<f64>| a.iter().zip(&b).all(|(x, y)| x == y || x.is_nan() && y.is_nan());
            ensure!(pick(flat(sv.max(sw)), flat(if rv > rw { sv } else { sw })), "max payload"); ensure!(pick(flat(sv.min(sw)), flat(if rv < rw { sv } else { sw })), "min payload");
            g.nontrivial();
        }
        Ok(())
    }
    let (a, b) = (f64::EPSILON, f32::EPSILON as f64); let (p, q) = (std::f64::consts::PI, std::f32::consts::PI as f64);
    match g.below(6) {
        0 => { consts::<Dual<f64>>("Dual", a, f64::MAX, f64::MIN_POSITIVE, p)?; one::<Dual<f64>>(g, false) }
        1 => { consts::<HyperDual<f64>>("HyperDual", a, f64::MAX, f64::MIN_POSITIVE, p)?; one::<HyperDual<f64>>(g, false) }
        2 => { consts::<Jet<f64, 4>>("Jet", a, f64::MAX, f64::MIN_POSITIVE, p)?; one::<Jet<f64, 4>>(g, false) }
        3 => { consts::<Dual<f32>>("Dual32", b, f32::MAX as f64, f32::MIN_POSITIVE as f64, q)?; one::<Dual<f32>>(g, true) }
        4 => { consts::<f64>("f64", a, f64::MAX, f64::MIN_POSITIVE, p)?; consts::<f32>("f32", b, f32::MAX as f64, f32::MIN_POSITIVE as f64, q)?; one::<HyperDual<Jet<f64, 2>>>(g, false) }
        _ => { consts::<HyperDual<f32>>("HD32", b, f32::MAX as f64, f32::MIN_POSITIVE as f64, q)?; consts::<Jet<f32, 3>>("J32", b, f32::MAX as f64, f32::MIN_POSITIVE as f64, q)?; one::<Jet<f32, 3>>(g, true) }
    }
}
/// Constructors, coefficient / derivative accessors.
fn accessors(g: &mut G) -> R {
    let c: [f64; 7] = g.arr(-5.0, 5.0); g.note("c", &c); g.nontrivial();
    let j = Jet::new(c); let mut f = 1.0;
    for k in 0..7 { if k > 0 { f *= k as f64; } ensure!(j.coefficient(k) == c[k]); close!(g, j.derivative(k), f * c[k], 1e-15 * (f * c[k]).abs(), "derivative({k})"); }
    ensure!(j.value() == c[0]);
    let v = Jet::<f64, 5>::variable(c[1]); ensure!(v.coeffs == [c[1], 1.0, 0.0, 0.0, 0.0]); ensure!(Jet::<f64, 3>::constant(c[2]).coeffs == [c[2], 0.0, 0.0]);
    let d = Dual::<f64>::variable(c[0]); ensure!((d.value, d.deriv) == (c[0], 1.0)); let d = Dual::<f64>::constant(c[0]); ensure!((d.value, d.deriv) == (c[0], 0.0)); let d = Dual::<f64>::new(c[0], c[1]); ensure!((d.value, d.deriv) == (c[0], c[1]));
    let h = HyperDual::<f64>::variable(c[0]); ensure!((h.real, h.eps1, h.eps2, h.eps1eps2) == (c[0], 1.0, 1.0, 0.0)); let h = HyperDual::<f64>::constant(c[0]); ensure!((h.real, h.eps1, h.eps2, h.eps1eps2) == (c[0], 0.0, 0.0, 0.0));
    let h = HyperDual::<f64>::new(c[0], c[1], c[2], c[3]); ensure!((h.real, h.eps1, h.eps2, h.eps1eps2) == (c[0], c[1], c[2], c[3]));
    Ok(())
}
fn main() {
    let nt = "a derivative coefficient larger than 1e-9 was compared";
    run("C01", &["std's float functions are the value reference (a few ulps)", "arguments stay a margin away from kinks and singularities of each operation, except in the value and conversion laws"], &[
        law!("dual_programs", 60000, dual64, nt), law!("hyperdual_programs", 50000, hyper64, nt), law!("jet_programs", 50000, jets64, nt), law!("nested_programs", 40000, nested, nt), law!("f32_programs", 40000, single32, nt),
        law!("plain_programs", 20000, plain), law!("special_points", 30000, special, nt), law!("value_matches_plain", 200000, value_matches_plain, "the plain result is not NaN"), law!("floats_match_std", 200000, floats_vs_std, "finite result"),
        law!("wrap_to_pi", 5000, wrap_range, "every case"), law!("conversions_and_order", 20000, conversions, "two ordered distinct values"), law!("accessors", 2000, accessors, "every case"),
    ]);
}
