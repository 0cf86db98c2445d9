//! Random straight-line numeric programs over every `Numeric` operation, run at any scalar, with a
//! reference Taylor oracle.
use multicalc::{Numeric, constant};
use vk::taylor::{set_jitter, Tay};
use vk::G;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Add, Sub, Mul, Div, Neg, AddA, SubA, MulA, DivA,
    Abs, Sqrt, Cbrt, Sin, Cos, Tan, Exp, Log, Expm1, Ln1p, Log2, Log10,
    Atan2, Copysign, Floor, Ceil, Round, Trunc, Clamp, Signum, Max, Min, Wrap, Rad, Deg,
    Atan, Asin, Acos, Sinh, Cosh, Tanh, Hypot, Powf, MulAdd, Recip, Powi, SafeDiv,
    CAdd, CSub, CMul, CDiv, Const,
}
use Op::*;
pub const ALL: &[Op] = &[Add, Sub, Mul, Div, Neg, AddA, SubA, MulA, DivA, Abs, Sqrt, Cbrt, Sin, Cos, Tan, Exp, Log, Expm1, Ln1p, Log2, Log10,
    Atan2, Copysign, Floor, Ceil, Round, Trunc, Clamp, Signum, Max, Min, Wrap, Rad, Deg, Atan, Asin, Acos, Sinh, Cosh, Tanh, Hypot, Powf, MulAdd, Recip, Powi, SafeDiv,
    CAdd, CSub, CMul, CDiv, Const];
/// Smooth operations only (no steps or kinks).
pub const SMOOTH: &[Op] = &[Add, Sub, Mul, Div, Neg, AddA, SubA, MulA, DivA, Sqrt, Cbrt, Sin, Cos, Tan, Exp, Log, Expm1, Ln1p, Log2, Log10,
    Atan2, Rad, Deg, Atan, Asin, Acos, Sinh, Cosh, Tanh, Hypot, Powf, MulAdd, Recip, Powi, SafeDiv, CAdd, CSub, CMul, CDiv, Const];
/// A tame smooth subset: mild derivatives everywhere.
pub const TAME: &[Op] = &[Add, Sub, Mul, Neg, Sin, Cos, Atan, Tanh, CAdd, CSub, CMul, MulAdd, Const, Powi, MulA, AddA];

#[derive(Clone, Copy, Debug)]
pub struct Step { pub op: Op, pub a: usize, pub b: usize, pub c: usize, pub k: f64, pub k2: f64, pub n: i32 }
#[derive(Clone, Debug)]
pub struct Prog { pub nin: usize, pub steps: Vec<Step> }

pub fn apply<S: Numeric>(st: &Step, r: &[S]) -> S {
    let (a, b, c) = (r[st.a], r[st.b], r[st.c]);
    match st.op {
        Add => a + b, Sub => a - b, Mul => a * b, Div => a / b, Neg => -a,
        AddA => { let mut x = a; x += b; x } SubA => { let mut x = a; x -= b; x } MulA => { let mut x = a; x *= b; x } DivA => { let mut x = a; x /= b; x }
        Abs => a.abs(), Sqrt => a.sqrt(), Cbrt => a.cbrt(), Sin => a.sin(), Cos => a.cos(), Tan => a.tan(), Exp => a.exp(), Log => a.log(),
        Expm1 => a.expm1(), Ln1p => a.ln_1p(), Log2 => a.log2(), Log10 => a.log10(), Atan2 => a.atan2(b), Copysign => a.copysign(b),
        Floor => a.floor(), Ceil => a.ceil(), Round => a.round(), Trunc => a.trunc(),
        Clamp => a.clamp(<S::Constant as Numeric>::from_f64(st.k), <S::Constant as Numeric>::from_f64(st.k2)),
        Signum => a.signum(), Max => a.max(b), Min => a.min(b), Wrap => a.wrap_to_pi(), Rad => a.to_radians(), Deg => a.to_degrees(),
        Atan => a.atan(), Asin => a.asin(), Acos => a.acos(), Sinh => a.sinh(), Cosh => a.cosh(), Tanh => a.tanh(), Hypot => a.hypot(b),
        Powf => a.powf(b), MulAdd => a.mul_add(b, c), Recip => Numeric::recip(a), Powi => a.powi(st.n), SafeDiv => a.safe_div(b),
        CAdd => constant(st.k) + a, CSub => constant(st.k) - a, CMul => constant(st.k) * a, CDiv => constant(st.k) / a, Const => S::from_f64(st.k),
    }
}
/// All registers: inputs first, then one per step.
pub fn run<S: Numeric>(p: &Prog, x: &[S]) -> Vec<S> { let mut r = x.to_vec(); for s in &p.steps { let v = apply(s, &r); r.push(v); } r }
pub fn eval<S: Numeric>(p: &Prog, x: &[S]) -> S { *run(p, x).last().unwrap() }

/// The oracle for one step.
pub fn tstep(st: &Step, r: &[Tay]) -> Tay {
    let (a, b, c) = (&r[st.a], &r[st.b], &r[st.c]);
    let con = |v: f64| Tay::con(a.deg, v);
    let tau = std::f64::consts::TAU;
    match st.op {
        Add | AddA => a.add(b), Sub | SubA => a.sub(b), Mul | MulA => a.mul(b), Div | DivA | SafeDiv => a.div(b), Neg => a.neg(),
        Abs => if a.v() < 0.0 { a.neg() } else { a.clone() }
        Sqrt => a.sqrt(), Cbrt => a.cbrt(), Sin => a.sin(), Cos => a.cos(), Tan => a.tan(), Exp => a.exp(), Log => a.log(), Expm1 => a.expm1(), Ln1p => a.ln_1p(),
        Log2 => a.log().scale(1.0 / 2f64.ln()), Log10 => a.log().scale(1.0 / 10f64.ln()), Atan2 => a.atan2(b),
        Copysign => if (a.v() < 0.0) == b.v().is_sign_negative() { a.clone() } else { a.neg() }
        Floor => con(a.v().floor()), Ceil => con(a.v().ceil()), Round => con(a.v().round()), Trunc => con(a.v().trunc()),
        Clamp => if a.v() < st.k { con(st.k) } else if a.v() > st.k2 { con(st.k2) } else { a.clone() }
        Signum => con(if a.v() < 0.0 { -1.0 } else { 1.0 }),
        Max => if a.v() > b.v() { a.clone() } else { b.clone() } Min => if a.v() < b.v() { a.clone() } else { b.clone() }
        Wrap => a.sub(&con(tau * (a.v() / tau).round())), Rad => a.scale(std::f64::consts::PI / 180.0), Deg => a.scale(180.0 / std::f64::consts::PI),
        Atan => a.atan(), Asin => a.asin(), Acos => a.acos(), Sinh => a.sinh(), Cosh => a.cosh(), Tanh => a.tanh(), Hypot => a.hypot(b), Powf => a.powf(b),
        MulAdd => a.mul(b).add(c), Recip => a.recip(), Powi => a.powi(st.n), CAdd => a.add(&con(st.k)), CSub => con(st.k).sub(a), CMul => a.scale(st.k), CDiv => con(st.k).div(a), Const => con(st.k),
    }
}
pub fn trun(p: &Prog, x: &[Tay]) -> Vec<Tay> { let mut r = x.to_vec(); for s in &p.steps { let v = tstep(s, &r).jitter(); r.push(if matches!(s.op, Sinh | Cosh | Tanh | Asin | Acos | Atan | Powf | Tan | Expm1 | Ln1p | Log2 | Log10) { v.absnoise() } else { v }); } r }

/// Is the step well inside its operation's smooth domain at these register values?
pub fn domain(st: &Step, r: &[f64], m: f64) -> bool {
    let (a, b) = (r[st.a], r[st.b]);
    let away = |x: f64| (x - x.round()).abs() > m; // away from an integer
    match st.op {
        Div | DivA | SafeDiv => b.abs() > 0.05 && b.abs() < 1e4, CDiv | Recip => a.abs() > 0.05,
        Abs | Signum => a.abs() > m, Sqrt => a > 0.05, Cbrt => a.abs() > 0.05, Tan => a.cos().abs() > 0.1 && a.abs() < 50.0,
        Sin | Cos => a.abs() < 50.0, Exp | Expm1 | Sinh | Cosh => a.abs() < 6.0, Tanh => true,
        Log | Log2 | Log10 => a > 0.05, Ln1p => a > -0.9, Atan2 => a.hypot(b) > 0.1 && (a.abs() > m || b > 0.0), Copysign => a.abs() > m && b.abs() > m,
        Floor | Ceil | Trunc => away(a) && a.abs() < 1e3, Round => away(a + 0.5) && a.abs() < 1e3, Wrap => away(a / std::f64::consts::TAU + 0.5) && a.abs() < 50.0,
        Clamp => (a - st.k).abs() > m && (a - st.k2).abs() > m, Max | Min => (a - b).abs() > m,
        Asin | Acos => a.abs() < 0.95, Hypot => a.hypot(b) > 0.05, Powf => a > 0.05 && a < 30.0 && b.abs() < 4.0,
        Powi => if st.n < 0 { a.abs() > 0.2 } else { a.abs() < 20.0 },
        _ => true,
    }
}
/// Generates a program of `len` steps valid at `x`. Every register stays below 1e3 in magnitude.
pub fn gen(g: &mut G, x: &[f64], len: usize, ops: &[Op], margin: f64) -> Prog {
    let mut r = x.to_vec(); let mut steps = vec![];
    for i in 0..len {
        let n = r.len();
        let mut op = ops[g.below(ops.len())];
        let a = n - 1 - g.below(n.min(4)); let b = g.below(n); let c = g.below(n);
        // every input should matter: early steps read the inputs in turn
        let a = if i < x.len() { i } else { a };
        let k = g.int(-16, 16) as f64 / 8.0; let mut k2 = k + g.int(0, 16) as f64 / 8.0; let e = g.int(-3, 5) as i32;
        if k2 < k { k2 = k; }
        let mut st = Step { op, a, b, c, k, k2, n: e };
        for alt in [op, Sin, CMul] {
            op = alt; st.op = op;
            if op == CMul && alt != ops[0] && st.k == 0.0 { st.k = 0.5; }
            if !ops.contains(&op) && op != CMul { continue; }
            if !domain(&st, &r, margin) { continue; }
            let v = apply::<f64>(&st, &r);
            if v.is_finite() && v.abs() < 1e3 { break; }
        }
        let mut v = apply::<f64>(&st, &r);
        if !(v.is_finite() && v.abs() < 1e3) { st.op = CMul; st.k = 0.001; v = apply::<f64>(&st, &r); }
        r.push(v); steps.push(st);
    }
    Prog { nin: x.len(), steps }
}
/// Oracle registers and per-coefficient tolerances for scalar epsilon `eps`.
pub fn oracle(p: &Prog, x: &[Tay], eps: f64) -> (Vec<Tay>, Vec<Tay>) {
    set_jitter(0.0, 0);
    let f = if eps < 1e-12 { 1024.0 } else { 8.0 };
    let r = trun(p, x);
    let mut tol: Vec<Tay> = r.iter().map(|t| Tay::zero(t.deg)).collect();
    for s in 0..6u64 {
        set_jitter(eps * f, 77 + s * 1000003);
        let q = trun(p, x);
        for i in 0..r.len() { for k in 0..r[i].c.len() { let d = (q[i].c[k] - r[i].c[k]).abs(); if d > tol[i].c[k] || d.is_nan() { tol[i].c[k] = d; } } }
    }
    set_jitter(0.0, 0);
    for i in 0..r.len() { let sc = r[i].c.iter().fold(0.0f64, |a, v| a.max(v.abs())); for k in 0..r[i].c.len() { tol[i].c[k] = 1000.0 / f * tol[i].c[k] + 200.0 * eps * r[i].c[k].abs() + 100.0 * eps * sc + if f < 10.0 { 1e-36 } else { 1e-300 }; } }
    (r, tol)
}

/// A program as a multicalc function.
#[derive(Clone, Debug)]
pub struct PF(pub Prog);
impl multicalc::ScalarFn for PF { fn eval<S: Numeric>(&self, x: S) -> S { eval(&self.0, &[x]) } }
impl<const N: usize> multicalc::ScalarFnN<N> for PF { fn eval<S: Numeric>(&self, x: &[S; N]) -> S { eval(&self.0, x) } }
#[derive(Clone, Debug)]
pub struct VF<const M: usize>(pub [Prog; M]);
impl<const N: usize, const M: usize> multicalc::VectorFn<N, M> for VF<M> { fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] { core::array::from_fn(|i| eval(&self.0[i], x)) } }

/// Reference mixed partial d^n f / dx_idx[0] dx_idx[1] ... (n <= 3) with tolerance at epsilon `eps`; None when ill-conditioned.
pub fn partial(p: &Prog, x: &[f64], idx: &[usize], eps: f64) -> Option<(f64, f64)> {
    let mut d = [0; 3]; for k in 0..idx.len() { d[k] = 1; }
    let t: Vec<Tay> = (0..x.len()).map(|i| { let mut t = Tay::con(d, x[i]); for (k, &j) in idx.iter().enumerate() { if j == i { let mut e = [0; 3]; e[k] = 1; t.set(e[0], e[1], e[2], 1.0); } } t }).collect();
    let (r, tol) = oracle(p, &t, eps);
    let (v, w) = (r.last().unwrap(), tol.last().unwrap());
    for q in &r { if !q.c.iter().all(|c| c.abs() < 1e9) { return None; } }
    let a = v.at(d[0], d[1], d[2]); let b = w.at(d[0], d[1], d[2]);
    if !(b < 1e-3 * (1.0 + a.abs())) { None } else { Some((a, b)) }
}
/// Reference n-th derivative of a one-variable program.
pub fn nth(p: &Prog, x: f64, n: usize, eps: f64) -> Option<(f64, f64)> {
    let mut t = Tay::con([n, 0, 0], x); if n > 0 { t.set(1, 0, 0, 1.0); }
    let (r, tol) = oracle(p, &[t], eps);
    let mut f = 1.0; for i in 2..=n { f *= i as f64; }
    for q in &r { if !q.c.iter().all(|c| c.abs() < 1e9) { return None; } }
    let (a, b) = (r.last().unwrap().at(n, 0, 0) * f, tol.last().unwrap().at(n, 0, 0) * f);
    if !(b < 1e-3 * (1.0 + a.abs())) { None } else { Some((a, b)) }
}
