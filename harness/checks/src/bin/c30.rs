//! C30: curl and divergence against reference partials and identities; line and flux integrals against accurate quadrature of the same field and curve.
use checks::prog::{self, Prog, VF};
use checks::util::*;
use multicalc::error::{DiffError, IntegrateError as E};
use multicalc::numerical_derivative::{AutoDiffMulti, FiniteDifferenceMulti, FiniteDifferenceMode};
use multicalc::vector_field::*;
use multicalc::{Numeric, VectorFn};
use vk::*;

/// A polynomial in N variables: coefficient and exponents per term.
#[derive(Clone, Debug)]
struct Poly<const N: usize>(Vec<(f64, [u32; N])>);
impl<const N: usize> Poly<N> {
    fn gen(g: &mut G) -> Poly<N> { let n = 1 + g.below(5); Poly((0..n).map(|_| (g.int(-8, 8) as f64 / 4.0, std::array::from_fn(|_| g.below(4) as u32))).collect()) }
    fn d(&self, k: usize) -> Poly<N> { Poly(self.0.iter().filter(|t| t.1[k] > 0).map(|(c, e)| { let mut f = *e; f[k] -= 1; (c * e[k] as f64, f) }).collect()) }
    fn minus(&self, o: &Poly<N>) -> Poly<N> { let mut v = self.0.clone(); v.extend(o.0.iter().map(|(c, e)| (-c, *e))); Poly(v) }
    fn at<S: Numeric>(&self, x: &[S; N]) -> S { let mut s = S::from_f64(0.0); for (c, e) in &self.0 { let mut m = S::from_f64(*c); for k in 0..N { for _ in 0..e[k] { m = m * x[k]; } } s = s + m; } s }
    fn size(&self, x: &[f64; N]) -> f64 { self.0.iter().map(|(c, e)| c.abs() * (0..N).map(|k| x[k].abs().powi(e[k] as i32)).product::<f64>()).sum() }
}
struct PolyField<const N: usize, const M: usize>([Poly<N>; M]);
impl<const N: usize, const M: usize> VectorFn<N, M> for PolyField<N, M> { fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] { std::array::from_fn(|i| self.0[i].at(x)) } }

/// Any smooth field, possibly of more variables than components.
fn operators<const N: usize, T: Fl>(g: &mut G) -> R where AutoDiffMulti<T>: multicalc::numerical_derivative::DerivatorMultiVariable<Scalar = T> {
    let x: [T; N] = std::array::from_fn(|_| T::c(g.f(-1.5, 1.5))); let xd: Vec<f64> = x.iter().map(|v| v.g()).collect(); let len = N + g.size(1, 8); let p: [Prog; 3] = std::array::from_fn(|_| prog::gen(g, &xd, len, prog::SMOOTH, 0.05)); g.note("at", &xd); g.note("field", &p);
    let mut d = [[(0.0, 0.0); 3]; 3]; for i in 0..3 { for k in 0..3.min(N) { let Some(v) = prog::partial(&p[i], &xd, &[k], T::EPS) else { discard!() }; d[i][k] = v; } }
    let f = VF(p.clone()); let f2 = VF([p[0].clone(), p[1].clone()]); let ad = AutoDiffMulti::<T>::default(); let diff = |a: (f64, f64), b: (f64, f64)| (a.0 - b.0, a.1 + b.1 + T::EPS * 4.0 * (a.0.abs() + b.0.abs()));
    if N >= 3 { let c = match curl_3d(ad, &f, &x) { Ok(c) => c, Err(e) => bad!("{e:?}") }; for (k, (w, t)) in [diff(d[2][1], d[1][2]), diff(d[0][2], d[2][0]), diff(d[1][0], d[0][1])].into_iter().enumerate() { close!(g, c[k].g(), w, t, "curl component {k}"); } let (w, t) = (d[0][0].0 + d[1][1].0 + d[2][2].0, d[0][0].1 + d[1][1].1 + d[2][2].1 + T::EPS * 8.0 * (d[0][0].0.abs() + d[1][1].0.abs() + d[2][2].0.abs())); let v = match divergence_3d(ad, &f, &x) { Ok(c) => c, Err(e) => bad!("{e:?}") }; close!(g, v.g(), w, t, "divergence"); }
    let c = match curl_2d(ad, &f2, &x) { Ok(c) => c, Err(e) => bad!("{e:?}") }; let (w, t) = diff(d[1][0], d[0][1]); close!(g, c.g(), w, t, "plane curl"); let v = match divergence_2d(ad, &f2, &x) { Ok(c) => c, Err(e) => bad!("{e:?}") }; let (w, t) = (d[0][0].0 + d[1][1].0, d[0][0].1 + d[1][1].1 + T::EPS * 4.0 * (d[0][0].0.abs() + d[1][1].0.abs())); close!(g, v.g(), w, t, "plane divergence");
    g.nontrivial_if(d.iter().flatten().any(|v| v.0 != 0.0)); Ok(())
}
/// The identities of potentials, and finite differences of the same fields.
fn identities(g: &mut G) -> R {
    let x: [f64; 3] = std::array::from_fn(|_| g.f(-1.5, 1.5)); let p = Poly::<3>::gen(g); let grad = PolyField([p.d(0), p.d(1), p.d(2)]); g.note("at,potential", &(x, &p)); let ad = AutoDiffMulti::<f64>::default(); let big = |f: &[Poly<3>]| f.iter().flat_map(|p| (0..3).map(|k| p.d(k).size(&x))).fold(1e-30f64, f64::max);
    let e = f64::EPSILON * 60.0 * big(&grad.0); for c in curl_3d(ad, &grad, &x).unwrap() { close!(g, c, 0.0, e, "curl of a gradient"); } let lap: f64 = (0..3).map(|k| p.d(k).d(k).at(&x)).sum(); close!(g, divergence_3d(ad, &grad, &x).unwrap(), lap, e * 3.0, "divergence of a gradient is the sum of second partials");
    let a: [Poly<3>; 3] = std::array::from_fn(|_| Poly::gen(g)); let curl = [a[2].d(1).minus(&a[1].d(2)), a[0].d(2).minus(&a[2].d(0)), a[1].d(0).minus(&a[0].d(1))]; let lib = curl_3d(ad, &PolyField(a.clone()), &x).unwrap(); let e = f64::EPSILON * 60.0 * big(&a); for k in 0..3 { close!(g, lib[k], curl[k].at(&x), e * 2.0, "curl component {k}"); } let e = f64::EPSILON * 200.0 * big(&curl); close!(g, divergence_3d(ad, &PolyField(curl.clone()), &x).unwrap(), 0.0, e, "divergence of a curl");
    let q = Poly::<2>::gen(g); let y = [x[0], x[1]]; let e2 = f64::EPSILON * 60.0 * (0..2).flat_map(|i| (0..2).map(move |j| (i, j))).map(|(i, j)| q.d(i).d(j).size(&y)).fold(1e-30f64, f64::max); close!(g, curl_2d(ad, &PolyField([q.d(0), q.d(1)]), &y).unwrap(), 0.0, e2, "plane curl of a gradient");
    // finite differences see the same field
    let f = PolyField(a.clone()); let mode = g.pick(&[FiniteDifferenceMode::Forward, FiniteDifferenceMode::Backward, FiniteDifferenceMode::Central]); let fd = FiniteDifferenceMulti::<f64>::default(); let _ = mode; let third = a.iter().map(|p| p.size(&[3.0, 3.0, 3.0])).fold(1.0f64, f64::max); let lib2 = curl_3d(fd, &f, &x).unwrap(); for k in 0..3 { close!(g, lib2[k], curl[k].at(&x), 1e-3 * third, "curl by differences"); } let dv: f64 = (0..3).map(|k| a[k].d(k).at(&x)).sum(); close!(g, divergence_3d(fd, &f, &x).unwrap(), dv, 1e-3 * third, "divergence by differences");
    let z = FiniteDifferenceMulti::from_parameters(0.0, mode, 10.0); ensure!(curl_3d(z, &f, &x) == Err(DiffError::StepSizeZero) && divergence_3d(z, &f, &x) == Err(DiffError::StepSizeZero)); let f2 = PolyField([q.d(0), q.d(1)]); ensure!(curl_2d(z, &f2, &y) == Err(DiffError::StepSizeZero) && divergence_2d(z, &f2, &y) == Err(DiffError::StepSizeZero));
    // a field of one variable has no second one to differ in
    let one = PolyField([Poly::<1>(vec![(1.0, [1])]), Poly(vec![(2.0, [2])])]); ensure!(curl_2d(ad, &one, &[0.5]) == Err(DiffError::IndexOutOfRange) && divergence_2d(ad, &one, &[0.5]) == Err(DiffError::IndexOutOfRange)); g.nontrivial(); Ok(())
}
/// A smooth curve with its velocity: lines, polynomials, arcs, helices.
#[derive(Clone, Copy, Debug)]
enum Coord { Poly([f64; 4]), Wave(f64, f64, f64, f64) }
impl Coord {
    fn gen(g: &mut G, straight: bool) -> Coord { if straight { Coord::Poly([g.int(-8, 8) as f64 / 4.0, g.int(-8, 8) as f64 / 4.0, 0.0, 0.0]) } else if g.bool() { Coord::Poly([g.f(-1.0, 1.0), g.f(-1.0, 1.0), g.f(-0.5, 0.5), g.f(-0.3, 0.3)]) } else { Coord::Wave(g.f(-1.0, 1.0), g.f(0.3, 1.5), g.pick(&[1.0, 1.0, 2.0]), g.pick(&[0.0, std::f64::consts::FRAC_PI_2, 0.3])) } }
    fn at<S: Numeric>(&self, t: S) -> S { let c = |x: f64| S::from_f64(x); match *self { Coord::Poly(p) => c(p[0]) + t * (c(p[1]) + t * (c(p[2]) + t * c(p[3]))), Coord::Wave(o, a, w, p) => c(o) + c(a) * (c(w) * t + c(p)).sin() } }
    fn v(&self, t: f64) -> f64 { match *self { Coord::Poly(p) => p[1] + t * (2.0 * p[2] + t * 3.0 * p[3]), Coord::Wave(_, a, w, p) => a * w * (w * t + p).cos() } }
}
const GAUSS: [(f64, f64); 5] = [(0.0, 0.568_888_888_888_888_9), (0.538_469_310_105_683_1, 0.478_628_670_499_366_47), (-0.538_469_310_105_683_1, 0.478_628_670_499_366_47), (0.906_179_845_938_664, 0.236_926_885_056_189_08), (-0.906_179_845_938_664, 0.236_926_885_056_189_08)];
/// The integral of component i of the field against coordinate j of the curve, to rounding.
fn exact<const N: usize>(f: &[Poly<N>; N], c: &[Coord; N], i: usize, j: usize, a: f64, b: f64) -> f64 { let n = 80; let h = (b - a) / n as f64; (0..n).map(|k| { let m = a + (k as f64 + 0.5) * h; GAUSS.iter().map(|(x, w)| { let t = m + x * h / 2.0; w * f[i].at(&std::array::from_fn(|k| c[k].at(t))) * c[j].v(t) }).sum::<f64>() * h / 2.0 }).sum() }
/// What straight pieces between n + 1 points of the curve make of the same integral.
fn pieces<const N: usize>(f: &[Poly<N>; N], c: &[Coord; N], i: usize, j: usize, a: f64, b: f64, n: u64) -> f64 { let at = |k: u64| { let t = a + (b - a) * k as f64 / n as f64; let p: [f64; N] = std::array::from_fn(|k| c[k].at(t)); (p[j], f[i].at(&p)) }; let mut s = 0.0; let mut l = at(0); for k in 1..=n { let r = at(k); s += (r.0 - l.0) * (r.1 + l.1) / 2.0; l = r; } s }
fn scale<const N: usize>(f: &[Poly<N>; N], c: &[Coord; N], a: f64, b: f64) -> f64 { let mut m = 0.0f64; for k in 0..=40 { let t = a + (b - a) * k as f64 / 40.0; let p: [f64; N] = std::array::from_fn(|k| c[k].at(t)); let v = (0..N).map(|k| c[k].v(t).abs() + p[k].abs()).sum::<f64>(); for q in f { m = m.max(q.size(&p) * (1.0 + v)); for k in 0..N { m = m.max(q.d(k).size(&p) * (1.0 + v)); } } } m * (1.0 + b - a) }
macro_rules! fields { ($p:expr, $t:ty, 2) => {{ let p = $p; [Box::new({ let p = p[0].clone(); move |x: &[$t; 2]| p.at(x) }) as Box<dyn Fn(&[$t; 2]) -> $t>, Box::new({ let p = p[1].clone(); move |x: &[$t; 2]| p.at(x) })] }}; ($p:expr, $t:ty, 3) => {{ let p = $p; [Box::new({ let p = p[0].clone(); move |x: &[$t; 3]| p.at(x) }) as Box<dyn Fn(&[$t; 3]) -> $t>, Box::new({ let p = p[1].clone(); move |x: &[$t; 3]| p.at(x) }), Box::new({ let p = p[2].clone(); move |x: &[$t; 3]| p.at(x) })] }}; }
/// Every integral of a field along a curve, at some number of steps; None asks for the default number.
struct Got { line: Result<f64, E>, flux: Result<f64, E>, part: Vec<Result<f64, E>>, beyond: Result<f64, E> }
fn ask<const N: usize, T: Fl>(f: &[Poly<N>; N], c: &[Coord; N], lim: [T; 2], n: Option<u64>, back: Option<T>) -> Got {
    // `back` walks the same curve the other way about
    macro_rules! go { ($d:tt, $line:ident, $linec:ident, $part:ident, $flux:ident, $fluxc:ident) => {{ let fp: [Poly<$d>; $d] = std::array::from_fn(|i| Poly(f[i].0.iter().map(|(c, e)| (*c, std::array::from_fn(|k| e[k]))).collect())); let b = fields!(&fp, T, $d); let fr: [&dyn Fn(&[T; $d]) -> T; $d] = std::array::from_fn(|i| &*b[i] as _); let cb: [Box<dyn Fn(T) -> T>; $d] = std::array::from_fn(|i| { let q = c[i]; Box::new(move |t: T| q.at(match back { Some(s) => s - t, None => t })) as _ }); let cr: [&dyn Fn(T) -> T; $d] = std::array::from_fn(|i| &*cb[i] as _); let k = n.unwrap_or(120); Got { line: match n { None => $line(&fr, &cr, &lim), Some(n) => $linec(&fr, &cr, &lim, n) }.map(|x| x.g()), flux: match n { None => $flux(&fr, &cr, &lim), Some(n) => $fluxc(&fr, &cr, &lim, n) }.map(|x| x.g()), part: (0..$d).map(|i| $part(&fr, &cr, &lim, k, i).map(|x| x.g())).collect(), beyond: $part(&fr, &cr, &lim, k, if k % 2 == 0 { $d } else { usize::MAX }).map(|x| x.g()) } }}; }
    if N == 2 { go!(2, line_integral_2d, line_integral_2d_custom, line_integral_partial_2d, flux_integral_2d, flux_integral_2d_custom) } else { go!(3, line_integral_3d, line_integral_3d_custom, line_integral_partial_3d, flux_integral_3d, flux_integral_3d_custom) }
}
fn integrals<const N: usize, T: Fl>(g: &mut G) -> R {
    let straight = g.chance(1, 4); let c: [Coord; N] = std::array::from_fn(|_| Coord::gen(g, straight)); let pot = g.chance(1, 3); let u = Poly::<N>::gen(g); let f: [Poly<N>; N] = if pot { std::array::from_fn(|k| u.d(k)) } else if straight { std::array::from_fn(|_| Poly((0..=N).map(|i| (g.int(-8, 8) as f64 / 4.0, std::array::from_fn(|k| (k + 1 == i) as u32))).collect())) } else { std::array::from_fn(|_| Poly::gen(g)) }; let round = g.chance(1, 4);
    let (a, b) = if round { (0.0, std::f64::consts::TAU) } else { let a = g.f(-2.0, 2.0); (a, a + g.f(0.1, 3.0)) }; let lim = [T::c(a), T::c(b)]; let (a, b) = (lim[0].g(), lim[1].g()); let n = match g.below(4) { 0 => None, 1 => Some(g.int(1, 12) as u64), 2 => Some(g.int(100, 400) as u64), _ => Some(g.int(13, 99) as u64) }; g.note("field,curve,limits,steps", &(&f, c, a, b, n)); let k = n.unwrap_or(120); let got = ask(&f, &c, lim, n, None);
    let sc = scale(&f, &c, a, b); let e = T::EPS * sc * (40.0 + 4.0 * k as f64); if e > 1e-2 * sc { discard!() }
    let part = |i: usize, j: usize, lo: f64, hi: f64, n: u64| { let x = exact(&f, &c, i, j, lo, hi); let (p, q) = (pieces(&f, &c, i, j, lo, hi, n), pieces(&f, &c, i, j, lo, hi, n + 1)); (x, 1.5 * (p - x).abs() + (p - q).abs()) };
    let (mut line, mut le) = (0.0, 0.0); for i in 0..N { let (x, w) = part(i, i, a, b, k); match &got.part[i] { Ok(v) => close!(g, *v, x, w + e, "component {i} along the curve"), Err(e) => bad!("{e:?}") } line += x; le += w; } let v = match got.line { Ok(v) => v, Err(e) => bad!("{e:?}") }; close!(g, v, line, le + 3.0 * e, "line integral"); let sum: f64 = got.part.iter().map(|p| *p.as_ref().unwrap()).sum(); close!(g, v, sum, 3.0 * e, "the parts do not add up");
    if pot { let at = |t: f64| u.at(&std::array::from_fn(|k| c[k].at(t))); close!(g, v, at(b) - at(a), le + 3.0 * e, "a gradient field integrates to the difference of its potential"); }
    // across the curve: through its right-hand side in the plane; in space the first component less the others
    let fl = match got.flux { Ok(v) => v, Err(e) => bad!("{e:?}") }; let (w, fe) = if N == 2 { let (x, p) = part(0, 1, a, b, k); let (y, q) = part(1, 0, a, b, k); (x - y, p + q) } else { let mut s = 0.0; let mut t = 0.0; for i in 0..N { let (x, p) = part(i, i, a, b, k); s += if i == 0 { x } else { -x }; t += p; } (s, t) }; close!(g, fl, w, fe + 3.0 * e, "flux");
    // the other way about, and in two pieces
    let rev = ask(&f, &c, lim, n, Some(lim[0] + lim[1])); let ends = T::EPS * sc * 40.0; close!(g, rev.line.clone().unwrap_or(f64::NAN), -v, 6.0 * e + ends, "backwards"); close!(g, rev.flux.clone().unwrap_or(f64::NAN), -fl, 6.0 * e + ends, "backwards across");
    if k % 2 == 0 { let m = T::HALF * (lim[0] + lim[1]); let (l, r) = (ask(&f, &c, [lim[0], m], Some(k / 2), None), ask(&f, &c, [m, lim[1]], Some(k / 2), None)); let both = |a: &Result<f64, E>, b: &Result<f64, E>| match (a, b) { (Ok(a), Ok(b)) => a + b, _ => f64::NAN }; close!(g, both(&l.line, &r.line), v, 8.0 * e, "the halves do not add up"); close!(g, both(&l.flux, &r.flux), fl, 8.0 * e, "the halves across do not add up"); }
    if straight && !pot { g.label("exact by rule"); close!(g, v, line, 6.0 * e, "a straight line through a uniform gradient is exact"); }
    ensure!(got.beyond == Err(E::IndexOutOfRange), "a component that is not there gave {:?}", got.beyond); g.label_if(round && !straight, "a full turn"); g.nontrivial_if(line != 0.0); Ok(())
}
/// Round a closed curve: what goes round is the curl inside, what goes out is the divergence inside.
fn green(g: &mut G) -> R {
    let f: [Poly<2>; 2] = [Poly::gen(g), Poly::gen(g)]; let (ox, oy, ra, rb) = (g.f(-0.5, 0.5), g.f(-0.5, 0.5), g.f(0.3, 1.2), g.f(0.3, 1.2)); let c = [Coord::Wave(ox, ra, 1.0, std::f64::consts::FRAC_PI_2), Coord::Wave(oy, rb, 1.0, 0.0)]; g.note("field,centre,radii", &(&f, [ox, oy], [ra, rb])); let n = 2000; let got = ask::<2, f64>(&f, &c, [0.0, std::f64::consts::TAU], Some(n), None);
    let (m, k) = (40, 64); let mut curl = 0.0; let mut div = 0.0; for i in 0..m { for (x, w) in GAUSS { let r = (i as f64 + 0.5 + x / 2.0) / m as f64; for j in 0..k { let t = std::f64::consts::TAU * j as f64 / k as f64; let p = [ox + ra * r * t.cos(), oy + rb * r * t.sin()]; let da = ra * rb * r * w / (2.0 * m as f64) * std::f64::consts::TAU / k as f64; curl += (f[1].d(0).at(&p) - f[0].d(1).at(&p)) * da; div += (f[0].d(0).at(&p) + f[1].d(1).at(&p)) * da; } } }
    let e = 2e-5 * scale(&f, &c, 0.0, std::f64::consts::TAU); close!(g, got.line.unwrap_or(f64::NAN), curl, e, "circulation"); close!(g, got.flux.unwrap_or(f64::NAN), div, e, "outflow"); g.nontrivial_if(curl != 0.0 && div != 0.0); Ok(())
}
fn errors<T: Fl>(g: &mut G) -> R {
    let f2: [Poly<2>; 2] = [Poly::gen(g), Poly::gen(g)]; let c2 = [Coord::gen(g, false), Coord::gen(g, false)]; let f3: [Poly<3>; 3] = std::array::from_fn(|_| Poly::gen(g)); let c3: [Coord; 3] = std::array::from_fn(|_| Coord::gen(g, false)); let v = |g: &mut G| T::c(match g.below(5) { 0 => f64::NAN, 1 => g.pick(&[f64::INFINITY, f64::NEG_INFINITY]), _ => g.int(-2, 3) as f64 }); let lim = [v(g), v(g)]; let n = if g.chance(1, 4) { Some(0) } else if g.bool() { None } else { Some(5) }; g.note("limits,steps", &(lim, n));
    let want = if n == Some(0) { Some(E::IterationsZero) } else if !(lim[0] < lim[1]) { Some(E::LimitsIllDefined) } else { None }; for got in [ask(&f2, &c2, lim, n, None), ask(&f3, &c3, lim, n, None)] { for r in [&got.line, &got.flux].into_iter().chain(&got.part) { ensure!(r.as_ref().err() == want.as_ref(), "{r:?}, wanted {want:?}"); } } g.nontrivial_if(want.is_some()); Ok(())
}
fn main() {
    run("C30", &["a flux in space along a curve is, as the library defines it, the first component's integral less the other two"], &[
        law!("operators", 6_000, operators::<3, f64>, "a partial derivative is not zero"), law!("operators_more", 3_000, operators::<4, f64>, "a partial derivative is not zero"), law!("operators_plane", 4_000, operators::<2, f64>, "a partial derivative is not zero"), law!("operators_f32", 3_000, operators::<3, f32>, "a partial derivative is not zero"),
        law!("identities", 10_000, identities, "every case"), law!("plane", 8_000, integrals::<2, f64>, "the integral is not zero"), law!("plane_f32", 4_000, integrals::<2, f32>, "the integral is not zero"), law!("space", 6_000, integrals::<3, f64>, "the integral is not zero"), law!("space_f32", 3_000, integrals::<3, f32>, "the integral is not zero"),
        law!("green", 2_000, green, "both integrals are not zero"), law!("errors", 6_000, errors::<f64>, "a refused call"), law!("errors_f32", 3_000, errors::<f32>, "a refused call"),
    ]);
}
