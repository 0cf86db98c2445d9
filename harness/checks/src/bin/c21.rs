//! C21: particle filter and Monte Carlo localizer against an explicit weighted-cloud model.
use checks::lin::*;
use checks::util::*;
use multicalc::error::EstimationError as EE;
use multicalc::estimation::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::mapping::{DynamicOccupancyGrid, MutableOccupancyMap, OccupancyMap, ScanGeometry};
use multicalc::random::{Pcg32, RandomScalar, RandomSource};
use multicalc::{Numeric, Primal, VectorFn};
use vk::mat::M as DM;
use vk::*;

const SCHEMES: [ResamplingScheme; 4] = [ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual];

/// A random source handing out recorded words, counting them.
#[derive(Clone)]
struct Words<T> { words: Vec<u32>, used: usize, cache: Option<T> }
impl<T: Numeric + RandomScalar> RandomSource<T> for Words<T> {
    fn next_u32(&mut self) -> u32 { let w = self.words[self.used % self.words.len()]; self.used += 1; w }
    fn get_cache(&mut self) -> Option<T> { self.cache.take() }
    fn set_cache(&mut self, v: T) { self.cache = Some(v) }
}
fn words(g: &mut G, n: usize) -> Vec<u32> { let k = g.below(6); (0..n).map(|_| match k { 0 => g.pick(&[0, u32::MAX, 1 << 31, (1 << 31) - 1]), 1 => if g.chance(1, 4) { 0 } else { g.raw(0) as u32 }, _ => g.raw(0) as u32 }).collect() }
fn simplex<T: Fl>(g: &mut G, n: usize) -> Vec<T> {
    let k = g.below(7);
    let hot = g.below(n);
    let mut w: Vec<f64> = (0..n).map(|i| match k { 0 => 1.0, 1 => if i == hot { 1.0 } else { 0.0 }, 2 => if g.chance(1, 2) { 0.0 } else { g.unit() }, 3 => (1 + g.below(4)) as f64, 4 => g.log10(-12.0, 0.0), 5 => if i == hot { 1.0 } else { 1e-9 * g.unit() }, _ => g.unit() }).collect();
    let s: f64 = w.iter().sum();
    if s == 0.0 { w[hot] = 1.0; }
    let s: f64 = w.iter().sum();
    w.iter().map(|x| T::c(x / s)).collect()
}
/// Copies of every source a scheme may hand out for weights `w` over `n` picks, as (least, most).
fn bounds(scheme: ResamplingScheme, nw: f64, tol: f64) -> (f64, f64) {
    let (lo, hi) = ((nw - tol).floor(), (nw + tol).ceil());
    let most = if nw <= 0.0 { 0.0 } else { f64::INFINITY };
    match scheme { ResamplingScheme::Systematic => (lo, hi), ResamplingScheme::Stratified => (lo - 1.0, hi + 1.0), ResamplingScheme::Residual => (lo, most), _ => (0.0, most) }
}
fn resample<T: Fl + RandomScalar>(g: &mut G) -> R {
    let n = 1 + g.size(0, 40);
    let w = simplex::<T>(g, n);
    let scheme = g.pick(&SCHEMES);
    let src = Words::<T> { words: words(g, 2 * n + 2), used: 0, cache: None };
    g.note("scheme", &scheme); g.note("weights", &w); g.note("words", &src.words);
    let mut s = src.clone();
    let mut idx = vec![usize::MAX; n];
    scheme.resample_indices(&w, &mut s, &mut idx);
    ensure!(idx.iter().all(|&i| i < n), "picks {idx:?} outside the cloud");
    let tol = T::EPS * 4.0 * (n as f64 + 2.0);
    let mut cum = vec![0.0]; for x in &w { cum.push(cum.last().unwrap() + x.g()); }
    let total = cum[n];
    let per = if T::IS32 { 1 } else { 2 };
    let mut mine = src.clone();
    let at = |k: usize, u: f64| -> bool { (u >= cum[k] - tol && u <= cum[k + 1] + tol) || (k == n - 1 && u >= total - tol) };
    let mut counts = vec![0usize; n]; for &i in &idx { counts[i] += 1; }
    match scheme {
        ResamplingScheme::Systematic | ResamplingScheme::Stratified => {
            let strat = scheme == ResamplingScheme::Stratified;
            let mut u = RandomSource::<T>::next_unit(&mut mine).g();
            for (k, &i) in idx.iter().enumerate() { if strat && k > 0 { u = RandomSource::<T>::next_unit(&mut mine).g(); } let p = (k as f64 + u) / n as f64; ensure!(at(i, p), "pick {k} at {p} took source {i} covering {:?}", (cum[i], cum[i + 1])); }
            ensure!(idx.windows(2).all(|v| v[0] <= v[1]), "picks out of order: {idx:?}");
        }
        ResamplingScheme::Multinomial => for (k, &i) in idx.iter().enumerate() { let u = RandomSource::<T>::next_unit(&mut mine).g(); ensure!(at(i, u), "pick {k} at {u} took source {i} covering {:?}", (cum[i], cum[i + 1])); },
        _ => {
            let nt = n as f64; let itol = T::EPS * 4.0 * nt;
            let clear = w.iter().all(|x| { let s = nt * x.g(); (s - s.round()).abs() > itol || s == s.round() && s == 0.0 });
            if clear {
                g.label("residual layout");
                let mut k = 0;
                for (i, x) in w.iter().enumerate() { for _ in 0..(nt * x.g()).floor() as usize { ensure!(idx[k] == i, "whole share of {i} missing at slot {k}: {idx:?}"); k += 1; } }
                let rem: Vec<f64> = w.iter().map(|x| nt * x.g() - (nt * x.g()).floor()).collect();
                let rs: f64 = rem.iter().sum();
                let mut rc = vec![0.0]; for x in &rem { rc.push(rc.last().unwrap() + x / rs); }
                let rtol = T::EPS * 8.0 * (nt + 2.0) * (1.0 + nt / rs);
                for slot in k..n { let u = RandomSource::<T>::next_unit(&mut mine).g(); let i = idx[slot]; ensure!((u >= rc[i] - rtol && u <= rc[i + 1] + rtol) || (i == n - 1 && u >= rc[n] - rtol), "leftover pick {slot} at {u} took source {i} covering {:?}", (rc[i], rc[i + 1])); }
            } else { mine = s.clone(); }
        }
    }
    ensure!(s.used == mine.used, "{} words consumed, {} promised", s.used, mine.used);
    if scheme == ResamplingScheme::Systematic { ensure!(s.used == per); }
    for (i, &c) in counts.iter().enumerate() { if i + 1 == n && w[i].g() == 0.0 { continue; } let (lo, hi) = bounds(scheme, n as f64 * w[i].g(), tol * n as f64); ensure!(c as f64 >= lo && c as f64 <= hi, "source {i} with expected {} copies got {c}", n as f64 * w[i].g()); }
    let mut e: [usize; 0] = []; let mut s2 = src.clone(); scheme.resample_indices(&[], &mut s2, &mut e); let mut keep = [7usize; 3]; scheme.resample_indices(&[], &mut s2, &mut keep); ensure!(s2.used == 0 && keep == [7; 3], "empty weights must draw nothing");
    g.label(match scheme { ResamplingScheme::Systematic => "systematic", ResamplingScheme::Stratified => "stratified", ResamplingScheme::Multinomial => "multinomial", _ => "residual" });
    g.nontrivial_if(counts.iter().any(|&c| c != 1) && n > 1);
    Ok(())
}
/// Any slice lengths: the picks stay inside the weights.
fn ragged<T: Fl + RandomScalar>(g: &mut G) -> R {
    let n = 1 + g.size(0, 12);
    let m = g.size(0, 30);
    let mut w = simplex::<T>(g, n);
    if g.chance(1, 3) { let i = g.below(n); w[i] = T::c(g.hostile()); }
    let scheme = g.pick(&SCHEMES);
    g.note("scheme", &scheme); g.note("weights", &w); g.note("slots", &m);
    if scheme == ResamplingScheme::Residual && w.iter().any(|x| !x.g().is_finite()) && m == 0 { discard!(); }
    let mut s = Pcg32::<T>::new(g.raw(0));
    let mut idx = vec![0usize; m];
    scheme.resample_indices(&w, &mut s, &mut idx);
    ensure!(idx.iter().all(|&i| i < n), "picks {idx:?} outside the {n} weights");
    g.nontrivial_if(m != n);
    Ok(())
}
fn fair<T: Fl + RandomScalar>(g: &mut G) -> R {
    let n = 2 + g.below(7);
    let w = simplex::<T>(g, n);
    let scheme = g.pick(&SCHEMES);
    let mut s = Pcg32::<T>::new(g.raw(0));
    g.note("scheme", &scheme); g.note("weights", &w);
    let trials = 400;
    let mut tot = vec![0.0; n];
    let mut sq = vec![0.0; n];
    let mut idx = vec![0usize; n];
    for _ in 0..trials { scheme.resample_indices(&w, &mut s, &mut idx); let mut c = vec![0.0; n]; for &i in &idx { c[i] += 1.0; } for i in 0..n { tot[i] += c[i]; sq[i] += c[i] * c[i]; } }
    for i in 0..n {
        let want = n as f64 * w[i].g() * trials as f64;
        let var = n as f64 * w[i].g() * (1.0 - w[i].g()).max(0.0) * trials as f64;
        // Bernstein at e^-28 for n draws per trial, each trial's count within n
        let t = 28.0; let lim = (2.0 * var * t).sqrt() + t * n as f64 / 3.0 * if scheme == ResamplingScheme::Multinomial { 1.0 / n as f64 } else { 1.0 } + 1.0;
        close!(g, tot[i], want, lim, "copies of source {i} over {trials} draws");
    }
    g.nontrivial_if(w.iter().filter(|x| x.g() > 0.01).count() > 1);
    Ok(())
}

const N: usize = 2;
type Vn<T> = Vector<N, T>;
#[derive(Clone, Debug)]
struct Mv { a: [[f64; 2]; 2], b: [f64; 2], c: f64 }
impl VectorFn<2, 2> for Mv { fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] { core::array::from_fn(|i| S::from_f64(self.a[i][0]) * x[0] + S::from_f64(self.a[i][1]) * x[1] + S::from_f64(self.b[i]) + S::from_f64(self.c) * x[1 - i].sin()) } }
impl VectorFn<2, 1> for Mv { fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 1] { let y: [S; 2] = self.eval(x); [y[0]] } }
fn mv(g: &mut G) -> Mv { Mv { a: [[g.f(-1.2, 1.2), g.f(-1.0, 1.0)], [g.f(-1.0, 1.0), g.f(-1.2, 1.2)]], b: [g.f(-1.0, 1.0), g.f(-1.0, 1.0)], c: if g.bool() { 0.0 } else { g.f(-1.0, 1.0) } } }
fn spd(g: &mut G, s: f64, lc: f64) -> DM { let d = [s * g.log10(-lc, 0.0), s * g.log10(-lc, 0.0)]; let q = orth(g, 2); q.mul(&DM::from_fn(2, 2, |i, j| if i == j { d[i] } else { 0.0 })).mul(&q.t()) }
fn sym<T: Fl>(m: &DM) -> Matrix<2, 2, T> { Matrix::from_fn(|i, j| T::c(m.f(i.min(j), i.max(j)))) }
/// The standardised coordinates of `x` under the covariance `p`, lower Cholesky.
fn white<T: Fl>(p: &Matrix<2, 2, T>, x: [f64; 2]) -> [f64; 2] { let (a, b, d) = (p[(0, 0)].g(), p[(1, 0)].g(), p[(1, 1)].g()); let l = a.sqrt(); let m = b / l; let k = (d - m * m).sqrt(); let e = x[0] / l; [e, (x[1] - m * e) / k] }
/// Sums of standard normals, their squares and products stay within the Laurent-Massart bounds at e^-t.
#[derive(Default, Debug)]
struct Noise { n: f64, s: [f64; 2], q: [f64; 2], x: f64, lag: f64, prev: Option<[f64; 2]> }
impl Noise {
    fn put(&mut self, e: [f64; 2]) { self.n += 1.0; for i in 0..2 { self.s[i] += e[i]; self.q[i] += e[i] * e[i]; } self.x += e[0] * e[1]; if let Some(p) = self.prev { self.lag += p[1] * e[0]; } self.prev = Some(e); }
    fn ok(&self, eps: f64) -> Result<(), Fail> {
        let (n, t) = (self.n, 27.0); let up = 2.0 * (n * t).sqrt() + 2.0 * t; let slack = eps * n;
        for i in 0..2 { ensure!(self.s[i].abs() <= (2.0 * n * t).sqrt() + slack, "the noise on axis {i} is biased: sum {} over {n} draws", self.s[i]); ensure!(self.q[i] <= n + up + slack, "the noise on axis {i} is too strong: {} over {n} draws", self.q[i]); ensure!(self.q[i] >= n - 2.0 * (n * t).sqrt() - slack, "the noise on axis {i} is too weak: {} over {n} draws", self.q[i]); }
        ensure!(self.x.abs() <= up + slack, "the noise axes are correlated: {} over {n}", self.x); ensure!(self.lag.abs() <= up + slack, "successive draws are correlated: {} over {n}", self.lag); Ok(())
    }
}
fn cloud_of<T: Fl + RandomScalar, const M: usize, S: RandomSource<T>>(f: &ParticleFilter<N, M, T, S>) -> (Vec<Vn<T>>, Vec<T>) { (f.particles().to_vec(), f.weights().to_vec()) }
fn ess<T: Fl>(w: &[T]) -> f64 { 1.0 / w.iter().map(|x| x.g() * x.g()).sum::<f64>() }
fn same<T: Fl>(a: &(Vec<Vn<T>>, Vec<T>), b: &(Vec<Vn<T>>, Vec<T>)) -> bool { let k = |x: &T| x.g().to_bits(); a.0.len() == b.0.len() && a.0.iter().zip(&b.0).all(|(x, y)| (0..N).all(|i| k(&x[i]) == k(&y[i]))) && a.1.iter().map(k).eq(b.1.iter().map(k)) }
fn valid<T: Fl + RandomScalar, S: RandomSource<T>>(g: &mut G, f: &ParticleFilter<N, 1, T, S>) -> R {
    let (p, w) = cloud_of(f);
    let n = p.len(); let sum: f64 = w.iter().map(|x| x.g()).sum();
    ensure!(w.iter().all(|x| x.g() >= 0.0 && x.g() <= 1.0 + T::EPS), "weight outside [0, 1]"); close!(g, sum, 1.0, T::EPS * 2.0 * (n as f64 + 2.0), "total weight");
    let e = f.effective_sample_size().g(); let we = ess(&w); close!(g, e, we, T::EPS * we * 2.0 * (n as f64 + 4.0), "effective sample size"); ensure!(e >= 1.0 - T::EPS * 8.0 * (n as f64 + 2.0) && e <= n as f64 * (1.0 + T::EPS * 8.0 * (n as f64 + 2.0)));
    let m = f.mean(); for i in 0..N { let want: f64 = p.iter().zip(&w).map(|(x, y)| x[i].g() * y.g()).sum(); let size: f64 = p.iter().zip(&w).map(|(x, y)| (x[i].g() * y.g()).abs()).sum(); close!(g, m[i].g(), want, T::EPS * 2.0 * size * (n as f64 + 2.0) + 1e-37, "mean on axis {i}"); }
    let best = f.maximum_a_posteriori_state(); let top = w.iter().map(|x| x.g()).fold(0.0, f64::max); ensure!(p.iter().zip(&w).any(|(x, y)| *x == best && y.g() == top), "the most likely state {best:?} does not carry the largest weight {top}");
    Ok(())
}
/// The cloud after a resample of `before` under `scheme` with no roughening.
fn fresh<T: Fl>(scheme: ResamplingScheme, before: &(Vec<Vn<T>>, Vec<T>), wt: &[f64], after: &(Vec<Vn<T>>, Vec<T>)) -> R {
    let n = before.0.len();
    let u = T::ONE / T::from_usize(n);
    ensure!(after.1.iter().all(|x| (x.g() - u.g()).abs() <= u.g() * T::EPS * 2.0), "a resampled cloud must be equally weighted");
    let key = |v: &Vn<T>| (0..N).map(|i| v[i].g().to_bits()).collect::<Vec<_>>();
    let mut groups: std::collections::BTreeMap<Vec<u64>, (f64, f64, f64)> = Default::default();
    let tol = T::EPS * 16.0 * (n as f64 + 2.0) * n as f64 + 1e-9;
    for (p, w) in before.0.iter().zip(wt) { let (lo, hi) = bounds(scheme, n as f64 * w, tol.min(0.49)); let e = groups.entry(key(p)).or_insert((0.0, 0.0, 0.0)); e.0 += lo.max(0.0); e.1 += if *w <= 0.0 { 1.0 } else { hi }; }
    for p in &after.0 { match groups.get_mut(&key(p)) { Some(e) => e.2 += 1.0, None => bad!("{p:?} was never in the cloud") } }
    for (lo, hi, c) in groups.values() { ensure!(c >= lo && c <= hi, "a particle that may have between {lo} and {hi} copies got {c}"); }
    Ok(())
}
fn recover<T: Fl>(w: T) -> f64 { if w.g() == 0.0 { if T::IS32 { (f32::MIN_POSITIVE as f64).ln() } else { f64::MIN_POSITIVE.ln() } } else { w.g().ln() } }
/// Normalised weights for prior weights and scores, or None if the update must be refused; and their relative error bound.
fn reweigh<T: Fl>(w: &[T], score: &[f64]) -> Option<(Vec<f64>, f64)> {
    let lw: Vec<f64> = w.iter().zip(score).map(|(x, s)| recover(*x) + s).collect();
    if lw.iter().any(|x| x.is_nan() || *x == f64::INFINITY) { return None; }
    let top = lw.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    if !top.is_finite() { return None; }
    let e: Vec<f64> = lw.iter().map(|x| (x - top).exp()).collect();
    let s: f64 = e.iter().sum();
    let live = lw.iter().filter(|x| **x - top > -110.0).fold(0.0, |m: f64, x| m.max(x.abs()));
    let smax = score.iter().filter(|x| x.is_finite()).fold(0.0, |m: f64, x| m.max(x.abs())).min(live + 900.0);
    Some((e.iter().map(|x| x / s).collect(), T::EPS * 8.0 * (live + smax + w.len() as f64 + 10.0)))
}
fn history<T: Fl + RandomScalar>(g: &mut G) -> R {
    let n = 1 + g.size(0, 40);
    let p0 = sym::<T>(&spd(g, 2.0, 2.0)); let mut q = sym::<T>(&spd(g, 0.5, 2.0)); let x0 = vgen::<N, T>(g, -2.0, 2.0);
    let seed = g.raw(0);
    let mut f = match ParticleFilter::<N, 1, T>::new(n, x0, p0, q, seed) { Ok(f) => f, Err(e) => bad!("valid filter refused: {e:?}") };
    let mut scheme = ResamplingScheme::Systematic; let mut threshold = n as f64 / 2.0;
    if g.bool() { scheme = g.pick(&SCHEMES); f = f.with_resampling(scheme); }
    if g.bool() { threshold = rnd::<T>(g.pick(&[0.0, 1.0, 0.25 * n as f64, 0.8 * n as f64, n as f64 + 1.0])); f = f.with_resample_threshold(T::c(threshold)); }
    let mut twin = ParticleFilter::<N, 1, T, Pcg32<T>>::from_random(n, x0, p0, q, Pcg32::new(seed)).unwrap().with_resampling(scheme).with_resample_threshold(T::c(threshold));
    ensure!(f.particles().len() == n && f.weights().len() == n); ensure!(ess(f.weights()) > n as f64 * (1.0 - 1e-4), "a new cloud is equally weighted");
    g.note("count", &n); g.note("scheme", &scheme); g.note("threshold", &threshold);
    let mut noise = Noise::default(); let mut start = Noise::default();
    for p in f.particles() { start.put(white(&p0, core::array::from_fn(|i| p[i].g() - x0[i].g()))); }
    start.ok(T::EPS * 1e4)?;
    let steps = 1 + g.size(0, 12); let mut resampled = 0;
    for step in 0..steps {
        let before = cloud_of(&f);
        match g.below(10) {
            0..=2 => {
                let m = mv(g); g.note(&format!("{step} predict"), &m); let r = f.predict(&m); ensure!(r.is_ok(), "prediction refused: {r:?}"); ensure!(twin.predict(&m).is_ok()); let after = cloud_of(&f);
                ensure!(after.1 == before.1, "a prediction must not touch the weights");
                for (a, b) in before.0.iter().zip(&after.0) { let y: [f64; 2] = m.eval(&[a[0].g(), a[1].g()]); let d = core::array::from_fn(|i| b[i].g() - y[i]); let size = 1.0 + (0..2).map(|i| b[i].g().abs() + a[i].g().abs()).sum::<f64>(); let amp = q[(0, 0)].g().min(q[(1, 1)].g()).sqrt().min(1.0); let e = white(&q, d); if T::EPS * size < 1e-6 * amp { noise.put(e); } ensure!(e[0].abs() < 9.0 && e[1].abs() < 9.0, "a particle moved {e:?} standard deviations away from the model"); }
                if !T::IS32 { noise.ok(1e-6)?; }
            }
            3 => { let nq = sym::<T>(&spd(g, 0.5, 2.0)); let bad = g.chance(1, 3); if bad { let mut x = nq; let i = g.below(2); x[(i, i)] = T::c(g.pick(&[-1.0, 0.0, f64::NAN])); ensure!(f.set_process_noise(x) == Err(EE::NotPositiveDefinite) && twin.set_process_noise(x) == Err(EE::NotPositiveDefinite)); g.label("bad noise"); } else { q = nq; ensure!(f.set_process_noise(nq).is_ok() && twin.set_process_noise(nq).is_ok()); } ensure!(same(&before, &cloud_of(&f))); }
            4 => { f.resample(); twin.resample(); let wt: Vec<f64> = before.1.iter().map(|x| x.g()).collect(); fresh(scheme, &before, &wt, &cloud_of(&f))?; resampled += 1; g.label("asked to resample"); }
            k => {
                let gauss = k >= 8;
                let (score, result): (Vec<f64>, _) = if gauss {
                    let m = mv(g); let r = T::c(g.log10(-4.0, 2.0)); let mut z = T::c(g.f(-3.0, 3.0)); if g.chance(1, 8) { z = T::c(g.pick(&[f64::NAN, f64::INFINITY])); }
                    g.note(&format!("{step} update"), &(&m, r, z)); let l = GaussianLikelihood::<1, T>::new(Matrix::new([[r]])).unwrap(); g.label("gaussian");
                    let sc = before.0.iter().map(|p| { let y: [T; 1] = m.eval(p.as_array()); let d = (z - y[0]).g(); -0.5 * d * d / r.g() }).collect();
                    let res = f.update(&m, &l, Vector::new([z])); ensure!(twin.update(&m, &l, Vector::new([z])) == res);
                    if !z.g().is_finite() { ensure!(res == Err(EE::NonFinite), "a measurement {z:?} gave {res:?}"); ensure!(same(&before, &cloud_of(&f)), "a refused update changed the cloud"); continue; }
                    (sc, res)
                } else {
                    let c = [g.f(-2.0, 2.0), g.f(-2.0, 2.0)]; let s = if g.chance(1, 5) { g.log10(2.0, 5.0) } else { g.log10(-3.0, 1.5) }; let off = if g.chance(1, 4) { g.f(-1e3, 1e3) } else { 0.0 };
                    let odd = g.below(8); let hit = g.below(n); let val = match odd { 0 => f64::NAN, 1 => f64::INFINITY, 2 | 3 => f64::NEG_INFINITY, _ => 0.0 }; let all = g.chance(1, 3);
                    let sc: Vec<T> = before.0.iter().enumerate().map(|(i, p)| if odd < 4 && (i == hit || all) { T::c(val) } else { let d = (p[0].g() - c[0]).powi(2) + (p[1].g() - c[1]).powi(2); T::c(off - s * d) }).collect();
                    if odd < 4 { g.label(match odd { 0 => "nan score", 1 => "infinite score", _ => "impossible particle" }); }
                    g.note(&format!("{step} scores"), &sc);
                    let mut k = 0; let mut seen = vec![]; let res = f.update_with_log_weights(|p| { seen.push(*p); k += 1; sc[k - 1] }); k = 0; ensure!(twin.update_with_log_weights(|_| { k += 1; sc[k - 1] }) == res); ensure!(seen == before.0, "every particle is scored once, in order");
                    (sc.iter().map(|x| x.g()).collect(), res)
                };
                let after = cloud_of(&f);
                match reweigh(&before.1, &score) {
                    None => { ensure!(result == Err(EE::WeightsDegenerate), "scores {score:?} gave {result:?}"); ensure!(same(&before, &after), "a refused update changed the cloud"); g.label("refused"); }
                    Some((wt, mut rel)) => {
                        ensure!(result.is_ok(), "usable scores refused: {result:?}");
                        if gauss { let worst = before.0.iter().zip(&score).zip(&wt).filter(|(_, w)| **w > 1e-40).fold(0.0f64, |a, ((p, s), _)| a.max(s.abs() + (s.abs() * 1e4).sqrt() * (1.0 + p[0].g().abs() + p[1].g().abs()))); rel += T::EPS * 30.0 * worst * 10.0; }
                        if rel > 0.3 { f = twin.clone(); continue; }
                        let e = 1.0 / wt.iter().map(|x| x * x).sum::<f64>(); let slack = e * 4.0 * rel + T::EPS * 8.0 * n as f64;
                        let did = if e < threshold - slack { true } else if e > threshold + slack { false } else { after.0 != before.0 || after.1.iter().all(|x| (x.g() * n as f64 - 1.0).abs() < T::EPS * 4.0) };
                        if did { fresh(scheme, &before, &wt.iter().map(|x| *x).collect::<Vec<_>>(), &after).map_err(|x| if rel * n as f64 > 1e-3 { Fail::Discard } else { x })?; resampled += 1; g.label("degenerate cloud"); }
                        else { ensure!(after.0 == before.0, "reweighting moved particles (effective size {e}, threshold {threshold})"); for i in 0..n { close!(g, after.1[i].g(), wt[i], rel * wt[i] + if T::IS32 { 1e-37 } else { 1e-300 }, "weight of particle {i}"); } g.label("reweighted"); }
                    }
                }
            }
        }
        valid(g, &f)?;
        ensure!(same(&cloud_of(&f), &cloud_of(&twin)), "two filters with one seed and one history parted at step {step}");
    }
    g.nontrivial_if(resampled > 0 && n > 2);
    Ok(())
}
/// Roughening adds zero-mean noise scaled by each axis' spread, and nothing along an axis with none.
fn roughening<T: Fl + RandomScalar>(g: &mut G) -> R {
    let n = 20 + g.size(0, 200); let p0 = sym::<T>(&spd(g, 2.0, 1.0)); let scheme = g.pick(&SCHEMES);
    let base = ParticleFilter::<N, 1, T>::new(n, vgen::<N, T>(g, -2.0, 2.0), p0, Matrix::identity(), g.raw(0)).unwrap().with_resampling(scheme).with_resample_threshold(T::ZERO);
    let k = T::c(g.pick(&[0.0, 0.01, 0.2, 1.0, -1.0])); let mut a = base.clone(); let mut b = base.with_roughening(k); let c = g.f(-2.0, 2.0); let s = g.log10(-2.0, 1.0);
    for f in [&mut a, &mut b] { ensure!(f.update_with_log_weights(|p| T::c(-s * (p[0].g() - c).powi(2))).is_ok()); }
    g.note("count", &n); g.note("scale", &k); g.note("scheme", &scheme);
    a.resample(); b.resample(); let (pa, pb) = (cloud_of(&a), cloud_of(&b)); ensure!(pa.1 == pb.1);
    if k <= T::ZERO { ensure!(same(&pa, &pb), "roughening {k:?} must do nothing"); return Ok(()); }
    // the draws happen axis by axis in the resampled cloud, whatever the order the spread is the one before roughening
    let mut noise = Noise::default(); let mut sd = [0.0; 2];
    for i in 0..2 { let v: Vec<f64> = pa.0.iter().map(|p| p[i].g()).collect(); sd[i] = k.g() * (v.iter().cloned().fold(f64::MIN, f64::max) - v.iter().cloned().fold(f64::MAX, f64::min)); }
    if sd.iter().any(|x| *x < 1e-4) { ensure!((0..2).all(|i| sd[i] > 0.0 || pa.0.iter().zip(&pb.0).all(|(x, y)| x[i] == y[i])), "noise along an axis with no spread"); return Ok(()); }
    for (x, y) in pa.0.iter().zip(&pb.0) { noise.put(core::array::from_fn(|i| (y[i].g() - x[i].g()) / sd[i])); }
    noise.ok(if T::IS32 { 1e-2 } else { 1e-9 })?; g.nontrivial(); Ok(())
}
fn building<T: Fl + RandomScalar>(g: &mut G) -> R {
    let good = sym::<T>(&spd(g, 1.0, 1.0)); let mut bad = good; let i = g.below(2); bad[(i, i)] = T::c(g.pick(&[-1.0, 0.0, f64::NAN])); let k = g.below(5); let n = if k == 3 { 0 } else { 1 + g.below(5) };
    let (p, q) = match k { 0 => (bad, good), 1 => (good, bad), 2 => (bad, bad), _ => (good, good) }; g.note("count", &n); g.note("P", &p); g.note("Q", &q);
    let r = ParticleFilter::<N, 1, T>::new(n, Vector::zeros(), p, q, 1); match k { 3 => ensure!(r.as_ref().err() == Some(&EE::WeightsDegenerate)), 0..=2 => ensure!(r.as_ref().err() == Some(&EE::NotPositiveDefinite), "{:?}", r.as_ref().err()), _ => ensure!(r.is_ok()) }
    let l = GaussianLikelihood::<2, T>::new(if g.bool() { good } else { bad }); let _ = l; ensure!(GaussianLikelihood::<2, T>::new(bad).err() == Some(EE::NotPositiveDefinite)); let l = match GaussianLikelihood::<2, T>::new(good) { Ok(l) => l, Err(e) => bad!("{e:?}") };
    let (a, b) = (vgen::<2, T>(g, -3.0, 3.0), vgen::<2, T>(g, -3.0, 3.0)); let inv = match dm(&good).inv() { Some(i) => i, None => discard!() }; let d = DM::from_fn(2, 1, |i, _| b[i].g() - a[i].g()); let want = -0.5 * d.t().mul(&inv).mul(&d).f(0, 0); close!(g, l.log_weight(a.as_array(), b.as_array()).g(), want, T::EPS * 400.0 * (1.0 + want.abs()), "gaussian log weight"); ensure!(l.log_weight(a.as_array(), a.as_array()) == T::ZERO || l.log_weight(a.as_array(), a.as_array()) == -T::ZERO);
    if k == 4 { let mut f = r.unwrap(); let nan = Mv { a: [[0.0; 2]; 2], b: [f64::NAN, 0.0], c: 0.0 }; ensure!(f.predict(&nan) == Err(EE::NonFinite), "a model returning NaN must be reported"); } g.nontrivial_if(k != 4); Ok(())
}
/// An affine model between any two dimensions, with a smooth bend on each output.
struct Aff { a: Vec<Vec<f64>>, b: Vec<f64>, c: f64 }
impl Aff { fn new(g: &mut G, n: usize, m: usize, c: f64) -> Self { Aff { a: (0..m).map(|_| g.vec(n, -1.0, 1.0)).collect(), b: g.vec(m, -1.0, 1.0), c } } fn at(&self, x: &[f64]) -> Vec<f64> { self.a.iter().zip(&self.b).enumerate().map(|(i, (r, b))| r.iter().zip(x).map(|(p, q)| p * q).sum::<f64>() + b + self.c * x[i % x.len()] * x[(i + 1) % x.len()]).collect() } }
impl<const D: usize, const M: usize> VectorFn<D, M> for Aff { fn eval<S: Numeric>(&self, x: &[S; D]) -> [S; M] { core::array::from_fn(|i| { let mut t = S::from_f64(self.b[i]) + S::from_f64(self.c) * x[i % D] * x[(i + 1) % D]; for j in 0..D { t += S::from_f64(self.a[i][j]) * x[j]; } t }) } }
/// The lower Cholesky factor's standardised coordinates, any dimension.
fn whiten(p: &DM, x: &[f64]) -> Vec<f64> { let n = x.len(); let mut l = vec![vec![0.0; n]; n]; let mut e = vec![0.0; n]; for i in 0..n { for j in 0..=i { let s: f64 = p.f(i, j) - (0..j).map(|k| l[i][k] * l[j][k]).sum::<f64>(); l[i][j] = if i == j { s.sqrt() } else { s / l[j][j] }; } e[i] = (x[i] - (0..i).map(|k| l[i][k] * e[k]).sum::<f64>()) / l[i][i]; } e }
/// Filters of any dimension: the starting spread and the process noise are standard normal draws through the stated
/// covariances, independent across axes and particles, and the weights are the measurement's own likelihoods.
fn wide<const D: usize, const M: usize, T: Fl + RandomScalar>(g: &mut G) -> R {
    let n = 150 + g.size(0, 250); let eigs = |g: &mut G, k: usize| -> Vec<f64> { (0..k).map(|_| g.log10(-1.0, 0.6)).collect() }; let (pe, qe, re) = (eigs(g, D), eigs(g, D), eigs(g, M)); let sy = |m: DM| { let k = m.r; DM::from_fn(k, k, |i, j| rnd::<T>(m.f(i.min(j), i.max(j)))) }; let (p0, q, rn) = (sy(with_eigs(g, &pe)), sy(with_eigs(g, &qe)), sy(with_eigs(g, &re).scale(10.0))); let q0 = if g.bool() { q.clone() } else { sy(with_eigs(g, &pe)) };
    let bend = g.f(-0.3, 0.3); let (fm, hm) = (Aff::new(g, D, D, bend), Aff::new(g, D, M, bend)); let x0 = vgen::<D, T>(g, -2.0, 2.0); g.note("count", &n); g.note("P", &p0.d); g.note("Q", &q.d); g.note("R", &rn.d);
    let mut f = match ParticleFilter::<D, M, T>::new(n, x0, lib(&p0), lib(&q0), g.raw(0)) { Ok(f) => f.with_resample_threshold(T::ZERO), Err(e) => bad!("{e:?}") }; ensure!(f.set_process_noise(lib(&q)).is_ok());
    let gv = |v: &Vector<D, T>| -> Vec<f64> { (0..D).map(|i| v[i].g()).collect() }; let judge = |what: &str, e: &[Vec<f64>], eps: f64| -> R { let (n, t) = (e.len() as f64, 30.0); let up = 2.0 * (n * t).sqrt() + 2.0 * t; for i in 0..D { let s: f64 = e.iter().map(|x| x[i]).sum(); let v: f64 = e.iter().map(|x| x[i] * x[i]).sum(); ensure!(s.abs() <= (2.0 * n * t).sqrt() + eps * n && v <= n + up + eps * n && v >= n - 2.0 * (n * t).sqrt() - eps * n, "{what} on axis {i}: sum {s}, squares {v} over {n}"); for j in 0..i { let x: f64 = e.iter().map(|x| x[i] * x[j]).sum(); ensure!(x.abs() <= up + eps * n, "{what} on axes {i} and {j} are correlated: {x} over {n}"); } } Ok(()) };
    let eps = if T::IS32 { 1e-3 } else { 1e-8 }; let start: Vec<Vec<f64>> = f.particles().iter().map(|v| whiten(&p0, &gv(&(*v - x0)))).collect(); judge("the starting spread", &start, eps)?;
    let before: Vec<Vec<f64>> = f.particles().iter().map(gv).collect(); ensure!(f.predict(&fm).is_ok()); let noise: Vec<Vec<f64>> = f.particles().iter().zip(&before).map(|(v, b)| { let w = fm.at(b); whiten(&q, &gv(v).iter().zip(&w).map(|(x, y)| x - y).collect::<Vec<_>>()) }).collect(); judge("the process noise", &noise, eps)?;
    for i in 0..D { for j in 0..D { let x: f64 = noise.iter().zip(&start).map(|(a, b)| a[i] * b[j]).sum(); let k = n as f64; ensure!(x.abs() <= 2.0 * (k * 30.0).sqrt() + 60.0 + eps * k, "the process noise on axis {i} follows the starting spread on axis {j}: {x}"); } }
    let pick = g.below(n); let mut z = hm.at(&gv(&f.particles()[pick])); for v in z.iter_mut() { *v = rnd::<T>(*v + g.bell()); } let old: Vec<Vec<f64>> = f.particles().iter().map(gv).collect(); ensure!(f.update(&hm, &GaussianLikelihood::<M, T>::new(lib(&rn)).unwrap(), Vector::from_fn(|i| T::c(z[i]))).is_ok()); ensure!(f.particles().iter().map(gv).eq(old.iter().cloned()), "an update moved the particles");
    let inv = match rn.inv() { Some(i) => i, None => discard!() }; let sc: Vec<f64> = old.iter().map(|p| { let h = hm.at(p); let d = DM::from_fn(M, 1, |i, _| z[i] - h[i]); -0.5 * d.t().mul(&inv).mul(&d).f(0, 0) }).collect(); let best = sc.iter().cloned().fold(f64::MIN, f64::max); let raw: Vec<f64> = sc.iter().map(|s| (s - best).exp()).collect(); let sum: f64 = raw.iter().sum(); let size = sc.iter().fold(1.0f64, |a, s| a.max(s.abs()));
    for (i, (w, r)) in f.weights().iter().zip(&raw).enumerate() { close!(g, w.g(), r / sum, T::EPS * 200.0 * size * (r / sum) + T::EPS * 2.0, "weight of particle {i}"); }
    let mean = f.mean(); for k in 0..D { let m: f64 = old.iter().zip(f.weights()).map(|(p, w)| p[k] * w.g()).sum(); let s = old.iter().fold(0.0f64, |a, p| a.max(p[k].abs())); close!(g, mean[k].g(), m, T::EPS * 8.0 * n as f64 * s, "mean on axis {k}"); } let top = (0..n).fold(0, |a, i| if f.weights()[i] > f.weights()[a] { i } else { a }); ensure!(f.weights()[(0..n).find(|&i| f.particles()[i] == f.maximum_a_posteriori_state()).unwrap_or(n - 1)] == f.weights()[top], "the most likely particle");
    f.resample(); for v in f.particles() { let v = gv(v); ensure!(old.contains(&v), "a resampled particle came from nowhere"); } ensure!(f.weights().iter().all(|w| (w.g() * n as f64 - 1.0).abs() <= T::EPS * 8.0), "weights after resampling"); g.nontrivial(); Ok(())
}
/// A linear-Gaussian step approaches the Kalman posterior as importance sampling says it must.
fn posterior(g: &mut G) -> R {
    let n = 3000; let p0 = spd(g, 1.0, 1.0); let q = spd(g, 0.5, 1.0); let mut m = mv(g); m.c = 0.0; let mut h = mv(g); h.c = 0.0; let r = g.log10(-0.5, 1.0); let x0 = vgen::<N, f64>(g, -1.0, 1.0);
    let mut f = ParticleFilter::<N, 1>::new(n, x0, sym(&p0), sym(&q), g.raw(0)).unwrap().with_resample_threshold(0.0); f.predict(&m).unwrap();
    let a = DM::from_fn(2, 2, |i, j| m.a[i][j]); let xp = a.mul(&dv(&x0)).add(&DM::from_fn(2, 1, |i, _| m.b[i])); let pp = a.mul(&p0).mul(&a.t()).add(&q); let hm = DM::from_fn(1, 2, |_, j| h.a[0][j]); let s = hm.mul(&pp).mul(&hm.t()).f(0, 0) + r;
    let z = hm.mul(&xp).f(0, 0) + h.b[0] + g.bell() * s.sqrt(); f.update(&h, &GaussianLikelihood::new(Matrix::new([[r]])).unwrap(), Vector::new([z])).unwrap(); let e = f.effective_sample_size(); if e < 200.0 { discard!() }
    let k = pp.mul(&hm.t()).scale(1.0 / s); let x = xp.add(&k.scale(z - hm.mul(&xp).f(0, 0) - h.b[0])); let p = pp.sub(&k.mul(&hm).mul(&pp)); let mean = f.mean(); for i in 0..2 { close!(g, mean[i], x.f(i, 0), 8.0 * (p.f(i, i).max(0.0) / e).sqrt() + 6.0 / e, "posterior mean on axis {i}"); let v: f64 = f.particles().iter().zip(f.weights()).map(|(y, w)| w * (y[i] - mean[i]).powi(2)).sum(); close!(g, v, p.f(i, i), p.f(i, i) * (12.0 / e.sqrt() + 20.0 / e), "posterior variance on axis {i}"); } g.nontrivial(); Ok(())
}

/// A circular room whose rays are known in closed form.
struct Round<T> { radius: T }
impl<T: Fl + Primal> OccupancyMap<T> for Round<T> {
    fn columns(&self) -> usize { 1 } fn rows(&self) -> usize { 1 } fn resolution(&self) -> T { T::ONE } fn origin(&self) -> [T; 2] { [T::ZERO; 2] } fn is_occupied(&self, _: usize, _: usize) -> bool { false }
    fn cast_ray(&self, p: [T; 2], b: T, max: T) -> Option<T> { let (x, y, r, b) = (p[0].g(), p[1].g(), self.radius.g(), b.g()); let d = x * b.cos() + y * b.sin(); let c = x * x + y * y - r * r; let q = d * d - c; if q < 0.0 || c > 0.0 { return None; } let t = -d + q.sqrt(); if t > max.g() { None } else { Some(T::c(t)) } }
}
const B: usize = 5;
fn localizer<T: Fl + RandomScalar + Primal>(g: &mut G) -> R {
    let n = 1 + g.size(0, 60); let grid = g.bool();
    let hint = [2.0 + g.f(-0.5, 0.5), 2.0 + g.f(-0.5, 0.5), g.f(-3.1, 3.1)].map(T::c); let hint = if grid { hint } else { [hint[0] - T::TWO, hint[1] - T::TWO, hint[2]] };
    let cloud = InitialParticleCloud { particle_count: n, position_variance: T::c(g.log10(-3.0, -0.5)), heading_variance: T::c(g.log10(-3.0, 0.6)) };
    let model = if g.chance(1, 3) { BeamModel::default() } else { BeamModel { range_deviation: T::c(if g.chance(1, 10) { 0.0 } else { g.log10(-1.5, 1.0) }), agreement_reward: T::c(g.f(-1.0, 1.0)), mismatch_penalty: T::c(if g.chance(1, 10) { f64::NEG_INFINITY } else { -g.f(0.0, 8.0) }) } };
    let geo = ScanGeometry::<B, T>::try_new(T::c(g.f(0.3, 6.28)), T::c(g.f(0.8, 4.0))).unwrap(); let geo = if g.bool() { geo.with_minimum_range(T::c(g.f(0.0, 0.5))).unwrap() } else { geo };
    let mut room = DynamicOccupancyGrid::<T>::try_new(20, 20, T::c(0.2), [T::ZERO; 2]).unwrap(); let w = [[0.3, 0.3], [3.7, 0.3], [3.7, 3.7], [0.3, 3.7]].map(|p| p.map(T::c)); room.occupy_polyline(&w[..2 + g.below(3)], true); for _ in 0..g.below(4) { room.occupy_point([T::c(g.f(0.0, 4.0)), T::c(g.f(0.0, 4.0))]); }
    let ring = Round { radius: T::c(g.f(1.0, 4.0)) };
    let mut f = match MonteCarloLocalizer::<B, T>::new(hint, cloud, model, g.raw(0)) { Ok(f) => f, Err(e) => bad!("valid localizer refused: {e:?}") };
    ensure!(f.particle_count() == n && f.particles().len() == n);
    g.note("hint", &hint); g.note("cloud", &cloud); g.note("beams", &model); g.note("geometry", &geo);
    let sd = [cloud.position_variance, cloud.position_variance, cloud.heading_variance].map(|v| v.g().sqrt());
    let mut start = Noise::default(); for p in f.particles() { let e: [f64; 3] = core::array::from_fn(|i| (p[i].g() - hint[i].g()) / sd[i]); start.put([e[0], e[1]]); start.put([e[2], e[0]]); ensure!(e.iter().all(|x| x.abs() < 9.0)); } let _ = start;
    let mut w: Vec<f64> = vec![1.0 / n as f64; n]; let mut var = [1e-4; 3]; let mut scanned = false; let mut rel = 0.0f64; let mut noise = Noise::default();
    for step in 0..1 + g.size(0, 8) {
        let before = f.particles().to_vec(); let twin = f.clone(); let _ = twin;
        match g.below(5) {
            0 => { let v = [g.log10(-6.0, -1.0), g.log10(-6.0, -1.0), g.log10(-6.0, -1.0)]; let bad = g.chance(1, 4); let mut tv = v.map(T::c); if bad { tv[g.below(3)] = T::c(g.pick(&[0.0, -1.0, f64::NAN])); } let r = f.set_motion_noise(tv); ensure!(r.is_ok() != bad, "{r:?}"); if !bad { var = tv.map(|x| x.g()); } else { ensure!(r == Err(EE::NotPositiveDefinite)); } ensure!(f.particles() == &before[..]); }
            1 => {
                let (s, t) = (T::c(g.f(-1.0, 1.0)), T::c(g.f(-4.0, 4.0))); g.note(&format!("{step} move"), &(s, t)); ensure!(f.predict(s, t).is_ok());
                for (a, b) in before.iter().zip(f.particles()) { let th = a[2].g(); let y = [a[0].g() + s.g() * th.cos(), a[1].g() + s.g() * th.sin(), th + t.g()]; let e: [f64; 3] = core::array::from_fn(|i| { let mut d = b[i].g() - y[i]; if i == 2 { d = d.sin().atan2(d.cos()); } d / var[i].sqrt() }); for i in 0..3 { ensure!(e[i].abs() < 9.0 + T::EPS * 30.0 * (4.0 + y[i].abs()) / var[i].sqrt(), "a guess moved {e:?} standard deviations away from the motion"); } ensure!(b[2].g().abs() <= std::f64::consts::PI + 9.0 * var[2].sqrt(), "the heading {:?} is not wrapped before the noise", b[2]); if !T::IS32 { noise.put([e[0], e[1]]); noise.put([e[2], e[0]]); } }
                if !T::IS32 { let n2 = noise.n / 2.0; let t = 27.0; ensure!((noise.q[0] - noise.n).abs() <= 4.0 * (n2 * t).sqrt() + 4.0 * t && noise.s[0].abs() <= 2.0 * (noise.n * t).sqrt(), "motion noise off: {noise:?}"); }
            }
            _ => {
                scanned = true; let truth = before[g.below(n)]; let off = |i: usize| geo.beam_angle(i).unwrap(); let cast = |p: &Vector<3, T>, i: usize| if grid { room.cast_ray([p[0], p[1]], p[2] + off(i), geo.maximum_range()) } else { ring.cast_ray([p[0], p[1]], p[2] + off(i), geo.maximum_range()) };
                let scan: [T; B] = core::array::from_fn(|i| { let c = cast(&truth, i); match g.below(6) { 0 => T::c(g.pick(&[f64::NAN, f64::INFINITY, -1.0, 1e9, 0.0])), 1 => T::c(g.f(0.0, 4.5)), _ => c.map(|x| x + T::c(0.05 * g.bell())).unwrap_or(T::INFINITY) } }); g.note(&format!("{step} scan"), &scan);
                let score: Vec<f64> = before.iter().map(|p| (0..B).map(|i| { let m = scan[i]; let ok = m.g().is_finite() && m >= geo.minimum_range() && m <= geo.maximum_range(); match (cast(p, i), ok) { (Some(r), true) => { let e = (r.g() - m.g()) / model.range_deviation.g(); -0.5 * e * e } (None, false) => model.agreement_reward.g(), _ => model.mismatch_penalty.g() } }).sum()).collect();
                let res = if grid { f.update(&scan, &room, &geo) } else { f.update(&scan, &ring, &geo) };
                let wt: Vec<T> = w.iter().map(|x| T::c(*x)).collect();
                match reweigh(&wt, &score) {
                    None => { ensure!(res == Err(EE::WeightsDegenerate), "an unexplainable scan gave {res:?}"); ensure!(f.particles() == &before[..]); g.label("refused"); }
                    Some((nw, r)) => {
                        ensure!(res.is_ok(), "a usable scan was refused: {res:?}");
                        let top = score.iter().cloned().fold(f64::NEG_INFINITY, f64::max); rel += r + T::EPS * 60.0 * score.iter().filter(|x| top - **x < 120.0).fold(1.0f64, |a, x| a.max(x.abs() + (x.abs() * 2.0).sqrt() * 8.0 / model.range_deviation.g().abs().max(1e-3))); if rel > 0.02 { discard!() }
                        let e = 1.0 / nw.iter().map(|x| x * x).sum::<f64>(); let th = n as f64 / 2.0; let slack = 4.0 * rel * e + T::EPS * 8.0 * n as f64; let did = if e < th - slack { true } else if e > th + slack { false } else { discard!() };
                        if did { g.label("resampled"); for p in f.particles() { let exp: f64 = before.iter().zip(&nw).filter(|(b, _)| *b == p).map(|(_, w)| n as f64 * w).sum(); ensure!(before.contains(p), "a guess that was never in the cloud"); let c = f.particles().iter().filter(|b| *b == p).count(); let k = before.iter().filter(|b| *b == p).count(); let tol = 0.01 + n as f64 * rel; ensure!((c as f64) < exp + k as f64 + tol, "{c} copies of a guess worth {exp}"); } for (b, x) in before.iter().zip(&nw) { let c = f.particles().iter().filter(|p| *p == b).count(); ensure!(c as f64 >= (n as f64 * x * (1.0 - rel) - 0.01).floor(), "{c} copies of a guess worth {}", n as f64 * x); } w = vec![1.0 / n as f64; n]; rel = 0.0; }
                        else { ensure!(f.particles() == &before[..], "reweighting moved the guesses"); w = nw; }
                    }
                }
            }
        }
        let (pose, sp) = f.estimate(); let p = f.particles(); let sum = |h: &dyn Fn(&Vector<3, T>) -> f64| p.iter().zip(&w).map(|(x, y)| h(x) * y).sum::<f64>(); let (mx, my) = (sum(&|x| x[0].g()), sum(&|x| x[1].g())); let (s, c) = (sum(&|x| x[2].g().sin()), sum(&|x| x[2].g().cos())); let res = s.hypot(c); let size = p.iter().fold(1.0f64, |a, x| a.max(x[0].g().abs()).max(x[1].g().abs())); let tol = (T::EPS * 4.0 * (n as f64 + 10.0) + 4.0 * rel) * size;
        close!(g, pose[0].g(), mx, tol, "mean x"); close!(g, pose[1].g(), my, tol, "mean y"); if res > 1e-3 { let d = pose[2].g() - s.atan2(c); close!(g, d.sin().atan2(d.cos()), 0.0, (tol + T::EPS * 20.0) / res, "mean heading"); }
        let t2 = tol * size * 4.0; close!(g, sp[(0, 0)].g(), sum(&|x| (x[0].g() - mx).powi(2)), t2, "spread of x"); close!(g, sp[(1, 1)].g(), sum(&|x| (x[1].g() - my).powi(2)), t2, "spread of y"); close!(g, sp[(0, 1)].g(), sum(&|x| (x[0].g() - mx) * (x[1].g() - my)), t2, "cross spread"); ensure!(sp[(0, 1)] == sp[(1, 0)] && [(0, 2), (2, 0), (1, 2), (2, 1)].iter().all(|i| sp[*i] == T::ZERO)); close!(g, sp[(2, 2)].g(), ((1.0 - res.min(1.0)) * 2.0).max(1e-6), tol * 4.0, "heading spread");
        let (a, b) = (T::c(g.log10(-5.0, 0.5)), T::c(g.log10(-5.0, 0.5))); let (pv, hv) = ((sp[(0, 0)] + sp[(1, 1)]).g(), sp[(2, 2)].g()); if (pv - a.g()).abs() > 1e-5 * a.g() && (hv - b.g()).abs() > 1e-5 * b.g() { ensure!(f.is_converged(a, b) == (pv < a.g() && hv < b.g()), "converged({a:?}, {b:?}) with spreads {pv}, {hv}"); }
        let e = 1.0 / w.iter().map(|x| x * x).sum::<f64>(); close!(g, f.effective_sample_size().g(), e, e * (4.0 * rel + T::EPS * 4.0 * (n as f64 + 4.0)), "effective sample size");
    }
    g.nontrivial_if(scanned && n > 2); Ok(())
}
fn localizer_bad(g: &mut G) -> R {
    let mut v = [0.1, 0.2]; let k = g.below(4); if k < 2 { v[k] = g.pick(&[0.0, -1.0, f64::NAN]); } let n = if k == 2 { 0 } else { 3 }; let r = MonteCarloLocalizer::<B>::new([0.0; 3], InitialParticleCloud { particle_count: n, position_variance: v[0], heading_variance: v[1] }, BeamModel::default(), 1); g.note("cloud", &(n, v));
    match k { 0 | 1 => ensure!(r.as_ref().err() == Some(&EE::NotPositiveDefinite)), 2 => ensure!(r.as_ref().err() == Some(&EE::WeightsDegenerate)), _ => ensure!(r.is_ok()) } if let Ok(mut f) = r { ensure!(f.predict(f64::NAN, 0.0) == Err(EE::NonFinite)); } let d = InitialParticleCloud::<f64>::default(); ensure!(d.particle_count == 2000 && d.position_variance == 0.16 && d.heading_variance == 4.0); let b = BeamModel::<f64>::default(); ensure!(b.range_deviation == 0.1 && b.agreement_reward == 0.1 && b.mismatch_penalty == -5.0); g.nontrivial_if(k < 3); Ok(())
}
fn main() {
    vk::run("C21", &["state dimensions 1 to 5 and measurement dimensions 1 to 3 (histories run at 2 and 1); the localizer uses 5 beams", "weights are compared within a relative bound proportional to the size of the log-weights"], &[
        law!("resample", 40000, resample::<f64>, "not the identity"), law!("resample_f32", 30000, resample::<f32>, "not the identity"), law!("ragged", 10000, ragged::<f64>, "lengths differ"), law!("ragged_f32", 5000, ragged::<f32>, "lengths differ"), law!("fair", 1500, fair::<f64>, "two live sources"), law!("fair_f32", 800, fair::<f32>, "two live sources"),
        law!("history", 12000, history::<f64>, "a resample happened"), law!("history_f32", 6000, history::<f32>, "a resample happened"), law!("roughening", 3000, roughening::<f64>, "noise was added"), law!("roughening_f32", 1000, roughening::<f32>, "noise was added"), law!("building", 8000, building::<f64>, "something is refused"), law!("building_f32", 3000, building::<f32>, "something is refused"), law!("posterior", 150, posterior, "enough live particles"),
        law!("wide_1_1", 600, wide::<1, 1, f64>, "always"), law!("wide_3_2", 600, wide::<3, 2, f64>, "always"), law!("wide_5_3", 600, wide::<5, 3, f64>, "always"), law!("wide_4_2_f32", 300, wide::<4, 2, f32>, "always"),
        law!("localizer", 6000, localizer::<f64>, "a scan was used"), law!("localizer_f32", 3000, localizer::<f32>, "a scan was used"), law!("localizer_bad", 300, localizer_bad, "something is refused"),
    ]);
}
