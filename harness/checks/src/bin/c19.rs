//! C19: Kalman-type filters against exact Gaussian inference in double-double arithmetic.
use checks::lin::*;
use checks::prog::{self, VF};
use checks::util::*;
use checks::{dims, dims2};
use multicalc::error::EstimationError as EE;
use multicalc::estimation::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::numerical_derivative::{FiniteDifferenceMode, FiniteDifferenceMulti};
use multicalc::scalar::VectorFn;
use multicalc::{Dual, Numeric};
use vk::dd::DD;
use vk::mat::M as DM;
use vk::*;

/// y = A x + b as a model at any scalar.
#[derive(Clone)]
struct Lin<const N: usize, const M: usize> { a: [[f64; N]; M], b: [f64; M] }
impl<const N: usize, const M: usize> VectorFn<N, M> for Lin<N, M> { fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] { core::array::from_fn(|i| (0..N).fold(S::from_f64(self.b[i]), |s, j| s + S::from_f64(self.a[i][j]) * x[j])) } }
fn lin_of<const N: usize, const M: usize, T: Fl>(a: &Matrix<M, N, T>, b: &Vector<M, T>) -> Lin<N, M> { Lin { a: core::array::from_fn(|i| core::array::from_fn(|j| a[(i, j)].g())), b: core::array::from_fn(|i| b[i].g()) } }
fn sub(a: &DM, b: &DM) -> DM { a.sub(b) }
/// The exact recursion.
#[derive(Clone)]
struct Exact { x: DM, p: DM, y: DM, s: DM }
impl Exact {
    fn predict(&mut self, f: &DM, q: &DM, u: &DM) { self.x = f.mul(&self.x).add(u); self.p = f.mul(&self.p).mul(&f.t()).add(q); }
    fn update(&mut self, h: &DM, r: &DM, y: &DM) -> bool {
        let s = h.mul(&self.p).mul(&h.t()).add(r); let Some(si) = s.inv() else { return false }; let c = self.p.mul(&h.t()); let k = c.mul(&si); self.x = self.x.add(&k.mul(y)); self.p = self.p.sub(&k.mul(&s).mul(&k.t())); self.y = y.clone(); self.s = s; true
    }
}
fn spd(g: &mut G, n: usize, lo: f64, hi: f64) -> DM { let v: Vec<f64> = (0..n).map(|_| g.log10(lo, hi)).collect(); with_eigs(g, &v) }
fn psd(g: &mut G, n: usize) -> DM { let v: Vec<f64> = (0..n).map(|_| if g.chance(1, 4) { 0.0 } else { g.log10(-3.0, 0.0) }).collect(); with_eigs(g, &v) }
fn round<const A: usize, const B: usize, T: Fl>(m: &DM) -> Matrix<A, B, T> { lib(m) }
fn transition<const N: usize, T: Fl>(g: &mut G) -> Matrix<N, N, T> { if g.chance(1, 6) { return Matrix::identity(); } if g.chance(1, 5) { return Matrix::from_fn(|i, j| T::c(if i == j { 1.0 } else if j == i + 1 { 0.25 } else { 0.0 })); } let sv: Vec<f64> = { let mut v: Vec<f64> = (0..N).map(|_| if g.chance(1, 10) { 0.0 } else { g.u(0.4, 1.25) }).collect(); v.sort_by(|a, b| b.total_cmp(a)); v }; lib(&with_sv(g, N, N, &sv)) }
fn measure<const N: usize, const M: usize, T: Fl>(g: &mut G) -> Matrix<M, N, T> { match g.below(4) { 0 => Matrix::from_fn(|i, j| T::c(if i % N == j { 1.0 } else { 0.0 })), 1 => Matrix::from_fn(|_, _| T::c(g.int(-1, 1) as f64)), _ => Matrix::from_fn(|_, _| T::c(g.f(-1.5, 1.5))) } }
fn asym(m: &DM) -> f64 { m.sub(&m.t()).max_abs() }
fn near_mat(g: &mut G, a: &DM, w: &DM, tol: f64, what: &str) -> R { for i in 0..w.r { for j in 0..w.c { close!(g, a.f(i, j), w.f(i, j), tol, "{what} [{i},{j}]"); } } Ok(()) }
fn valid_cov(g: &mut G, p: &DM, tol: f64, what: &str) -> R { ensure!(asym(p) <= tol, "{what}: covariance is not symmetric by {:e}", asym(p)); g.ratio(line!(), asym(p) / tol); let h = DM::from_fn(p.r, p.c, |i, j| (p.f(i, j) + p.f(j, i)) / 2.0); let e = h.sym_eigs().into_iter().fold(f64::INFINITY, f64::min); ensure!(e >= -tol, "{what}: covariance has eigenvalue {e:e}"); Ok(()) }
/// after <= before in the positive-semidefinite order.
fn shrinks(before: &DM, after: &DM, tol: f64, what: &str) -> R { let d = before.sub(after); let h = DM::from_fn(d.r, d.c, |i, j| (d.f(i, j) + d.f(j, i)) / 2.0); let e = h.sym_eigs().into_iter().fold(f64::INFINITY, f64::min); ensure!(e >= -tol, "{what}: the update grew the covariance by {:e}", -e); Ok(()) }
fn tol0<T: Fl>() -> f64 { if T::IS32 { 3e-5 } else { 3e-13 } }

fn spoil<const M: usize, T: Fl>(g: &mut G, z: Vector<M, T>) -> Vector<M, T> { let mut z = z; let i = g.below(M); z[i] = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])); z }

/// Random histories of the linear and extended filters, both covariance forms, against the recursion.
fn linear<const N: usize, const M: usize, T: Fl>(g: &mut G) -> R {
    let mut f = transition::<N, T>(g); let mut h = measure::<N, M, T>(g); let mut q = round::<N, N, T>(&psd(g, N)); let mut r = round::<M, M, T>(&spd(g, M, -1.0, 0.5)); let p0 = round::<N, N, T>(&if g.chance(1, 5) { psd(g, N) } else { spd(g, N, -1.0, 0.5) }); let x0 = vgen::<N, T>(g, -3.0, 3.0);
    let form = if g.bool() { CovarianceUpdate::Joseph } else { CovarianceUpdate::Naive }; g.note("form", &form); g.note("F", &f); g.note("H", &h); g.note("Q", &q); g.note("R", &r); g.note("P0", &p0); g.note("x0", &x0);
    let mut k = KalmanFilter::new(x0, p0, KalmanModel { state_transition: f, measurement_model: h, process_noise: q, measurement_noise: r }); let mut e = ExtendedKalmanFilter::<N, M, T>::new(x0, p0, q, r); if form == CovarianceUpdate::Naive || g.bool() { k = k.with_covariance_update(form); e = e.with_covariance_update(form); }
    let mut w = Exact { x: dv(&x0), p: dm(&p0), y: DM::zeros(M, 1), s: DM::zeros(M, M) }; let mut tol = tol0::<T>(); let mut updated = false; let (mut np, mut nu) = (0, 0); let n = 1 + g.below(14);
    for step in 0..n {
        let op = g.below(12); g.note("op", &op);
        match op {
            0..=3 => {
                let b = if g.bool() { vgen::<N, T>(g, -1.0, 1.0) } else { Vector::zeros() }; let m = lin_of::<N, N, T>(&f, &b);
                if b == Vector::zeros() && g.bool() { k.predict(); } else { let bm: Matrix<N, 2, T> = Matrix::from_fn(|i, j| if j == 0 { b[i] } else { T::ZERO }); k.predict_with_control(bm, Vector::new([T::ONE, T::c(5.0)])); }
                ensure!(e.predict(&m).is_ok(), "a finite prediction was refused"); w.predict(&dm(&f), &dm(&q), &dv(&b)); np += 1; tol = tol * 2.0 + tol0::<T>();
            }
            4..=7 => {
                let z = vgen::<M, T>(g, -4.0, 4.0); let c = if g.chance(1, 3) { vgen::<M, T>(g, -1.0, 1.0) } else { Vector::zeros() }; g.note("z", &z); let model = lin_of::<N, M, T>(&h, &c); let before = (k.covariance(), e.covariance());
                let y = dv(&z).sub(&dm(&h).mul(&w.x)); let kr = k.update(z); let zc = z + c; let er = if g.bool() { e.update(&model, zc) } else { let p = Vector::new(model.eval(e.state().as_array())); e.update_with_residual(&model, zc - p) }; ensure!(kr.is_ok() && er.is_ok(), "a valid update was refused: {kr:?} {er:?}"); if !w.update(&dm(&h), &dm(&r), &y) { discard!() }
                updated = true; nu += 1; tol = tol * 3.0 + tol0::<T>() * 4.0; shrinks(&dm(&before.0), &dm(&k.covariance()), tol * 3.0, "linear")?; shrinks(&dm(&before.1), &dm(&e.covariance()), tol * 3.0, "extended")?;
                for (name, i, s, ns) in [("linear", k.innovation(), k.innovation_covariance(), k.normalized_innovation_squared()), ("extended", e.innovation(), e.innovation_covariance(), e.normalized_innovation_squared())] {
                    let size = 10.0 + w.x.max_abs() + dv(&z).max_abs(); near_mat(g, &dv(&i), &w.y, tol * size * 2.0, &format!("{name} innovation after step {step}"))?; near_mat(g, &dm(&s), &w.s, tol * (10.0 + w.s.max_abs()), &format!("{name} innovation covariance after step {step}"))?; let si = w.s.inv().unwrap(); let wn = w.y.t().mul(&si).mul(&w.y).f(0, 0); let cnd = w.s.max_abs() * si.max_abs() * M as f64; match ns { Ok(v) => close!(g, v.g(), wn, tol * size * (1.0 + wn) * cnd * 20.0, "{name} normalised innovation squared"), Err(x) => bad!("no normalised innovation: {x:?}") }
                }
            }
            8 => { let z = vgen::<M, T>(g, -4.0, 4.0); let z = spoil(g, z); let model = lin_of::<N, M, T>(&h, &Vector::zeros()); let (bk, be) = (k, e); ensure!(k.update(z) == Err(EE::NonFinite) && e.update(&model, z) == Err(EE::NonFinite) && e.update_with_residual(&model, z) == Err(EE::NonFinite), "a non-finite measurement was taken"); ensure!(k.state() == bk.state() && k.covariance() == bk.covariance() && e.state() == be.state() && e.covariance() == be.covariance(), "a refused update moved the filter"); ensure!(k.innovation() == bk.innovation() && e.innovation() == be.innovation(), "a refused measurement changed the innovation"); g.label("refused measurement"); }
            9 => { let i = g.below(N); let mut b = f; for j in 0..N { b[(i, j)] = T::c(f64::NAN); } let bad = lin_of::<N, N, T>(&b, &Vector::zeros()); let be = e; let er = e.predict(&bad); ensure!(er.is_err(), "a non-finite prediction was taken"); ensure!(e.state() == be.state() && e.covariance() == be.covariance() && e.innovation_covariance() == be.innovation_covariance(), "a refused prediction moved the filter"); let mut hb = h; hb[(0, 0)] = T::c(f64::INFINITY); let badh = lin_of::<N, M, T>(&hb, &Vector::zeros()); let z = vgen::<M, T>(g, -4.0, 4.0); let be = e; ensure!(e.update(&badh, z).is_err(), "an infinite model was taken"); ensure!(e.state() == be.state() && e.covariance() == be.covariance(), "a refused update moved the filter"); g.label("refused model"); }
            10 => { // a measurement noise that leaves the innovation covariance indefinite
                let neg = Matrix::<M, M, T>::identity().scale(T::c(-1e3)); k.set_measurement_noise(neg); e.set_measurement_noise(neg); let z = vgen::<M, T>(g, -4.0, 4.0); let (bk, be) = (k, e); let model = lin_of::<N, M, T>(&h, &Vector::zeros()); let (a, b) = (k.update(z), e.update(&model, z)); ensure!(a == Err(EE::NotPositiveDefinite) && b == Err(EE::NotPositiveDefinite), "an indefinite innovation covariance gave {a:?} {b:?}"); ensure!(k.state() == bk.state() && k.covariance() == bk.covariance() && e.state() == be.state() && e.covariance() == be.covariance(), "a refused update moved the filter"); if !updated { let _ = k.normalized_innovation_squared(); } k.set_measurement_noise(r); e.set_measurement_noise(r); g.label("indefinite");
            }
            _ => match g.below(5) {
                0 => { f = transition::<N, T>(g); g.note("F'", &f); k.set_state_transition(f); } 1 => { h = measure::<N, M, T>(g); g.note("H'", &h); k.set_measurement_model(h); } 2 => { q = round(&psd(g, N)); g.note("Q'", &q); k.set_process_noise(q); e.set_process_noise(q); } 3 => { r = round(&spd(g, M, -1.0, 0.5)); g.note("R'", &r); k.set_measurement_noise(r); e.set_measurement_noise(r); }
                _ => { let x = vgen::<N, T>(g, -3.0, 3.0); g.note("x'", &x); k.set_state(x); e.set_state(x); w.x = dv(&x); }
            }
        }
        let (sx, sp) = (6.0 + w.x.max_abs() * 2.0, 2.0 + w.p.max_abs() * 2.0);
        for (name, x, p) in [("linear", k.state(), k.covariance()), ("extended", e.state(), e.covariance())] { near_mat(g, &dv(&x), &w.x, tol * sx * 3.0, &format!("{name} state after step {step}"))?; near_mat(g, &dm(&p), &w.p, tol * sp, &format!("{name} covariance after step {step}"))?; valid_cov(g, &dm(&p), tol * sp, name)?; }
    }
    if !updated { ensure!(k.normalized_innovation_squared() == Err(EE::NotPositiveDefinite) && e.normalized_innovation_squared() == Err(EE::NotPositiveDefinite), "a normalised innovation before any update"); }
    g.nontrivial_if(np > 0 && nu > 0); Ok(())
}

/// The whole history as one least-squares problem: information-form posterior over every noise at once.
fn batch<const N: usize, const M: usize>(g: &mut G) -> R {
    let f = transition::<N, f64>(g); let p0 = round::<N, N, f64>(&spd(g, N, -1.0, 0.5)); let q = round::<N, N, f64>(&psd(g, N)); let x0 = vgen::<N, f64>(g, -3.0, 3.0); let n = 1 + g.below(5); let hs: Vec<Matrix<M, N, f64>> = (0..n).map(|_| measure(g)).collect(); let rs: Vec<Matrix<M, M, f64>> = (0..n).map(|_| round(&spd(g, M, -1.0, 0.5))).collect(); let zs: Vec<Vector<M, f64>> = (0..n).map(|_| vgen(g, -4.0, 4.0)).collect(); g.note("F", &f); g.note("P0", &p0); g.note("Q", &q); g.note("x0", &x0); g.note("H", &hs); g.note("R", &rs); g.note("z", &zs);
    // joint covariance of the trajectory, then conditioning on all readings at once
    let fd = dm(&f); let mut cov: Vec<Vec<DM>> = vec![]; let mut means = vec![]; let mut m = dv(&x0); let mut p = dm(&p0); for t in 0..n { m = fd.mul(&m); p = fd.mul(&p).mul(&fd.t()).add(&dm(&q)); means.push(m.clone()); let mut row = vec![]; for s in 0..t { row.push(fd.mul(&cov[t - 1][s])); } row.push(p.clone()); cov.push(row); }
    let c = |a: usize, b: usize| if a >= b { cov[a][b].clone() } else { cov[b][a].t() }; let hd: Vec<DM> = hs.iter().map(|h| dm(h)).collect(); let big = n * M; let blocks: Vec<Vec<DM>> = (0..n).map(|a| (0..n).map(|b| { let v = hd[a].mul(&c(a, b)).mul(&hd[b].t()); if a == b { v.add(&dm(&rs[a])) } else { v } }).collect()).collect(); let s = dd_from(big, big, |i, j| blocks[i / M][j / M].at(i % M, j % M)); let xz: Vec<DM> = (0..n).map(|b| c(n - 1, b).mul(&hd[b].t())).collect(); let cx = dd_from(N, big, |i, j| xz[j / M].at(i, j % M)); let inn: Vec<DM> = (0..n).map(|b| dv(&zs[b]).sub(&hd[b].mul(&means[b]))).collect(); let y = dd_from(big, 1, |i, _| inn[i / M].at(i % M, 0)); let Some(si) = s.inv() else { discard!() }; let k = cx.mul(&si); let wx = means[n - 1].add(&k.mul(&y)); let wp = c(n - 1, n - 1).sub(&k.mul(&cx.t()));
    let mut kf = KalmanFilter::new(x0, p0, KalmanModel { state_transition: f, measurement_model: hs[0], process_noise: q, measurement_noise: rs[0] }); let mut ekf = ExtendedKalmanFilter::<N, M>::new(x0, p0, q, rs[0]); for t in 0..n { kf.predict(); kf.set_measurement_model(hs[t]); kf.set_measurement_noise(rs[t]); ensure!(kf.update(zs[t]).is_ok()); ensure!(ekf.predict(&lin_of::<N, N, f64>(&f, &Vector::zeros())).is_ok()); ekf.set_measurement_noise(rs[t]); ensure!(ekf.update(&lin_of::<N, M, f64>(&hs[t], &Vector::zeros()), zs[t]).is_ok()); }
    let tol = 1e-10 * 3f64.powi(n as i32); for (name, x, p) in [("linear", kf.state(), kf.covariance()), ("extended", ekf.state(), ekf.covariance())] { near_mat(g, &dv(&x), &wx, tol * (1.0 + wx.max_abs()), &format!("{name} batch mean"))?; near_mat(g, &dm(&p), &wp, tol, &format!("{name} batch covariance"))?; }
    let zero_q = q.max_abs_entry() == 0.0; g.label_if(zero_q, "no process noise"); g.nontrivial_if(n > 1); Ok(())
}
fn dd_from(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> DD) -> DM { let mut m = DM::zeros(r, c); for i in 0..r { for j in 0..c { m.set(i, j, f(i, j)); } } m }
trait MaxAbs { fn max_abs_entry(&self) -> f64; }
impl<const A: usize, const B: usize> MaxAbs for Matrix<A, B, f64> { fn max_abs_entry(&self) -> f64 { dm(self).max_abs() } }

/// Independent sensors folded in one by one, in any order, give what they give together.
fn sequential<const N: usize>(g: &mut G) -> R {
    const M: usize = 3; let p0 = round::<N, N, f64>(&spd(g, N, -1.0, 0.5)); let x0 = vgen::<N, f64>(g, -3.0, 3.0); let h = measure::<N, M, f64>(g); let d: [f64; M] = core::array::from_fn(|_| g.log10(-2.0, 1.0)); let z = vgen::<M, f64>(g, -4.0, 4.0); let r = Matrix::from_fn(|i, j| if i == j { d[i] } else { 0.0 }); g.note("P0", &p0); g.note("H", &h); g.note("R", &d); g.note("z", &z);
    let z0 = Matrix::<N, N, f64>::zeros(); let mut a = KalmanFilter::new(x0, p0, KalmanModel { state_transition: Matrix::identity(), measurement_model: h, process_noise: z0, measurement_noise: r }); ensure!(a.update(z).is_ok()); let mut order = [0, 1, 2]; for i in (1..M).rev() { let j = g.below(i + 1); order.swap(i, j); } let row = |i: usize| Matrix::<1, N, f64>::from_fn(|_, j| h[(i, j)]); let mut b = KalmanFilter::<N, 1>::new(x0, p0, KalmanModel { state_transition: Matrix::identity(), measurement_model: row(0), process_noise: z0, measurement_noise: Matrix::identity() }); if g.bool() { b = b.with_covariance_update(CovarianceUpdate::Naive); } for i in order { b.set_measurement_model(row(i)); b.set_measurement_noise(Matrix::new([[d[i]]])); ensure!(b.update(Vector::new([z[i]])).is_ok()); }
    near_mat(g, &dv(&b.state()), &dv(&a.state()), 1e-9, "state")?; near_mat(g, &dm(&b.covariance()), &dm(&a.covariance()), 1e-10, "covariance")?; g.nontrivial(); Ok(())
}

/// Joseph's form keeps the covariance valid when the measurements are far sharper than the prior.
fn joseph<const N: usize, T: Fl>(g: &mut G) -> R {
    let p0 = round::<N, N, T>(&spd(g, N, 1.0, if T::IS32 { 2.0 } else { 6.0 })); let r = T::c(g.log10(if T::IS32 { -2.0 } else { -6.0 }, -1.0)); let h = measure::<N, 1, T>(g); if dm(&h).max_abs() < 0.3 { discard!() } g.note("P0", &p0); g.note("H", &h); g.note("r", &r); let model = KalmanModel { state_transition: Matrix::identity(), measurement_model: h, process_noise: Matrix::zeros(), measurement_noise: Matrix::new([[r]]) }; let mut k = KalmanFilter::new(Vector::zeros(), p0, model); let mut e = ExtendedKalmanFilter::<N, 1, T>::new(Vector::zeros(), p0, Matrix::zeros(), Matrix::new([[r]])); let lin = lin_of::<N, 1, T>(&h, &Vector::zeros()); let n = 1 + g.below(6); for _ in 0..n { let z = vgen::<1, T>(g, -4.0, 4.0); ensure!(k.update(z).is_ok() && e.update(&lin, z).is_ok()); }
    let hd = dm(&h); for p in [k.covariance(), e.covariance()] { let p = dm(&p); for i in 0..N { ensure!(p.f(i, i) >= 0.0, "a variance of {:e}", p.f(i, i)); } let v = hd.mul(&p).mul(&hd.t()).f(0, 0); let scale = dm(&p0).max_abs(); let tol = T::EPS * scale * if T::IS32 { 600.0 } else { 1e4 }; valid_cov(g, &p, tol, "sharp")?; let hp = hd.mul(&dm(&p0)).mul(&hd.t()).f(0, 0); let w = 1.0 / (1.0 / hp + n as f64 / r.g()); close!(g, v, w, w * 1e-3 + tol * 20.0, "the measured direction's variance"); } g.nontrivial_if(n > 1); Ok(())
}

/// A lopsided covariance from the caller: the exact gain, and each covariance form as written.
fn lopsided<const N: usize, T: Fl>(g: &mut G) -> R {
    let p = spd(g, N, -0.5, 0.5); let p0: Matrix<N, N, T> = Matrix::from_fn(|i, j| T::c(p.f(i, j) + if i < j { g.f(-0.1, 0.1) } else { 0.0 })); let h = measure::<N, 1, T>(g); let r = T::c(g.log10(-1.0, 1.0)); let x0 = vgen::<N, T>(g, -3.0, 3.0); let z = vgen::<1, T>(g, -3.0, 3.0); g.note("P0", &p0); g.note("H", &h); g.note("r", &r); g.note("x0,z", &(x0, z)); let (pd, hd) = (dm(&p0), dm(&h)); let s = hd.mul(&pd).mul(&hd.t()).f(0, 0) + r.g(); if s < 0.05 { discard!() } let k = pd.mul(&hd.t()).scale(1.0 / s); let y = z[0].g() - hd.mul(&dv(&x0)).f(0, 0); let t = DM::eye(N).sub(&k.mul(&hd)); let joseph = t.mul(&pd).mul(&t.t()).add(&k.mul(&k.t()).scale(r.g())); let naive = t.mul(&pd); let wx = dv(&x0).add(&k.scale(y)); let tol = T::EPS * 1e4 / s.min(1.0);
    for form in [CovarianceUpdate::Joseph, CovarianceUpdate::Naive] { let w = if form == CovarianceUpdate::Joseph { &joseph } else { &naive }; let mut kf = KalmanFilter::new(x0, p0, KalmanModel { state_transition: Matrix::identity(), measurement_model: h, process_noise: Matrix::zeros(), measurement_noise: Matrix::new([[r]]) }).with_covariance_update(form); let mut e = ExtendedKalmanFilter::<N, 1, T>::new(x0, p0, Matrix::zeros(), Matrix::new([[r]])).with_covariance_update(form); ensure!(kf.update(z).is_ok() && e.update(&lin_of::<N, 1, T>(&h, &Vector::zeros()), z).is_ok()); for (name, x, c) in [("linear", kf.state(), kf.covariance()), ("extended", e.state(), e.covariance())] { near_mat(g, &dv(&x), &wx, tol * 10.0, &format!("{name} {form:?} state"))?; near_mat(g, &dm(&c), w, tol, &format!("{name} {form:?} covariance"))?; } }
    g.nontrivial_if(pd.sub(&pd.t()).max_abs() > 0.0); Ok(())
}
fn lopsided_d<T: Fl>(g: &mut G) -> R { dims!(g, lopsided, T, 1, 2, 3, 4, 7) }

/// Curved models through the extended filter, with true derivatives from the reference Taylor oracle.
fn extended<const N: usize, const M: usize>(g: &mut G) -> R {
    let x0 = vgen::<N, f64>(g, -1.5, 1.5); let p0 = round::<N, N, f64>(&spd(g, N, -1.5, 0.0)); let q = round::<N, N, f64>(&psd(g, N)); let r = round::<M, M, f64>(&spd(g, M, -1.0, 0.5)); let z = vgen::<M, f64>(g, -2.0, 2.0); let ops = if g.bool() { prog::SMOOTH } else { prog::TAME }; let len = 1 + g.below(7); let fm: [prog::Prog; N] = core::array::from_fn(|_| prog::gen(g, x0.as_array(), len, ops, 0.05)); let fx: [f64; N] = core::array::from_fn(|i| prog::eval(&fm[i], x0.as_array())); if fx.iter().any(|v| !v.is_finite() || v.abs() > 50.0) { discard!() } let hm: [prog::Prog; M] = core::array::from_fn(|_| prog::gen(g, &fx, len, ops, 0.05)); g.note("x0", &x0); g.note("P0", &p0); g.note("Q", &q); g.note("R", &r); g.note("f", &fm); g.note("h", &hm); g.note("z", &z);
    let mut fd = DM::zeros(N, N); let mut err: f64 = 0.0; for i in 0..N { for j in 0..N { let Some((v, t)) = prog::partial(&fm[i], x0.as_array(), &[j], f64::EPSILON) else { discard!() }; if v.abs() > 100.0 { discard!() } err = err.max(t); fd.set(i, j, DD::new(v)); } } let mut hd = DM::zeros(M, N); for i in 0..M { for j in 0..N { let Some((v, t)) = prog::partial(&hm[i], &fx, &[j], f64::EPSILON) else { discard!() }; if v.abs() > 100.0 { discard!() } err = err.max(t); hd.set(i, j, DD::new(v)); } } let hx: [f64; M] = core::array::from_fn(|i| prog::eval(&hm[i], &fx)); if hx.iter().any(|v| !v.is_finite() || v.abs() > 1e3) { discard!() }
    let mut w = Exact { x: DM::from_fn(N, 1, |i, _| fx[i]), p: fd.mul(&dm(&p0)).mul(&fd.t()).add(&dm(&q)), y: DM::zeros(M, 1), s: DM::zeros(M, M) }; let before = w.p.clone(); let y = DM::from_fn(M, 1, |i, _| z[i] - hx[i]); if !w.update(&hd, &dm(&r), &y) { discard!() } let si = w.s.inv().unwrap(); let k = 1.0 + w.s.max_abs() * si.max_abs(); let tol = (1e-12 + err * 100.0) * k * (1.0 + fd.max_abs()).powi(2) * (1.0 + hd.max_abs()).powi(2) * (1.0 + before.max_abs()) * 100.0; if !(tol < 1e-3) { discard!() }
    let naive = g.bool(); let mut e = ExtendedKalmanFilter::<N, M>::new(x0, p0, q, r); if naive { e = e.with_covariance_update(CovarianceUpdate::Naive); } ensure!(e.predict(&VF(fm.clone())).is_ok(), "a valid prediction was refused"); near_mat(g, &dv(&e.state()), &DM::from_fn(N, 1, |i, _| fx[i]), tol, "predicted state")?; near_mat(g, &dm(&e.covariance()), &before, tol, "predicted covariance")?; ensure!(e.update(&VF(hm.clone()), z).is_ok(), "a valid update was refused"); let yy = y.max_abs() + 1.0; near_mat(g, &dv(&e.innovation()), &y, tol * yy, "innovation")?; near_mat(g, &dm(&e.innovation_covariance()), &w.s, tol * yy, "innovation covariance")?; near_mat(g, &dv(&e.state()), &w.x, tol * yy * k, "state")?; near_mat(g, &dm(&e.covariance()), &w.p, tol * k, "covariance")?;
    // a numeric derivator approximates the same answer
    if ops.len() == prog::TAME.len() { let mut n = ExtendedKalmanFilter::<N, M, f64, _>::from_derivator(x0, p0, q, r, FiniteDifferenceMulti::from_parameters(1e-5, FiniteDifferenceMode::Central, 1.0)); ensure!(n.predict(&VF(fm)).is_ok()); let big = (1.0 + fd.max_abs()).powi(3) * (1.0 + before.max_abs()) * 100.0; if big < 1e5 { near_mat(g, &dm(&n.covariance()), &before, 1e-7 * big, "covariance by differences")?; ensure!(n.update(&VF(hm), z).is_ok()); g.label("finite differences"); } }
    g.nontrivial_if(fd.sub(&DM::eye(N)).max_abs() > 1e-9 && hd.max_abs() > 1e-9); Ok(())
}

/// Own unscented transform: lower Cholesky columns of spread * P + regularisation.
struct Points { c: Vec<f64>, s: Vec<Vec<f64>> }
fn chol(p: &DM) -> Option<Vec<Vec<f64>>> { let n = p.r; let mut l = vec![vec![DD::ZERO; n]; n]; for i in 0..n { for j in 0..=i { let mut v = p.at(i, j); for k in 0..j { v = v - l[i][k] * l[j][k]; } if i == j { if v.f() <= 0.0 { return None; } l[i][i] = v.sqrt(); } else { l[i][j] = v / l[j][j]; } } } Some(l.into_iter().map(|r| r.into_iter().map(|v| v.f()).collect()).collect()) }
struct Tune { spread: f64, cm: f64, cc: f64, side: f64, reg: f64 }
fn tune(n: usize, a: f64, b: f64, k: f64, reg: f64) -> Tune { let spread = a * a * (n as f64 + k); let cm = 1.0 - n as f64 / spread; Tune { spread, cm, cc: cm + 1.0 - a * a + b, side: 0.5 / spread, reg } }
fn place(x: &[f64], p: &DM, t: &Tune) -> Option<Points> { let n = x.len(); let l = chol(&p.scale(t.spread).add(&DM::eye(n).scale(t.reg)))?; let mut s = vec![]; for j in 0..n { for sg in [1.0, -1.0] { s.push((0..n).map(|i| x[i] + sg * l[i][j]).collect()); } } Some(Points { c: x.to_vec(), s }) }
fn push(p: &Points, f: impl Fn(&[f64]) -> Vec<f64>) -> Points { Points { c: f(&p.c), s: p.s.iter().map(|v| f(v)).collect() } }
fn mean(p: &Points, t: &Tune) -> Vec<DD> { (0..p.c.len()).map(|i| { let mut v = DD::new(p.c[i]) * DD::new(t.cm); for s in &p.s { v = v + DD::new(s[i]) * DD::new(t.side); } v }).collect() }
fn cross(a: &Points, am: &[DD], b: &Points, bm: &[DD], t: &Tune) -> DM { dd_from(am.len(), bm.len(), |i, j| { let mut v = (DD::new(a.c[i]) - am[i]) * (DD::new(b.c[j]) - bm[j]) * DD::new(t.cc); for (x, y) in a.s.iter().zip(&b.s) { v = v + (DD::new(x[i]) - am[i]) * (DD::new(y[j]) - bm[j]) * DD::new(t.side); } v }) }
fn scaling(g: &mut G, n: usize) -> (f64, f64, f64) { match g.below(4) { 0 => (1e-3, 2.0, 0.0), 1 => (1.0, 2.0, 3.0 - n as f64), 2 => (g.f(0.3, 1.5), g.f(0.0, 3.0), g.f(0.0, 2.0)), _ => (g.f(0.01, 1.0), 2.0, g.f(0.0, 3.0)) } }

/// Linear histories of the unscented filter: the exact posterior, with its documented handling of process noise.
fn unscented_linear<const N: usize, const M: usize, T: Fl>(g: &mut G) -> R {
    let f = transition::<N, T>(g); let p0 = round::<N, N, T>(&spd(g, N, -1.0, 0.5)); let q = if g.bool() { Matrix::zeros() } else { round::<N, N, T>(&psd(g, N)) }; let r = round::<M, M, T>(&spd(g, M, -1.0, 0.5)); let x0 = vgen::<N, T>(g, -3.0, 3.0); let (mut a, b, k) = scaling(g, N); if T::IS32 { a = a.max(0.5); } let (a, b, k) = (rnd::<T>(a), rnd::<T>(b), rnd::<T>(k)); if N as f64 + k < 0.5 { discard!() } let reg = if g.chance(1, 4) { rnd::<T>(g.log10(-6.0, -1.0)) } else { 0.0 }; g.note("F", &f); g.note("P0", &p0); g.note("Q", &q); g.note("R", &r); g.note("x0", &x0); g.note("tuning", &(a, b, k, reg));
    let mut u = UnscentedKalmanFilter::<N, M, T>::new(x0, p0, q, r); u = match u.with_scaling(T::c(a), T::c(b), T::c(k)) { Ok(u) => u, Err(e) => bad!("tuning {:?} refused: {e:?}", (a, b, k)) }; u = u.with_regularization(T::c(reg)).unwrap(); let t = tune(N, a, b, k, reg); let infl = DM::eye(N).scale(reg / t.spread);
    let (mut x, mut p) = (dv(&x0), dm(&p0)); let mut used = false; let mut pts: Option<(DM, DM)> = None; let n = 1 + g.below(10); let amp = 1.0 + 4.0 / (t.spread).min(1.0); let mut tol = tol0::<T>() * amp; let (mut np, mut nu) = (0, 0); let zero = Vector::<M, T>::zeros();
    for step in 0..n {
        let op = g.below(9); g.note("op", &op);
        match op {
            0..=3 => { let c = if g.bool() { vgen::<N, T>(g, -1.0, 1.0) } else { Vector::zeros() }; let m = lin_of::<N, N, T>(&f, &c); let pe = p.add(&infl); if chol(&pe).is_none() || p.sym_eigs().into_iter().fold(f64::INFINITY, f64::min) < 1e-6 * p.max_abs() + tol * 10.0 { g.label("stopped: covariance too thin"); break; } if let Err(e) = u.predict(&m) { bad!("prediction refused: {e:?}") } let fd = dm(&f); let cov = fd.mul(&pe).mul(&fd.t()); x = fd.mul(&x).add(&dv(&c)); p = cov.add(&dm(&q)); pts = Some((x.clone(), cov)); used = false; np += 1; tol = tol * 2.0 + tol0::<T>() * amp * (1.0 + x.max_abs()); }
            4..=6 => { let h = measure::<N, M, T>(g); let z = vgen::<M, T>(g, -4.0, 4.0); g.note("H", &h); g.note("z", &z); let m = lin_of::<N, M, T>(&h, &zero); let hd = dm(&h);
                if used { if p.add(&infl).sym_eigs().into_iter().fold(f64::INFINITY, f64::min) < 1e-6 * p.max_abs() + tol * 10.0 { g.label("stopped: covariance too thin"); break; } pts = Some((x.clone(), p.add(&infl))); }
                let y = dv(&z).sub(&hd.mul(&x)); let before = u.covariance(); let res = if g.bool() { u.update(&m, z) } else { let pr = Vector::new(m.eval(u.state().as_array())); u.update_with_residual(&m, z - pr) }; if let Err(e) = res { bad!("update refused: {e:?}") }
                if let Some((_, cov)) = &pts { let s = hd.mul(cov).mul(&hd.t()).add(&dm(&r)); let Some(si) = s.inv() else { discard!() }; let kk = cov.mul(&hd.t()).mul(&si); x = x.add(&kk.mul(&y)); p = p.sub(&kk.mul(&s).mul(&kk.t())); used = true; tol = tol * 4.0 + tol0::<T>() * amp * (6.0 + x.max_abs()); near_mat(g, &dm(&u.innovation_covariance()), &s, tol * (10.0 + s.max_abs()), "innovation covariance")?; near_mat(g, &dv(&u.innovation()), &y, tol * 20.0, "innovation")?; shrinks(&dm(&before), &dm(&u.covariance()), tol * 4.0, "unscented")?; match u.normalized_innovation_squared() { Ok(v) => { let w = y.t().mul(&si).mul(&y).f(0, 0); close!(g, v.g(), w, tol * 100.0 * (1.0 + w) * (1.0 + y.max_abs()) * (1.0 + s.max_abs() * si.max_abs()), "normalised innovation squared") } Err(e) => bad!("{e:?}") } } nu += 1; }
            7 => { let before = u; let z = vgen::<M, T>(g, -4.0, 4.0); let z = spoil(g, z); let m = lin_of::<N, M, T>(&measure(g), &zero); ensure!(u.update(&m, z) == Err(EE::NonFinite) && u.update_with_residual(&m, z) == Err(EE::NonFinite), "a non-finite measurement was taken"); ensure!(u == before, "a refused update changed the filter"); let mut fb = f; fb[(0, 0)] = T::c(f64::INFINITY); let e = u.predict(&lin_of::<N, N, T>(&fb, &Vector::zeros())); ensure!(e.is_err(), "a non-finite prediction was taken"); ensure!(u == before, "a refused prediction changed the filter"); g.label("refused"); }
            _ => { let m = lin_of::<N, M, T>(&measure(g), &Vector::from_fn(|_| T::c(f64::NAN))); let (bx, bp) = (u.state(), u.covariance()); let z = vgen::<M, T>(g, -4.0, 4.0); ensure!(u.update(&m, z).is_err(), "a NaN model was taken"); let neg = Matrix::<M, M, T>::identity().scale(T::c(-1e9)); u.set_measurement_noise(neg); let e = u.update(&lin_of::<N, M, T>(&measure(g), &zero), z); ensure!(e == Err(EE::NotPositiveDefinite), "an indefinite innovation covariance gave {e:?}"); u.set_measurement_noise(r); ensure!(u.state() == bx && u.covariance() == bp, "a refused update moved the filter"); g.label("refused model"); }
        }
        let (sx, sp) = (6.0 + x.max_abs() * 2.0, 2.0 + p.max_abs() * 2.0); near_mat(g, &dv(&u.state()), &x, tol * sx * 3.0, &format!("state after step {step}"))?; near_mat(g, &dm(&u.covariance()), &p, tol * sp, &format!("covariance after step {step}"))?; let pp = dm(&u.covariance()); if step > 0 && np + nu > 0 { ensure!(asym(&pp) <= T::EPS * 4.0 * p.max_abs() || (np == 0 && nu == 0), "covariance not symmetric"); }
        if reg == 0.0 { valid_cov(g, &pp, tol * sp, "unscented")?; }
    }
    g.label_if(dm(&q).max_abs() > 0.0, "process noise"); g.nontrivial_if(np > 0 && nu > 0); Ok(())
}
/// Curved models through the unscented filter against an independent transform.
fn unscented_curved<const N: usize, const M: usize>(g: &mut G) -> R {
    let x0 = vgen::<N, f64>(g, -1.5, 1.5); let p0 = round::<N, N, f64>(&spd(g, N, -1.5, 0.0)); let q = round::<N, N, f64>(&psd(g, N)); let r = round::<M, M, f64>(&spd(g, M, -1.0, 0.5)); let z = vgen::<M, f64>(g, -2.0, 2.0); let len = 1 + g.below(6); let fm: [prog::Prog; N] = core::array::from_fn(|_| prog::gen(g, x0.as_array(), len, prog::TAME, 0.05)); let hm: [prog::Prog; M] = core::array::from_fn(|_| prog::gen(g, x0.as_array(), len, prog::TAME, 0.05)); let (a, b, k) = (g.f(0.2, 1.5), g.f(0.0, 3.0), g.f(-0.5, 3.0)); let reg = if g.chance(1, 4) { g.log10(-6.0, -1.0) } else { 0.0 }; g.note("x0", &x0); g.note("P0", &p0); g.note("Q", &q); g.note("R", &r); g.note("z", &z); g.note("f", &fm); g.note("h", &hm); g.note("tuning", &(a, b, k, reg));
    if fm.iter().chain(&hm).any(|p| p.steps.iter().any(|s| s.op == prog::Op::Powi && s.n < 0)) { discard!() } let t = tune(N, a, b, k, reg); if t.spread < 0.02 { discard!() } let f = |v: &[f64]| fm.iter().map(|p| prog::eval(p, v)).collect::<Vec<f64>>(); let h = |v: &[f64]| hm.iter().map(|p| prog::eval(p, v)).collect::<Vec<f64>>();
    let Some(pt) = place(x0.as_array(), &dm(&p0), &t) else { discard!() }; let fp = push(&pt, f); let m = mean(&fp, &t); let mut p = cross(&fp, &m, &fp, &m, &t).add(&dm(&q)); let big = fp.s.iter().flatten().chain(&fp.c).fold(1.0f64, |s, v| s.max(v.abs())); if !(big < 1e3) { discard!() } let x: Vec<f64> = m.iter().map(|v| v.f()).collect(); let amp = (1.0 + t.cm.abs() + t.cc.abs() + t.side * 2.0 * N as f64) * big * big; let tol = 1e-12 * amp * amp;
    let mut u = UnscentedKalmanFilter::<N, M>::new(x0, p0, q, r).with_scaling(a, b, k).unwrap().with_regularization(reg).unwrap(); match u.predict(&VF(fm.clone())) { Ok(()) => {} Err(e) => bad!("prediction refused: {e:?}") } near_mat(g, &dv(&u.state()), &DM::from_fn(N, 1, |i, _| x[i]), tol, "predicted mean")?; near_mat(g, &dm(&u.covariance()), &p, tol, "predicted covariance")?;
    let hp = push(&fp, h); let bigh = hp.s.iter().flatten().chain(&hp.c).fold(1.0f64, |s, v| s.max(v.abs())); if !(bigh < 1e3) { discard!() } let zm = mean(&hp, &t); let s = cross(&hp, &zm, &hp, &zm, &t).add(&dm(&r)); let Some(si) = s.inv() else { discard!() }; let ev = s.sym_eigs().into_iter().fold(f64::INFINITY, f64::min); let c = cross(&fp, &m, &hp, &zm, &t); let kk = c.mul(&si); let y = DM::from_fn(M, 1, |i, _| z[i] - zm[i].f()); let wx = DM::from_fn(N, 1, |i, _| x[i]).add(&kk.mul(&y)); let amp2 = amp * bigh * bigh; let cnd = 1.0 + s.max_abs() * si.max_abs(); let tol2 = 1e-12 * amp2 * amp2 * cnd * cnd * (1.0 + y.max_abs()); let before = p.clone(); p = p.sub(&kk.mul(&s).mul(&kk.t()));
    let before_u = u; let res = u.update(&VF(hm.clone()), z); if ev < -tol2 { ensure!(res == Err(EE::NotPositiveDefinite), "an indefinite innovation covariance gave {res:?}"); ensure!(u == before_u, "a refused update changed the filter"); g.label("indefinite"); return Ok(()); } if ev < tol2 * 10.0 || tol2 > 1e-3 { discard!() } if let Err(e) = res { bad!("update refused: {e:?}") } near_mat(g, &dm(&u.innovation_covariance()), &s, tol2, "innovation covariance")?; near_mat(g, &dv(&u.innovation()), &y, tol2, "innovation")?; near_mat(g, &dv(&u.state()), &wx, tol2 * 10.0, "state")?; near_mat(g, &dm(&u.covariance()), &p, tol2 * 10.0, "covariance")?; shrinks(&before, &dm(&u.covariance()), tol2 * 10.0, "unscented")?;
    // the residual form folds in whatever it is given
    let mut v = before_u; let res = vgen::<M, f64>(g, -2.0, 2.0); ensure!(v.update_with_residual(&VF(hm), res).is_ok()); ensure!(v.innovation() == res); let wr = DM::from_fn(N, 1, |i, _| x[i]).add(&kk.mul(&dv(&res))); near_mat(g, &dv(&v.state()), &wr, tol2 * 20.0, "state from a residual")?; ensure!(v.covariance() == u.covariance(), "the residual form gives another covariance");
    g.nontrivial_if(len > 1); Ok(())
}
fn tuning_refused(g: &mut G) -> R {
    let u = UnscentedKalmanFilter::<3, 2>::new(Vector::zeros(), Matrix::identity(), Matrix::identity(), Matrix::identity()); let mut v = [g.mostly(-2.0, 2.0), g.mostly(-1.0, 3.0), g.mostly(-4.0, 2.0)]; if g.chance(1, 8) { v[0] = 0.0; } if g.chance(1, 8) { v[2] = -3.0; } g.note("alpha,beta,kappa", &v); let s = v[0] * v[0] * (3.0 + v[2]); let ok = v.iter().all(|x| x.is_finite()) && s.is_finite() && s > 0.0; let r = u.with_scaling(v[0], v[1], v[2]); ensure!(r.is_ok() == ok, "scaling {v:?} gave {r:?}"); if let Err(e) = r { ensure!(e == EE::InvalidTuning); } let q = g.hostile(); g.note("regularisation", &q); let r = u.with_regularization(q); ensure!(r.is_ok() == (q.is_finite() && q >= 0.0), "regularisation {q} gave {r:?}"); if let Err(e) = r { ensure!(e == EE::InvalidTuning); }
    // a covariance that cannot be factorised
    let mut p = Matrix::<3, 3>::identity(); let i = g.below(3); let kind = g.below(3); p[(i, i)] = [-1.0, f64::NAN, f64::INFINITY][kind]; let mut u = UnscentedKalmanFilter::<3, 2>::new(Vector::zeros(), p, Matrix::identity(), Matrix::identity()); let e = u.predict(&Lin { a: [[1.0; 3]; 3], b: [0.0; 3] }); ensure!(e == Err(if kind == 0 { EE::NotPositiveDefinite } else { EE::NonFinite }), "{e:?}"); ensure!(u.state() == Vector::zeros()); ensure!(u.normalized_innovation_squared() == Err(EE::NotPositiveDefinite)); g.nontrivial_if(!ok); Ok(())
}

/// The coordinated turn model against the arc and its exact derivatives.
fn sc(t: f64) -> (f64, f64, f64, f64) { if t.abs() < 0.05 { let u = t * t; (1.0 - u / 6.0 * (1.0 - u / 20.0 * (1.0 - u / 42.0 * (1.0 - u / 72.0))), t * (0.5 - u / 24.0 * (1.0 - u / 30.0 * (1.0 - u / 56.0 * (1.0 - u / 90.0)))), t * (-1.0 / 3.0 + u * (1.0 / 30.0 - u / 840.0)), 0.5 + u * (-1.0 / 8.0 + u * (1.0 / 144.0 - u / 5760.0))) } else { let (s, c) = t.sin_cos(); let h = (t / 2.0).sin(); (s / t, 2.0 * h * h / t, (c - s / t) / t, (s - 2.0 * h * h / t) / t) } }
fn turn_model<T: Fl>(g: &mut G) -> R {
    let dt = g.log10(-3.0, 0.5); let m = ConstantTurnAndSpeed { timestep: dt }; let rate = match g.below(4) { 0 => 0.0, 1 => g.slog10(-12.0, -1.0), _ => g.f(-3.0, 3.0) }; let s: [T; 5] = [T::c(g.f(-5.0, 5.0)), T::c(g.f(-5.0, 5.0)), T::c(g.f(-3.1, 3.1)), T::c(g.f(-5.0, 5.0)), T::c(rate)]; g.note("dt", &dt); g.note("state", &s); let o = m.eval(&s); let dtt = rnd::<T>(dt); let [x, y, h, v, w]: [f64; 5] = core::array::from_fn(|i| s[i].g()); let t = w * dtt; let (a, b, da, db) = sc(t); let (sn, cs) = h.sin_cos(); let d = v * dtt; let tol = T::EPS * 20.0 * (6.0 + d.abs() * (1.0 + t.abs())); close!(g, o[0].g(), x + d * (a * cs - b * sn), tol, "x"); close!(g, o[1].g(), y + d * (a * sn + b * cs), tol, "y"); let gap = o[2].g() - (h + t); close!(g, gap.sin().atan2(gap.cos()), 0.0, T::EPS * 10.0 * (4.0 + t.abs()), "heading"); ensure!(o[2].g().abs() <= std::f64::consts::PI * (1.0 + T::EPS * 2.0), "heading {:?} left unwrapped", o[2]); ensure!(o[3] == s[3] && o[4] == s[4], "speed or turn rate moved");
    if !T::IS32 { let rot = |u: f64, v: f64| [u * cs - v * sn, u * sn + v * cs]; let jac = [[1.0, 0.0, -d * (a * sn + b * cs), dtt * rot(a, b)[0], d * dtt * rot(da, db)[0]], [0.0, 1.0, d * (a * cs - b * sn), dtt * rot(a, b)[1], d * dtt * rot(da, db)[1]], [0.0, 0.0, 1.0, 0.0, dtt], [0.0, 0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 0.0, 1.0]]; for k in 0..5 { let o = m.eval(&core::array::from_fn(|i| Dual::new(s[i].g(), if i == k { 1.0 } else { 0.0 }))); for r in 0..5 { close!(g, o[r].deriv, jac[r][k], 1e-10 * (1.0 + d.abs() * (1.0 + dtt)), "derivative of output {r} in input {k}"); } } }
    g.label_if(t.abs() < 1e-6, "nearly straight"); g.nontrivial_if(d != 0.0 && t != 0.0); Ok(())
}
fn direct(g: &mut G) -> R {
    let idx: [usize; 3] = core::array::from_fn(|_| if g.chance(1, 8) { g.pick(&[5, 6, 100, usize::MAX]) } else { g.below(5) }); g.note("indices", &idx); let r = DirectMeasurement::<5, 3>::try_new(idx); let ok = idx.iter().all(|i| *i < 5); if !ok { ensure!(r == Err(EE::StateIndexOutOfRange), "{r:?}"); g.label("out of range"); return Ok(()); } let m = match r { Ok(m) => m, Err(e) => bad!("{e:?}") }; ensure!(m.indices() == idx); let s: [f64; 5] = g.arr(-5.0, 5.0); let o = m.eval(&s); for i in 0..3 { ensure!(o[i] == s[idx[i]]); } let du = m.eval(&s.map(|v| Dual::new(v, v * 2.0))); for i in 0..3 { ensure!(du[i].deriv == s[idx[i]] * 2.0); }
    let (a, b) = (vgen::<4, f64>(g, -9.0, 9.0), vgen::<4, f64>(g, -9.0, 9.0)); let which: Vec<usize> = (0..g.below(5)).map(|_| g.below(6)).collect(); g.note("a,b,angles", &(a, b, &which)); let w = residual_with_wrapped_angles(a, b, &which); for i in 0..4 { let d = a[i] - b[i]; if which.contains(&i) { close!(g, (w[i] - d).sin(), 0.0, 1e-13, "wrapped sin"); close!(g, (w[i] - d).cos(), 1.0, 1e-13, "wrapped cos"); ensure!(w[i].abs() <= std::f64::consts::PI + 1e-15); } else { ensure!(w[i] == d, "a plain component was wrapped"); } } g.nontrivial(); Ok(())
}
fn linear_d<T: Fl>(g: &mut G) -> R { dims2!(g, linear, T, (1, 1), (2, 1), (2, 2), (3, 2), (4, 2), (2, 3), (6, 3), (9, 2)) }
fn unscented_d<T: Fl>(g: &mut G) -> R { dims2!(g, unscented_linear, T, (1, 1), (2, 1), (2, 2), (3, 2), (4, 2), (2, 3), (5, 3), (8, 2)) }
fn joseph_d<T: Fl>(g: &mut G) -> R { dims!(g, joseph, T, 1, 2, 3, 4, 7) }
macro_rules! pick2 { ($g:expr, $f:ident, $(($m:literal, $n:literal)),+) => {{ let opts: &[fn(&mut G) -> R] = &[$($f::<$m, $n>),+]; let k = $g.below(opts.len()); opts[k]($g) }}; }
fn batch_d(g: &mut G) -> R { pick2!(g, batch, (1, 1), (2, 1), (2, 2), (3, 2), (4, 2)) }
fn extended_d(g: &mut G) -> R { pick2!(g, extended, (1, 1), (2, 1), (2, 2), (3, 2), (4, 3)) }
fn curved_d(g: &mut G) -> R { pick2!(g, unscented_curved, (1, 1), (2, 1), (2, 2), (3, 2), (4, 3)) }
fn sequential_d(g: &mut G) -> R { let k = g.below(3); [sequential::<1>, sequential::<2>, sequential::<4>][k](g) }
fn main() {
    let _ = sub;
    run("C19", &["the unscented filter leaves process noise out of the first update's innovation covariance, as its documentation and tests state", "covariances within the stated conditioning; tolerances grow with the history"], &[
        law!("linear", 30000, linear_d::<f64>, "at least one prediction and one update"), law!("linear_f32", 12000, linear_d::<f32>, "at least one prediction and one update"), law!("batch", 10000, batch_d, "more than one reading"), law!("sequential", 10000, sequential_d, "always"), law!("joseph", 10000, joseph_d::<f64>, "more than one update"), law!("joseph_f32", 5000, joseph_d::<f32>, "more than one update"),
        law!("lopsided", 8000, lopsided_d::<f64>, "the covariance is not symmetric"), law!("lopsided_f32", 4000, lopsided_d::<f32>, "the covariance is not symmetric"),
        law!("extended", 20000, extended_d, "both models are curved or scaled"), law!("unscented_linear", 20000, unscented_d::<f64>, "at least one prediction and one update"), law!("unscented_linear_f32", 8000, unscented_d::<f32>, "at least one prediction and one update"), law!("unscented_curved", 20000, curved_d, "programs of more than one step"), law!("tuning_refused", 10000, tuning_refused, "an error is due"), law!("turn_model", 20000, turn_model::<f64>, "moving and turning"), law!("turn_model_f32", 10000, turn_model::<f32>, "moving and turning"), law!("direct", 20000, direct, "all indices valid"),
    ]);
}
