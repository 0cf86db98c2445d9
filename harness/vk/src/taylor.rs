//! Reference truncated multivariate Taylor arithmetic in up to three nilpotent directions.
//!
//! A `Tay` holds coefficients c[i][j][k] of s^i t^j u^k with i<=deg[0], j<=deg[1], k<=deg[2]. Elementary
//! functions are composed from their one-variable Taylor series at the value, so the arithmetic shares
//! no formula with the chain rules under test. In jitter mode every produced coefficient is perturbed
//! relatively, which turns repeated evaluation into a conditioning estimate.
use std::cell::Cell;
thread_local! { static JIT: Cell<(f64, u64)> = const { Cell::new((0.0, 0)) }; }
pub fn set_jitter(rel: f64, seed: u64) { JIT.with(|j| j.set((rel, seed))); }
fn jit(x: f64) -> f64 {
    JIT.with(|j| {
        let (r, s) = j.get();
        if r == 0.0 { return x; }
        let s2 = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        j.set((r, s2));
        x * (1.0 + r * (((s2 >> 33) as f64) / (1u64 << 30) as f64 - 1.0))
    })
}
#[derive(Clone, Debug, PartialEq)]
pub struct Tay { pub deg: [usize; 3], pub c: Vec<f64> }
impl Tay {
    pub fn zero(deg: [usize; 3]) -> Tay { Tay { deg, c: vec![0.0; (deg[0] + 1) * (deg[1] + 1) * (deg[2] + 1)] } }
    pub fn con(deg: [usize; 3], v: f64) -> Tay { let mut t = Tay::zero(deg); t.c[0] = v; t }
    pub fn idx(&self, i: usize, j: usize, k: usize) -> usize { (i * (self.deg[1] + 1) + j) * (self.deg[2] + 1) + k }
    pub fn at(&self, i: usize, j: usize, k: usize) -> f64 { self.c[self.idx(i, j, k)] }
    pub fn set(&mut self, i: usize, j: usize, k: usize, v: f64) { let n = self.idx(i, j, k); self.c[n] = v; }
    pub fn v(&self) -> f64 { self.c[0] }
    fn order(&self) -> usize { self.deg[0] + self.deg[1] + self.deg[2] }
    pub fn add(&self, o: &Tay) -> Tay { Tay { deg: self.deg, c: self.c.iter().zip(&o.c).map(|(a, b)| jit(a + b)).collect() } }
    pub fn sub(&self, o: &Tay) -> Tay { Tay { deg: self.deg, c: self.c.iter().zip(&o.c).map(|(a, b)| jit(a - b)).collect() } }
    pub fn scale(&self, k: f64) -> Tay { Tay { deg: self.deg, c: self.c.iter().map(|a| jit(a * k)).collect() } }
    pub fn neg(&self) -> Tay { Tay { deg: self.deg, c: self.c.iter().map(|a| -a).collect() } }
    pub fn mul(&self, o: &Tay) -> Tay {
        let d = self.deg; let mut r = Tay::zero(d);
        for i in 0..=d[0] { for j in 0..=d[1] { for k in 0..=d[2] {
            let a = self.at(i, j, k); if a == 0.0 { continue; }
            for l in 0..=d[0] - i { for m in 0..=d[1] - j { for n in 0..=d[2] - k {
                let b = o.at(l, m, n); if b == 0.0 { continue; }
                let q = r.idx(i + l, j + m, k + n); r.c[q] += jit(a * b);
            } } }
        } } }
        r
    }
    /// Σ ser[k] (self - value)^k.
    pub fn compose(&self, ser: &[f64]) -> Tay {
        let mut h = self.clone(); h.c[0] = 0.0;
        let n = self.order();
        let mut r = Tay::con(self.deg, jit(ser[n]));
        for k in (0..n).rev() { r = r.mul(&h); r.c[0] = jit(ser[k]); }
        r
    }
    fn ser(&self, f: impl Fn(usize) -> f64) -> Tay { let s: Vec<f64> = (0..=self.order()).map(f).collect(); self.compose(&s) }
    fn trig(x: f64, n: usize, s: f64) -> (Vec<f64>, Vec<f64>, ) { // sin/cos (s=-1) or sinh/cosh (s=1) series
        let (sv, cv) = if s < 0.0 { (x.sin(), x.cos()) } else { (x.sinh(), x.cosh()) };
        let (mut a, mut b) = (vec![], vec![]); let mut fact = 1.0;
        for k in 0..=n { if k > 0 { fact *= k as f64; }
            let q = k % 4;
            let (p, r) = if s < 0.0 { match q { 0 => (sv, cv), 1 => (cv, -sv), 2 => (-sv, -cv), _ => (-cv, sv) } } else if q % 2 == 0 { (sv, cv) } else { (cv, sv) };
            a.push(p / fact); b.push(r / fact); }
        (a, b)
    }
    pub fn powr(&self, p: f64) -> Tay { let x = self.v(); self.ser(|k| { let mut b = 1.0; for i in 0..k { b *= (p - i as f64) / (i as f64 + 1.0); } if b == 0.0 { 0.0 } else { b * x.powf(p - k as f64) } }) }
    pub fn recip(&self) -> Tay { let x = self.v(); self.ser(|k| (if k % 2 == 0 { 1.0 } else { -1.0 }) / x.powi(k as i32 + 1)) }
    pub fn div(&self, o: &Tay) -> Tay { self.mul(&o.recip()) }
    pub fn powi(&self, n: i32) -> Tay {
        let x = self.v(); let nn = n as f64;
        self.ser(|k| { let mut b = 1.0; for i in 0..k { b *= (nn - i as f64) / (i as f64 + 1.0); } if b == 0.0 { 0.0 } else { b * x.powi(n - k as i32) } })
    }
    pub fn sqrt(&self) -> Tay { self.powr(0.5) }
    pub fn cbrt(&self) -> Tay { let neg = self.v() < 0.0; let a = if neg { self.neg() } else { self.clone() }; let r = a.powr(1.0 / 3.0); if neg { r.neg() } else { r } }
    pub fn exp(&self) -> Tay { let e = self.v().exp(); let mut f = 1.0; let s: Vec<f64> = (0..=self.order()).map(|k| { if k > 0 { f *= k as f64; } e / f }).collect(); self.compose(&s) }
    pub fn expm1(&self) -> Tay { let mut r = self.exp(); r.c[0] = self.v().exp_m1(); r }
    pub fn log(&self) -> Tay { let x = self.v(); self.ser(|k| if k == 0 { x.ln() } else { (if k % 2 == 1 { 1.0 } else { -1.0 }) / (k as f64 * x.powi(k as i32)) }) }
    pub fn ln_1p(&self) -> Tay { let y = self.v(); let x = 1.0 + y; self.ser(|k| if k == 0 { y.ln_1p() } else { (if k % 2 == 1 { 1.0 } else { -1.0 }) / (k as f64 * x.powi(k as i32)) }) }
    pub fn sin(&self) -> Tay { self.compose(&Tay::trig(self.v(), self.order(), -1.0).0) }
    pub fn cos(&self) -> Tay { self.compose(&Tay::trig(self.v(), self.order(), -1.0).1) }
    pub fn sinh(&self) -> Tay { self.compose(&Tay::trig(self.v(), self.order(), 1.0).0) }
    pub fn cosh(&self) -> Tay { self.compose(&Tay::trig(self.v(), self.order(), 1.0).1) }
    pub fn tan(&self) -> Tay { self.sin().div(&self.cos()) }
    pub fn tanh(&self) -> Tay {
        let x = self.v();
        if x.abs() > 300.0 { let mut r = Tay::zero(self.deg); r.c[0] = x.signum(); return r; }
        let a = if x < 0.0 { self.neg() } else { self.clone() };
        let mut q = a.scale(2.0).exp(); q.c[0] += 1.0;
        let mut r = q.recip().scale(-2.0); r.c[0] = x.abs().tanh();
        // tanh as a quotient of sinh and cosh loses the small derivatives of the saturated part to
        // cancellation: allow for it by absolute noise in jitter mode.
        let mut h = self.clone(); h.c[0] = 0.0; for v in h.c.iter_mut() { *v = v.abs(); }
        let ones = vec![1.0; self.order() + 1]; let m = h.compose(&ones);
        for k in 0..r.c.len() { r.c[k] += jit(m.c[k]) - m.c[k]; }
        if x < 0.0 { r.neg() } else { r }
    }
    /// Adds absolute noise of the size of one rounding at the register's scale (at least 1).
    pub fn absnoise(mut self) -> Tay { let m = self.c.iter().fold(1.0f64, |a, v| a.max(v.abs())).min(1e6); for v in self.c.iter_mut() { *v += jit(m) - m; } self }
    /// Perturbs every coefficient in jitter mode.
    pub fn jitter(mut self) -> Tay { for v in self.c.iter_mut() { *v = jit(*v); } self }
    /// Antiderivative composition: value v0, derivative series given by d (series of f' at value).
    fn integ(&self, v0: f64, d: Vec<f64>) -> Tay { let s: Vec<f64> = (0..=self.order()).map(|k| if k == 0 { v0 } else { d[k - 1] / k as f64 }).collect(); self.compose(&s) }
    fn series1(x: f64, n: usize, f: impl Fn(&Tay) -> Tay) -> Vec<f64> { let mut t = Tay::zero([n, 0, 0]); t.c[0] = x; if n > 0 { t.c[1] = 1.0; } f(&t).c }
    pub fn atan(&self) -> Tay { let d = Tay::series1(self.v(), self.order(), |t| { let mut q = t.mul(t); q.c[0] += 1.0; q.recip() }); self.integ(self.v().atan(), d) }
    pub fn asin(&self) -> Tay { let d = Tay::series1(self.v(), self.order(), |t| { let mut q = t.mul(t).neg(); q.c[0] += 1.0; q.powr(-0.5) }); self.integ(self.v().asin(), d) }
    pub fn acos(&self) -> Tay { let mut r = self.asin().neg(); r.c[0] = self.v().acos(); r }
    pub fn atan2(&self, x: &Tay) -> Tay { let mut r = if self.v().abs() <= x.v().abs() { self.div(x).atan() } else { x.div(self).atan().neg() }; r.c[0] = self.v().atan2(x.v()); r }
    pub fn hypot(&self, o: &Tay) -> Tay { let mut r = self.mul(self).add(&o.mul(o)).sqrt(); r.c[0] = self.v().hypot(o.v()); r }
    pub fn powf(&self, p: &Tay) -> Tay { let mut r = p.mul(&self.log()).exp(); r.c[0] = self.v().powf(p.v()); r }
}
