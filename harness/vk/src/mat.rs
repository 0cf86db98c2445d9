//! Plain dynamic matrices in double-double for reference linear algebra.
use crate::dd::DD;
#[derive(Clone, Debug)]
pub struct M { pub r: usize, pub c: usize, pub d: Vec<DD> }
impl M {
    pub fn zeros(r: usize, c: usize) -> M { M { r, c, d: vec![DD::ZERO; r * c] } }
    pub fn eye(n: usize) -> M { let mut m = M::zeros(n, n); for i in 0..n { m.set(i, i, DD::ONE); } m }
    pub fn from_fn(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> f64) -> M { let mut m = M::zeros(r, c); for i in 0..r { for j in 0..c { m.set(i, j, DD::new(f(i, j))); } } m }
    pub fn at(&self, i: usize, j: usize) -> DD { self.d[i * self.c + j] }
    pub fn set(&mut self, i: usize, j: usize, v: DD) { self.d[i * self.c + j] = v; }
    pub fn t(&self) -> M { let mut m = M::zeros(self.c, self.r); for i in 0..self.r { for j in 0..self.c { m.set(j, i, self.at(i, j)); } } m }
    pub fn mul(&self, o: &M) -> M { assert_eq!(self.c, o.r); let mut m = M::zeros(self.r, o.c); for i in 0..self.r { for j in 0..o.c { let mut a = DD::ZERO; for k in 0..self.c { a += self.at(i, k) * o.at(k, j); } m.set(i, j, a); } } m }
    pub fn add(&self, o: &M) -> M { let mut m = self.clone(); for (x, y) in m.d.iter_mut().zip(&o.d) { *x += *y; } m }
    pub fn sub(&self, o: &M) -> M { let mut m = self.clone(); for (x, y) in m.d.iter_mut().zip(&o.d) { *x -= *y; } m }
    pub fn scale(&self, s: f64) -> M { let mut m = self.clone(); for x in m.d.iter_mut() { *x = *x * DD::new(s); } m }
    pub fn max_abs(&self) -> f64 { self.d.iter().fold(0.0, |a, x| { let v = x.f().abs(); if v.is_nan() { f64::NAN } else if v > a { v } else { a } }) }
    pub fn frob(&self) -> f64 { self.d.iter().map(|x| x.f() * x.f()).sum::<f64>().sqrt() }
    pub fn norm1(&self) -> f64 { (0..self.c).map(|j| (0..self.r).map(|i| self.at(i, j).f().abs()).sum::<f64>()).fold(0.0, f64::max) }
    /// Gaussian elimination with partial pivoting on [A|B]; None when a pivot is exactly zero.
    pub fn solve(&self, b: &M) -> Option<M> {
        let n = self.r; let mut a = self.clone(); let mut x = b.clone();
        for k in 0..n {
            let mut p = k; for i in k + 1..n { if a.at(i, k).abs().f() > a.at(p, k).abs().f() { p = i; } }
            if a.at(p, k).f() == 0.0 { return None; }
            if p != k { for j in 0..n { let t = a.at(k, j); a.set(k, j, a.at(p, j)); a.set(p, j, t); } for j in 0..x.c { let t = x.at(k, j); x.set(k, j, x.at(p, j)); x.set(p, j, t); } }
            for i in k + 1..n { let f = a.at(i, k) / a.at(k, k); for j in k..n { let v = a.at(i, j) - f * a.at(k, j); a.set(i, j, v); } for j in 0..x.c { let v = x.at(i, j) - f * x.at(k, j); x.set(i, j, v); } }
        }
        for k in (0..n).rev() { for j in 0..x.c { let mut v = x.at(k, j); for l in k + 1..n { v -= a.at(k, l) * x.at(l, j); } x.set(k, j, v / a.at(k, k)); } }
        Some(x)
    }
    pub fn inv(&self) -> Option<M> { self.solve(&M::eye(self.r)) }
    pub fn det(&self) -> DD {
        let n = self.r; let mut a = self.clone(); let mut d = DD::ONE;
        for k in 0..n {
            let mut p = k; for i in k + 1..n { if a.at(i, k).abs().f() > a.at(p, k).abs().f() { p = i; } }
            if a.at(p, k).f() == 0.0 { return DD::ZERO; }
            if p != k { d = -d; for j in 0..n { let t = a.at(k, j); a.set(k, j, a.at(p, j)); a.set(p, j, t); } }
            d = d * a.at(k, k);
            for i in k + 1..n { let f = a.at(i, k) / a.at(k, k); for j in k..n { let v = a.at(i, j) - f * a.at(k, j); a.set(i, j, v); } }
        }
        d
    }
    /// exp(A) by Taylor series after scaling by 2^-s, then squaring; double-double accuracy.
    pub fn expm(&self) -> M {
        let n = self.r; let nrm = self.norm1(); let mut s = 0; let mut q = nrm; while q > 0.25 { q *= 0.5; s += 1; }
        let a = self.scale(0.5f64.powi(s)); let mut e = M::eye(n); let mut t = M::eye(n);
        for k in 1..30 { t = t.mul(&a); let kk = DD::new(k as f64); for x in t.d.iter_mut() { *x = *x / kk; } e = e.add(&t); }
        for _ in 0..s { e = e.mul(&e); }
        e
    }
    /// Eigenvalues (ascending) of a symmetric matrix by cyclic Jacobi.
    pub fn sym_eigs(&self) -> Vec<f64> {
        let n = self.r; let mut a = self.clone();
        for _ in 0..60 {
            let mut off = 0.0; for i in 0..n { for j in 0..n { if i != j { off += a.at(i, j).f().powi(2); } } }
            if off == 0.0 || off.sqrt() < 1e-28 * a.frob() { break; }
            for p in 0..n { for q in p + 1..n {
                let apq = a.at(p, q); if apq.f().abs() <= 1e-45 * a.frob() { a.set(p, q, DD::ZERO); a.set(q, p, DD::ZERO); continue; }
                let th = (a.at(q, q) - a.at(p, p)) / (apq * DD::new(2.0));
                let t = { let r = (th * th + DD::ONE).sqrt(); let d = th.abs() + r; let v = DD::ONE / d; if th.f() < 0.0 { -v } else { v } };
                let c = DD::ONE / (t * t + DD::ONE).sqrt(); let s = t * c;
                for k in 0..n { let x = a.at(k, p); let y = a.at(k, q); a.set(k, p, c * x - s * y); a.set(k, q, s * x + c * y); }
                for k in 0..n { let x = a.at(p, k); let y = a.at(q, k); a.set(p, k, c * x - s * y); a.set(q, k, s * x + c * y); }
            } }
        }
        let mut e: Vec<f64> = (0..n).map(|i| a.at(i, i).f()).collect(); e.sort_by(|x, y| x.partial_cmp(y).unwrap()); e
    }
    pub fn f(&self, i: usize, j: usize) -> f64 { self.at(i, j).f() }
}
