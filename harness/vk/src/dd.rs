//! Double-double arithmetic (about 106 significant bits) for reference computations.
use std::ops::*;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct DD { pub hi: f64, pub lo: f64 }
fn two_sum(a: f64, b: f64) -> (f64, f64) { let s = a + b; let bb = s - a; (s, (a - (s - bb)) + (b - bb)) }
fn quick(a: f64, b: f64) -> DD { let s = a + b; DD { hi: s, lo: b - (s - a) } }
fn two_prod(a: f64, b: f64) -> (f64, f64) { let p = a * b; (p, a.mul_add(b, -p)) }
impl DD {
    pub const ZERO: DD = DD { hi: 0.0, lo: 0.0 };
    pub const ONE: DD = DD { hi: 1.0, lo: 0.0 };
    pub fn new(x: f64) -> DD { DD { hi: x, lo: 0.0 } }
    pub fn f(self) -> f64 { self.hi + self.lo }
    pub fn abs(self) -> DD { if self.hi < 0.0 || (self.hi == 0.0 && self.lo < 0.0) { -self } else { self } }
    pub fn sqrt(self) -> DD {
        if self.hi <= 0.0 { return DD::ZERO; }
        let x = DD::new(self.hi.sqrt());
        let r = self - x * x;
        let y = x + DD::new(r.f() / (2.0 * x.hi));
        let r2 = self - y * y;
        y + DD::new(r2.f() / (2.0 * y.hi))
    }
    pub fn powi(self, n: i32) -> DD { let mut r = DD::ONE; let mut b = self; let mut e = n.unsigned_abs(); while e > 0 { if e & 1 == 1 { r = r * b; } b = b * b; e >>= 1; } if n < 0 { DD::ONE / r } else { r } }
}
impl From<f64> for DD { fn from(x: f64) -> DD { DD::new(x) } }
impl Neg for DD { type Output = DD; fn neg(self) -> DD { DD { hi: -self.hi, lo: -self.lo } } }
impl Add for DD { type Output = DD; fn add(self, o: DD) -> DD { let (s, e) = two_sum(self.hi, o.hi); let (t, f) = two_sum(self.lo, o.lo); let r = quick(s, e + t); quick(r.hi, r.lo + f) } }
impl Sub for DD { type Output = DD; fn sub(self, o: DD) -> DD { self + (-o) } }
impl Mul for DD { type Output = DD; fn mul(self, o: DD) -> DD { let (p, e) = two_prod(self.hi, o.hi); quick(p, e + (self.hi * o.lo + self.lo * o.hi)) } }
impl Div for DD { type Output = DD; fn div(self, o: DD) -> DD { let q1 = self.hi / o.hi; let r = self - o * DD::new(q1); let q2 = r.hi / o.hi; let r = r - o * DD::new(q2); let q3 = r.hi / o.hi; let q = quick(q1, q2); q + DD::new(q3) } }
impl AddAssign for DD { fn add_assign(&mut self, o: DD) { *self = *self + o; } }
impl SubAssign for DD { fn sub_assign(&mut self, o: DD) { *self = *self - o; } }
impl MulAssign for DD { fn mul_assign(&mut self, o: DD) { *self = *self * o; } }
impl PartialOrd for DD { fn partial_cmp(&self, o: &DD) -> Option<std::cmp::Ordering> { (*self - *o).f().partial_cmp(&0.0) } }
