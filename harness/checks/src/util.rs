use multicalc::Numeric;
/// Machine epsilon of a scalar type, as f64.
pub trait Fl: Numeric + multicalc::Primal + Send + Sync + 'static { const EPS: f64; const IS32: bool; fn c(x: f64) -> Self { Self::from_f64(x) } fn g(self) -> f64 { self.to_f64() } }
impl Fl for f64 { const EPS: f64 = f64::EPSILON; const IS32: bool = false; }
impl Fl for f32 { const EPS: f64 = f32::EPSILON as f64; const IS32: bool = true; }
/// Rounds to the scalar type's grid.
pub fn rnd<T: Fl>(x: f64) -> f64 { T::from_f64(x).to_f64() }
/// The value of a plain f64 or f32 behind a generic scalar; None for every autodiff scalar.
pub fn plain<S: Numeric>(x: S) -> Option<f64> {
    let n = std::any::type_name::<S>();
    // SAFETY: the type name pins the type to the primitive read here
    if n == "f64" { Some(unsafe { std::mem::transmute_copy::<S, f64>(&x) }) } else if n == "f32" { Some(unsafe { std::mem::transmute_copy::<S, f32>(&x) } as f64) } else { None }
}
