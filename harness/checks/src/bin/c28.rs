//! C28: second-order filters, cascades and the one-pole against analog prototypes and recurrences in double-double.
use checks::dims;
use checks::util::*;
use multicalc::error::SignalError as SE;
use multicalc::linear_algebra::Vector;
use multicalc::signal_processing::{harmonic_notch_coefficients, Biquad, BiquadCascade, BiquadCoefficients as BC, MultiChannelBiquad, OnePoleLowPass};
use vk::dd::DD;
use vk::*;

type C = (f64, f64);
fn div(a: C, b: C) -> C { let n = b.0 * b.0 + b.1 * b.1; ((a.0 * b.0 + a.1 * b.1) / n, (a.1 * b.0 - a.0 * b.1) / n) }
fn mag(a: C) -> f64 { a.0.hypot(a.1) }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Low, High, Band, Notch }
const KINDS: [Kind; 4] = [Kind::Low, Kind::High, Kind::Band, Kind::Notch];
fn design<T: Fl>(k: Kind, f: T, q: T, dt: T) -> Result<BC<T>, SE> { match k { Kind::Low => BC::low_pass(f, q, dt), Kind::High => BC::high_pass(f, q, dt), Kind::Band => BC::band_pass(f, q, dt), Kind::Notch => BC::notch(f, q, dt) } }
/// A centre as a fraction of the sampling rate, a sharpness that keeps the band inside it, and a timestep.
fn spec<T: Fl>(g: &mut G) -> (Kind, T, T, T) {
    let k = g.pick(&KINDS); let dt = if g.bool() { g.pick(&[1.0, 0.001, 0.01, 0.004]) } else { g.log10(-4.0, 1.0) };
    let fr = if g.chance(1, 4) { g.log10(if T::IS32 { -2.0 } else { -3.5 }, -0.31) } else if g.chance(1, 12) { 0.5 - g.log10(-3.0, -1.0) } else { g.f(0.005, 0.495) };
    let q = if g.chance(1, 3) { 0.70710678 } else { g.log10(-1.0, 1.7) };
    let q = if matches!(k, Kind::Band | Kind::Notch) { q.max(fr * 2.0 * 1.02) } else { q };
    (k, T::c(fr / dt), T::c(q), T::c(dt))
}
/// The exact response of the design at one frequency: the analog prototype through the bilinear map, or the band about its centre.
fn response(k: Kind, w0: f64, q: f64, w: f64) -> C {
    match k {
        Kind::Low | Kind::High => { let (s, c) = ((w / 2.0).sin(), (w / 2.0).cos()); let t0 = (w0 / 2.0).tan(); let (n, d) = (s, c * t0);
            // H = 1 / (1 - (n/d)^2 + j (n/d) / q), cleared of the division so that half the sampling rate is no special case
            let den = (d * d - n * n, n * d / q); div(if k == Kind::Low { (d * d, 0.0) } else { (-n * n, 0.0) }, den) }
        _ => { let a = (w0 / (2.0 * q)).tan(); let x = -2.0 * ((w + w0) / 2.0).sin() * ((w - w0) / 2.0).sin(); let y = a * w.sin(); // cos w - cos w0
            let den = (x, y); if k == Kind::Notch { div((x, 0.0), den) } else { div((0.0, y), den) } }
    }
}
fn designs<T: Fl>(g: &mut G) -> R {
    let (k, f, q, dt) = spec::<T>(g); g.note("shape,frequency,sharpness,timestep", &(k, f, q, dt)); let x = match design(k, f, q, dt) { Ok(x) => x, Err(e) => bad!("{e:?}") };
    let (fd, qd, td) = (f.g(), q.g(), dt.g()); let w0 = std::f64::consts::TAU * fd * td; ensure!(x.timestep() == dt); let (b, a) = (x.feed_forward().map(|x| x.g()), x.feedback().map(|x| x.g()));
    ensure!(x.is_stable(), "a designed filter is not stable: {a:?}"); ensure!(x == BC::new(x.feed_forward(), x.feedback(), dt).unwrap());
    // the poles really are inside the circle
    { let d = a[0] * a[0] - 4.0 * a[1]; let r = if d < 0.0 { a[1].sqrt() } else { (a[0].abs() + d.sqrt()) / 2.0 }; ensure!(r < 1.0 + 4.0 * T::EPS, "pole at {r}"); }
    let special = g.below(8); let fr = match special { 0 => 0.0, 1 => 0.5, 2 | 3 => fd * td, 4 => fd * td * g.f(0.9, 1.1), _ => g.f(0.0, 0.5) }; let fw = T::c(fr / td); let fw = if special == 2 { f } else { fw }; g.note("at", &fw); let w = std::f64::consts::TAU * fw.g() * td; let w = if special == 1 { std::f64::consts::PI } else { w };
    let den = mag((1.0 + a[0] * w.cos() + a[1] * (2.0 * w).cos(), a[0] * w.sin() + a[1] * (2.0 * w).sin())); let h = response(k, w0, qd, w); let e = T::EPS * 30.0 * (2.0 + b[0].abs() + b[1].abs() + b[2].abs()) * (1.0 + mag(h)) / den; let e = e * (1.0 + if matches!(k, Kind::Band | Kind::Notch) { let t = w0 / (2.0 * qd); (t / t.cos().powi(2) / t.tan()).min(1e6) } else { 0.0 }) * (1.0 + w);
    if !e.is_finite() || e > 0.05 { discard!() }
    let (m, p, db, lag) = (x.magnitude_at(fw).g(), x.phase_at(fw).g(), x.magnitude_in_decibels_at(fw).g(), x.delay_at(fw).g());
    close!(g, m, mag(h), e, "gain of {k:?} at {fw:?}"); if mag(h) > 10.0 * e { let dp = (p - h.1.atan2(h.0)) / std::f64::consts::TAU; close!(g, dp - dp.round(), 0.0, 4.0 * e / mag(h), "phase {p}, wanted {}", h.1.atan2(h.0)); close!(g, db, 20.0 * mag(h).log10(), 20.0 * e / mag(h) + T::EPS * 400.0, "decibels"); if fw != T::ZERO { close!(g, lag, -p / (std::f64::consts::TAU * fw.g()), T::EPS * 8.0 * (1.0 + p.abs()) / fw.g(), "delay"); } else { ensure!(lag == 0.0); } }
    // the promises of each shape, at the places that define it
    let zero = x.magnitude_at(T::ZERO).g(); let at = x.magnitude_at(f).g(); let want0 = if matches!(k, Kind::Low | Kind::Notch) { 1.0 } else { 0.0 }; let d0 = (1.0 + a[0] + a[1]).abs(); let e0 = T::EPS * 40.0 * (2.0 + b[1].abs()) / d0; if e0 < 0.05 { close!(g, zero, want0, e0, "gain of a steady input"); } ensure!(x.delay_at(T::ZERO) == T::ZERO);
    let dc = mag((1.0 + a[0] * w0.cos() + a[1] * (2.0 * w0).cos(), a[0] * w0.sin() + a[1] * (2.0 * w0).sin())); let ec = T::EPS * 200.0 * (2.0 + b[1].abs()) * (1.0 + at) * (1.0 + qd) / dc; if ec < 0.05 { close!(g, at, match k { Kind::Low | Kind::High => qd, Kind::Band => 1.0, Kind::Notch => 0.0 }, ec, "gain at its own frequency"); }
    g.label(match k { Kind::Low => "low", Kind::High => "high", Kind::Band => "band", Kind::Notch => "notch" }); g.nontrivial(); Ok(())
}
/// The documented recurrence, kept in twice the digits.
#[derive(Clone, Copy)]
struct Ref { b: [DD; 3], a: [DD; 2], s: [DD; 2], y: DD }
impl Ref {
    fn new<T: Fl>(c: &BC<T>) -> Ref { let mut r = Ref { b: [DD::ZERO; 3], a: [DD::ZERO; 2], s: [DD::ZERO; 2], y: DD::ZERO }; r.tune(c); r }
    fn tune<T: Fl>(&mut self, c: &BC<T>) { self.b = c.feed_forward().map(|x| DD::new(x.g())); self.a = c.feedback().map(|x| DD::new(x.g())); }
    fn step(&mut self, x: f64) -> f64 { let x = DD::new(x); let y = self.b[0] * x + self.s[0]; self.s[0] = self.b[1] * x - self.a[0] * y + self.s[1]; self.s[1] = self.b[2] * x - self.a[1] * y; self.y = y; y.f() }
    fn settle(&mut self, v: f64) { let v = DD::new(v); let y = v * (self.b[0] + self.b[1] + self.b[2]) / (DD::ONE + self.a[0] + self.a[1]); self.s[1] = self.b[2] * v - self.a[1] * y; self.s[0] = self.b[1] * v - self.a[0] * y + self.s[1]; self.y = y; }
    /// How much one unit of rounding can grow before it dies away.
    fn growth(&self) -> f64 { let (a, b) = (self.a[0].f(), self.a[1].f()); let (mut p, mut q, mut s) = (1.0f64, 0.0f64, 0.0); for _ in 0..400 { s += p.abs(); let n = -a * p - b * q; q = p; p = n; } s }
    fn size(&self) -> f64 { self.b.iter().map(|x| x.f().abs()).sum::<f64>() + self.a.iter().map(|x| x.f().abs()).sum::<f64>() + 1.0 }
}
fn weights<T: Fl>(g: &mut G) -> BC<T> {
    if g.chance(2, 3) { let (k, f, q, dt) = spec::<T>(g); design(k, f, q, dt).expect("valid design") }
    else { let r = g.f(0.0, 0.97); let (a1, a2) = if g.bool() { (-2.0 * r * g.f(-1.0, 1.0), r * r) } else { let s = g.f(-0.97, 0.97); (-(r + s), r * s) }; BC::new([T::c(g.f(-2.0, 2.0)), T::c(g.f(-2.0, 2.0)), T::c(g.f(-2.0, 2.0))], [T::c(a1), T::c(a2)], T::c(0.01)).expect("valid weights") }
}
fn sample(g: &mut G, i: usize, kind: u64) -> f64 { match kind { 0 => g.f(-1.0, 1.0), 1 => 1.0, 2 => (i == 0) as u8 as f64, 3 => (i as f64 * 0.7).sin() * 3.0, _ => g.f(-1.0, 1.0) * 10f64.powi(g.int(-3, 3) as i32) } }
fn running<T: Fl>(g: &mut G) -> R {
    let c = weights::<T>(g); g.note("weights", &c); let mut x = Biquad::new(c); let mut r = Ref::new(&c); ensure!(x.value() == T::ZERO && x.coefficients() == c); let kind = g.below(5) as u64; let n = 2 + g.size(1, 80); let (mut top, mut gain, mut err) = (0.0f64, r.growth(), 0.0f64); let (mut xs, mut ys): (Vec<f64>, Vec<f64>) = (vec![], vec![]); let mut pure = true; let mut acts = 0;
    for i in 0..n {
        if g.chance(1, 24) { match g.below(4) {
            0 => { let c = weights::<T>(g); g.note("retune", &c); let v = x.value(); x.set_coefficients(c); ensure!(x.coefficients() == c && x.value() == v, "retuning moved the output"); r.tune(&c); gain = gain.max(r.growth()); pure = false; acts += 1; }
            1 => { let v = T::c(g.f(-5.0, 5.0)); let cc = x.coefficients(); let f = cc.feedback().map(|x| x.g()); if (1.0 + f[0] + f[1]).abs() < 1e-3 { continue; } g.note("settle", &v); x.settle_to(v); r.settle(v.g()); pure = false; acts += 1; let k = (1.0 + f[0] + f[1]).abs(); err = T::EPS * 40.0 * r.size() * (v.g().abs() + r.y.f().abs()) / k; top = top.max(v.g().abs()).max(r.y.f().abs()); close!(g, x.value().g(), r.y.f(), err, "settled value"); err *= 4.0 * gain;
                let mut y = x; for _ in 0..5 { close!(g, y.filter(v).g(), r.y.f(), err + T::EPS * 20.0 * gain * r.size() * top, "a settled filter moves on the value it settled to"); } }
            2 => { g.note("reset", &i); x.reset(); r = Ref::new(&x.coefficients()); gain = r.growth(); ensure!(x == Biquad::new(x.coefficients()), "reset left a trace"); err = 0.0; top = 0.0; pure = true; xs.clear(); ys.clear(); acts += 1; }
            _ => { let mut y = x; let _ = y.filter(T::c(7.0)); ensure!(y.coefficients() == x.coefficients()); } } }
        let u = T::c(sample(g, i, kind)); let got = x.filter(u).g(); let want = r.step(u.g()); top = top.max(u.g().abs()).max(want.abs()); let tol = err + T::EPS * 12.0 * gain * r.size() * top; if !tol.is_finite() || tol > 1e6 { discard!() } ensure!(x.value().g() == got, "the last output"); close!(g, got, want, tol, "sample {i}");
        xs.push(u.g()); ys.push(got); if pure { let (b, a) = (r.b.map(|x| x.f()), r.a.map(|x| x.f())); let at = |v: &Vec<f64>, k: usize| if v.len() > k { v[v.len() - 1 - k] } else { 0.0 }; let direct = b[0] * at(&xs, 0) + b[1] * at(&xs, 1) + b[2] * at(&xs, 2) - a[0] * at(&ys, 1) - a[1] * at(&ys, 2); close!(g, got, direct, T::EPS * 12.0 * r.size() * top, "the difference equation at sample {i}"); }
    }
    g.label_if(acts > 0, "retuned, settled or reset"); g.nontrivial(); Ok(())
}
fn chain<const S: usize, T: Fl>(g: &mut G) -> R {
    let c: [BC<T>; S] = std::array::from_fn(|_| weights::<T>(g)); g.note("sections", &c); let mut x = BiquadCascade::<S, T>::new(c); let mut parts: Vec<Biquad<T>> = c.iter().map(|c| Biquad::new(*c)).collect(); let mut tops = 1e-30f64; ensure!(x.value() == T::ZERO && x.is_stable() == c.iter().all(|c| c.is_stable()));
    for i in 0..2 + g.size(1, 30) { match g.below(12) {
        0 => { let k = g.below(S + 2); let c = weights::<T>(g); let before = x; let r = x.set_section(k, c); if k < S { ensure!(r == Ok(())); parts[k].set_coefficients(c); } else { ensure!(r == Err(SE::SectionIndexOutOfRange) && x == before, "{r:?}"); } }
        1 => { let v = T::c(g.f(-3.0, 3.0)); x.settle_to(v); let mut u = v; for p in &mut parts { p.settle_to(u); u = p.value(); } }
        2 => { x.reset(); for p in &mut parts { p.reset(); } }
        _ => { let u = T::c(sample(g, i, 4)); let got = x.filter(u).g(); let mut v = u; for p in &mut parts { v = p.filter(v); tops = tops.max(v.g().abs()); } if !tops.is_finite() { discard!() } close!(g, got, v.g(), T::EPS * 1e3 * tops.max(u.g().abs()), "sample {i}"); }
    } let last = parts.last().map_or(0.0, |p| p.value().g()); if !last.is_finite() { discard!() } close!(g, x.value().g(), last, T::EPS * 1e3 * tops.max(last.abs()), "the value of the chain"); }
    let f = T::c(g.f(0.0, 0.5) / 0.01); let (mut m, mut p) = (1.0, 0.0); for s in &parts { m *= s.coefficients().magnitude_at(f).g(); p += s.coefficients().phase_at(f).g(); } close!(g, x.magnitude_at(f).g(), m, T::EPS * 20.0 * m + 1e-300, "gain of the chain"); close!(g, x.phase_at(f).g(), p, T::EPS * 20.0 * (1.0 + 4.0 * S as f64), "phase of the chain"); if m > 1e-30 { close!(g, x.magnitude_in_decibels_at(f).g(), 20.0 * m.log10(), T::EPS * 1e3 + T::EPS * 400.0 * m.ln().abs(), "decibels"); } if f != T::ZERO { close!(g, x.delay_at(f).g(), -p / (std::f64::consts::TAU * f.g()), T::EPS * 40.0 * (1.0 + 4.0 * S as f64) / f.g(), "delay"); } ensure!(x.delay_at(T::ZERO) == T::ZERO && x.is_stable() == parts.iter().all(|p| p.coefficients().is_stable()));
    if S > 0 { let mut y = x; let bad = BC::new([T::ONE, T::ZERO, T::ZERO], [T::ZERO, T::c(1.5)], T::ONE).unwrap(); let k = g.below(S); y.set_section(k, bad).unwrap(); ensure!(!y.is_stable(), "one runaway section and the chain is called stable"); } g.nontrivial_if(S > 0); Ok(())
}
fn channels<const N: usize, T: Fl>(g: &mut G) -> R {
    let c = weights::<T>(g); g.note("weights", &c); let mut x = MultiChannelBiquad::<N, T>::new(c); let mut parts: Vec<Biquad<T>> = vec![Biquad::new(c); N]; let same = |g: &mut G, a: Vector<N, T>, b: &[Biquad<T>]| -> R { for i in 0..N { let (x, y) = (a[i].g(), b[i].value().g()); if !y.is_finite() { discard!() } close!(g, x, y, T::EPS * 1e3 * (1.0 + y.abs()), "channel {i}"); } Ok(()) };
    for i in 0..2 + g.size(1, 30) { let v: Vector<N, T> = Vector::from_fn(|k| if k == 0 { T::c(sample(g, i, 0)) } else { T::c(g.f(-2.0, 2.0)) }); match g.below(10) { 0 => { let c = weights::<T>(g); x.set_coefficients(c); for p in &mut parts { p.set_coefficients(c); } } 1 => { x.settle_to(v); for k in 0..N { parts[k].settle_to(v[k]); } } 2 => { x.reset(); for p in &mut parts { p.reset(); } } _ => { let out = x.filter(v); for k in 0..N { let _ = parts[k].filter(v[k]); } same(g, out, &parts)?; } } same(g, x.value(), &parts)?; } g.nontrivial_if(N > 1); Ok(())
}
fn stability<T: Fl>(g: &mut G) -> R {
    let (a1, a2) = match g.below(3) { 0 => (g.f(-3.0, 3.0), g.f(-1.6, 1.6)), 1 => { let (r, s) = (g.f(-1.3, 1.3), g.f(-1.3, 1.3)); (-(r + s), r * s) } _ => { let (r, t) = (g.f(0.5, 1.3), g.f(0.0, 3.2)); (-2.0 * r * t.cos(), r * r) } }; let a = [T::c(a1), T::c(a2)]; g.note("feedback", &a); let c = BC::new([T::ONE, T::ZERO, T::ZERO], a, T::ONE).unwrap(); let (a1, a2) = (a[0].g(), a[1].g()); let d = a1 * a1 - 4.0 * a2; let r = if d < 0.0 { a2.sqrt() } else { (a1.abs() + d.sqrt()) / 2.0 }; if (1.0 + a2 - a1.abs()).abs() < 16.0 * T::EPS || (r - 1.0).abs() < 1e-5 { discard!() } ensure!(c.is_stable() == (r < 1.0), "largest pole {r}"); ensure!(BiquadCascade::<2, T>::new([c, c]).is_stable() == (r < 1.0)); g.label_if(r < 1.0, "stable"); g.nontrivial(); Ok(())
}
fn harmonics<const S: usize, T: Fl>(g: &mut G) -> R {
    let dt = T::c(g.log10(-4.0, 0.0)); let fr = g.log10(-2.5, -0.3); let f = T::c(fr / dt.g()); let q = T::c(g.log10(-0.3, 1.5)); g.note("fundamental,sharpness,timestep", &(f, q, dt)); let r = harmonic_notch_coefficients::<S, T>(f, q, dt); if S == 0 { ensure!(r == Err(SE::WindowTooShort)); return Ok(()); }
    let reach = f.g() * dt.g() * S as f64; let band = reach / q.g(); let edge = 0.5; if (reach - edge).abs() < if T::IS32 { 0.003 } else { 1e-5 } || (band - edge).abs() < 1e-5 { discard!() }
    if reach > edge || band > edge { ensure!(r == Err(SE::FrequencyOutOfRange), "{:?} with the top notch at {reach} of the sampling rate", r.map(|_| ())); g.label("refused"); g.nontrivial(); return Ok(()); }
    let s = match r { Ok(s) => s, Err(e) => bad!("{e:?}") }; for (i, c) in s.iter().enumerate() { let n = BC::notch(f * T::from_usize(i + 1), q, dt).expect("a section on its own"); ensure!(c.timestep() == dt); for k in 0..3 { close!(g, c.feed_forward()[k].g(), n.feed_forward()[k].g(), T::EPS * 40.0, "section {i}"); } for k in 0..2 { close!(g, c.feedback()[k].g(), n.feedback()[k].g(), T::EPS * 40.0, "section {i}"); } ensure!(c.is_stable()); } let x = BiquadCascade::<S, T>::new(s); for i in 0..S { let m = x.magnitude_at(f * T::from_usize(i + 1)).g(); let w = q.g() / (f.g() * dt.g() * (i + 1) as f64); ensure!(m <= T::EPS * 300.0 * (1.0 + w * w) * (i + 1) as f64 * w.max(1.0), "harmonic {} comes through at {m}", i + 1); } g.nontrivial(); Ok(())
}
fn errors<T: Fl>(g: &mut G) -> R {
    let v = |g: &mut G| T::c(match g.below(6) { 0 => g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]), 1 => g.pick(&[0.0, -0.0]), 2 => -g.log10(-3.0, 3.0), _ => g.log10(-3.0, 2.0) }); let (f, q, dt) = (v(g), v(g), v(g)); g.note("frequency,sharpness,timestep", &(f, q, dt)); let fin = |x: T| x.is_finite();
    for k in KINDS { let banded = matches!(k, Kind::Band | Kind::Notch); let r = design(k, f, q, dt); let want = if !fin(f) || !fin(q) || !fin(dt) { Some(SE::NonFinite) } else if dt <= T::ZERO { Some(SE::NonPositiveTimestep) } else if q <= T::ZERO { Some(SE::NonPositiveQualityFactor) } else if f <= T::ZERO || f.g() * dt.g() > 0.5001 || banded && f.g() * dt.g() / q.g() > 0.5001 { Some(SE::FrequencyOutOfRange) } else { None }; if want.is_none() && (f.g() * dt.g() > 0.4999 || banded && f.g() * dt.g() / q.g() > 0.4999) { continue; } ensure!(r.as_ref().err() == want.as_ref(), "{k:?}: {:?}, wanted {want:?}", r.err()); if let Ok(c) = r { let w = c.feed_forward(); ensure!(w.iter().chain(&c.feedback()).all(|x| x.is_finite()), "a design with weights {c:?}"); } }
    let w: Vec<T> = (0..5).map(|_| if g.chance(1, 8) { T::c(g.pick(&[f64::NAN, f64::INFINITY])) } else { T::c(g.f(-2.0, 2.0)) }).collect(); let r = BC::new([w[0], w[1], w[2]], [w[3], w[4]], dt); let want = if w.iter().any(|x| !x.is_finite()) || !fin(dt) { Some(SE::NonFinite) } else if dt <= T::ZERO { Some(SE::NonPositiveTimestep) } else { None }; ensure!(r.as_ref().err() == want.as_ref(), "{:?}, wanted {want:?}", r.err()); if let Ok(c) = r { ensure!(c.feed_forward() == [w[0], w[1], w[2]] && c.feedback() == [w[3], w[4]] && c.timestep() == dt); }
    let s = v(g); let r = OnePoleLowPass::new(s); let want = if !fin(s) { Some(SE::NonFinite) } else if s < T::ZERO || s > T::ONE { Some(SE::CoefficientOutOfRange) } else { None }; ensure!(r.as_ref().err() == want.as_ref(), "{:?}, wanted {want:?}", r.err()); ensure!(OnePoleLowPass::new(T::ONE).is_ok() && OnePoleLowPass::new(T::ZERO).is_ok());
    let r = OnePoleLowPass::from_cutoff(f, dt); let want = if !fin(f) || !fin(dt) { Some(SE::NonFinite) } else if dt <= T::ZERO { Some(SE::NonPositiveTimestep) } else if f < T::ZERO { Some(SE::FrequencyOutOfRange) } else { None }; ensure!(r.as_ref().err() == want.as_ref(), "{:?}, wanted {want:?}", r.err()); g.nontrivial(); Ok(())
}
fn one_pole<T: Fl>(g: &mut G) -> R {
    let (mut x, al) = if g.bool() { let a = T::c(if g.chance(1, 6) { g.pick(&[0.0, 1.0]) } else { g.f(0.0, 1.0) }); g.note("smoothing", &a); (OnePoleLowPass::new(a).unwrap(), a.g()) } else { let (f, dt) = (T::c(if g.chance(1, 8) { 0.0 } else { g.log10(-3.0, 4.0) }), T::c(g.log10(-4.0, 1.0))); g.note("cutoff,timestep", &(f, dt)); let a = std::f64::consts::TAU * f.g() * dt.g(); (OnePoleLowPass::from_cutoff(f, dt).unwrap(), a / (a + 1.0)) }; ensure!(x.value() == T::ZERO);
    let mut y: Option<f64> = None; let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY); let kind = g.below(5) as u64; let mut top = 0.0f64; for i in 0..2 + g.size(1, 60) { if g.chance(1, 20) { x.reset(); y = None; (lo, hi, top) = (f64::INFINITY, f64::NEG_INFINITY, 0.0); ensure!(x.value() == T::ZERO, "reset left {:?}", x.value()); } let u = T::c(sample(g, i, kind)); (lo, hi) = (lo.min(u.g()), hi.max(u.g())); top = top.max(u.g().abs()); let want = match y { None => u.g(), Some(y) => al * u.g() + (1.0 - al) * y }; y = Some(want); let got = x.filter(u).g(); if lo == hi && i == 0 { ensure!(got == u.g(), "the first sample does not seed the filter"); } close!(g, got, want, T::EPS * 8.0 * top / al.max(1.0 / 64.0), "sample {i}"); let e = T::EPS * 8.0 * top / al.max(1.0 / 64.0); ensure!(got >= lo - e && got <= hi + e, "outside the inputs"); ensure!(x.value().g() == got); } g.nontrivial(); Ok(())
}
fn chains(g: &mut G) -> R { dims!(g, chain, f64, 0, 1, 2, 3, 5, 9) }
fn chains_f32(g: &mut G) -> R { dims!(g, chain, f32, 1, 2, 4) }
fn channel_sets(g: &mut G) -> R { dims!(g, channels, f64, 0, 1, 3, 4, 8) }
fn channel_sets_f32(g: &mut G) -> R { dims!(g, channels, f32, 1, 3) }
fn harmonic_sets(g: &mut G) -> R { dims!(g, harmonics, f64, 0, 1, 2, 3, 5) }
fn harmonic_sets_f32(g: &mut G) -> R { dims!(g, harmonics, f32, 1, 2, 3) }
fn main() {
    run("C28", &["designs are checked from 3e-4 (f64) or 1e-2 (f32) of the sampling rate upward, where the stored weights still resolve the response"], &[
        law!("designs", 30_000, designs::<f64>, "a valid design"), law!("designs_f32", 20_000, designs::<f32>, "a valid design"),
        law!("running", 15_000, running::<f64>, "a filtered history"), law!("running_f32", 12_000, running::<f32>, "a filtered history"),
        law!("chain", 12_000, chains, "at least one section"), law!("chain_f32", 8_000, chains_f32, "at least one section"),
        law!("channels", 10_000, channel_sets, "several channels"), law!("channels_f32", 6_000, channel_sets_f32, "several channels"),
        law!("stability", 20_000, stability::<f64>, "poles away from the circle"), law!("stability_f32", 8_000, stability::<f32>, "poles away from the circle"),
        law!("harmonics", 10_000, harmonic_sets, "sections built or refused"), law!("harmonics_f32", 6_000, harmonic_sets_f32, "sections built or refused"),
        law!("errors", 20_000, errors::<f64>, "arguments tried"), law!("errors_f32", 10_000, errors::<f32>, "arguments tried"),
        law!("one_pole", 15_000, one_pole::<f64>, "a filtered history"), law!("one_pole_f32", 10_000, one_pole::<f32>, "a filtered history"),
    ]);
}
