//! C29: windowed statistics and signal conditioners against brute force over the whole history.
use checks::dims;
use checks::util::*;
use multicalc::error::SignalError as SE;
use multicalc::signal_processing::{Deadband, Hysteresis, MovingAverage, RunningMedian, SavitzkyGolay, SlewRateLimiter};
use vk::dd::DD;
use vk::*;

/// The window a filter of `n` samples sees after this history: the first sample stands in for everything before it.
fn window(h: &[f64], n: usize) -> Vec<f64> { (0..n).map(|i| { let k = h.len() as i64 - n as i64 + i as i64; h[k.max(0) as usize] }).collect() }
fn sig<T: Fl>(g: &mut G, i: usize, kind: u64) -> T { T::c(match kind { 0 => g.f(-1.0, 1.0), 1 => i as f64 * 0.25 - 3.0, 2 => if g.chance(1, 5) { 1e3 * g.sign() } else { g.f(-1.0, 1.0) }, 3 => g.int(-2, 3) as f64, 4 => g.f(-1.0, 1.0) * 10f64.powi(g.int(-6, 6) as i32), _ => 1e6 + g.f(-1.0, 1.0) }) }

fn average<const W: usize, T: Fl>(g: &mut G) -> R {
    let r = MovingAverage::<W, T>::new(); if W == 0 { ensure!(r == Err(SE::WindowTooShort)); return Ok(()); } let mut x = r.unwrap(); ensure!(x.value() == T::ZERO); let mut h: Vec<f64> = vec![]; let kind = g.below(6) as u64;
    for i in 0..1 + g.size(1, 40) { if g.chance(1, 20) { x.reset(); h.clear(); ensure!(x == MovingAverage::new().unwrap(), "reset left a trace"); } let u = sig::<T>(g, i, kind); h.push(u.g()); let got = x.filter(u).g(); let w = window(&h, W); let want = w.iter().fold(DD::ZERO, |a, b| a + DD::new(*b)).f() / W as f64; let top = w.iter().fold(0.0f64, |a, b| a.max(b.abs())); close!(g, got, want, T::EPS * (W as f64 + 3.0) * top, "average of {w:?}"); ensure!(x.value().g() == got, "the value of an unfed filter"); g.nontrivial_if(h.len() > W); }
    Ok(())
}
fn median<const W: usize, T: Fl>(g: &mut G) -> R {
    let r = RunningMedian::<W, T>::new(); if W == 0 { ensure!(r == Err(SE::WindowTooShort)); return Ok(()); } if W % 2 == 0 { ensure!(r == Err(SE::WindowEvenLength)); return Ok(()); } let mut x = r.unwrap(); ensure!(x.value() == T::ZERO); let mut h: Vec<f64> = vec![]; let kind = g.below(6) as u64; let wild = g.chance(1, 4);
    for i in 0..1 + g.size(1, 40) { if g.chance(1, 20) { x.reset(); h.clear(); ensure!(x == RunningMedian::new().unwrap(), "reset left a trace"); } let u = if wild && g.chance(1, 6) { T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])) } else { sig::<T>(g, i, kind) }; g.note("sample", &u); h.push(u.g()); let got = x.filter(u).g(); let mut w = window(&h, W); let lost = w.iter().filter(|x| x.is_nan()).count();
        // a lost reading is one more wild one: wherever it is put, the middle stays within the readings that were got
        w.sort_by(f64::total_cmp); let mut real: Vec<f64> = w.iter().copied().filter(|x| !x.is_nan()).collect(); real.sort_by(f64::total_cmp);
        if lost == 0 { ensure!(got == w[W / 2], "median {got} of {w:?}"); } else if lost <= W / 2 { let (a, b) = (real[(W / 2).saturating_sub(lost)], real[(W / 2).min(real.len() - 1)]); ensure!(got >= a && got <= b, "{got} with {lost} readings lost among {w:?}"); g.label("readings lost"); }
        let v = x.value().g(); ensure!(v == got || v.is_nan() && got.is_nan()); g.nontrivial_if(h.len() > W); }
    Ok(())
}
/// Least squares over the window in double-double: the fitted coefficients about the reading position, and how the fit magnifies errors.
fn fit(w: &[f64], terms: usize, at: usize) -> (Vec<f64>, f64) {
    let n = w.len(); let s = (n as f64 / 2.0).max(1.0); let a: Vec<Vec<DD>> = (0..n).map(|i| { let o = DD::new(i as f64 - at as f64) / DD::new(s); (0..terms).map(|t| o.powi(t as i32)).collect() }).collect();
    // modified Gram-Schmidt, carrying the right-hand side along
    let mut q: Vec<Vec<DD>> = (0..terms).map(|t| (0..n).map(|i| a[i][t]).collect()).collect(); let mut r = vec![vec![DD::ZERO; terms]; terms]; let mut y = vec![DD::ZERO; terms]; let mut b: Vec<DD> = w.iter().map(|x| DD::new(*x)).collect();
    let dot = |x: &[DD], y: &[DD]| x.iter().zip(y).fold(DD::ZERO, |s, (a, b)| s + *a * *b);
    for t in 0..terms { let l = dot(&q[t], &q[t]).sqrt(); r[t][t] = l; for i in 0..n { q[t][i] = q[t][i] / l; } for u in t + 1..terms { let d = dot(&q[t].clone(), &q[u]); r[t][u] = d; for i in 0..n { q[u][i] = q[u][i] - d * q[t][i]; } } let d = dot(&q[t].clone(), &b); y[t] = d; for i in 0..n { b[i] = b[i] - d * q[t][i]; } }
    let mut c = vec![DD::ZERO; terms]; for t in (0..terms).rev() { let mut v = y[t]; for u in t + 1..terms { v = v - r[t][u] * c[u]; } c[t] = v / r[t][t]; }
    let small = (0..terms).fold(f64::INFINITY, |m, t| m.min(r[t][t].f())); let _ = small; (c.iter().enumerate().map(|(t, v)| v.f() / s.powi(t as i32)).collect(), (n as f64).sqrt() / small)
}
fn smoother<const W: usize, const P: usize, T: Fl>(g: &mut G) -> R {
    let dt = T::c(if g.bool() { g.pick(&[0.001, 0.01, 1.0, 0.5]) } else { g.log10(-3.0, 1.0) }); let centre = g.bool(); g.note("window,terms,timestep,centred", &(W, P, dt, centre)); let r = if centre { SavitzkyGolay::<W, P, T>::centered(dt) } else { SavitzkyGolay::<W, P, T>::latest(dt) };
    let want = if centre && W % 2 == 0 { Some(SE::WindowEvenLength) } else if W == 0 || P == 0 { Some(SE::WindowTooShort) } else if P > W { Some(SE::PolynomialOrderTooHigh) } else { None }; ensure!(r.as_ref().err() == want.as_ref(), "{:?}, wanted {want:?}", r.err());
    for (v, e) in [(f64::NAN, SE::NonFinite), (f64::INFINITY, SE::NonFinite), (0.0, SE::NonPositiveTimestep), (-0.5, SE::NonPositiveTimestep)] { let l = SavitzkyGolay::<W, P, T>::latest(T::c(v)).err(); ensure!(l == Some(e), "{l:?} for a timestep of {v}"); if W % 2 == 1 { ensure!(SavitzkyGolay::<W, P, T>::centered(T::c(v)).err() == Some(e)); } }
    let Ok(mut x) = r else { g.nontrivial(); return Ok(()) }; let fresh = x; let at = if centre { W / 2 } else { W - 1 }; close!(g, x.delay().g(), (W - 1 - at) as f64 * dt.g(), T::EPS * 4.0 * (W as f64) * dt.g(), "delay"); if !centre { ensure!(x.delay() == T::ZERO); } ensure!(x.value() == T::ZERO && x.first_derivative() == T::ZERO && x.second_derivative() == T::ZERO);
    let kind = g.below(7) as u64; let poly: Vec<f64> = (0..P).map(|_| g.f(-1.0, 1.0)).collect(); let mut h: Vec<f64> = vec![];
    // what one rounding in the fit can do, from the conditioning of its own unscaled columns
    let raw = { let far = at.max(W - 1 - at) as f64; far.powi(P as i32 - 1).max(1.0) };
    for i in 0..1 + g.size(1, 2 * W + 6) { if g.chance(1, 25) { x.reset(); h.clear(); ensure!(x == fresh, "reset left a trace"); } let exact = kind == 6; let u = if exact { let t = i as f64 - 10.0; T::c(poly.iter().enumerate().map(|(k, c)| c * (t / 10.0).powi(k as i32)).sum()) } else { sig::<T>(g, i, kind) }; h.push(u.g()); let got = x.filter(u).g(); let w = window(&h, W); let top = w.iter().fold(1e-30f64, |a, b| a.max(b.abs())); let (c, k) = fit(&w, P, at); let e = T::EPS * 40.0 * (W as f64) * k * raw * top; if e > 0.1 * top { discard!() }
        close!(g, got, c[0], e, "smoothed value of {w:?}"); ensure!(x.value().g() == got); let (d1, d2) = (x.first_derivative().g(), x.second_derivative().g()); let d = dt.g(); if P < 2 { ensure!(d1 == 0.0); } else { close!(g, d1, c[1] / d, e / d, "slope over {w:?}"); } if P < 3 { ensure!(d2 == 0.0); } else { close!(g, d2, 2.0 * c[2] / (d * d), 2.0 * e / (d * d), "bend over {w:?}"); }
        g.label_if(exact && h.len() >= W, "a curve the fit reproduces"); g.nontrivial_if(h.len() > W); }
    Ok(())
}
fn band<T: Fl>(g: &mut G) -> R {
    let t = T::c(match g.below(8) { 0 => g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]), 1 => -g.log10(-6.0, 3.0), 2 => g.pick(&[0.0, -0.0]), _ => g.log10(-3.0, 2.0) }); g.note("threshold", &t); let want = if !t.is_finite() { Some(SE::NonFinite) } else if t < T::ZERO { Some(SE::NegativeThreshold) } else { None }; let (p, r) = (Deadband::plain(t), Deadband::recentered(t)); ensure!(p.as_ref().err() == want.as_ref() && r.as_ref().err() == want.as_ref(), "{:?} {:?}", p.err(), r.err()); let (Ok(p), Ok(r)) = (p, r) else { g.nontrivial(); return Ok(()) }; ensure!(p.threshold() == t && r.threshold() == t);
    let mut prev: Option<(f64, f64)> = None; for i in 0..6 { let x = match g.below(5) { 0 => t, 1 => -t, 2 => T::ZERO, 3 => T::c(t.g() * g.f(-3.0, 3.0)), _ => T::c(g.sign() * g.log10(-4.0, 4.0)) }; let x = if i == 5 { T::c(g.f(-1.0, 1.0)) } else { x }; let (a, b) = (p.apply(x).g(), r.apply(x).g()); let (xd, td) = (x.g(), t.g()); if xd.abs() <= td { ensure!(a == 0.0 && b == 0.0, "{x:?} is inside the band"); } else { ensure!(a == xd, "{x:?} came out as {a}"); close!(g, b, xd - td * xd.signum(), T::EPS * 2.0 * (xd.abs() + td), "{x:?} slid back"); ensure!(b * xd >= 0.0); } close!(g, -p.apply(-x).g(), a, 0.0, "the band is lopsided"); close!(g, -r.apply(-x).g(), b, 0.0, "the band is lopsided");
        if let Some((px, pb)) = prev { ensure!((b - pb).abs() <= (xd - px).abs() + T::EPS * 8.0 * (xd.abs() + px.abs() + td), "a re-centred band jumps"); } prev = Some((xd, b)); } g.nontrivial(); Ok(())
}
fn switch<T: Fl>(g: &mut G) -> R {
    let v = |g: &mut G| T::c(if g.chance(1, 16) { g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) } else { g.int(-4, 5) as f64 * 0.5 }); let (lo, hi) = (v(g), v(g)); g.note("thresholds", &(lo, hi)); let r = Hysteresis::new(lo, hi); let want = if !lo.is_finite() || !hi.is_finite() { Some(SE::NonFinite) } else if lo >= hi { Some(SE::ThresholdsOutOfOrder) } else { None }; ensure!(r.as_ref().err() == want.as_ref(), "{:?}, wanted {want:?}", r.err()); let Ok(mut x) = r else { return Ok(()) }; ensure!(!x.is_high()); let mut on = false; let mut flips = 0;
    for _ in 0..1 + g.size(1, 30) { if g.chance(1, 20) { x.reset(); on = false; ensure!(!x.is_high()); } let u = match g.below(8) { 0 => lo, 1 => hi, 2 => T::c(g.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN])), _ => T::c(g.f(lo.g() - 1.0, hi.g() + 1.0)) }; g.note("value", &u); let was = on; on = if u > hi { true } else if u < lo { false } else { on }; flips += (was != on) as u32; ensure!(x.update(u) == on && x.is_high() == on, "{u:?} left the answer {}", x.is_high()); } g.nontrivial_if(flips > 0); Ok(())
}
fn slew<T: Fl>(g: &mut G) -> R {
    let v = |g: &mut G| T::c(match g.below(16) { 0 => g.pick(&[f64::NAN, f64::INFINITY, 0.0, -1.0]), _ => g.log10(-2.0, 2.0) }); let (up, down, dt) = (v(g), v(g), v(g)); g.note("rise,fall,timestep", &(up, down, dt)); let fin = up.is_finite() && down.is_finite() && dt.is_finite(); let want = if !fin { Some(SE::NonFinite) } else if dt <= T::ZERO { Some(SE::NonPositiveTimestep) } else if up <= T::ZERO || down <= T::ZERO { Some(SE::NonPositiveRate) } else { None }; let r = SlewRateLimiter::new(up, down, dt); ensure!(r.as_ref().err() == want.as_ref(), "{:?}, wanted {want:?}", r.err()); let s = SlewRateLimiter::symmetric(up, dt); ensure!(s == SlewRateLimiter::new(up, up, dt), "the same rate both ways"); let Ok(fresh) = r else { return Ok(()) };
    let mut x = fresh; let mut y: Option<f64> = None; let (ru, rd) = (up.g() * dt.g(), down.g() * dt.g()); let mut target = T::c(0.0); let (mut limited, mut top) = (false, 0.0f64); ensure!(x.value() == T::ZERO);
    for i in 0..1 + g.size(1, 40) { if g.chance(1, 20) { x.reset(); y = None; ensure!(x == fresh, "reset left a trace"); } if i == 0 || g.chance(1, 3) { target = T::c(match g.below(4) { 0 => y.unwrap_or(0.0) + g.f(-1.2, 1.2) * ru.max(rd), 1 => y.unwrap_or(0.0) + ru, _ => g.f(-10.0, 10.0) * (ru + rd) }); } g.note("target", &target); let t = target.g(); let got = x.filter(target).g(); top = top.max(t.abs()).max(got.abs()); let e = T::EPS * 4.0 * (top + ru + rd);
        match y { None => ensure!(got == t, "the first call does not jump to its target"), Some(p) => { close!(g, got, if t - p > ru { p + ru } else if t - p < -rd { p - rd } else { t }, e, "from {p} towards {t}"); ensure!(got <= p + ru + e && got >= p - rd - e, "moved {} in one call", got - p); ensure!((got - t) * (p - t) >= -e * top.max(1.0) && (got - t).abs() <= (p - t).abs() + e, "overshot {t}: {p} to {got}"); if t - p > ru || t - p < -rd { limited = true; } } } y = Some(got); ensure!(x.value().g() == got); }
    g.nontrivial_if(limited); Ok(())
}
fn averages(g: &mut G) -> R { dims!(g, average, f64, 0, 1, 2, 3, 4, 7, 16, 40) }
fn averages_f32(g: &mut G) -> R { dims!(g, average, f32, 1, 2, 5, 16) }
fn medians(g: &mut G) -> R { dims!(g, median, f64, 0, 1, 2, 3, 5, 7, 11, 24) }
fn medians_f32(g: &mut G) -> R { dims!(g, median, f32, 1, 3, 4, 9) }
fn smoothers(g: &mut G) -> R { checks::dims2!(g, smoother, f64, (0, 1), (1, 0), (1, 1), (2, 1), (2, 2), (3, 3), (3, 5), (4, 2), (5, 2), (5, 3), (5, 5), (7, 3), (7, 4), (9, 4), (11, 3), (11, 5), (15, 2), (21, 3)) }
fn smoothers_f32(g: &mut G) -> R { checks::dims2!(g, smoother, f32, (1, 1), (2, 2), (3, 2), (3, 3), (5, 1), (5, 3), (7, 2), (7, 3), (9, 3), (11, 2)) }
fn main() {
    run("C29", &["smoother windows up to 21 samples and 5 terms, where the fit is well enough conditioned to be compared"], &[
        law!("average", 12_000, averages, "the window has turned over"), law!("average_f32", 8_000, averages_f32, "the window has turned over"),
        law!("median", 15_000, medians, "the window has turned over"), law!("median_f32", 10_000, medians_f32, "the window has turned over"),
        law!("smoother", 12_000, smoothers, "the window has turned over, or the shape was refused"), law!("smoother_f32", 8_000, smoothers_f32, "the window has turned over, or the shape was refused"),
        law!("deadband", 15_000, band::<f64>, "a threshold tried"), law!("deadband_f32", 10_000, band::<f32>, "a threshold tried"),
        law!("hysteresis", 15_000, switch::<f64>, "the answer changed"), law!("hysteresis_f32", 10_000, switch::<f32>, "the answer changed"),
        law!("slew", 15_000, slew::<f64>, "the rate limit acted"), law!("slew_f32", 10_000, slew::<f32>, "the rate limit acted"),
    ]);
}
