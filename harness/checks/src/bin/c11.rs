//! C11: real-root finding, closed form and by isolation, against polynomials built from known roots.
#![allow(unused_must_use)]
use checks::util::*;
use multicalc::error::PolynomialError as E;
use multicalc::{Dual, Polynomial as P};
use vk::dd::DD;
use vk::*;

/// What a polynomial was built from: its real roots (ascending), its complex pairs (re, im) and its coefficients.
struct Built { real: Vec<f64>, pairs: Vec<(f64, f64)>, c: Vec<f64> }
fn expand(lead: f64, real: &[f64], pairs: &[(f64, f64)]) -> Vec<f64> {
    let mut c = vec![DD::new(lead)];
    let mut by = |f: &[DD]| { let mut n = vec![DD::ZERO; c.len() + f.len() - 1]; for i in 0..c.len() { for j in 0..f.len() { n[i + j] += c[i] * f[j]; } } c = n; };
    for &r in real { by(&[DD::new(-r), DD::ONE]); }
    for &(a, b) in pairs { by(&[DD::new(a) * DD::new(a) + DD::new(b) * DD::new(b), DD::new(-2.0) * DD::new(a), DD::ONE]); }
    c.iter().map(|x| x.f()).collect()
}
/// Distance from a real root to every other root, and the largest modulus.
fn gap(b: &Built, i: usize) -> f64 { let r = b.real[i]; let mut m = f64::INFINITY; for (j, &s) in b.real.iter().enumerate() { if j != i { m = m.min((r - s).abs()); } } for &(x, y) in &b.pairs { m = m.min((r - x).hypot(y)); } m }
fn radius(b: &Built) -> f64 { b.real.iter().map(|r| r.abs()).chain(b.pairs.iter().map(|p| p.0.hypot(p.1))).fold(0.0, f64::max) }
/// First-order movement of root i when every coefficient moves by a relative eps; coefficients seen about the centroid as the solvers do.
fn sens(b: &Built, i: usize) -> f64 {
    let n = b.c.len() - 1; let r = b.real[i]; let rad = radius(b); let lead = b.c[n].abs();
    let mut d = 1.0; for (j, &s) in b.real.iter().enumerate() { if j != i { d *= (r - s).abs(); } } for &(x, y) in &b.pairs { d *= (r - x).powi(2) + y * y; }
    let _ = lead; rad.powi(n as i32 - 1) / d * n as f64
}
fn build<T: Fl>(g: &mut G, deg: usize, minsep: f64) -> Option<Built> {
    let scale = match g.below(4) { 0 => if T::IS32 { g.log10(-1.0, 1.0) } else { g.log10(-8.0, 8.0) }, _ => 1.0 };
    let npair = g.below(deg / 2 + 1); let nreal = deg - 2 * npair;
    let kind = g.below(5); let off = g.f(-2.0, 2.0);
    let mut real: Vec<f64> = (0..nreal).map(|i| match kind { 0 => g.int(-6, 6) as f64, 1 => g.f(-3.0, 3.0), 2 => if i % 2 == 0 { off + g.f(0.1, 2.0) } else { 0.0 }, 3 => g.slog10(-2.0, 1.0), _ => g.u(-1.0, 1.0) }).collect();
    if kind == 2 { for i in (1..nreal).step_by(2) { real[i] = 2.0 * off - real[i - 1]; } g.label("symmetric"); }
    let mut pairs: Vec<(f64, f64)> = (0..npair).map(|_| (if kind == 2 { off } else if kind == 0 { g.int(-4, 4) as f64 } else { g.f(-3.0, 3.0) }, if kind == 0 { g.int(1, 4) as f64 } else { g.log10(-1.0, 0.5) })).collect();
    for r in real.iter_mut() { *r *= scale; } for p in pairs.iter_mut() { p.0 *= scale; p.1 *= scale; }
    real.sort_by(|a, b| a.total_cmp(b));
    let lead = g.pick(&[1.0, -1.0, 2.0, -0.3, 7.0]); let lead = if g.chance(1, 4) { lead * if T::IS32 { g.log10(-3.0, 3.0) } else { g.log10(-20.0, 20.0) } } else { lead };
    let b = Built { c: expand(lead, &real, &pairs), real, pairs }; let rad = radius(&b);
    for i in 0..nreal { if gap(&b, i) < minsep * rad { return None; } }
    for (k, p) in b.pairs.iter().enumerate() { if p.1 < minsep * rad { return None; } for q in &b.pairs[k + 1..] { if (p.0 - q.0).hypot(p.1 - q.1) < minsep * rad * 0.5 { return None; } } }
    Some(b)
}
fn poly<const N: usize, T: Fl>(c: &[f64]) -> P<N, T> { P::new(core::array::from_fn(|i| T::c(c.get(i).copied().unwrap_or(0.0)))) }

macro_rules! closed { ($name:ident, $n:literal, $deg:literal) => {
    fn $name<T: Fl>(g: &mut G) -> R {
        let minsep = if T::IS32 { 0.15 } else { g.pick(&[0.2, 0.05, 0.01]) };
        let Some(b) = build::<T>(g, $deg, minsep) else { discard!() };
        let p = poly::<$n, T>(&b.c); g.note("real", &b.real); g.note("pairs", &b.pairs); g.note("p", &p);
        let amp = (0..b.real.len()).map(|i| sens(&b, i)).fold(1.0, f64::max); if T::EPS * amp > 1e-4 { discard!() }
        let rt = match p.real_roots() { Ok(r) => r, Err(e) => bad!("rejected: {e:?}") }; let got: Vec<f64> = rt.as_slice().iter().map(|x| x.g()).collect();
        ensure!(rt.len() == got.len() && rt.is_empty() == got.is_empty()); ensure!(got.iter().all(|x| x.is_finite()), "non-finite root {got:?}"); ensure!(got.windows(2).all(|w| w[0] <= w[1]), "not ascending {got:?}");
        ensure!(got.len() == b.real.len(), "{} real roots {:?}, found {got:?}", b.real.len(), b.real); let rad = radius(&b);
        for i in 0..got.len() { close!(g, got[i], b.real[i], T::EPS * rad * 400.0 * amp, "root {i}, worst sensitivity {amp:.1e}"); }
        // implicit-function derivatives with respect to each coefficient
        if amp < 1e4 { for k in 0..$n {
            let pd: P<$n, Dual<T>> = P::new(core::array::from_fn(|i| Dual::new(p.coefficients()[i], if i == k { T::ONE } else { T::ZERO })));
            let rd = match pd.real_roots() { Ok(r) => r, Err(e) => bad!("dual coefficients rejected: {e:?}") }; ensure!(rd.len() == got.len());
            for i in 0..got.len() { let x = rd.as_slice()[i]; close!(g, x.value.g(), got[i], T::EPS * rad * 400.0 * amp, "value part of root {i}"); let r = b.real[i]; let s: f64 = (1..=$deg).map(|j| j as f64 * b.c[j] * r.powi(j as i32 - 1)).sum(); let w = -r.powi(k as i32) / s; let den = rad.powi(k as i32) / s.abs();
                if !b.real.windows(2).any(|w| w[0] == w[1]) { close!(g, x.deriv.g(), w, T::EPS * 4000.0 * amp * amp * (den + w.abs()), "d root {i} / d coefficient {k}"); } }
        } }
        g.label(match b.real.len() { 0 => "no real root", 1 => "one", 2 => "two", 3 => "three", _ => "four" }); g.nontrivial_if(!b.real.is_empty()); Ok(())
    }
} }
closed!(deg1, 2, 1);
closed!(deg2, 3, 2);
closed!(deg3, 4, 3);
closed!(deg4, 5, 4);
fn closed_any(g: &mut G) -> R { match g.below(8) { 0 => deg1::<f64>(g), 1 => deg2::<f64>(g), 2 | 3 | 4 => deg3::<f64>(g), _ => deg4::<f64>(g) } }
fn closed_any32(g: &mut G) -> R { match g.below(8) { 0 => deg1::<f32>(g), 1 => deg2::<f32>(g), 2 | 3 | 4 => deg3::<f32>(g), _ => deg4::<f32>(g) } }

/// Roots of arbitrary coefficients: finite, ascending, no more than the degree, and each one a root to half precision.
macro_rules! anyc { ($g:expr, $n:literal, $T:ty) => {{ let g = $g; type T = $T;
    let kind = g.below(5); let c: [f64; $n] = core::array::from_fn(|_| match kind { 0 => g.int(-3, 3) as f64, 1 => g.slog10(-4.0, 2.0), 2 => if g.bool() { 0.0 } else { g.int(-9, 9) as f64 }, _ => g.f(-3.0, 3.0) });
    let p = poly::<$n, T>(&c); g.note("p", &p); let c: Vec<f64> = p.coefficients().iter().map(|x| x.g()).collect();
    let r = p.real_roots(); if c[$n - 1] == 0.0 { ensure!(r == Err(E::LeadingCoefficientZero), "{r:?}"); return Ok(()); }
    let r = match r { Ok(r) => r, Err(e) => bad!("rejected {c:?}: {e:?}") }; ensure!(r.len() <= $n - 1); ensure!(r.as_slice().windows(2).all(|w| w[0] <= w[1]));
    let lead = c[$n - 1]; let deg = $n - 1; let cb = p.cauchy_root_bound().unwrap().g(); let rad = (0..deg).map(|i| (c[i] / lead).abs().powf(1.0 / (deg - i) as f64)).fold(0.0, f64::max) * 2.0;
    for x in r.as_slice() { let x = x.g(); ensure!(x.is_finite(), "root {x} of {c:?}"); ensure!(x.abs() <= cb * (1.0 + 1e-3), "root {x} past the bound {cb}"); let (mut v, mut m) = (0.0, 0.0); for (i, k) in c.iter().enumerate() { v += k * x.powi(i as i32); m += k.abs() * rad.powi(i as i32); } close!(g, v, 0.0, m * if <T as Fl>::IS32 { 2e-3 } else { 3e-7 }, "p at its root {x}"); }
    // an odd number of sign changes between -bound and bound forces a root for odd degree
    if deg % 2 == 1 { ensure!(r.len() >= 1, "odd degree without a root"); }
    // a change of sign between two sample points forces a root between them
    let e = <T as Fl>::EPS; let ev = |x: f64| -> i32 { let (mut v, mut m) = (0.0, 0.0); for (i, k) in c.iter().enumerate() { v += k * x.powi(i as i32); m += k.abs() * rad.max(x.abs()).powi(i as i32); } if v.abs() <= m * e.sqrt() * 30.0 { 0 } else if v > 0.0 { 1 } else { -1 } };
    let (a, b) = (g.u(-rad, rad), g.u(-rad, rad)); let (a, b) = (a.min(b), a.max(b)); if ev(a) * ev(b) < 0 { let n = r.as_slice().iter().filter(|x| a < x.g() && x.g() < b).count(); ensure!(n % 2 == 1, "sign change over ({a}, {b}) but {n} roots there: {:?}", r.as_slice()); g.label("sign change"); } else if ev(a) * ev(b) > 0 { let n = r.as_slice().iter().filter(|x| a < x.g() && x.g() < b).count(); ensure!(n % 2 == 0, "no sign change over ({a}, {b}) but {n} roots there: {:?}", r.as_slice()); }
    g.nontrivial_if(!r.is_empty()); Ok(()) }} }
fn arbitrary(g: &mut G) -> R { match g.below(4) { 0 => anyc!(g, 3, f64), 1 => anyc!(g, 4, f64), 2 => anyc!(g, 5, f64), _ => if g.bool() { anyc!(g, 4, f32) } else { anyc!(g, 3, f32) } } }

/// Repeated roots are reported with their multiplicity, near the true value.
fn repeated(g: &mut G) -> R {
    let (a, b) = (g.int(-5, 5) as f64, g.int(-5, 5) as f64); let l = g.pick(&[1.0, -2.0, 4.0]); let (re, im) = (g.int(-3, 3) as f64, g.int(1, 3) as f64);
    macro_rules! go { ($n:literal, $roots:expr, $pairs:expr, $tol:expr) => {{ let mut want: Vec<f64> = $roots.to_vec(); want.sort_by(|x, y| x.total_cmp(y)); let p = poly::<$n, f64>(&expand(l, &want, $pairs)); g.note("roots", &want); let r = match p.real_roots() { Ok(r) => r, Err(e) => bad!("{e:?}") }; ensure!(r.as_slice().iter().all(|x| x.is_finite()));
        // rounding may part a repeated root into a complex pair, in which case two entries are missing, never one
        let got = r.as_slice(); ensure!((want.len() - got.len().min(want.len())) % 2 == 0, "{want:?} found as {got:?}"); for x in got { ensure!(want.iter().any(|w| (w - x).abs() <= $tol), "{x} is no root of {want:?}"); } for w in &want { let m = want.iter().filter(|v| *v == w).count(); if m % 2 == 1 { ensure!(got.iter().any(|x| (w - x).abs() <= $tol), "odd root {w} missing in {got:?}"); } } got.len() == want.len() }} }
    match g.below(6) {
        0 => { ensure!(go!(3, [a, a], &[], 1e-12), "double root of an integer quadratic"); }
        1 => { let all = go!(4, [a, a, b], &[], 1e-5); g.label_if(all, "cubic: both copies"); }
        2 => { go!(4, [a, a, a], &[], 1e-3); }
        3 => { if a == b { discard!() } go!(5, [a, a, b, b], &[], 1e-4); }
        4 => { go!(5, [a, a], &[(re, im)], 1e-4); }
        _ => { let c = g.int(-5, 5) as f64; if a == b || b == c || a == c { discard!() } go!(5, [a, a, b, c], &[], 1e-4); }
    }
    g.nontrivial(); Ok(())
}
/// Malformed coefficients.
fn errors(g: &mut G) -> R {
    macro_rules! go { ($n:literal) => {{ let mut c: [f64; $n] = core::array::from_fn(|_| g.int(-3, 3) as f64); let z = g.bool(); c[$n - 1] = if z { g.pick(&[0.0, -0.0]) } else { 1.5 }; let p = P::<$n>::new(c); let r = p.real_roots(); if z { ensure!(r.as_ref().err() == Some(&E::LeadingCoefficientZero), "{r:?}"); } else { ensure!(r.is_ok(), "{r:?}"); }
        let k = g.below($n); let mut d = c; d[k] = g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); let q = P::<$n>::new(d); g.note("d", &d); ensure!(q.real_roots().err() == Some(E::NonFinite)); ensure!(q.count_real_roots(-1.0, 1.0) == Err(E::NonFinite)); ensure!(q.cauchy_root_bound() == Err(E::NonFinite)); ensure!(q.real_roots_in(-1.0, 1.0, 1e-6, 100).err() == Some(E::NonFinite)); }} }
    match g.below(4) { 0 => go!(2), 1 => go!(3), 2 => go!(4), _ => go!(5) }
    let z = P::<4>::zeros(); ensure!(z.count_real_roots(-1.0, 1.0) == Err(E::LeadingCoefficientZero) && z.cauchy_root_bound() == Err(E::LeadingCoefficientZero) && z.real_roots_in(-1.0, 1.0, 1e-6, 100).err() == Some(E::LeadingCoefficientZero) && z.real_roots().err() == Some(E::LeadingCoefficientZero));
    let p = P::<4>::new([g.f(-2.0, 2.0), 1.0, g.f(-2.0, 2.0), 1.0]); let (a, b) = (g.u(-4.0, -0.1), g.u(0.1, 4.0)); let x = g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    for r in [p.real_roots_in(x, b, 1e-6, 500), p.real_roots_in(a, x, 1e-6, 500), p.real_roots_in(a, b, x, 500)] { ensure!(r.as_ref().err() == Some(&E::NonFinite), "{r:?}"); }
    let t = g.pick(&[0.0, -1e-3, -0.0, -5.0]); ensure!(p.real_roots_in(a, b, t, 500).err() == Some(E::ToleranceNotPositive)); ensure!(p.real_roots_in(b, a, 1e-6, 500).err() == Some(E::RangeReversed)); ensure!(p.real_roots_in(b, a, t, 500).err() == Some(E::ToleranceNotPositive)); let e = p.real_roots_in(a, a, 1e-6, 500); ensure!(e.is_ok_and(|r| r.is_empty()), "an empty half-open range holds no root");
    g.nontrivial(); Ok(())
}
/// Every root, real or complex, lies within Cauchy's bound, whose value is 1 + max |c_i / c_n|.
fn cauchy<const N: usize, T: Fl>(g: &mut G) -> R {
    let deg = 1 + g.below(N - 1); let npair = g.below(deg / 2 + 1); let real: Vec<f64> = (0..deg - 2 * npair).map(|_| g.f(-4.0, 4.0)).collect(); let pairs: Vec<(f64, f64)> = (0..npair).map(|_| (g.f(-3.0, 3.0), g.f(0.1, 3.0))).collect(); let l = g.slog10(-2.0, 2.0);
    let c = expand(l, &real, &pairs); let p = poly::<N, T>(&c); g.note("p", &p); let k: Vec<f64> = p.coefficients()[..=deg].iter().map(|x| x.g()).collect(); let b = match p.cauchy_root_bound() { Ok(b) => b.g(), Err(e) => bad!("{e:?}") };
    let w = 1.0 + (0..deg).map(|i| (k[i] / k[deg]).abs()).fold(0.0, f64::max); close!(g, b, w, T::EPS * 4.0 * w, "bound"); for r in real.iter().copied().chain(pairs.iter().map(|p| p.0.hypot(p.1))) { ensure!(r.abs() <= b * (1.0 + T::EPS * 10.0), "root {r} outside {b}"); }
    g.nontrivial_if(deg > 1); Ok(())
}
fn cauchy_any(g: &mut G) -> R { match g.below(4) { 0 => cauchy::<3, f64>(g), 1 => cauchy::<6, f64>(g), 2 => cauchy::<9, f64>(g), _ => cauchy::<5, f32>(g) } }

/// Counting and isolating agree with the roots the polynomial was built from, over any range.
fn sturm<const N: usize, T: Fl>(g: &mut G) -> R {
    let deg = 1 + g.below(N - 1); let minsep = if T::IS32 { 0.3 } else if deg > 6 { 0.12 } else { 0.05 };
    let Some(b) = build::<T>(g, deg, minsep) else { discard!() }; let rad = radius(&b); if rad == 0.0 { discard!() }
    let amp = (0..b.real.len()).map(|i| sens(&b, i)).fold(1.0, f64::max); if T::EPS * amp > if T::IS32 { 1e-4 } else { 1e-9 } { discard!() }
    if !T::IS32 && (rad.log10().abs() * deg as f64 > 30.0) { discard!() } if T::IS32 && (rad.log10().abs() * deg as f64 > 4.0) { discard!() }
    let p = poly::<N, T>(&b.c); g.note("real", &b.real); g.note("pairs", &b.pairs); g.note("p", &p);
    let cc: Vec<f64> = p.coefficients().iter().map(|x| x.g()).collect(); if !normal(&cc, rad, if T::IS32 { 3e-2 } else { 1e-5 }) { discard!() }
    let err = T::EPS * rad * 1e3 * amp;
    for _ in 0..3 { let q = |g: &mut G| -> f64 { let k = g.below(4); rnd::<T>(match k { 0 => g.u(-1.5, 1.5) * rad, 1 => g.sign() * rad * g.u(1.1, 100.0), _ => { if b.real.is_empty() { g.u(-1.0, 1.0) * rad } else { let i = g.below(b.real.len()); b.real[i] + g.sign() * rad * g.u(0.01, 0.1) } } }) };
        let (x, y) = (q(g), q(g)); if b.real.iter().any(|r| (r - x).abs() < err * 4.0 || (r - y).abs() < err * 4.0) { continue } let want: Vec<f64> = b.real.iter().copied().filter(|r| *r > x && *r <= y).collect();
        if x > y { continue } let n = p.count_real_roots(T::c(x), T::c(y)); ensure!(n == Ok(want.len()), "count in ({x}, {y}] is {n:?}, roots {:?}", b.real);
        if x <= y { let tol = rnd::<T>((rad * g.log10(if T::IS32 { -3.0 } else { -9.0 }, -1.0)).max(err * 2.0)); let r = match p.real_roots_in(T::c(x), T::c(y), T::c(tol), 2000) { Ok(r) => r, Err(e) => bad!("isolation failed: {e:?}") }; let got: Vec<f64> = r.as_slice().iter().map(|x| x.g()).collect(); ensure!(got.len() == want.len(), "in ({x}, {y}] expected {want:?}, got {got:?}"); for i in 0..got.len() { ensure!((got[i] - want[i]).abs() <= tol * 0.51 + err + T::EPS * rad * 10.0, "root {i}: {} against {}, tolerance {tol:e}", got[i], want[i]); ensure!(got[i] > x - T::EPS * rad * 4.0 && got[i] <= y + T::EPS * rad * 4.0, "outside the range"); } ensure!(got.windows(2).all(|w| w[0] <= w[1]));
            // the budget is a cap on bisections: too little is an error that names it, and just enough succeeds
            let cap = g.below(12); match p.real_roots_in(T::c(x), T::c(y), T::c(tol), cap) { Ok(q) => ensure!(q == r, "budget changed the answer"), Err(e) => { ensure!(e == E::DidNotConverge { steps: cap }, "{e:?} with budget {cap}"); ensure!(!want.is_empty()); g.label("budget ran out"); } }
            // halvings needed never exceed a per-root logarithm plus the splitting
            g.nontrivial_if(want.len() >= 2); }
    }
    // whole-line count within the root bound
    if let Ok(c) = p.cauchy_root_bound() { let n = p.count_real_roots(-c, c); ensure!(n == Ok(b.real.len()), "count within the bound {n:?}, roots {:?}", b.real); }
    Ok(())
}
fn sturm_any(g: &mut G) -> R { match g.below(7) { 0 => sturm::<2, f64>(g), 1 => sturm::<4, f64>(g), 2 => sturm::<5, f64>(g), 3 => sturm::<6, f64>(g), 4 => sturm::<7, f64>(g), _ => sturm::<9, f64>(g) } }
fn sturm_any32(g: &mut G) -> R { match g.below(3) { 0 => sturm::<3, f32>(g), 1 => sturm::<4, f32>(g), _ => sturm::<5, f32>(g) } }
/// Integer roots: ranges that start or end exactly on a root take it at the upper end and not at the lower.
fn half_open(g: &mut G) -> R {
    let deg = g.size(1, 4); let mut roots: Vec<f64> = vec![]; for _ in 0..deg { let r = g.int(-4, 4) as f64; if !roots.contains(&r) { roots.push(r); } } roots.sort_by(|a, b| a.total_cmp(b)); let l = g.pick(&[1.0, -1.0, 2.0]); let p = poly::<6, f64>(&expand(l, &roots, &[])); g.note("roots", &roots);
    let (x, y) = (g.int(-6, 6) as f64, g.int(-6, 6) as f64); let (x, y) = (x.min(y), x.max(y)); let want: Vec<f64> = roots.iter().copied().filter(|r| *r > x && *r <= y).collect(); let n = p.count_real_roots(x, y); ensure!(n == Ok(want.len()), "({x}, {y}] of {roots:?}: {n:?}"); let r = match p.real_roots_in(x, y, 1e-8, 2000) { Ok(r) => r, Err(e) => bad!("{e:?}") }; ensure!(r.len() == want.len(), "({x}, {y}] of {roots:?}: {:?}", r.as_slice()); for i in 0..want.len() { close!(g, r.as_slice()[i], want[i], 1e-7, "root"); }
    g.nontrivial_if(roots.contains(&x) || roots.contains(&y)); Ok(())
}
/// A doubled root of an integer quadratic or cubic counts once.
fn sturm_repeated(g: &mut G) -> R {
    let (a, b) = (g.int(-4, 4) as f64, g.int(-4, 4) as f64); if a == b { discard!() } g.note("a,b", &(a, b));
    match g.below(3) {
        0 => { let p = poly::<4, f64>(&expand(1.0, &[a, a], &[])); let n = p.count_real_roots(-9.0, 9.0); ensure!(n == Ok(1), "({a})^2: {n:?}"); let r = p.real_roots_in(-9.0, 9.0, 1e-7, 500); ensure!(r.is_ok_and(|r| r.len() == 1 && (r.as_slice()[0] - a).abs() < 1e-6)); }
        1 => { let p = poly::<4, f64>(&expand(1.0, &[a, a, b], &[])); let n = p.count_real_roots(-10.0, 10.0); ensure!(n == Ok(2), "({a})^2 ({b}): {n:?}"); }
        _ => { let p = P::<5>::new([0.0, 4.0, 0.0, -3.0, 1.0]); let n = p.count_real_roots(-10.0, 10.0); if n != Ok(3) { return Err(Fail::Sig("sturm-doubled-root-quartic".into(), format!("(x-2)^2 x (x+1) has 3 distinct roots, counted {n:?}"))); } }
    }
    g.nontrivial(); Ok(())
}
/// Whether every remainder of the exact Sturm chain keeps a leading coefficient well above the rounding of what it was cancelled from (in the variable x / rad).
fn normal(c: &[f64], rad: f64, thr: f64) -> bool {
    let n = c.iter().rposition(|x| *x != 0.0).unwrap_or(0); let mut p: Vec<DD> = (0..=n).map(|i| DD::new(c[i]) * DD::new(rad).powi(i as i32)).collect(); let mut q: Vec<DD> = (1..=n).map(|i| p[i] * DD::new(i as f64)).collect();
    while q.len() > 1 {
        let mut w = p.clone(); let mut m: Vec<f64> = w.iter().map(|x| x.abs().f()).collect(); while w.len() >= q.len() { let k = w.len() - q.len(); let s = w[w.len() - 1] / q[q.len() - 1]; for j in 0..q.len() { let t = s * q[j]; w[k + j] -= t; m[k + j] = m[k + j].max(t.abs().f()); } w.pop(); }
        let top = m[..w.len()].iter().copied().fold(0.0, f64::max); if !(w[w.len() - 1].abs().f() > thr * top) { return false; } p = q; q = w.iter().map(|x| -*x).collect(); if q.is_empty() { return false; }
    }
    true
}
fn main() {
    run("C11", &["closed forms are held to each root's conditioning, on roots separated by at least 1% of the largest (15% in f32)", "counting and isolation are claimed for simple roots, where no remainder of the exact chain has a leading coefficient that all but vanishes, and for doubled roots of integer quadratics and cubics (one quartic is a known finding)"], &[
        law!("closed_form", 60000, closed_any, "a polynomial with at least one real root"),
        law!("closed_form_f32", 30000, closed_any32, "a polynomial with at least one real root"),
        law!("arbitrary", 60000, arbitrary, "at least one root reported"),
        law!("repeated", 20000, repeated, "every case"),
        law!("errors", 4000, errors, "every case"),
        law!("cauchy", 20000, cauchy_any, "degree above 1"),
        law!("sturm", 40000, sturm_any, "two or more roots in a range"),
        law!("sturm_f32", 20000, sturm_any32, "two or more roots in a range"),
        law!("half_open", 20000, half_open, "a range end on a root"),
        law!("sturm_repeated", 2000, sturm_repeated, "every case"),
    ]);
}
