//! C26: waypoint paths against brute-force geometry and a plain-list model.
use checks::dims2;
use checks::util::*;
use multicalc::error::MotionError as ME;
use multicalc::linear_algebra::Vector;
use multicalc::motion::{EndOfPath, PolylinePath};
use multicalc::Dual;
use vk::*;

type P = Vec<f64>;
fn dist(a: &P, b: &P) -> f64 { a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt() }
fn lerp(a: &P, b: &P, t: f64) -> P { a.iter().zip(b).map(|(x, y)| x + (y - x) * t).collect() }
fn ds<const D: usize, T: Fl>(v: Vector<D, T>) -> P { (0..D).map(|i| v[i].g()).collect() }
/// Waypoints: wandering, straight runs, repeats, back-tracking, closed loops.
fn points<const D: usize, T: Fl>(g: &mut G, n: usize) -> Vec<Vector<D, T>> {
    let s = if g.chance(1, 3) { g.log10(-3.0, 4.0) } else { 1.0 }; let mode = g.below(4); let mut out: Vec<Vector<D, T>> = vec![];
    for i in 0..n { let p = if i > 0 && g.chance(1, 6) { out[g.below(i)] } else if i > 0 && g.chance(1, 8) { out[i - 1] } else if i > 0 && mode == 1 { let mut v = out[i - 1]; let k = g.below(D); v[k] = v[k] + T::c(s * g.int(-2, 3) as f64); v } else if i > 1 && mode == 2 { out[i - 1] + (out[i - 1] - out[i - 2]).scale(T::c(g.pick(&[1.0, 0.5, -0.5]))) } else { Vector::from_fn(|_| T::c(s * if mode == 3 { g.int(-3, 3) as f64 } else { g.f(-3.0, 3.0) })) }; out.push(p); } out
}
/// Building step by step and at once, with refusals that change nothing.
fn build<const M: usize, const D: usize, T: Fl>(g: &mut G) -> R {
    let n = g.below(M + 4); let pts = points::<D, T>(g, n); g.note("points", &pts.iter().map(|p| ds(*p)).collect::<Vec<_>>()); let mut p = PolylinePath::<M, D, T>::default(); ensure!(p == PolylinePath::new() && p.is_empty() && p.len() == 0 && p.total_arc_length() == T::ZERO && p.waypoints().is_empty()); ensure!(p.closest_point(Vector::zeros()).err() == Some(ME::PathTooShort) && p.lookahead_point(T::ZERO, T::ONE).err() == Some(ME::PathTooShort)); let mut model: Vec<Vector<D, T>> = vec![]; let mut refused = false;
    for q in &pts { if g.chance(1, 4) && D > 0 { let mut b = *q; b[g.below(D)] = T::c(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])); let before = p; let r = p.push(b); let full = model.len() == M; ensure!(r == Err(if full { ME::CapacityExceeded } else { ME::NonFinite }) && p == before, "{r:?}"); let mut all = model.clone(); all.push(b); let r = PolylinePath::<M, D, T>::try_from_points(&all); ensure!(r.err() == Some(if full { ME::CapacityExceeded } else { ME::NonFinite }), "{r:?}"); refused = true; }
        let before = p; let r = p.push(*q); if model.len() == M { ensure!(r == Err(ME::CapacityExceeded) && p == before, "{r:?}"); refused = true; } else { ensure!(r == Ok(()), "{r:?}"); model.push(*q); } ensure!(p.len() == model.len() && p.is_empty() == model.is_empty() && p.waypoints() == &model[..], "waypoints {:?}", p.waypoints()); let once = PolylinePath::<M, D, T>::try_from_points(&model).unwrap(); ensure!(once == p, "built at once {once:?}, step by step {p:?}");
        let len: f64 = model.windows(2).map(|w| dist(&ds(w[0]), &ds(w[1]))).sum(); close!(g, p.total_arc_length().g(), len, T::EPS * 8.0 * (1.0 + model.len() as f64) * len, "length"); }
    if n > M { ensure!(PolylinePath::<M, D, T>::try_from_points(&pts).err() == Some(ME::CapacityExceeded)); refused = true; } g.label_if(refused, "refused"); g.nontrivial_if(n > 2); Ok(())
}
fn query<const M: usize, const D: usize, T: Fl>(g: &mut G) -> R {
    let n = 1 + g.below(M); let pts = points::<D, T>(g, n); let w: Vec<P> = pts.iter().map(|p| ds(*p)).collect(); g.note("points", &w); let looped = g.bool(); let mode = if looped { EndOfPath::Loop } else { EndOfPath::Stop }; let path = PolylinePath::<M, D, T>::try_from_points(&pts).unwrap().with_end_of_path(mode); ensure!(path.waypoints() == &pts[..]); let mut cum = vec![0.0]; for i in 1..n { cum.push(cum[i - 1] + dist(&w[i - 1], &w[i])); } let total = cum[n - 1];
    let s = w.iter().flatten().fold(1e-3f64, |a, b| a.max(b.abs())); let q: Vector<D, T> = if g.chance(1, 4) { pts[g.below(n)] } else if n > 1 && g.chance(1, 4) { let i = g.below(n - 1); let d = pts[i + 1] - pts[i]; pts[i] + d.scale(T::c(g.f(-0.2, 1.2))) } else { Vector::from_fn(|_| T::c(g.f(-2.0, 2.0) * s)) }; let qd = ds(q); g.note("query", &qd); let big = s + qd.iter().fold(0.0f64, |a, b| a.max(b.abs())); let tol = T::EPS * 40.0 * (big + total);
    let c = match path.closest_point(q) { Ok(c) => c, Err(e) => bad!("{e:?}") }; let at = ds(c.point()); let want = if n == 1 { dist(&qd, &w[0]) } else { (0..n - 1).map(|i| { let (a, b) = (&w[i], &w[i + 1]); let l2 = dist(a, b).powi(2); let t = if l2 == 0.0 { 0.0 } else { ((0..D).map(|k| (qd[k] - a[k]) * (b[k] - a[k])).sum::<f64>() / l2).clamp(0.0, 1.0) }; dist(&qd, &lerp(a, b, t)) }).fold(f64::INFINITY, f64::min) };
    close!(g, c.distance().g(), want, tol, "distance to the path"); close!(g, c.distance().g(), dist(&qd, &at), tol, "distance to the point given"); let i = c.segment_index(); ensure!(i < (n - 1).max(1), "segment {i}"); let arc = c.arc_length().g(); ensure!(arc >= 0.0 && arc <= total + tol, "arc length {arc} of {total}"); if n > 1 { ensure!(arc >= cum[i] - tol && arc <= cum[i + 1] + tol, "arc length {arc} outside segment {i}"); let l = cum[i + 1] - cum[i]; let t = if l == 0.0 { 0.0 } else { (arc - cum[i]) / l }; close!(g, dist(&lerp(&w[i], &w[i + 1], t), &at), 0.0, tol * 4.0, "the point is not where its arc length says"); } else { ensure!(arc == 0.0 && at == w[0]); }
    for _ in 0..4 { if n > 1 { let i = g.below(n - 1); let x = lerp(&w[i], &w[i + 1], g.unit()); ensure!(dist(&qd, &x) >= c.distance().g() - tol, "a closer point of the path: {x:?}"); } }
    // looking ahead
    let from = T::c(match g.below(5) { 0 => arc, 1 => cum[g.below(n)], 2 => g.f(-1.0, 2.5) * total, 3 => 0.0, _ => total * g.unit() }); let ahead = T::c(match g.below(5) { 0 => 0.0, 1 => total * g.unit(), 2 => g.f(-2.0, 4.0) * (total + 0.1), 3 => cum[g.below(n)] - from.g(), _ => g.log10(-3.0, 1.0) * total }); g.note("from,ahead", &(from, ahead, looped)); let p = match path.lookahead_point(from, ahead) { Ok(p) => ds(p), Err(e) => bad!("{e:?}") }; let target = from.g() + ahead.g(); let place = |t: f64| -> P { let t = t.clamp(0.0, total); let mut i = 0; while i + 2 < n && cum[i + 1] < t { i += 1; } if n == 1 { return w[0].clone(); } let l = cum[i + 1] - cum[i]; lerp(&w[i], &w[i + 1], if l == 0.0 { 0.0 } else { ((t - cum[i]) / l).clamp(0.0, 1.0) }) };
    let slack = tol + T::EPS * 20.0 * (from.g().abs() + ahead.g().abs()); let mut opts = vec![]; if looped && total > 0.0 { let t = target.rem_euclid(total); opts.push(place(t)); if t < slack || total - t < slack { opts.push(w[0].clone()); opts.push(w[n - 1].clone()); } } else { opts.push(place(target)); } ensure!(opts.iter().any(|o| dist(o, &p) <= slack * 2.0), "{target} along a path of {total}: {p:?}, geometry says {opts:?}");
    if !looped && target >= total + slack { ensure!(p == w[n - 1], "past the end of a path that stops: {p:?}"); } for v in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] { let _ = (path.lookahead_point(from, T::c(v)), path.closest_point(Vector::from_fn(|_| T::c(v)))); } g.label_if(target > total, "past the end"); g.label_if(target < 0.0, "before the start"); g.nontrivial_if(n > 2 && total > 0.0); Ok(())
}
/// Derivatives: the closest distance falls straight towards the path, and the lookahead point moves along its segment at unit speed.
fn slopes(g: &mut G) -> R {
    let n = 2 + g.below(4); let w: Vec<[f64; 2]> = (0..n).map(|_| [g.f(-3.0, 3.0), g.f(-3.0, 3.0)]).collect(); if w.windows(2).any(|x| x[0] == x[1]) { discard!() } let d = |x: [f64; 2]| Vector::new([Dual::new(x[0], 0.0), Dual::new(x[1], 0.0)]); let v: Vec<_> = w.iter().map(|x| d(*x)).collect(); let path = PolylinePath::<6, 2, Dual<f64>>::try_from_points(&v).unwrap(); let plain = PolylinePath::<6, 2, f64>::try_from_points(&w.iter().map(|x| Vector::new(*x)).collect::<Vec<_>>()).unwrap(); g.note("points", &w); let total = plain.total_arc_length(); if total < 0.1 { discard!() }
    let s = g.f(0.01, 0.99) * total; let mut cum = 0.0; let mut k = 0; for i in 0..n - 1 { let l = (w[i + 1][0] - w[i][0]).hypot(w[i + 1][1] - w[i][1]); if s <= cum + l { k = i; break; } cum += l; k = i; } let l = (w[k + 1][0] - w[k][0]).hypot(w[k + 1][1] - w[k][1]); if s < cum + 1e-6 || s > cum + l - 1e-6 { discard!() } g.note("arc", &s); let p = path.lookahead_point(Dual::new(s, 1.0), Dual::new(0.0, 0.0)).unwrap(); let q = plain.lookahead_point(s, 0.0).unwrap(); for i in 0..2 { close!(g, p[i].value, q[i], 1e-13, "value"); close!(g, p[i].deriv, (w[k + 1][i] - w[k][i]) / l, 1e-12, "speed along the path"); }
    let x = [g.f(-4.0, 4.0), g.f(-4.0, 4.0)]; let dir = [g.f(-1.0, 1.0), g.f(-1.0, 1.0)]; g.note("query,direction", &(x, dir)); let c = path.closest_point(Vector::new([Dual::new(x[0], dir[0]), Dual::new(x[1], dir[1])])).unwrap(); let r = plain.closest_point(Vector::new(x)).unwrap(); if r.distance() < 1e-3 { discard!() } close!(g, c.distance().value, r.distance(), 1e-13, "distance"); let want = (0..2).map(|i| (x[i] - r.point()[i]) * dir[i]).sum::<f64>() / r.distance(); close!(g, c.distance().deriv, want, 1e-10, "slope of the distance"); g.nontrivial(); Ok(())
}
fn build_all(g: &mut G) -> R { dims2!(g, build, f64, (0, 2), (1, 2), (2, 3), (5, 1), (8, 2), (16, 3), (48, 2)) }
fn build_all32(g: &mut G) -> R { dims2!(g, build, f32, (1, 2), (4, 3), (8, 2)) }
fn query_all(g: &mut G) -> R { dims2!(g, query, f64, (1, 2), (2, 3), (5, 1), (8, 2), (12, 3), (40, 2)) }
fn query_all32(g: &mut G) -> R { dims2!(g, query, f32, (2, 3), (5, 2), (9, 2)) }
fn main() {
    vk::run("C26", &["coordinates up to 1e5, far from overflow of their squares"], &[
        law!("build", 20000, build_all, "more than two points"), law!("build_f32", 10000, build_all32, "more than two points"), law!("query", 80000, query_all, "more than one segment"), law!("query_f32", 40000, query_all32, "more than one segment"), law!("slopes", 20000, slopes, "always"),
    ]);
}
