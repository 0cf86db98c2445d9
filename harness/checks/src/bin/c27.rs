//! C27: occupancy maps, ray casts and scans against plane geometry and a set-of-cells model.
use checks::util::*;
use multicalc::error::MappingError as ME;
use multicalc::mapping::{DynamicOccupancyGrid, MutableOccupancyMap, OccupancyMap, ScanGeometry};
use std::collections::BTreeSet;
use vk::*;

/// A fixed-size map using only what the traits provide.
#[derive(Clone)]
struct Fixed<const C: usize, const N: usize, T> { cells: [[bool; C]; N], res: T, origin: [T; 2] }
impl<const C: usize, const N: usize, T: Fl> OccupancyMap<T> for Fixed<C, N, T> { fn columns(&self) -> usize { C } fn rows(&self) -> usize { N } fn resolution(&self) -> T { self.res } fn origin(&self) -> [T; 2] { self.origin } fn is_occupied(&self, r: usize, c: usize) -> bool { self.cells.get(r).and_then(|x| x.get(c)).copied().unwrap_or(false) } }
impl<const C: usize, const N: usize, T: Fl> MutableOccupancyMap<T> for Fixed<C, N, T> { fn set_cell(&mut self, r: usize, c: usize, o: bool) { if r < N && c < C { self.cells[r][c] = o; } } fn clear(&mut self) { self.cells = [[false; C]; N]; } }

fn frame<T: Fl>(g: &mut G) -> (T, [T; 2]) { let res = if g.chance(1, 2) { 2f64.powi(g.int(-4, 1) as i32) } else { g.log10(-1.5, 0.5) }; let o = match g.below(3) { 0 => [0.0, 0.0], 1 => [-res * g.int(0, 8) as f64, res * g.int(-8, 8) as f64], _ => [g.f(-20.0, 20.0), g.f(-20.0, 20.0)] }; (T::c(res), o.map(T::c)) }
fn pair<const C: usize, const N: usize, T: Fl>(g: &mut G) -> (Fixed<C, N, T>, DynamicOccupancyGrid<T>) { let (res, origin) = frame::<T>(g); g.note("cells,resolution,origin", &(C, N, res, origin)); (Fixed { cells: [[false; C]; N], res, origin }, DynamicOccupancyGrid::try_new(C, N, res, origin).expect("valid grid")) }
/// Where the point falls: the cell when it is clear, and whether an edge is too close to call.
fn cell(res: f64, o: [f64; 2], dims: [usize; 2], p: [f64; 2], eps: f64) -> (Option<(usize, usize)>, bool) {
    let mut idx = [0i64; 2]; let mut vague = false; for k in 0..2 { let x = (p[k] - o[k]) / res; idx[k] = x.floor().clamp(-1.0, 1e9) as i64; let exact = p[k] - o[k] == ((p[k] - o[k]) / res).floor() * res && (res.log2().fract() == 0.0); if (x - x.round()).abs() < eps * 8.0 * (x.abs() + (p[k].abs() + o[k].abs()) / res) && !exact { vague = true; } } let ok = (0..2).all(|k| idx[k] >= 0 && (idx[k] as usize) < dims[k]); (if ok { Some((idx[1] as usize, idx[0] as usize)) } else { None }, vague)
}
/// Distance to where the ray enters the cell, and how long it stays inside.
fn slab(o: [f64; 2], res: f64, (r, c): (usize, usize), s: [f64; 2], d: [f64; 2], grow: f64) -> Option<(f64, f64)> { let (mut a, mut b) = (f64::NEG_INFINITY, f64::INFINITY); for (k, i) in [(0, c), (1, r)] { let (lo, hi) = (o[k] + i as f64 * res - grow, o[k] + (i + 1) as f64 * res + grow); if d[k] == 0.0 { if s[k] < lo || s[k] > hi { return None; } } else { let (x, y) = ((lo - s[k]) / d[k], (hi - s[k]) / d[k]); a = a.max(x.min(y)); b = b.min(x.max(y)); } } (b >= a.max(0.0)).then_some((a.max(0.0), b)) }

fn history<const C: usize, const N: usize, T: Fl>(g: &mut G) -> R {
    let (mut f, mut m) = pair::<C, N, T>(g); let (res, o) = (f.res.g(), f.origin.map(|x| x.g())); let mut model = BTreeSet::new(); let steps = 1 + g.size(1, 12); let w = [C as f64 * res, N as f64 * res]; let mut busy = 0;
    for _ in 0..steps { match g.below(6) {
        0 | 1 => { let (r, c) = (g.below(N + 2), g.below(C + 2)); let (r, c) = if g.chance(1, 12) { (usize::MAX, c) } else if g.chance(1, 12) { (r, usize::MAX / 2) } else { (r, c) }; let v = g.chance(2, 3); g.note("set", &(r, c, v)); f.set_cell(r, c, v); m.set_cell(r, c, v); if r < N && c < C { if v { model.insert((r, c)); } else { model.remove(&(r, c)); } } ensure!(m.is_occupied(r, c) == (v && r < N && c < C), "just written"); }
        2 | 3 => { let p = [0, 1].map(|k| if g.chance(1, 3) { o[k] + res * g.int(-1, 9) as f64 } else if g.chance(1, 12) { g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e30]) } else { o[k] + w[k] * g.f(-0.2, 1.2) }).map(|x| T::c(x)); g.note("occupy", &p); let (want, vague) = cell(res, o, [C, N], p.map(|x| x.g()), T::EPS); let bad = p.iter().any(|x| !x.is_finite()); let got = m.cell_of(p); ensure!(got == f.cell_of(p)); if bad { ensure!(got.is_none(), "a point at {p:?} lies in cell {got:?}"); } else if !vague { ensure!(got == want, "{got:?}, geometry says {want:?}"); } else { g.label("edge"); } f.occupy_point(p); m.occupy_point(p); if let Some(c) = got { model.insert(c); } busy += 1; }
        4 => { if g.chance(1, 4) { f.clear(); m.clear(); model.clear(); g.note("clear", &()); } }
        _ => { let (r, c) = (g.below(N + 1), g.below(C + 1)); let want = model.contains(&(r, c)); ensure!(m.is_occupied(r, c) == want && f.is_occupied(r, c) == want, "cell ({r}, {c})"); let mid = [f.origin[0] + T::c(c as f64 + 0.5) * f.res, f.origin[1] + T::c(r as f64 + 0.5) * f.res]; if r < N && c < C { ensure!(m.cell_of(mid) == Some((r, c)), "the middle of ({r}, {c}) is in {:?}", m.cell_of(mid)); } }
    } for r in 0..N { for c in 0..C { let want = model.contains(&(r, c)); ensure!(m.is_occupied(r, c) == want && f.is_occupied(r, c) == want, "cell ({r}, {c}) reads {}, written {want}", m.is_occupied(r, c)); } } }
    ensure!(m.columns() == C && m.rows() == N && m.resolution() == f.res && m.origin() == f.origin); let copy = m.clone(); ensure!(copy == m); g.nontrivial_if(busy > 0); Ok(())
}
fn ray<const C: usize, const N: usize, T: Fl>(g: &mut G) -> R {
    let (mut f, mut m) = pair::<C, N, T>(g); let (res, o) = (f.res.g(), f.origin.map(|x| x.g())); let k = if g.chance(1, 8) { 0 } else { g.size(1, C * N / 3) }; let mut occ = vec![]; for _ in 0..k { let c = (g.below(N), g.below(C)); f.set_cell(c.0, c.1, true); m.set_cell(c.0, c.1, true); occ.push(c); } occ.sort(); occ.dedup(); g.note("blocked", &occ);
    let w = [C as f64 * res, N as f64 * res]; let off = g.chance(1, 4); let s: [T; 2] = [0, 1].map(|k| T::c(if g.chance(1, 3) { o[k] + res * g.int(0, if k == 0 { C } else { N } as i64) as f64 } else if off { o[k] + w[k] * g.f(-1.5, 2.5) } else if g.chance(1, 3) { o[k] + res * (g.below(if k == 0 { C } else { N }) as f64 + 0.5) } else { o[k] + w[k] * g.f(0.0, 1.0) })); let b = T::c(match g.below(5) { 0 => g.int(-4, 4) as f64 * std::f64::consts::FRAC_PI_2, 1 => g.int(-8, 8) as f64 * std::f64::consts::FRAC_PI_4, 2 => 0.0, _ => g.f(-7.0, 7.0) }); let max = T::c(if g.chance(1, 2) { 1e3 * res } else if g.chance(1, 8) { f64::INFINITY } else { res * g.f(0.0, 1.5) * (C + N) as f64 }); g.note("start,bearing,range", &(s, b, max));
    let got = m.cast_ray(s, b, max); ensure!(got == f.cast_ray(s, b, max), "a fixed map answers differently"); let sd = s.map(|x| x.g()); let d = [b.cos().g(), b.sin().g()]; let far = (0..2).map(|k| (sd[k] - o[k]).abs() + w[k] + o[k].abs()).sum::<f64>(); let tol = T::EPS * 60.0 * far;
    let mut sure = f64::INFINITY; let mut near: Vec<f64> = vec![]; for &c in &occ { if let Some((a, _)) = slab(o, res, c, sd, d, -4.0 * tol) { sure = sure.min(a); } if let Some((a, _)) = slab(o, res, c, sd, d, 4.0 * tol) { near.push(a); } }
    let amp = tol / d.iter().fold(1.0f64, |m, x| if *x == 0.0 { m } else { m.min(x.abs()) }).max(1e-9); let t2 = 8.0 * (tol + amp.min(0.05 * res)); if amp > 0.05 * res { discard!() }
    match got { Some(x) => { let x = x.g(); ensure!(x >= 0.0 && x <= max.g(), "a hit at {x}, range {max:?}"); ensure!(near.iter().any(|n| (n - x).abs() <= t2), "stopped at {x} where no blocked cell begins: {near:?}"); ensure!(x <= sure + t2, "passed a blocked cell at {sure} to stop at {x}"); } None => ensure!(sure == f64::INFINITY || sure > max.g() - t2, "passed through the blocked cell at {sure}") }
    // looking further never hides a hit, and looking less far never moves it
    if let Some(x) = got { ensure!(m.cast_ray(s, b, T::INFINITY) == got && m.cast_ray(s, b, x) == got, "the range moved the hit"); if x > T::ZERO { ensure!(m.cast_ray(s, b, x * T::c(0.999)).is_none_or(|y| y < x), "a hit out of range"); } } m.clear(); ensure!(m.cast_ray(s, b, max).is_none(), "an empty map stops a beam"); for v in [f64::NAN, f64::INFINITY] { let v = T::c(v); f.cells = [[true; C]; N]; ensure!(f.cast_ray([v, s[1]], b, max).is_none() && f.cast_ray([s[0], v], b, max).is_none() && f.cast_ray(s, v, max).is_none(), "a beam from nowhere hits"); } g.label_if(got.is_some(), "hit"); g.label_if(off, "from off the map"); g.nontrivial_if(got.is_some() || !near.is_empty()); Ok(())
}
/// Distances from a cell's nearest and farthest point to a segment or a centre.
fn seg_gap(p: [f64; 2], a: [f64; 2], b: [f64; 2]) -> f64 { let d = [b[0] - a[0], b[1] - a[1]]; let l = d[0] * d[0] + d[1] * d[1]; let t = if l == 0.0 { 0.0 } else { (((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / l).clamp(0.0, 1.0) }; (p[0] - a[0] - t * d[0]).hypot(p[1] - a[1] - t * d[1]) }
fn draw<const C: usize, const N: usize, T: Fl>(g: &mut G) -> R {
    let (mut f, mut m) = pair::<C, N, T>(g); let (res, o) = (f.res.g(), f.origin.map(|x| x.g())); let w = [C as f64 * res, N as f64 * res]; let far = g.chance(1, 8); let n = g.below(6); let pts: Vec<[T; 2]> = (0..n).map(|_| [0, 1].map(|k| T::c(if far && g.chance(1, 4) { g.pick(&[f64::INFINITY, f64::NAN, 1e30, -1e12, 1e300, -1e6]) } else if g.chance(1, 4) { o[k] + res * g.int(0, C.min(N) as i64) as f64 } else { o[k] + w[k] * g.f(-0.3, 1.3) }))).collect(); let closed = g.bool(); g.note("polyline", &(&pts, closed)); m.occupy_polyline(&pts, closed); f.occupy_polyline(&pts, closed); let pd: Vec<[f64; 2]> = pts.iter().map(|p| p.map(|x| x.g())).collect();
    let edges: Vec<([f64; 2], [f64; 2])> = if n == 0 { vec![] } else { (0..if closed { n } else { n - 1 }).map(|i| (pd[i], pd[(i + 1) % n])).filter(|(a, b)| a.iter().chain(b).all(|x| x.is_finite())).collect() }; let size = o[0].abs() + o[1].abs() + w[0] + w[1]; let long = edges.iter().flat_map(|(a, b)| a.iter().chain(b)).fold(size, |a, b| a.max(b.abs())); let tol = T::EPS * 40.0 * long; if tol > 0.2 * res { g.label("off the scale"); g.nontrivial(); return Ok(()); }
    for r in 0..N { for c in 0..C { let x = m.is_occupied(r, c); ensure!(x == f.is_occupied(r, c)); if x { let mid = [o[0] + (c as f64 + 0.5) * res, o[1] + (r as f64 + 0.5) * res]; ensure!(edges.iter().any(|(a, b)| seg_gap(mid, *a, *b) <= res * 0.7072 + tol * 4.0), "cell ({r}, {c}) is off the line"); } } }
    for (a, b) in &edges { for p in [a, b] { let clear = (0..2).all(|k| ((p[k] - tol - o[k]) / res).floor() == ((p[k] + tol - o[k]) / res).floor()); if let (Some(c), true) = (cell(res, o, [C, N], *p, T::EPS * 4.0).0, clear) { ensure!(m.is_occupied(c.0, c.1), "the end {p:?} of an edge is not marked"); } }
        let l = (b[0] - a[0]).hypot(b[1] - a[1]); if l < 6.0 * res || !l.is_finite() { continue; } for _ in 0..3 { let t = g.f(0.0, 1.0); let x = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]; let inside = |x: [f64; 2], k: f64| (0..2).all(|i| x[i] > o[i] + k * res && x[i] < o[i] + w[i] - k * res); if t * l < 2.5 * res || (1.0 - t) * l < 2.5 * res || !inside(x, 2.1) { continue; } let th = g.f(0.0, 6.283); let cr = (th.cos() * (b[1] - a[1]) - th.sin() * (b[0] - a[0])).abs() / l; if cr < 0.5 { continue; } let back = g.f(1.0, 6.0) * res; let s = [x[0] - back * th.cos(), x[1] - back * th.sin()].map(T::c); let hit = m.cast_ray(s, T::c(th), T::c(1e3 * res)); ensure!(hit.is_some_and(|h| h.g() <= back + 1.5 * res + 4.0 * tol), "a beam slipped through the wall at {x:?} heading {th}: {hit:?} for {back}"); g.nontrivial(); } }
    // a rim
    m.clear(); let huge = g.chance(1, 40); let th = g.f(0.0, 6.283); let rad = if huge { res * g.log10(2.5, 4.5) } else { res * g.log10(-1.0, 1.5) }; let at = [0, 1].map(|k| o[k] + w[k] * g.f(0.2, 0.8)); let c: [T; 2] = if huge { [at[0] - rad * th.cos(), at[1] - rad * th.sin()] } else { at }.map(T::c); let rt = T::c(rad); g.note("circle", &(c, rt)); let cd = c.map(|x| x.g()); let tol = T::EPS * 100.0 * (size + rad); if tol > 0.1 * res { return Ok(()); } m.occupy_circle(c, if g.chance(1, 6) { -rt } else { rt }); let mut any = false;
    for r in 0..N { for q in 0..C { if m.is_occupied(r, q) { any = true; let (x, y) = (o[0] + q as f64 * res - cd[0], o[1] + r as f64 * res - cd[1]); let corners = [x.hypot(y), (x + res).hypot(y), x.hypot(y + res), (x + res).hypot(y + res)]; let near = (if x > 0.0 { x } else if x + res < 0.0 { -x - res } else { 0.0 }).hypot(if y > 0.0 { y } else if y + res < 0.0 { -y - res } else { 0.0 }); let farc = corners.iter().fold(0.0f64, |a, b| a.max(*b)); ensure!(near <= rad + tol && farc >= rad - tol, "cell ({r}, {q}) is off the rim"); } } }
    for i in 0..8 { let b = if huge { th + g.f(-0.3, 0.3) * w[0].min(w[1]) / rad } else { i as f64 * 0.7853981 + g.f(0.0, 0.78) }; let x = [cd[0] + rad * b.cos(), cd[1] + rad * b.sin()]; if !(0..2).all(|k| x[k] > o[k] + 1.6 * res && x[k] < o[k] + w[k] - 1.6 * res) { continue; } let back = if huge { 3.0 * res } else { rad.min(3.0 * res) }; let s = [x[0] - back * b.cos(), x[1] - back * b.sin()]; if !(0..2).all(|k| s[k] > o[k] && s[k] < o[k] + w[k]) { continue; } if rad < 3.0 * res { ensure!(any, "no cell for a small circle"); continue; } let hit = m.cast_ray(s.map(T::c), T::c(b), T::c(1e3 * res)); ensure!(hit.is_some_and(|h| (h.g() - back).abs() <= 1.5 * res + 4.0 * tol), "a beam slipped through the rim at {x:?}: {hit:?} for {back}"); g.label_if(huge, "a large rim"); g.nontrivial(); }
    let before = m.clone(); for v in [f64::NAN, f64::INFINITY] { m.occupy_circle(c, T::c(v)); m.occupy_circle([T::c(v), c[1]], rt); } ensure!(m == before, "an endless circle marked a cell"); Ok(())
}
fn sizes(g: &mut G) -> R {
    let pick = |g: &mut G| match g.below(5) { 0 => 0usize, 1 => 1 + g.below(20), 2 => usize::MAX, 3 => 1usize << (31 + g.below(33)), _ => 1 + g.below(300) }; let (c, r) = (pick(g), pick(g)); let res = g.mostly(-0.5, 2.0); let o = [g.mostly(-5.0, 5.0), g.mostly(-5.0, 5.0)]; g.note("size", &(c, r, res, o)); let count = c.checked_mul(r); if count.is_some_and(|n| n > 1_000_000 && n < 1 << 60) { discard!() }
    let x = DynamicOccupancyGrid::try_new(c, r, res, o); let num = if !res.is_finite() || o.iter().any(|x| !x.is_finite()) { Some(ME::NonFinite) } else if res <= 0.0 { Some(ME::NonPositiveResolution) } else { None }; match count { _ if c == 0 || r == 0 => ensure!(x.err() == Some(ME::EmptyGrid)), None => ensure!(x.err() == Some(ME::GridTooLarge)), Some(n) if n > 1_000_000 => { let e = x.err(); ensure!(e == Some(ME::GridTooLarge) || num.is_some() && e == num, "{e:?}"); } _ => { ensure!(x.as_ref().err() == num.as_ref(), "{:?}, wanted {num:?}", x.err()); if let Ok(x) = x { ensure!(x.columns() == c && x.rows() == r && x.resolution() == res && x.origin() == o && !x.is_occupied(r - 1, c - 1)); } } }
    struct Empty; impl OccupancyMap for Empty { fn columns(&self) -> usize { 0 } fn rows(&self) -> usize { 4 } fn resolution(&self) -> f64 { 1.0 } fn origin(&self) -> [f64; 2] { [0.0, 0.0] } fn is_occupied(&self, _: usize, _: usize) -> bool { true } } ensure!(Empty.cast_ray([0.0, 0.5], 0.3, 10.0).is_none() && Empty.cell_of([0.0, 0.5]).is_none()); g.nontrivial(); Ok(())
}
fn scan<const B: usize, T: Fl>(g: &mut G) -> R {
    let (fov, max, min) = (T::c(if g.chance(1, 4) { g.pick(&[1.5707963267948966, 3.141592653589793]) } else { g.f(0.05, 6.28) }), T::c(g.log10(-1.0, 2.0)), T::c(if g.chance(1, 3) { 0.0 } else { g.f(0.0, 0.5) * 0.1 })); g.note("field of view,ranges", &(fov, min, max)); let s = match ScanGeometry::<B, T>::try_new(fov, max).and_then(|s| s.with_minimum_range(min)) { Ok(s) => s, Err(e) => bad!("{e:?}") }; ensure!(s.field_of_view() == fov && s.minimum_range() == min && s.maximum_range() == max && s.num_beams() == B); let inc = fov.g() / (B - 1) as f64; let e = T::EPS * 8.0 * fov.g(); close!(g, s.angle_increment().g(), inc, e, "increment");
    for i in 0..B { let Some(a) = s.beam_angle(i) else { bad!("no beam {i}") }; close!(g, a.g(), -fov.g() / 2.0 + inc * i as f64, e, "beam {i}"); if i > 0 && i + 1 < B { ensure!(s.nearest_beam_index(a) == Some(i), "beam {i} points nearest to {:?}", s.nearest_beam_index(a)); } } ensure!(s.beam_angle(B).is_none() && s.beam_angle(usize::MAX).is_none());
    let a = T::c(fov.g() * g.f(-0.7, 0.7)); g.note("angle", &a); let x = (a.g() + fov.g() / 2.0) / inc; let got = s.nearest_beam_index(a); if a.g().abs() > fov.g() / 2.0 + e { ensure!(got.is_none(), "{got:?} off the arc"); } else if a.g().abs() < fov.g() / 2.0 - e { let Some(i) = got else { bad!("no beam for an angle on the arc") }; ensure!(i < B && (x - i as f64).abs() <= 0.5 + T::EPS * 20.0 * B as f64, "beam {i} for {x}"); } ensure!([f64::NAN, f64::INFINITY, 7.0].iter().all(|v| s.nearest_beam_index(T::c(*v)).is_none()));
    let r = T::c(match g.below(4) { 0 => g.pick(&[f64::NAN, f64::INFINITY, -1.0, 0.0]), 1 => min.g(), 2 => max.g(), _ => max.g() * g.f(-0.1, 1.2) }); ensure!(s.range_is_valid(r) == (r.is_finite() && r >= min && r <= max), "{r:?}"); g.nontrivial(); Ok(())
}
fn scan_errors(g: &mut G) -> R {
    let (f, m) = (g.mostly(-0.5, 7.0), g.mostly(-1.0, 5.0)); g.note("arguments", &(f, m)); let want = if !f.is_finite() || !m.is_finite() { Some(ME::NonFinite) } else if f <= 0.0 || f > 2.0 * std::f64::consts::PI { Some(ME::InvalidFieldOfView) } else if m <= 0.0 { Some(ME::NonPositiveRange) } else { None }; let r = ScanGeometry::<4>::try_new(f, m); ensure!(r.err() == want, "{r:?}, wanted {want:?}"); ensure!(ScanGeometry::<1>::try_new(1.0, 1.0).err() == Some(ME::TooFewBeams) && ScanGeometry::<0>::try_new(1.0, 1.0).err() == Some(ME::TooFewBeams)); let s = ScanGeometry::<4>::try_new(1.0, 2.0).unwrap(); let x = g.mostly(-1.0, 3.0); let want = if !x.is_finite() { Some(ME::NonFinite) } else if x < 0.0 || x >= 2.0 { Some(ME::InvalidRangeLimits) } else { None }; ensure!(s.with_minimum_range(x).err() == want, "{x}"); g.nontrivial_if(r.is_err()); Ok(())
}
fn pickm(g: &mut G, a: &[fn(&mut G) -> R]) -> R { let k = g.below(a.len()); a[k](g) }
fn history_all(g: &mut G) -> R { pickm(g, &[history::<6, 4, f64>, history::<1, 7, f64>, history::<9, 9, f64>, history::<1, 1, f64>]) }
fn history_all32(g: &mut G) -> R { pickm(g, &[history::<6, 4, f32>, history::<3, 7, f32>]) }
fn ray_all(g: &mut G) -> R { pickm(g, &[ray::<6, 4, f64>, ray::<1, 8, f64>, ray::<12, 9, f64>, ray::<30, 40, f64>]) }
fn ray_all32(g: &mut G) -> R { pickm(g, &[ray::<6, 4, f32>, ray::<12, 9, f32>]) }
fn draw_all(g: &mut G) -> R { pickm(g, &[draw::<20, 20, f64>, draw::<12, 30, f64>]) }
fn scan_all(g: &mut G) -> R { pickm(g, &[scan::<2, f64>, scan::<3, f64>, scan::<9, f64>, scan::<64, f64>, scan::<361, f64>]) }
fn scan_all32(g: &mut G) -> R { pickm(g, &[scan::<2, f32>, scan::<5, f32>, scan::<64, f32>]) }
fn main() {
    vk::run("C27", &["a beam that only grazes a cell's edge or corner to rounding may count either way", "circle radii up to thirty thousand cells"], &[
        law!("history", 30000, history_all, "a point marked"), law!("history_f32", 15000, history_all32, "a point marked"), law!("ray", 60000, ray_all, "a blocked cell in the way"), law!("ray_f32", 30000, ray_all32, "a blocked cell in the way"), law!("draw", 4000, draw_all, "a wall or rim crossed by a beam"), law!("draw_f32", 2000, draw::<16, 16, f32>, "a wall or rim crossed by a beam"),
        law!("sizes", 6000, sizes, "always"), law!("scan", 10000, scan_all, "always"), law!("scan_f32", 8000, scan_all32, "always"), law!("scan_errors", 15000, scan_errors, "refused"),
    ]);
}
