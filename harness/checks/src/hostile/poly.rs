use super::hostile::*;
use multicalc::polynomial::*;
fn co<const N: usize, T: Fx>(h: &mut H) -> Polynomial<N, T> { let mut a: [T; N] = h.a(); if h.g.chance(1, 3) { let k = h.g.below(N); for x in &mut a[k..] { *x = T::ZERO; } } Polynomial::new(a) }
pub fn uni<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let (p, q): (Polynomial<5, T>, Polynomial<3, T>) = (co(&mut h), co(&mut h)); let (a, b, t): (T, T, T) = (h.x(), h.x(), h.px()); let n = h.n(6); h.g.note("p", &p); h.g.note("q", &q); h.g.note("a,b,t,n", &(a, b, t, n));
    bb((p.degree(), p.leading_coefficient(), p.is_zero(), p.is_finite(), p.evaluate(a), p.evaluate_with_derivatives::<8>(a), p.derivative(), p.nth_derivative(n), p.definite_integral(a, b), p.scale(a))); bb((p.coefficient(n), p.try_resize::<3>(), p.shift_argument(a), p.scale_argument(a), p.reverse(), p + p, p - p)); let _ = bb(p.multiply_into::<3, 7>(&q)); let _ = bb(p.multiply_into::<3, 5>(&q)); let _ = bb(p.compose_into::<3, 9>(&q)); let _ = bb(p.compose_into::<3, 5>(&q)); let _ = bb(p.divide::<3, 5, 5>(&q)); let _ = bb(p.divide::<3, 1, 1>(&q)); let _ = bb(q.divide::<5, 3, 3>(&p));
    let (p2, p3, p4): (Polynomial<2, T>, Polynomial<3, T>, Polynomial<4, T>) = (co(&mut h), co(&mut h), co(&mut h)); h.g.note("p2,p3,p4", &(p2, p3, p4));
    macro_rules! roots { ($p:expr, $n:expr) => { if let Ok(r) = bb($p.real_roots()) { ensure!($p.is_finite(), "roots of {:?}", $p); ensure!(r.len() <= $n && r.as_slice().len() == r.len(), "{r:?}"); for i in 0..r.len() { ensure!(h.r > 0 || !r.as_slice()[i].is_nan(), "root {i} of {:?} is not a number", $p); if i > 0 { ensure!(!(r.as_slice()[i - 1] > r.as_slice()[i]), "roots of {:?} out of order: {r:?}", $p); } } } } } roots!(p2, 1); roots!(p3, 2); roots!(p4, 3); roots!(p, 4);
    if let Ok(x) = p.cauchy_root_bound() { ensure!(!x.is_nan() && p.is_finite(), "root bound of {p:?}"); } if let Ok(k) = bb(p.count_real_roots(a, b)) { ensure!(k <= 4, "{k} roots"); } let it = h.g.below(200); if let Ok(r) = bb(p.real_roots_in(a, b, t, it)) { ensure!(r.len() <= 4, "{r:?}"); for x in r.as_slice() { ensure!(*x >= a && *x <= b, "a root {x:?} outside {a:?}..{b:?}"); } } Ok(())
}
pub fn build<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let n = h.g.below(8); let rs: Vec<T> = (0..n).map(|_| h.x()).collect(); h.g.note("values", &rs); let _ = bb(Polynomial::<5, T>::from_roots(&rs)); let j: Jet<T, 5> = Jet::new(h.a()); let _ = bb(Polynomial::<5, T>::from_jet(&j)); let _ = bb(Polynomial::<3, T>::from_jet(&j)); let (a, b, c, d, e): (T, T, T, T, T) = (h.x(), h.x(), h.x(), h.x(), h.x()); h.g.note("a..e", &(a, b, c, d, e)); bb(Polynomial::<4, T>::chebyshev_nodes(a, b));
    let (x, y): ([T; 4], [T; 4]) = (h.a(), h.a()); h.g.note("x,y", &(x, y)); if let Ok(p) = bb(Polynomial::<4, T>::from_points(&x, &y)) { ensure!(x.fin() && y.fin(), "fitted {p:?}"); } let (x, y): ([T; 6], [T; 6]) = (h.a(), h.a()); h.g.note("x,y", &(x, y)); if let Ok(p) = bb(Polynomial::<3, T>::fit_least_squares(&x, &y)) { ensure!(x.fin() && y.fin(), "fitted {p:?} to {x:?} {y:?}"); } if let Ok(p) = bb(Polynomial::<4, T>::from_endpoint_derivatives(a, b, c, d, e)) { ensure!([a, b, c, d, e].fin(), "joined {p:?}"); } let (s, t): ([T; 4], [T; 4]) = (h.a(), h.a()); if let Ok(p) = bb(Polynomial::<8, T>::from_endpoint_derivatives(&s, &t, e)) { ensure!(s.fin() && t.fin() && e.fin(), "joined {p:?}"); } Ok(())
}
pub fn multi<T: Fx>(g: &mut G) -> R {
    type P<T> = MultivariatePolynomial<3, 6, T>; let mut h = hx(g); let ex = |h: &mut H| -> [u32; 3] { core::array::from_fn(|_| if h.r > 0 && h.g.chance(h.r, 24) { h.g.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 16, 255]) } else { h.g.below(4) as u32 }) };
    let mut p = P::<T>::new(); let n = h.g.below(8); for _ in 0..n { let e = ex(&mut h); let t = MultivariateTerm::new(h.x(), e); let _ = keep!(p, p.push(t), "push"); } let m = h.g.below(8); let ts: Vec<MultivariateTerm<3, T>> = (0..m).map(|_| { let e = ex(&mut h); MultivariateTerm::new(h.x(), e) }).collect(); let q = P::try_from_terms(&ts).unwrap_or(p); h.g.note("p", &p); h.g.note("q", &q); let (x, i): ([T; 3], usize) = (h.a(), h.n(3)); h.g.note("x,i", &(x, i));
    bb((p.evaluate(&x), p.gradient_at(&x), p.len(), p.total_degree(), p.degree_in(i), p.is_finite())); for r in [p.partial_derivative(i), p.partial_antiderivative(i), p.substitute(i, x[0])] { if let Ok(r) = r { ensure!(i < 3, "variable {i}"); bb((r.evaluate(&x), r.total_degree())); } } let _ = bb(p.add_into::<6, 12>(&q)); let _ = bb(p.add_into::<6, 4>(&q)); let _ = bb(p.multiply_into::<6, 36>(&q)); let _ = bb(p.multiply_into::<6, 4>(&q)); let mut c = p; c.collect_like_terms(); bb((c.len() <= p.len(), c.evaluate(&x)));
    let u = MultivariatePolynomial::<1, 6, T>::try_from_terms(&ts.iter().map(|t| MultivariateTerm::new(t.coefficient(), [t.exponents()[0]])).collect::<Vec<_>>()); if let Ok(u) = u { let _ = bb(u.to_univariate::<4>()); } let _ = bb(MultivariatePolynomial::<1, 3, T>::from_univariate::<4>(&Polynomial::new(h.a()))); Ok(())
}
pub fn pieces<T: Fx>(g: &mut G) -> R {
    let mut h = hx(g); let n = h.g.below(6); let ps: Vec<[Polynomial<4, T>; 2]> = (0..n).map(|_| [Polynomial::new(h.a()), Polynomial::new(h.a())]).collect(); let k = if h.g.chance(1, 8) { h.g.below(6) } else { n }; let sp: Vec<T> = (0..k).map(|_| h.px()).collect(); h.g.note("pieces", &ps); h.g.note("spans", &sp);
    let r = PiecewisePolynomial::<4, 4, 2, T>::try_from_pieces(&ps, &sp); let Ok(p) = r else { return Ok(()); }; ensure!(n > 0 && n <= 4 && k == n && sp.iter().all(|x| x.is_finite() && *x > T::ZERO), "accepted spans {sp:?} for {n} pieces"); let (a, b, i, o): (T, T, usize, usize) = (h.x(), h.x(), h.n(4), h.n(5)); h.g.note("a,b,i,o", &(a, b, i, o)); bb((p.piece_count(), p.total_span(), p.derivative(), p.nth_derivative(o))); ensure!(p.span(i).is_some() == (i < n) && p.piece_polynomial(i, h.g.below(2)).is_some() == (i < n) && p.piece_polynomial(0, i).is_some() == (i < 2), "bounds at {i}"); let _ = bb(p.evaluate(a)); let _ = bb(p.evaluate_with_derivatives::<6>(a)); let _ = bb(p.definite_integral(a, b)); Ok(())
}
