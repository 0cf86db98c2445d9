//! C33: no input makes the library panic; bad input gives typed errors.
#![allow(unused_must_use)]
#[macro_use]
#[path = "../hostile/mod.rs"]
mod hostile;
#[path = "../hostile/lin.rs"] mod lin;
#[path = "../hostile/poly.rs"] mod poly;
#[path = "../hostile/solve.rs"] mod solve;
#[path = "../hostile/kin.rs"] mod kin;
#[path = "../hostile/est.rs"] mod est;
#[path = "../hostile/ctl.rs"] mod ctl;
use vk::{law, G, R};
fn squares(g: &mut G) -> R { match g.below(5) { 0 => lin::square::<1, f64>(g), 1 => lin::square::<2, f64>(g), 2 => lin::square::<3, f64>(g), 3 => lin::square::<4, f32>(g), _ => lin::square::<5, f64>(g) } }
fn rects(g: &mut G) -> R { match g.below(5) { 0 => lin::rect::<1, 3, f64>(g), 1 => lin::rect::<3, 1, f64>(g), 2 => lin::rect::<4, 2, f32>(g), 3 => lin::rect::<2, 5, f64>(g), _ => lin::rect::<6, 4, f64>(g) } }
macro_rules! both { ($n:ident, $a:expr, $b:expr) => { fn $n(g: &mut G) -> R { if g.chance(2, 3) { $a(g) } else { $b(g) } } } }
both!(lies, lin::lie::<f64>, lin::lie::<f32>);
both!(rigid, lin::rigid::<f64>, lin::rigid::<f32>);
both!(uni, poly::uni::<f64>, poly::uni::<f32>);
both!(build, poly::build::<f64>, poly::build::<f32>);
both!(multi, poly::multi::<f64>, poly::multi::<f32>);
both!(pieces, poly::pieces::<f64>, poly::pieces::<f32>);
both!(roots, solve::roots::<f64>, solve::roots::<f32>);
both!(fits, solve::fits::<f64>, solve::fits::<f32>);
both!(odes, solve::odes::<f64>, solve::odes::<f32>);
both!(derivs, solve::derivs::<f64>, solve::derivs::<f32>);
both!(integrals, solve::integrals::<f64>, solve::integrals::<f32>);
both!(trees, kin::trees::<f64>, kin::trees::<f32>);
both!(shapes, kin::shapes::<f64>, kin::shapes::<f32>);
both!(reach, kin::reach::<f64>, kin::reach::<f32>);
both!(wheels, kin::wheels::<f64>, kin::wheels::<f32>);
both!(maps, kin::maps::<f64>, kin::maps::<f32>);
both!(kalman, est::kalman::<f64>, est::kalman::<f32>);
both!(extended, est::extended::<f64>, est::extended::<f32>);
both!(inertial, est::inertial::<f64>, est::inertial::<f32>);
both!(attitude, est::attitude::<f64>, est::attitude::<f32>);
both!(particles, est::particles::<f64>, est::particles::<f32>);
both!(control, ctl::control::<f64>, ctl::control::<f32>);
both!(gaps, ctl::gaps::<f64>, ctl::gaps::<f32>);
both!(profiles, ctl::profiles::<f64>, ctl::profiles::<f32>);
both!(rotors, ctl::rotors::<f64>, ctl::rotors::<f32>);
both!(signals, ctl::signals::<f64>, ctl::signals::<f32>);
fn main() {
    const RULE: &str = "a case is non-trivial when some of its arguments are drawn from the hostile set";
    vk::run("C33", &["debug assertions and overflow checks are on, so arithmetic that wraps or indexes out of bounds panics here as in a debug build", "iteration limits are kept finite; every callback counts its calls and an unbounded count is a violation", "counts that would merely exhaust the machine's memory are not requested"], &[
        law!("square matrices", 200000, squares, RULE), law!("rectangular matrices", 150000, rects, RULE), law!("discretization", 50000, lin::disc, RULE), law!("rotations and poses", 150000, lies, RULE), law!("inertia and rigid bodies", 150000, rigid, RULE),
        law!("polynomials", 200000, uni, RULE), law!("polynomial construction", 150000, build, RULE), law!("multivariate polynomials", 150000, multi, RULE), law!("piecewise polynomials", 100000, pieces, RULE),
        law!("scalars", 300000, solve::scalars, RULE), law!("root finding", 100000, roots, RULE), law!("least squares", 50000, fits, RULE), law!("differential equations", 50000, odes, RULE), law!("derivatives", 100000, derivs, RULE), law!("integrals", 20000, integrals, RULE), law!("random draws", 10000, solve::draws, RULE),
        law!("kinematic trees", 100000, trees, RULE), law!("collision", 150000, shapes, RULE), law!("inverse kinematics", 20000, reach, RULE), law!("wheels", 100000, wheels, RULE), law!("maps and scans", 30000, maps, RULE),
        law!("kalman filter", 100000, kalman, RULE), law!("extended and unscented filters", 100000, extended, RULE), law!("error-state filter", 30000, inertial, RULE), law!("attitude filters", 100000, attitude, RULE), law!("particle filter", 100000, particles, RULE), law!("localizer", 15000, est::localizer, RULE),
        law!("controllers", 150000, control, RULE), law!("follow the gap", 100000, gaps, RULE), law!("motion", 150000, profiles, RULE), law!("rotors", 100000, rotors, RULE), law!("signal processing", 150000, signals, RULE),
    ]);
}
