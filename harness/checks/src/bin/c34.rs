//! C34: the library's algorithms run at an autodiff scalar give their value and its true derivative.
use checks::carry::*;
use vk::*;
fn main() {
    run("C34", &["derivatives are compared with extrapolated central differences of the same algorithm at f64; outputs whose difference quotients do not settle (kinks, branch switches) are skipped"], &[
        law!("lu", 24000, linear::lu, "a non-zero derivative was compared"),
        law!("inverse", 24000, linear::inverse, "a non-zero derivative was compared"),
        law!("qr", 24000, linear::qr, "a non-zero derivative was compared"),
        law!("cholesky", 24000, linear::cholesky, "a non-zero derivative was compared"),
        law!("svd", 16000, linear::svd, "a non-zero derivative was compared"),
        law!("eigen", 16000, linear::eigen, "a non-zero derivative was compared"),
        law!("expm", 16000, linear::expm, "a non-zero derivative was compared"),
        law!("equations", 12000, linear::equations, "a non-zero derivative was compared"),
        law!("discretise", 16000, linear::discretise, "a non-zero derivative was compared"),
        law!("norms", 16000, linear::norms, "a non-zero derivative was compared"),
        law!("quaternions", 24000, space::quaternions, "a non-zero derivative was compared"),
        law!("rotations", 24000, space::rotations, "a non-zero derivative was compared"),
        law!("motions", 24000, space::motions, "a non-zero derivative was compared"),
        law!("planar", 24000, space::planar, "a non-zero derivative was compared"),
        law!("inertias", 16000, space::inertias, "a non-zero derivative was compared"),
        law!("attitude_steps", 16000, space::attitude_steps, "a non-zero derivative was compared"),
        law!("polynomials", 24000, poly::polynomials, "a non-zero derivative was compared"),
        law!("roots", 16000, poly::roots, "a non-zero derivative was compared"),
        law!("sparse_roots", 16000, poly::sparse_roots, "a non-zero derivative was compared"),
        law!("pieces", 16000, poly::pieces, "a non-zero derivative was compared"),
        law!("profiles", 24000, poly::profiles, "a non-zero derivative was compared"),
        law!("snap", 4800, poly::snap, "a non-zero derivative was compared"),
        law!("paths", 16000, poly::paths, "a non-zero derivative was compared"),
        law!("odes", 12000, poly::odes, "a non-zero derivative was compared"),
        law!("trees", 8000, kin::trees, "a non-zero derivative was compared"),
        law!("collisions", 16000, kin::collisions, "a non-zero derivative was compared"),
        law!("wheels", 16000, kin::wheels, "a non-zero derivative was compared"),
        law!("pids", 24000, kin::pids, "a non-zero derivative was compared"),
        law!("steering", 16000, kin::steering, "a non-zero derivative was compared"),
        law!("regulators", 12000, kin::regulators, "a non-zero derivative was compared"),
        law!("rotors", 16000, kin::rotors, "a non-zero derivative was compared"),
        law!("gaps", 16000, kin::gaps, "a non-zero derivative was compared"),
        law!("designs", 16000, kin::designs, "a non-zero derivative was compared"),
        law!("signals", 8000, kin::signals, "a non-zero derivative was compared"),
        law!("kalman", 12000, est::kalman, "a non-zero derivative was compared"),
        law!("strapdown", 3000, est::strapdown, "a non-zero derivative was compared"),
        law!("attitude", 12000, est::attitude, "a non-zero derivative was compared"),
        law!("calculus", 16000, est::calculus, "a non-zero derivative was compared"),
    ])
}
