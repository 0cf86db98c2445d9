//! C31: a model file loads to the bodies, joints and masses it states, and to the tree they form.
use checks::arm::hom;
use modelchecks::*;
use multicalc::kinematics::{JointKind, JointParent, KinematicTree};
use multicalc::linear_algebra::Vector;
use multicalc_robot_model::{load_path, load_str, mjcf as mj, urdf as ur, GeneratedScalar, ModelError, RobotModel, RustSourceOptions};
use std::path::{Path, PathBuf};
use vk::*;

const NJ: usize = 12;
const NC: usize = 18;

fn urdf_loads(g: &mut G) -> R {
    let (e, x) = urdf(g); let s = e.text(g); g.note("text", &s); g.nontrivial_if(x.bodies.len() > 2); g.label_if(x.bodies.len() > 6, "large"); g.label_if(x.bodies.iter().any(|b| b.joint.as_ref().is_some_and(|j| j.mimic.is_some())), "mimic");
    match ur::load_str(&s) { Ok(m) => { compare(&m, &x)?; match load_str(&s) { Ok(k) => ensure!(k == m, "load_str and urdf::load_str differ"), Err(e) => bad!("load_str refuses what urdf::load_str reads: {e:?}") } Ok(()) } Err(e) => bad!("a well-formed URDF was refused: {e:?}") }
}
fn mjcf_loads(g: &mut G) -> R {
    let (e, x) = mjcf(g); let s = e.text(g); g.note("text", &s);
    match (mj::load_str(&s), x) {
        (Ok(m), Ok(x)) => { g.nontrivial(); g.label_if(x.bodies.len() > 4, "large"); g.label_if(x.floating, "floating"); g.label_if(s.contains("childclass"), "childclass"); g.label_if(s.contains("fromto"), "fromto"); compare(&m, &x)?; match load_str(&s) { Ok(k) => ensure!(k == m, "load_str and mjcf::load_str differ"), Err(e) => bad!("load_str refuses what mjcf::load_str reads: {e:?}") } Ok(()) }
        (Err(e), Ok(_)) => bad!("a well-formed MJCF was refused: {e:?}"),
        (Ok(_), Err("size")) | (Err(_), Err("size")) => discard!(),
        (Ok(_), Err(w)) => bad!("an MJCF with an unusable {w} loaded"),
        (Err(_), Err(_)) => { g.label("refused as it must be"); Ok(()) }
    }
}
fn either(g: &mut G) -> (String, RobotModel, Expect) {
    for _ in 0..20 { let (e, x) = if g.bool() { let (e, x) = urdf(g); (e, Ok(x)) } else { mjcf(g) }; let s = e.text(g); if let (Ok(m), Ok(x)) = (load_str(&s), x) { return (s, m, x); } }
    let s = "<robot><link/></robot>".to_string(); let m = load_str(&s).unwrap(); let x = Expect { name: "model".into(), format: m.format(), bodies: vec![BD { name: "link".into(), parent: None, pose: checks::arm::ID, inertia: None, joint: None }], floating: false, ignored: vec![] }; (s, m, x)
}
fn config(g: &mut G) -> Vector<NC, f64> { let mut q = Vector::<NC, f64>::from_fn(|_| g.f(-2.0, 2.0)); if checks::arm::nrm(&[q[3], q[4], q[5], q[6]]) < 0.05 { q[3] = 1.0; } q }
fn same_tree(t: &KinematicTree<NJ, NC, f64>, bs: &[BD], q: &Vector<NC, f64>) -> R {
    ensure!(t.len() == bs.len(), "{} slots for {} bodies", t.len(), bs.len());
    for (i, b) in bs.iter().enumerate() {
        let j = match t.joint(i) { Some(j) => j, None => bad!("no joint in slot {i}") };
        ensure!(t.parent(i) == Some(match b.parent { None => JointParent::World, Some(p) => JointParent::Joint(p) }), "slot {i} parent {:?} vs {:?}", t.parent(i), b.parent);
        match &b.joint { None => ensure!(j.kind() == JointKind::Fixed, "slot {i} of a welded body is {:?}", j.kind()), Some(w) => {
            ensure!(j.kind() == w.kind, "slot {i} kind {:?} vs {:?}", j.kind(), w.kind);
            if w.kind != JointKind::Floating { for (what, a, b) in [("zero offset", j.zero_offset(), w.zero), ("armature", j.armature(), w.armature), ("damping", j.damping(), w.damping), ("friction loss", j.friction_loss(), w.friction), ("lower limit", j.limits().map_or(-7.5, |l| l.0), w.limits.map_or(-7.5, |l| l.0)), ("upper limit", j.limits().map_or(-7.5, |l| l.1), w.limits.map_or(-7.5, |l| l.1))] { ensure!((a - b).abs() <= 1e-12 * (1.0 + b.abs()), "slot {i} {what} {a} vs {b}"); } }
        } }
    }
    let s = match t.forward_kinematics(q) { Ok(s) => s, Err(e) => bad!("forward kinematics of a loaded tree failed: {e:?}") };
    let qs: Vec<f64> = (0..NC).map(|k| q[k]).collect(); let w = place(bs, &qs);
    for i in 0..bs.len() { let h = hom(&s.pose(i).unwrap()); for r in 0..3 { for c in 0..4 { ensure!((h[r][c] - w[i][r][c]).abs() <= 1e-10 * (1.0 + w[i][r][3].abs()), "body {i} placed at [{r}][{c}] {} and the file describes {}", h[r][c], w[i][r][c]); } } }
    Ok(())
}
fn trees(g: &mut G) -> R {
    let (s, m, x) = either(g); g.note("text", &s); let q = config(g); let mimic = |bs: &[BD]| bs.iter().any(|b| b.joint.as_ref().is_some_and(|j| j.mimic.is_some()));
    match m.kinematic_tree::<NJ, NC>() { Ok(t) => { ensure!(!mimic(&x.bodies), "a tree was built over a mimic joint"); g.nontrivial_if(x.bodies.len() > 2); same_tree(&t, &x.bodies, &q)? } Err(ModelError::MimicJointInTree { .. }) if mimic(&x.bodies) => {} Err(e) => bad!("no tree from a loaded model: {e:?}") }
    let tip = g.below(x.bodies.len()); let first = x.bodies.iter().position(|b| b.name == x.bodies[tip].name).unwrap(); let (path, c) = chain(&x.bodies, first); let nm = &x.bodies[tip].name;
    match m.path_to(nm) { Ok(p) => ensure!(p == path, "path to {nm:?} is {p:?}, the file says {path:?}"), Err(e) => bad!("no path to {nm:?}: {e:?}") }
    ensure!(m.body_named(nm) == m.body(first), "body_named({nm:?}) is not the first of that name");
    match m.kinematic_tree_to::<NJ, NC>(nm) { Ok(t) => { ensure!(!mimic(&c), "a chain was built over a mimic joint"); same_tree(&t, &c, &q)? } Err(ModelError::MimicJointInTree { .. }) if mimic(&c) => {} Err(e) => bad!("no chain to {nm:?}: {e:?}") }
    ensure!(matches!(m.path_to("no such body"), Err(ModelError::UnknownBody { .. })), "a path to a body that is not there");
    if x.bodies.len() > 4 && !mimic(&x.bodies) { ensure!(matches!(m.kinematic_tree::<4, 10>(), Err(ModelError::TreeCapacityExceeded { needed, capacity: 4 }) if needed == x.bodies.len()), "a tree of 4 slots took {} bodies", x.bodies.len()); }
    Ok(())
}
/// Two spellings of one document load to equal models.
fn spellings(g: &mut G) -> R {
    let (e, _) = if g.bool() { let (e, x) = urdf(g); (e, Ok(x)) } else { mjcf(g) }; let (a, b) = (e.text(g), e.text(g)); g.note("a", &a); g.note("b", &b);
    match (load_str(&a), load_str(&b)) { (Ok(x), Ok(y)) => { g.nontrivial(); ensure!(x == y, "two spellings of one document load differently"); ensure!(load_str(&a) == Ok(x), "loading twice differs"); Ok(()) } (Err(x), Err(y)) => { ensure!(std::mem::discriminant(&x) == std::mem::discriminant(&y), "two spellings refused differently: {x:?} / {y:?}"); Ok(()) } (x, y) => bad!("one spelling loads and the other does not: {:?} / {:?}", x.err(), y.err()) }
}
fn scratch(tag: &str) -> PathBuf { use std::sync::atomic::*; static N: AtomicUsize = AtomicUsize::new(0); let d = std::env::temp_dir().join(format!("vk_c31_{tag}_{}_{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed))); std::fs::create_dir_all(&d).expect("scratch directory"); d }
/// Moves runs of an element's children into files of their own, at random, down to some depth.
fn split(g: &mut G, e: &E, dir: &Path, sub: &str, depth: usize, made: &mut usize, defaults: bool) -> E {
    let mut out = E { tag: e.tag.clone(), attrs: e.attrs.clone(), kids: vec![] }; let mut i = 0;
    while i < e.kids.len() {
        let may = depth < 5 && (defaults || e.tag != "default") && !matches!(e.tag.as_str(), "inertial" | "joint" | "geom" | "actuator" | "sensor");
        if may && g.chance(1, 5) {
            let len = 1 + g.below((e.kids.len() - i).min(3)); *made += 1; let folder = if g.chance(1, 3) { format!("f{made}/") } else { String::new() }; let file = format!("{folder}part{made}.xml");
            let here = format!("{sub}{folder}"); std::fs::create_dir_all(dir.join(&here)).expect("scratch directory");
            let deep = g.chance(1, 4); let mut wrap = E::new(g.pick(&["mujoco", "mujocoinclude"])); for k in &e.kids[i..i + len] { let s = split(g, k, dir, &here, depth + 1 + usize::from(deep), made, defaults); wrap.kids.push(s); }
            // An included file may include another at its own top.
            if deep { *made += 1; let inner = format!("deep{made}.xml"); let w = E { tag: "mujoco".into(), attrs: vec![], kids: std::mem::take(&mut wrap.kids) }; let t = w.text(g); std::fs::write(dir.join(&here).join(&inner), t).expect("scratch file"); wrap.kids.push(E::new("include").a("file", inner)); }
            let t = wrap.text(g); std::fs::write(dir.join(sub).join(&file), t).expect("scratch file"); let mut inc = E::new("include").a("file", file);
            if g.chance(1, 6) { inc = inc.k(E::new("include").a("file", "nowhere.xml")); }
            out.kids.push(inc); i += len;
        } else { let s = split(g, &e.kids[i], dir, sub, depth + 1, made, defaults); out.kids.push(s); i += 1; }
    }
    out
}
fn includes(g: &mut G) -> R {
    let (e, _) = mjcf(g); let whole = mj::load_str(&e.text(g)); let dir = scratch("inc"); let mut made = 0; let top = split(g, &e, &dir, "", 0, &mut made, true); let file = dir.join(g.pick(&["robot.xml", "robot.mjcf", "robot"])); let t = top.text(g); std::fs::write(&file, &t).expect("scratch file"); g.note("top", &t);
    let parts = if g.bool() { load_path(&file) } else { mj::load_path(&file) }; let _ = std::fs::remove_dir_all(&dir);
    if made > 0 { ensure!(mj::load_str(&t) == Err(ModelError::IncludeNeedsFile), "text with an include was loaded without its file"); }
    match (whole, parts) { (Ok(a), Ok(b)) => { g.nontrivial_if(made > 0); ensure!(a == b, "split over {made} files, the model loads differently"); Ok(()) } (Err(a), Err(b)) => { ensure!(std::mem::discriminant(&a) == std::mem::discriminant(&b), "split over {made} files, refused as {b:?} and not as {a:?}"); Ok(()) } (a, b) => bad!("split over {made} files: whole {:?}, parts {:?}", a.err(), b.err()) }
}
/// The same body written at top level of one worldbody, of two, or of an included full model.
fn sections(g: &mut G) -> R {
    let (mut e, x) = mjcf(g); if x.is_err() { discard!(); } let first = mj::load_str(&e.text(g));
    // Gather every worldbody into one, at the place of any of them.
    let mut all = E::new("worldbody"); let mut at = 0; let old = std::mem::take(&mut e.kids); let mut n = 0; for k in old { if k.tag == "worldbody" { n += 1; if g.bool() { at = e.kids.len(); } all.kids.extend(k.kids); } else { e.kids.push(k); } } e.kids.insert(at.min(e.kids.len()), all);
    let second = mj::load_str(&e.text(g)); g.nontrivial_if(n > 1);
    // And wrapped once more, as splicing a whole model inside a worldbody leaves it.
    for k in &mut e.kids { if k.tag == "worldbody" { let inner = std::mem::replace(k, E::new("worldbody")); *k = E::new("worldbody").k(inner); } } let third = mj::load_str(&e.text(g));
    match (first, second, third) { (Ok(a), Ok(b), Ok(c)) => { ensure!(a == b, "{n} worldbody sections load differently from one"); ensure!(a == c, "a worldbody spliced inside a worldbody loads differently"); Ok(()) } (a, b, c) => bad!("{:?} / {:?} / {:?}", a.err(), b.err(), c.err()) }
}
const MODELS: usize = 30;
/// Generated source is compiled against the library and its trees compared with the loaded ones.
fn source(g: &mut G) -> R {
    let dir = scratch("src"); std::fs::create_dir_all(dir.join("src")).expect("scratch directory");
    let mut main = String::from("use multicalc::kinematics::*;\nfn show<const N: usize, const C: usize, T: multicalc::scalar::Numeric + core::fmt::Debug>(k: usize, t: &KinematicTree<N, C, T>) { for i in 0..t.len() { let j = t.joint(i).unwrap(); let o = j.origin(); println!(\"{k} {i} {N} {C}|{:?}|{:?}|{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}\", j.kind(), t.parent(i).unwrap(), o.translation().as_array(), o.rotation().quaternion().as_array(), j.axis().as_array(), j.anchor().as_array(), j.limits(), j.zero_offset(), j.armature(), j.damping(), j.friction_loss()); } }\n");
    let mut body = String::new(); let mut want: Vec<(KinematicTree<NJ, NC, f64>, bool, usize, usize)> = vec![];
    while want.len() < MODELS && g.pos() < 60_000 {
        let (_, m, x) = either(g); let tip = if g.chance(1, 3) { Some(x.bodies[g.below(x.bodies.len())].name.clone()) } else { None }; let Ok(t) = (match &tip { None => m.kinematic_tree::<NJ, NC>(), Some(t) => m.kinematic_tree_to::<NJ, NC>(t) }) else { continue };
        let wide = g.bool(); let mut o = RustSourceOptions::new("build").with_scalar(if wide { GeneratedScalar::F64 } else { GeneratedScalar::F32 }); if let Some(t) = &tip { o = o.with_tip(t); }
        let spare = if g.bool() { g.below(4) } else { 0 }; if spare > 0 { o = o.with_capacity(t.len() + spare); } let base = t.len() + spare + if x.floating { 6 } else { 0 }; let cc = if g.chance(1, 4) { t.config_len() + g.below(3) } else { 0 }; if cc > 0 { o = o.with_configuration_capacity(cc); } if g.bool() { o = o.with_header("written by a check").with_documentation("A robot."); }
        if t.config_len() > 1 { ensure!(m.to_rust_source(&o.clone().with_configuration_capacity(t.config_len() - 1)).is_err(), "source written for a tree its configuration does not fit"); }
        if t.len() > 1 { ensure!(matches!(m.to_rust_source(&o.clone().with_capacity(t.len() - 1)), Err(ModelError::TreeCapacityExceeded { .. })), "source written for a tree its joints do not fit"); }
        let s = match m.to_rust_source(&o) { Ok(s) => s, Err(e) => bad!("no source for a model that builds a tree: {e:?}") }; let k = want.len(); std::fs::write(dir.join(format!("src/m{k}.rs")), s).expect("scratch file");
        main += &format!("mod m{k};\n"); body += &format!("    show({k}, &m{k}::build());\n"); want.push((t, wide, t_cap(spare, base), if cc > 0 { cc } else { base }));
    }
    fn t_cap(spare: usize, _: usize) -> usize { spare }
    main += &format!("fn main() {{\n{body}}}\n"); std::fs::write(dir.join("src/main.rs"), main).expect("scratch file");
    std::fs::write(dir.join("Cargo.toml"), "[package]\nname=\"written\"\nversion=\"0.1.0\"\nedition=\"2021\"\n[workspace]\n[dependencies]\nmulticalc={path=\"/repo/crates/multicalc\",features=[\"alloc\"]}\n[profile.dev]\ndebug=0\n").expect("scratch file");
    let out = std::process::Command::new("cargo").args(["run", "--offline", "--quiet"]).current_dir(&dir).env("CARGO_TARGET_DIR", dir.join("target")).env("RUSTC_WRAPPER", "").output();
    let _ = std::fs::remove_dir_all(&dir);
    let out = match out { Ok(o) => o, Err(e) => { eprintln!("cargo could not be started: {e}"); std::process::exit(2) } }; let err = String::from_utf8_lossy(&out.stderr);
    if !out.status.success() { let theirs = err.contains("src/m") || err.contains("src\\m") || err.contains("panicked"); if !theirs { eprintln!("{err}"); std::process::exit(2); } bad!("generated source does not compile or run: {}", err.lines().filter(|l| !l.trim().is_empty()).take(12).collect::<Vec<_>>().join(" / ")); }
    g.nontrivial(); let text = String::from_utf8_lossy(&out.stdout); let mut seen = vec![0usize; want.len()];
    for line in text.lines() {
        let f: Vec<&str> = line.split('|').collect(); ensure!(f.len() == 4, "unreadable line {line:?}"); let h: Vec<usize> = f[0].split(' ').map(|x| x.parse().unwrap()).collect(); let (k, i) = (h[0], h[1]); let (t, wide, spare, cc) = &want[k]; seen[k] += 1;
        ensure!(h[2] == t.len() + spare && h[3] == *cc, "tree {k} written with capacities {} and {}, asked for {} and {cc}", h[2], h[3], t.len() + spare);
        let j = t.joint(i).unwrap(); ensure!(f[1] == format!("{:?}", j.kind()) && f[2] == format!("{:?}", t.parent(i).unwrap()), "tree {k} slot {i}: {} {}", f[1], f[2]);
        let got: Vec<f64> = f[3].split(|c: char| !(c.is_ascii_digit() || matches!(c, '.' | '-' | 'e' | '+'))).filter_map(|x| x.parse().ok()).collect(); let o = j.origin(); let mut w: Vec<f64> = o.translation().into_array().to_vec(); w.extend(o.rotation().quaternion().as_array()); w.extend(j.axis().as_array()); let anchor = if j.kind() == JointKind::Prismatic { [0.0; 3] } else { *j.anchor().as_array() }; w.extend(anchor); if let Some((a, b)) = j.limits() { w.extend([a, b]); } w.extend([j.zero_offset(), j.armature(), j.damping(), j.friction_loss()]);
        ensure!(got.len() == w.len(), "tree {k} slot {i}: {} numbers and not {}", got.len(), w.len()); let tol = if *wide { 1e-14 } else { 4e-7 };
        for (a, b) in got.iter().zip(&w) { ensure!((a - b).abs() <= tol * (1.0 + b.abs()), "tree {k} slot {i}: compiled to {a}, loaded as {b}"); }
    }
    for (k, (t, ..)) in want.iter().enumerate() { ensure!(seen[k] == t.len(), "tree {k} compiled to {} slots, loaded with {}", seen[k], t.len()); }
    Ok(())
}

/// A number `f32` cannot hold has no `f32` source, and every number has an `f64` one.
fn narrow(g: &mut G) -> R {
    let big = g.slog10(20.0, 45.0); let place = g.below(5); let num = |g: &mut G, i: usize| if place == i { big } else { g.f(0.1, 2.0) };
    let (d, f, x, lo, hi) = (num(g, 0).abs(), num(g, 1).abs(), num(g, 2), -num(g, 3).abs(), num(g, 4).abs()); let text = format!("<robot name='r'><link name='a'/><link name='b'/><joint name='j' type='revolute'><parent link='a'/><child link='b'/><origin xyz='0.1 {x} 0'/><axis xyz='0 0 1'/><limit lower='{lo}' upper='{hi}' effort='1' velocity='1'/><dynamics damping='{d}' friction='{f}'/></joint></robot>"); g.note("text", &text);
    let m = match ur::load_str(&text) { Ok(m) => m, Err(e) => bad!("{e:?}") }; let Ok(t) = m.kinematic_tree::<NJ, NC>() else { discard!() }; ensure!(t.len() >= 1); let fits = [d, f, x, lo, hi].iter().all(|v| (*v as f32).is_finite());
    let wide = m.to_rust_source(&RustSourceOptions::new("build").with_scalar(GeneratedScalar::F64)); ensure!(wide.is_ok(), "no f64 source: {:?}", wide.err()); let thin = m.to_rust_source(&RustSourceOptions::new("build").with_scalar(GeneratedScalar::F32)); ensure!(thin.is_ok() == fits, "f32 source for values that {} an f32: {:?}", if fits { "fit" } else { "do not fit" }, thin.err()); g.label_if(fits, "fits"); g.nontrivial(); Ok(())
}

fn main() {
    vk::run("C31", &["documents in the supported subset; numbers agree to 1e-12 (1e-11 for integrated inertia)", "geom size lists of a length the shape does not take are outside the subset and not judged", "MJCF classes follow MuJoCo: a class named on the element replaces childclass"], &[
        law!("urdf_loads", 12000, urdf_loads, "three or more bodies"),
        law!("mjcf_loads", 25000, mjcf_loads, "the document loads"),
        law!("trees", 12000, trees, "three or more bodies"),
        law!("spellings", 6000, spellings, "both load"),
        law!("narrow", 3000, narrow, "always"),
        law!("includes", 1500, includes, "at least one include"),
        law!("sections", 6000, sections, "more than one worldbody"),
        law!("source", 1, source, "30 models compiled and run"),
    ]);
}
