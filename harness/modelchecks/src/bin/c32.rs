//! C32: whatever text a loader is given, it answers with a sound model or a typed error.
use modelchecks::*;
use multicalc::kinematics::JointKind;
use multicalc_robot_model::{load_path, load_str, mjcf as mj, urdf as ur, GeneratedScalar, ModelError, RobotModel, RustSourceOptions};
use std::collections::BTreeMap;
use vk::*;

fn any(g: &mut G) -> E { if g.bool() { urdf(g).0 } else { mjcf(g).0 } }
/// Every number finite, every parent earlier, every joint and mass usable.
fn sound(m: &RobotModel) -> R {
    ensure!(m.body_count() > 0, "a model with no bodies loaded");
    for (i, b) in m.bodies().iter().enumerate() {
        ensure!(b.parent().is_none_or(|p| p < i), "body {i} hangs off body {:?}", b.parent());
        let p = b.pose(); let q = p.rotation().quaternion().as_array(); ensure!(p.translation().as_array().iter().chain(&q).all(|x| x.is_finite()), "body {i} loaded at {p:?}");
        ensure!((checks::arm::nrm(&q) - 1.0).abs() < 1e-9, "body {i} turned by a quaternion of norm {}", checks::arm::nrm(&q));
        if let Some(s) = b.inertia() { ensure!(s.mass().is_finite() && s.mass() > 0.0, "body {i} loaded with mass {}", s.mass()); for r in 0..3 { ensure!(s.center_of_mass()[r].is_finite(), "body {i} balances at {:?}", s.center_of_mass()); for c in 0..3 { let (a, b) = (s.rotational_inertia()[(r, c)], s.rotational_inertia()[(c, r)]); ensure!(a.is_finite() && (a - b).abs() <= 1e-9 * (1.0 + a.abs()), "body {i} inertia {:?}", s.rotational_inertia()); } ensure!(s.rotational_inertia()[(r, r)] > 0.0, "body {i} inertia diagonal {}", s.rotational_inertia()[(r, r)]); } }
        if let Some(j) = b.joint() {
            ensure!(j.kind() != JointKind::Fixed, "a welded joint described as movable");
            ensure!((checks::arm::nrm(j.axis().as_array()) - 1.0).abs() < 1e-9, "joint {i} axis {:?}", j.axis());
            let (l, u) = j.limits().unwrap_or((0.0, 0.0)); let mi = j.mimic().map_or((0.0, 0.0), |m| (m.multiplier(), m.offset()));
            for x in [l, u, mi.0, mi.1, j.zero_offset(), j.armature(), j.damping(), j.friction_loss(), j.spring_reference(), j.spring_stiffness()].iter().chain(j.anchor().as_array()) { ensure!(x.is_finite(), "joint {i} loaded with {x}"); }
            ensure!(j.kind() != JointKind::Floating || b.parent().is_none(), "a floating joint below the top");
        }
    }
    // Whatever it is used for next answers too.
    let _ = m.kinematic_tree::<16, 22>(); let last = m.bodies()[m.body_count() - 1].name(); let _ = m.kinematic_tree_to::<16, 22>(last); ensure!(m.path_to(last).is_ok(), "no path to a body of the model");
    for s in [GeneratedScalar::F32, GeneratedScalar::F64] { if let Ok(t) = m.to_rust_source(&RustSourceOptions::new("f").with_scalar(s)) { for bad in ["inf,", "inf)", "inf]", "NaN"] { ensure!(!t.lines().any(|l| !l.trim_start().starts_with("//") && l.contains(bad)), "generated source holds {bad}"); } } }
    Ok(())
}
fn answers(s: &str) -> Result<Result<RobotModel, ModelError>, Fail> {
    let a = load_str(s); ensure!(load_str(s) == a, "loading the same text twice differs"); let _ = mj::load_str(s); let _ = ur::load_str(s);
    match &a { Ok(m) => sound(m)?, Err(e) => { ensure!(!e.to_string().is_empty(), "an error that says nothing: {e:?}"); let _ = std::error::Error::source(e); } } Ok(a)
}
fn bytes(g: &mut G) -> R {
    let mut s = any(g).text(g).into_bytes(); if s.is_empty() { discard!(); }
    for _ in 0..g.size(1, 4) { let i = g.below(s.len().max(1)); match g.below(7) { 0 => s.truncate(i), 1 => { if i < s.len() { s.remove(i); } } 2 => s.insert(i.min(s.len()), g.pick(b"<>\"'/=& -.e0123456789nai\n\t;![]")), 3 => { if i < s.len() { s[i] = g.pick(b"<>\"'/=& -.e+9xN\0"); } } 4 => { let j = (i + g.below(40)).min(s.len()); let part = s[i.min(j)..j].to_vec(); let at = g.below(s.len() + 1); s.splice(at..at, part); } 5 => { let j = (i + g.below(40)).min(s.len()); s.drain(i.min(j)..j); } _ => { let w = g.pick(&["<!DOCTYPE a [<!ENTITY b \"c\">]>", "&b;", "<![CDATA[", "<?x?>", "<!--", "xmlns=\"u\" ", "\u{feff}"]); s.splice(i..i, w.bytes()); } } if s.is_empty() { break; } }
    let t = String::from_utf8_lossy(&s).into_owned(); g.note("text", &t); let a = answers(&t)?; g.nontrivial(); g.label_if(a.is_ok(), "still loads"); Ok(())
}
const WORDS: [&str; 34] = ["nan", "inf", "-inf", "NaN", "infinity", "1e400", "-1e999", "1e-400", "", " ", "1 2", "1 2 3 4 5 6 7 8 9", "0", "0 0 0", "0 0 0 0", "-1", "-0.0", "--1", "0x10", "1,5", "1e", "e5", "1e308", "-1e308 1e308 1e308", "1e-320 0 0", "1e200 1e200 1e200", "free", "floating", "ball", "planar", "mesh", "hinge", "true", "\u{663}"];
fn attributes(g: &mut G) -> R {
    let mut e = any(g); let n = e.count();
    for _ in 0..g.size(1, 3) { let i = g.below(n); let w = g.pick(&WORDS).to_string(); let x = e.nth(i).unwrap(); if x.attrs.is_empty() { continue; } let k = g.below(x.attrs.len()); match g.below(4) { 0 => { x.attrs.remove(k); } 1 => { let mut f: Vec<String> = x.attrs[k].1.split_whitespace().map(String::from).collect(); if f.is_empty() { continue; } let at = g.below(f.len()); f[at] = w; x.attrs[k].1 = f.join(" "); } _ => x.attrs[k].1 = w } }
    let t = e.text(g); g.note("text", &t); let a = answers(&t)?; g.nontrivial(); g.label_if(a.is_ok(), "still loads"); Ok(())
}
fn elements(g: &mut G) -> R {
    let mut e = any(g);
    for _ in 0..g.size(1, 3) { let n = e.count(); let (i, j) = (g.below(n), g.below(n)); let other = e.nth(j).unwrap().clone(); if other.count() > 40 { continue; } let x = e.nth(i).unwrap(); match g.below(6) { 0 => { if !x.kids.is_empty() { let k = g.below(x.kids.len()); x.kids.remove(k); } } 1 => { if !x.kids.is_empty() { let k = g.below(x.kids.len()); let c = x.kids[k].clone(); x.kids.push(c); } } 2 => x.kids.push(other), 3 => *x = other, 4 => x.tag = g.pick(&["body", "worldbody", "joint", "freejoint", "geom", "inertial", "default", "compiler", "link", "robot", "mujoco", "include", "frame", "x"]).into(), _ => x.kids.reverse() } }
    let t = e.text(g); g.note("text", &t); let a = answers(&t)?; g.nontrivial(); g.label_if(a.is_ok(), "still loads"); Ok(())
}
/// A random wiring of links and joints, judged by what a tree is.
fn wiring(g: &mut G) -> R {
    let n = g.size(1, 7); let m = if g.chance(2, 3) { n - 1 } else { g.below(n + 2) }; let mut es: Vec<(usize, usize)> = vec![];
    for k in 0..m { es.push(if g.chance(3, 4) { (g.below((k + 1).min(n)), (k + 1) % n) } else { (g.below(n), g.below(n)) }); }
    let ghost = if g.chance(1, 8) && m > 0 { Some(g.below(m)) } else { None }; let twin = n > 1 && g.chance(1, 8);
    let mut kids: Vec<E> = (0..n).map(|i| E::new("link").a("name", if twin && i == n - 1 { "l0".into() } else { format!("l{i}") })).collect();
    for (k, (p, c)) in es.iter().enumerate() { let child = if ghost == Some(k) { "nobody".to_string() } else if twin && *c == n - 1 { "l0".into() } else { format!("l{c}") }; let par = if twin && *p == n - 1 { "l0".into() } else { format!("l{p}") }; kids.push(E::new("joint").a("name", format!("j{k}")).a("type", "fixed").k(E::new("parent").a("link", par)).k(E::new("child").a("link", child))); }
    let mut e = E::new("robot"); e.kids = kids; let t = e.text(g); g.note("text", &t); let id = |x: usize| if twin && x == n - 1 { 0 } else { x };
    let mut into: BTreeMap<usize, usize> = BTreeMap::new(); let mut twice = false; for (p, c) in &es { if into.insert(id(*c), id(*p)).is_some() { twice = true; } }
    let roots: Vec<usize> = (0..n).filter(|i| !into.contains_key(i)).collect(); let cyclic = (0..n).any(|s| { let mut x = s; for _ in 0..=n { match into.get(&x) { Some(p) => x = *p, None => return false } } true });
    let a = answers(&t)?; g.nontrivial_if(m > 0);
    match a {
        Ok(m) => { ensure!(ghost.is_none() && !twice && roots.len() == 1 && !cyclic, "a wiring that is no tree loaded: {es:?}"); g.label("tree"); ensure!(m.body_count() == n, "{} bodies of {n} links", m.body_count()); for b in m.bodies() { let i: usize = b.name()[1..].parse().unwrap(); let p = b.parent().map(|p| m.bodies()[p].name().to_string()); ensure!(p == into.get(&i).map(|p| format!("l{p}")), "l{i} hangs off {p:?}"); } }
        Err(ModelError::UnknownLink { link, .. }) => ensure!(ghost.is_some() && link == "nobody", "a declared link reported missing"),
        Err(ModelError::LinkHasTwoParents { .. }) => ensure!(twice, "two parents reported for a link with one"),
        Err(ModelError::MissingRootLink) => ensure!(roots.is_empty(), "no root reported, l{roots:?} is"),
        Err(ModelError::MultipleRootLinks { names }) => { let mut w: Vec<String> = roots.iter().map(|r| if twin && *r == n - 1 { "l0".into() } else { format!("l{r}") }).collect(); w.sort(); ensure!(roots.len() > 1 && names == w, "roots reported {names:?}, are {w:?}") }
        Err(ModelError::CyclicLinkage { link }) => { ensure!(cyclic && roots.len() == 1, "a cycle reported where there is none"); let _ = link; }
        Err(e) => bad!("a wiring refused with {e:?}"),
    }
    Ok(())
}
/// One construct the reader does not support, planted in a document that loads: refused by its name.
fn unsupported(g: &mut G) -> R {
    let mut last = None; for _ in 0..6 { let (e, x) = mjcf(g); if x.is_ok() && mj::load_str(&e.text(g)).is_ok() { last = Some((e, x.unwrap())); break; } } let Some((mut e, x)) = last else { discard!() };
    // Document positions of the bodies, and of the worldbodies.
    let n = e.count(); let tags: Vec<String> = (0..n).map(|i| e.nth(i).unwrap().tag.clone()).collect(); let bodies: Vec<usize> = (0..n).filter(|&i| tags[i] == "body").collect(); let world = (0..n).find(|&i| tags[i] == "worldbody").unwrap();
    let at = bodies[g.below(bodies.len())]; let body = e.nth(at).unwrap(); let has = |b: &E, t: &str| b.kids.iter().any(|k| k.tag == t); let jointed = has(body, "joint") || has(body, "freejoint"); let top_first = at == bodies[0]; let _ = top_first;
    let reads_geoms = !has(body, "inertial"); let infer = { let mut v = "auto".to_string(); for k in &e.kids { if k.tag == "compiler" { for (a, b) in &k.attrs { if a == "inertiafromgeom" { v = b.clone(); } } } } v }; let geoms_count = infer == "true" || (infer == "auto" && reads_geoms);
    let body = e.nth(at).unwrap(); let inner = || E::new("body").a("name", "lost").k(E::new("inertial").a("mass", "1").a("diaginertia", "1 1 1"));
    #[allow(clippy::type_complexity)]
    let (what, ok): (&str, Box<dyn Fn(&ModelError) -> bool>) = match g.below(17) {
        0 if !jointed => { let ty = g.pick(&["ball", "universal", "free "]); body.kids.push(E::new("joint").a("type", ty)); (ty, Box::new(move |m| matches!(m, ModelError::UnsupportedJoint { joint_type, .. } if joint_type == ty))) }
        1 => { for _ in 0..if jointed { 1 } else { 2 } { body.kids.push(E::new("joint").a("type", "hinge")); } ("two joints", Box::new(|m| matches!(m, ModelError::MultipleJoints { count, .. } if *count >= 2))) }
        2 if !jointed => { let f = if g.bool() { E::new("freejoint") } else { E::new("joint").a("type", "free") }; body.kids.push(E::new("body").a("name", "lost").k(f).k(E::new("inertial").a("mass", "1").a("diaginertia", "1 1 1"))); ("a free joint below the top", Box::new(|m| matches!(m, ModelError::FreeJointNotAtRoot { body } if body == "lost"))) }
        3 => { let a = g.pick(&["euler", "axisangle", "xyaxes", "zaxis"]); body.attrs.push((a.into(), "1 2 3".into())); ("a body turned by angles", Box::new(move |m| matches!(m, ModelError::UnsupportedOrientation { element, attribute } if element == "body" && attribute == a))) }
        4 if geoms_count => { let a = g.pick(&["euler", "axisangle", "xyaxes", "zaxis"]); body.kids.push(E::new("geom").a("type", "box").a("size", "1 2 3").a("mass", "1").a("fromto", "0 0 0 1 1 1").a(a, "1 2 3")); body.kids.last_mut().unwrap().attrs.retain(|k| k.0 != "fromto"); ("a geom turned by angles", Box::new(move |m| matches!(m, ModelError::UnsupportedOrientation { element, attribute } if element == "geom" && attribute == a) || matches!(m, ModelError::UnsupportedFromTo { .. }))) }
        5 if !geoms_count => { let a = g.pick(&["euler", "axisangle", "xyaxes", "zaxis"]); for k in &mut body.kids { if k.tag == "inertial" { k.attrs.push((a.into(), "1 2 3".into())); } } ("an inertial turned by angles", Box::new(move |m| matches!(m, ModelError::UnsupportedOrientation { element, attribute } if element == "inertial" && attribute == a))) }
        6 if geoms_count => { body.kids.push(E::new("geom").a("type", "mesh").a("mesh", "hull").a("mass", "1")); ("a mesh that carries mass", Box::new(|m| matches!(m, ModelError::MeshInertiaUnsupported { .. }))) }
        7 if geoms_count => { let ty = g.pick(&["plane", "hfield", "sdf", "cone"]); body.kids.push(E::new("geom").a("type", ty).a("size", "1 1 1").a("mass", "1")); (ty, Box::new(move |m| matches!(m, ModelError::UnsupportedGeomType { geom_type, .. } if geom_type == ty))) }
        8 | 9 => { let t = g.pick(&["frame", "replicate", "attach", "composite", "flexcomp"]); let mut f = E::new(t); if g.chance(3, 4) { f.kids.push(inner()); } if g.bool() { body.kids.push(f); } else { e.nth(world).unwrap().kids.push(f); } (t, Box::new(move |m| matches!(m, ModelError::UnsupportedElement { element, .. } if element == t))) }
        10 => { let (a, v) = g.pick(&[("settotalmass", "5"), ("boundmass", "0.1"), ("boundinertia", "1"), ("balanceinertia", "true"), ("inertiagrouprange", "1 2"), ("coordinate", "global")]); let mut c = E::new("compiler"); c.attrs.push((a.into(), v.into())); if let Some(k) = e.kids.iter_mut().find(|k| k.tag == "compiler") { k.attrs.retain(|x| x.0 != a); k.attrs.push((a.into(), v.into())); } else { e.kids.push(c); } (a, Box::new(move |m| matches!(m, ModelError::UnsupportedAttribute { element, attribute } if element == "compiler" && attribute == a))) }
        11 => { let (a, v) = g.pick(&[("angle", "grad"), ("angle", ""), ("autolimits", "yes"), ("inertiafromgeom", "maybe")]); let mut c = E::new("compiler"); c.attrs.push((a.into(), v.into())); e.kids.push(c); (a, Box::new(move |m| matches!(m, ModelError::BadAttribute { element, attribute, value } if element == "compiler" && attribute == a && value == v))) }
        12 if geoms_count => { let (a, v) = g.pick(&[("mass", "-1"), ("density", "-1"), ("size", "-0.1 0.1 0.1")]); let mut k = E::new("geom").a("type", "box"); for (n, w) in [("mass", "1"), ("density", "1"), ("size", "0.1 0.1 0.1")] { if !(n == "mass" && a == "density") { k.attrs.push((n.into(), if n == a { v.into() } else { w.into() })); } } body.kids.push(k); (a, Box::new(|m| matches!(m, ModelError::BadAttribute { .. } | ModelError::UnsupportedFromTo { .. }))) }
        13 => { body.attrs.retain(|a| a.0 != "childclass"); body.attrs.push(("childclass".into(), "nowhere".into())); if geoms_count { body.kids.push(E::new("geom").a("size", "1").a("type", "sphere")); } else if !jointed { body.kids.push(E::new("joint")); } else { discard!(); } ("an undefined class", Box::new(|m| matches!(m, ModelError::UndefinedClass { name } if name == "nowhere"))) }
        14 if !jointed => { body.kids.push(E::new("joint").a("type", "hinge").a("limited", "perhaps").a("range", "0 1")); ("limited=perhaps", Box::new(|m| matches!(m, ModelError::BadAttribute { attribute, value, .. } if attribute == "limited" && value == "perhaps"))) }
        15 => { body.kids.push(E::new("include").a("file", "x.xml")); ("an include in text", Box::new(|m| *m == ModelError::IncludeNeedsFile)) }
        16 if geoms_count => { body.kids.push(E::new("geom").a("type", "capsule").a("size", "0.1").a("fromto", "0 0 0 0 0 1").a("pos", "0 0 1").a("mass", "1")); ("fromto with pos", Box::new(|m| matches!(m, ModelError::ConflictingPlacement { .. }))) }
        _ => discard!(),
    };
    let t = e.text(g); g.note("text", &t); g.note("planted", &what); g.nontrivial(); let _ = x;
    match mj::load_str(&t) { Ok(m) => { // a value the model has no use for may be read past only if nothing it states is lost
        bad!("{what} in a model of {} bodies was read past", m.body_count()) } Err(m) => { ensure!(ok(&m), "{what} refused as {m:?}"); ensure!(!m.to_string().is_empty(), "an error that says nothing"); Ok(()) } }
}
fn unsupported_urdf(g: &mut G) -> R {
    let (mut e, x) = urdf(g); if ur::load_str(&e.text(g)).is_err() { discard!(); } let joints: Vec<usize> = (0..e.kids.len()).filter(|&i| e.kids[i].tag == "joint").collect(); let masses: Vec<usize> = (0..e.kids.len()).filter(|&i| e.kids[i].kids.iter().any(|k| k.tag == "inertial")).collect();
    let drop = |v: &mut Vec<E>, t: &str| v.retain(|k| k.tag != t); let _ = x;
    #[allow(clippy::type_complexity)]
    let (what, ok): (&str, Box<dyn Fn(&ModelError) -> bool>) = match g.below(12) {
        0 if !joints.is_empty() => { let j = &mut e.kids[g.pick(&joints)]; let ty = g.pick(&["planar", "ball", "Revolute", ""]); set(j, "type", ty); (ty, Box::new(move |m| matches!(m, ModelError::UnsupportedJoint { joint_type, .. } if joint_type == ty))) }
        1 if !joints.is_empty() => { let j = &mut e.kids[g.pick(&joints)]; set(j, "type", "floating"); ("floating", Box::new(|m| matches!(m, ModelError::FreeJointNotAtRoot { .. }))) }
        2 if !joints.is_empty() => { let j = &mut e.kids[g.pick(&joints)]; let ty = g.pick(&["revolute", "prismatic"]); set(j, "type", ty); match g.below(3) { 0 => drop(&mut j.kids, "limit"), k => { drop(&mut j.kids, "limit"); j.kids.push(E::new("limit").a(if k == 1 { "lower" } else { "upper" }, "1")); } } ("no limits", Box::new(|m| matches!(m, ModelError::JointNeedsLimit { .. }))) }
        3 if !joints.is_empty() => { let j = &mut e.kids[g.pick(&joints)]; set(j, "type", "continuous"); drop(&mut j.kids, "axis"); let v = g.pick(&["0 0 0", "1 2", "x", "nan 0 0", "1e400 0 0"]); j.kids.push(E::new("axis").a("xyz", v)); ("a useless axis", Box::new(move |m| matches!(m, ModelError::BadAttribute { element, attribute, value } if element == "axis" && attribute == "xyz" && value == v))) }
        4 if !joints.is_empty() => { let j = &mut e.kids[g.pick(&joints)]; let t = g.pick(&["parent", "child"]); drop(&mut j.kids, t); if g.bool() { j.kids.push(E::new(t)); } ("no parent or child", Box::new(move |m| matches!(m, ModelError::BadAttribute { attribute, .. } if attribute == t))) }
        5 | 6 if !joints.is_empty() => { let j = &mut e.kids[g.pick(&joints)]; drop(&mut j.kids, "origin"); let (a, v) = g.pick(&[("xyz", "nan 0 0"), ("rpy", "0 inf 0"), ("xyz", "1 2 3 4"), ("rpy", "1"), ("xyz", "1;2;3"), ("rpy", "0 0 1e999")]); j.kids.push(E::new("origin").a(a, v)); ("an unreadable origin", Box::new(move |m| matches!(m, ModelError::BadAttribute { element, attribute, value } if element == "origin" && attribute == a && value == v))) }
        7 if !masses.is_empty() => { let l = g.pick(&masses); let i = e.kids[l].kids.iter_mut().find(|k| k.tag == "inertial").unwrap(); let t = g.pick(&["mass", "inertia"]); drop(&mut i.kids, t); ("an inertial short of a part", Box::new(move |m| matches!(m, ModelError::BadAttribute { element, attribute, .. } if element == "inertial" && attribute == t))) }
        8 if !masses.is_empty() => { let l = g.pick(&masses); let i = e.kids[l].kids.iter_mut().find(|k| k.tag == "inertial").unwrap(); let k = i.kids.iter_mut().find(|k| k.tag == "inertia").unwrap(); let a = g.pick(&["ixx", "ixy", "ixz", "iyy", "iyz", "izz"]); k.attrs.retain(|x| x.0 != a); ("an inertia short of an entry", Box::new(move |m| matches!(m, ModelError::BadAttribute { element, attribute, .. } if element == "inertia" && attribute == a))) }
        9 if !masses.is_empty() => { let l = g.pick(&masses); let i = e.kids[l].kids.iter_mut().find(|k| k.tag == "inertial").unwrap(); let k = i.kids.iter_mut().find(|k| k.tag == "mass").unwrap(); let v = g.pick(&["0", "-1", "-0.0"]); set(k, "value", v); ("a mass that is none", Box::new(|m| matches!(m, ModelError::Inertia(_)))) }
        10 => { let v = g.pick(&["mujocoo", "sdf", "Robot", "urdf"]); e.tag = v.into(); (v, Box::new(move |m| matches!(m, ModelError::UnexpectedRootElement { found } if found == v))) }
        11 if !joints.is_empty() => { let j = &mut e.kids[g.pick(&joints)]; set(j, "type", "continuous"); drop(&mut j.kids, "mimic"); j.kids.push(E::new("mimic")); ("a mimic of nothing", Box::new(|m| matches!(m, ModelError::BadAttribute { element, attribute, .. } if element == "mimic" && attribute == "joint"))) }
        _ => discard!(),
    };
    let t = e.text(g); g.note("text", &t); g.note("planted", &what); g.nontrivial();
    let a = load_str(&t); if e.tag != "robot" { ensure!(ur::load_str(&t).is_err(), "urdf::load_str took a document that is not a robot"); }
    match a { Ok(_) => bad!("{what} was read past"), Err(m) => { ensure!(ok(&m), "{what} refused as {m:?}"); Ok(()) } }
}
fn set(e: &mut E, k: &str, v: &str) { e.attrs.retain(|a| a.0 != k); e.attrs.push((k.into(), v.into())); }
/// Files that include files: cycles, gaps and nonsense come back as errors.
fn include_files(g: &mut G) -> R {
    use std::sync::atomic::*; static N: AtomicUsize = AtomicUsize::new(0); let dir = std::env::temp_dir().join(format!("vk_c32_{}_{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed))); std::fs::create_dir_all(&dir).expect("scratch directory");
    let n = g.size(1, 5); let mut links: Vec<Vec<usize>> = vec![]; let mut broken = false; let mut unique = 0;
    for i in 0..n {
        let mut e = E::new("mujoco"); let mut w = E::new("worldbody"); let mut out = vec![];
        for _ in 0..g.below(3) { let mut inc = E::new("include"); let to = if g.chance(1, 12) { n + 1 } else if g.chance(4, 5) { i + 1 } else { g.below(n) }; if to >= n && g.chance(2, 3) { continue; } if g.chance(1, 20) { broken = true; } else { inc = inc.a("file", format!("f{to}.xml")); } if to >= n { broken = true; } else { out.push(to); } if g.chance(1, 5) { for _ in 0..1 + g.below(3) { inc = inc.k(E::new("include").a("file", "f0.xml")); } } if g.bool() { e.kids.push(inc); } else { w.kids.push(inc); } }
        if g.chance(3, 4) { unique += 1; w.kids.push(E::new("body").a("name", format!("b{i}")).k(E::new("inertial").a("mass", "1").a("diaginertia", "1 1 1"))); } shuffle(g, &mut w.kids); e.kids.push(w); shuffle(g, &mut e.kids);
        let mut t = e.text(g); if g.chance(1, 30) { t.truncate(t.len() / 2); while !t.is_char_boundary(t.len()) { t.pop(); } broken = true; } std::fs::write(dir.join(format!("f{i}.xml")), t).expect("scratch file"); links.push(out);
    }
    // Depth-first walk of what is included from file 0.
    fn walk(links: &[Vec<usize>], i: usize, depth: usize, seen: &mut Vec<usize>) -> bool { if depth > 8 { return false; } seen.push(i); if seen.len() > 4000 { return false; } links[i].iter().all(|&k| walk(links, k, depth + 1, seen)) }
    let mut seen = vec![]; let fine = walk(&links, 0, 0, &mut seen); let a = load_path(&dir.join("f0.xml")); let b = mj::load_path(&dir.join("f0.xml")); let _ = std::fs::remove_dir_all(&dir); ensure!(a == b, "load_path and mjcf::load_path differ"); g.nontrivial_if(seen.len() > 1); let _ = unique;
    match a { Ok(m) => { sound(&m)?; ensure!(fine, "an endless include loaded"); } Err(ModelError::IncludeTooDeep { .. }) => ensure!(!fine, "an include chain of finite depth refused as endless"), Err(ModelError::FileRead(_) | ModelError::Xml(_) | ModelError::BadAttribute { .. } | ModelError::NoBodies | ModelError::MissingWorldbody) => { g.label_if(broken, "broken include") } Err(e) => bad!("includes refused with {e:?}") }
    ensure!(matches!(load_path(&dir.join("f0.xml")), Err(ModelError::FileRead(_))), "a file that is gone was read"); Ok(())
}
// ---- sizes that would exhaust a call stack: run in a child, whose death is the finding
fn big(kind: usize, n: usize) -> String {
    let m = |s: String| format!("<mujoco>{s}</mujoco>"); let i = "<inertial mass=\"1\" diaginertia=\"1 1 1\"/>";
    match kind {
        0 => { let mut s = String::from("<robot>"); for k in 0..n { s += &format!("<link name=\"l{k}\"/>"); if k > 0 { s += &format!("<joint name=\"j{k}\" type=\"continuous\"><parent link=\"l{}\"/><child link=\"l{k}\"/></joint>", k - 1); } } s + "</robot>" }
        1 => m(format!("<worldbody>{}{}</worldbody>", format!("<body>{i}").repeat(n), "</body>".repeat(n))),
        2 => m(format!("{}<body>{i}</body>{}", "<worldbody>".repeat(n), "</worldbody>".repeat(n))),
        3 => { let mut s = String::new(); for k in 0..n { s += &if k == 0 { "<default>".to_string() } else { format!("<default class=\"c{k}\">") }; } m(s + &"</default>".repeat(n) + "<worldbody><body>" + i + "</body></worldbody>") }
        4 => format!("<robot><link>{}{}</link></robot>", "<a>".repeat(n), "</a>".repeat(n)),
        5 => { let mut s = String::from("<robot><link name=\"l0\"/>"); for k in 1..n { s += &format!("<link name=\"l{k}\"/><joint name=\"j{k}\" type=\"fixed\"><parent link=\"l0\"/><child link=\"l{k}\"/></joint>"); } s + "</robot>" }
        _ => m("<worldbody>".to_string() + &format!("<body>{i}</body>").repeat(n) + "</worldbody>"),
    }
}
fn child(kind: usize, n: usize) -> ! { let s = big(kind, n); let r = std::panic::catch_unwind(|| match load_str(&s) { Ok(m) => { let _ = m.kinematic_tree::<4, 10>(); let _ = m.kinematic_tree_to::<4, 10>(m.bodies()[m.body_count() - 1].name()); println!("loaded {}", m.body_count()); } Err(e) => println!("refused {}", e.to_string().len()) }); std::process::exit(if r.is_ok() { 0 } else { 9 }) }
fn sizes(g: &mut G) -> R {
    let kind = g.below(7); let n = g.pick(&[20_000usize, 60_000]); g.note("kind", &kind); g.note("n", &n); g.nontrivial();
    let exe = match std::env::current_exe() { Ok(e) => e, Err(_) => discard!() };
    let out = match std::process::Command::new(exe).env("VK_C32_CHILD", format!("{kind} {n}")).output() { Ok(o) => o, Err(_) => discard!() };
    let text = String::from_utf8_lossy(&out.stdout).into_owned(); use std::os::unix::process::ExitStatusExt;
    // Killed from outside for want of memory says nothing about the loader.
    if out.status.signal() == Some(9) { discard!(); }
    ensure!(out.status.success(), "loading a document of {n} (kind {kind}) ended the process: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr).lines().take(2).collect::<Vec<_>>().join(" "));
    let want = match kind { 0 | 1 | 5 | 6 => n, 2 | 3 | 4 => 1, _ => 0 }; ensure!(text.trim() == format!("loaded {want}") || text.starts_with("refused"), "kind {kind} of {n}: {text}"); g.label_if(text.starts_with("loaded"), "loaded"); Ok(())
}
/// Text with little or no structure.
fn junk(g: &mut G) -> R {
    let n = g.below(200); let words = ["<", ">", "</", "/>", "robot", "mujoco", "link", "body", "worldbody", " name=\"a\"", " class=\"a\"", "\"", "'", "=", " ", "&amp;", "&#0;", "&#x41;", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "\u{0}", "\u{feff}", "é", "joint", "default", "nan", "1e999"]; let s: String = (0..n).map(|_| g.pick(&words)).collect(); g.note("text", &s); g.nontrivial_if(n > 0); let _ = answers(&s)?; Ok(())
}
fn main() {
    if let Ok(v) = std::env::var("VK_C32_CHILD") { let p: Vec<usize> = v.split(' ').filter_map(|x| x.parse().ok()).collect(); if p.len() == 2 { child(p[0], p[1]); } }
    vk::run("C32", &["documents up to 60000 elements or levels", "include trees of files with up to five files; fan-out that multiplies text without limit is not judged"], &[
        law!("bytes", 30000, bytes, "a mutated document"),
        law!("attributes", 30000, attributes, "a mutated attribute"),
        law!("elements", 30000, elements, "a mutated element tree"),
        law!("wiring", 20000, wiring, "at least one joint"),
        law!("unsupported", 20000, unsupported, "a construct was planted"),
        law!("unsupported_urdf", 15000, unsupported_urdf, "a construct was planted"),
        law!("include_files", 3000, include_files, "at least one include followed"),
        law!("junk", 10000, junk, "not empty"),
        law!("sizes", 28, sizes, "a large document"),
    ]);
}
