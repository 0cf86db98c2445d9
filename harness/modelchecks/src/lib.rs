//! Random robot descriptions, their URDF and MJCF spellings, and what each should load to.
//! The expectation is built beside the document from the format's rules, never by reading it back.
use checks::arm::{act, mul, nrm, qrot, rod, rt, H, ID, V3};
use multicalc::kinematics::JointKind;
use multicalc_robot_model::{ModelFormat, RobotModel};
use std::collections::BTreeMap;
use vk::*;

pub type M3 = [[f64; 3]; 3];
pub const PI: f64 = std::f64::consts::PI;

/// An XML element.
#[derive(Clone, Debug, PartialEq)]
pub struct E { pub tag: String, pub attrs: Vec<(String, String)>, pub kids: Vec<E> }
impl E {
    pub fn new(tag: &str) -> E { E { tag: tag.into(), attrs: vec![], kids: vec![] } }
    pub fn a(mut self, k: &str, v: impl Into<String>) -> E { self.attrs.push((k.into(), v.into())); self }
    pub fn k(mut self, kid: E) -> E { self.kids.push(kid); self }
    pub fn count(&self) -> usize { 1 + self.kids.iter().map(E::count).sum::<usize>() }
    /// The `i`-th element in document order.
    pub fn nth(&mut self, i: usize) -> Option<&mut E> { let mut left = i; self.nth_in(&mut left) }
    fn nth_in(&mut self, left: &mut usize) -> Option<&mut E> { if *left == 0 { return Some(self); } *left -= 1; for k in &mut self.kids { if let Some(e) = k.nth_in(left) { return Some(e); } } None }
    pub fn text(&self, g: &mut G) -> String { let mut s = String::new(); if g.chance(1, 3) { s += "<?xml version=\"1.0\"?>"; } self.write(g, &mut s); s }
    pub fn write(&self, g: &mut G, s: &mut String) {
        let gap = |g: &mut G, s: &mut String| match g.below(6) { 0 => *s += "\n  ", 1 => *s += "\t", 2 => *s += "<!-- <body name=\"not here\"/> -->", _ => {} };
        *s += "<"; *s += &self.tag;
        let mut order: Vec<usize> = (0..self.attrs.len()).collect(); shuffle(g, &mut order);
        for i in order { let (k, v) = &self.attrs[i]; *s += g.pick(&[" ", " ", "  ", "\n"]); *s += k; *s += g.pick(&["=", "=", " = "]); let q = if g.bool() { '"' } else { '\'' }; s.push(q); *s += &escape(v, q); s.push(q); }
        if self.kids.is_empty() && g.chance(3, 4) { *s += "/>"; return; }
        *s += ">"; for k in &self.kids { gap(g, s); k.write(g, s); } gap(g, s); *s += "</"; *s += &self.tag; *s += ">";
    }
}
pub fn escape(v: &str, q: char) -> String { v.chars().map(|c| match c { '&' => "&amp;".into(), '<' => "&lt;".into(), '\n' => "&#10;".into(), '\t' => "&#9;".into(), '\r' => "&#13;".into(), c if c == q => if q == '"' { "&quot;".into() } else { "&apos;".into() }, c => c.to_string() }).collect() }
pub fn shuffle<T>(g: &mut G, v: &mut [T]) { if g.chance(1, 3) { return; } for i in (1..v.len()).rev() { let j = g.below(i + 1); v.swap(i, j); } }
/// A number spelled one of the ways a file may spell it; each reads back exactly.
pub fn num(g: &mut G, x: f64) -> String { match g.below(5) { 0 => format!("{x:e}"), 1 if x > 0.0 => format!("+{x:?}"), 2 => format!("{x}"), 3 => { let s = format!("{x:?}"); if s.ends_with(".0") { s[..s.len() - 1].into() } else if s.starts_with("0.") { s[1..].into() } else { s } } _ => format!("{x:?}") } }
pub fn nums(g: &mut G, xs: &[f64]) -> String { let mut s = String::new(); if g.chance(1, 8) { s += " "; } for (i, x) in xs.iter().enumerate() { if i > 0 { s += g.pick(&[" ", " ", "  "]); } s += &num(g, *x); } if g.chance(1, 8) { s += " "; } s }
/// A value as models state them: often round, sometimes full precision.
pub fn val(g: &mut G, lo: f64, hi: f64) -> f64 { let x = g.f(lo, hi); if g.bool() { (x * 100.0).round() / 100.0 } else { x } }

#[derive(Clone, Debug)]
pub struct JD { pub name: String, pub kind: JointKind, pub axis: V3, pub anchor: V3, pub limits: Option<(f64, f64)>, pub zero: f64, pub armature: f64, pub damping: f64, pub friction: f64, pub sref: f64, pub stiff: f64, pub mimic: Option<(String, f64, f64)> }
#[derive(Clone, Debug)]
pub struct BD { pub name: String, pub parent: Option<usize>, pub pose: H, pub inertia: Option<(f64, V3, M3)>, pub joint: Option<JD> }
#[derive(Clone, Debug)]
pub struct Expect { pub name: String, pub format: ModelFormat, pub bodies: Vec<BD>, pub floating: bool, pub ignored: Vec<String> }
pub fn floating(name: &str) -> JD { JD { name: name.into(), kind: JointKind::Floating, axis: [1.0, 0.0, 0.0], anchor: [0.0; 3], limits: None, zero: 0.0, armature: 0.0, damping: 0.0, friction: 0.0, sref: 0.0, stiff: 0.0, mimic: None } }

pub fn name(g: &mut G, stem: &str, i: usize) -> String { match g.below(8) { 0 => format!("{stem} {i}"), 1 => format!("{stem}<&{i}"), 2 => format!("é{stem}_{i}"), 3 => format!("\"{stem}'{i}"), _ => format!("{stem}{i}") } }
pub fn m3mul(a: &M3, b: &M3) -> M3 { core::array::from_fn(|i| core::array::from_fn(|j| (0..3).map(|k| a[i][k] * b[k][j]).sum())) }
pub fn m3t(a: &M3) -> M3 { core::array::from_fn(|i| core::array::from_fn(|j| a[j][i])) }
pub fn turned(r: &M3, t: &M3) -> M3 { m3mul(&m3mul(r, t), &m3t(r)) }
pub fn diag(d: V3) -> M3 { [[d[0], 0.0, 0.0], [0.0, d[1], 0.0], [0.0, 0.0, d[2]]] }
/// Principal moments some solid could have.
pub fn moments(g: &mut G) -> V3 { let k = g.log10(-3.0, 1.0); let s = [g.u(0.1, 1.0) * k, g.u(0.1, 1.0) * k, g.u(0.1, 1.0) * k]; [s[1] + s[2], s[0] + s[2], s[0] + s[1]] }
pub fn unit4(g: &mut G) -> [f64; 4] { if g.chance(1, 4) { return [1.0, 0.0, 0.0, 0.0]; } loop { let q = [val(g, -1.0, 1.0), val(g, -1.0, 1.0), val(g, -1.0, 1.0), val(g, -1.0, 1.0)]; if nrm(&q) > 0.1 { let k = if g.chance(1, 3) { g.pick(&[2.0, 0.5, 10.0]) } else { 1.0 / nrm(&q) }; return q.map(|x| x * k); } if g.pos() > 6000 { return [1.0, 0.0, 0.0, 0.0]; } } }
pub fn axis3(g: &mut G) -> V3 { checks::arm::dir(g).map(|x| if g.chance(1, 4) { x * 3.0 } else { x }) }
pub fn unit(a: V3) -> V3 { let n = nrm(&a); a.map(|x| x / n) }

macro_rules! near { ($g:expr, $what:expr, $a:expr, $b:expr, $scale:expr) => {{ let (a, b): (f64, f64) = ($a, $b); ensure!((a - b).abs() <= 1e-12 * (1.0 + ($scale as f64).abs()), "{}: loaded {a:?}, file states {b:?}", $what); }} }
/// Every number, name and link of a loaded model against what its document states.
pub fn compare(m: &RobotModel, e: &Expect) -> R {
    ensure!(m.name() == e.name, "model name {:?} vs {:?}", m.name(), e.name);
    ensure!(m.format() == e.format, "format {:?} vs {:?}", m.format(), e.format);
    ensure!(m.body_count() == e.bodies.len() && m.bodies().len() == e.bodies.len(), "{} bodies loaded, {} stated", m.body_count(), e.bodies.len());
    ensure!(m.has_floating_base() == e.floating, "floating base {} vs {}", m.has_floating_base(), e.floating);
    ensure!(m.ignored() == e.ignored.as_slice(), "ignored {:?} vs {:?}", m.ignored(), e.ignored);
    ensure!(m.movable_joint_count() == e.bodies.iter().filter(|b| b.joint.is_some()).count(), "movable joints {}", m.movable_joint_count());
    for (i, (b, x)) in m.bodies().iter().zip(&e.bodies).enumerate() {
        ensure!(b.name() == x.name, "body {i} name {:?} vs {:?}", b.name(), x.name);
        ensure!(b.parent() == x.parent, "body {i} {:?} parent {:?} vs {:?}", x.name, b.parent(), x.parent);
        ensure!(m.body(i) == Some(b), "body({i}) is not bodies()[{i}]");
        let h = checks::arm::hom(&b.pose()); let sc = nrm(&[x.pose[0][3], x.pose[1][3], x.pose[2][3]]);
        for r in 0..3 { for c in 0..4 { near!(g, format!("body {i} {:?} pose[{r}][{c}]", x.name), h[r][c], x.pose[r][c], sc); } }
        match (b.inertia(), &x.inertia) { (None, None) => {} (Some(s), Some((mass, com, t))) => {
            near!(g, format!("body {i} {:?} mass", x.name), s.mass(), *mass, mass * 10.0); let cs = nrm(com);
            for k in 0..3 { near!(g, format!("body {i} {:?} centre of mass[{k}]", x.name), s.center_of_mass()[k], com[k], cs * 10.0); }
            let ts = t.iter().flatten().fold(0f64, |a, v| a.max(v.abs()));
            for r in 0..3 { for c in 0..3 { let (a, w) = (s.rotational_inertia()[(r, c)], t[r][c]); ensure!((a - w).abs() <= 1e-11 * ts + 1e-12 * mass * (1.0 + cs * cs), "body {i} {:?} inertia[{r}][{c}]: loaded {a:?}, file states {w:?}", x.name); } }
        } (a, w) => bad!("body {i} {:?} inertia {a:?} vs {w:?}", x.name) }
        match (b.joint(), &x.joint) { (None, None) => {} (Some(j), Some(w)) => {
            ensure!(j.name() == w.name, "joint {i} name {:?} vs {:?}", j.name(), w.name); ensure!(j.kind() == w.kind, "joint {i} kind {:?} vs {:?}", j.kind(), w.kind);
            for k in 0..3 { near!(g, format!("joint {i} axis[{k}]"), j.axis()[k], w.axis[k], 1.0); near!(g, format!("joint {i} anchor[{k}]"), j.anchor()[k], w.anchor[k], w.anchor[k]); }
            match (j.limits(), w.limits) { (None, None) => {} (Some(a), Some(b)) => { near!(g, format!("joint {i} lower limit"), a.0, b.0, b.0); near!(g, format!("joint {i} upper limit"), a.1, b.1, b.1); } (a, b) => bad!("joint {i} limits {a:?} vs {b:?}") }
            for (what, a, b) in [("zero offset", j.zero_offset(), w.zero), ("armature", j.armature(), w.armature), ("damping", j.damping(), w.damping), ("friction loss", j.friction_loss(), w.friction), ("spring reference", j.spring_reference(), w.sref), ("spring stiffness", j.spring_stiffness(), w.stiff)] { near!(g, format!("joint {i} {what}"), a, b, b); }
            match (j.mimic(), &w.mimic) { (None, None) => {} (Some(a), Some((n, k, o))) => { ensure!(a.joint() == n && a.multiplier() == *k && a.offset() == *o, "joint {i} mimic {a:?} vs {:?}", w.mimic); } (a, b) => bad!("joint {i} mimic {a:?} vs {b:?}") }
        } (a, w) => bad!("body {i} {:?} joint {a:?} vs {w:?}", x.name) }
    }
    Ok(())
}

// ---------------------------------------------------------------- URDF
pub fn rpy(r: f64, p: f64, y: f64) -> M3 { m3mul(&m3mul(&rod([0.0, 0.0, 1.0], y), &rod([0.0, 1.0, 0.0], p)), &rod([1.0, 0.0, 0.0], r)) }
fn urdf_origin(g: &mut G) -> (Option<E>, H) {
    if g.chance(1, 5) { return (None, ID); }
    let mut e = E::new("origin"); let (mut p, mut r) = ([0.0; 3], diag([1.0; 3]));
    if g.chance(4, 5) { p = [val(g, -2.0, 2.0), val(g, -2.0, 2.0), val(g, -2.0, 2.0)]; e = e.a("xyz", nums(g, &p)); }
    if g.chance(3, 4) { let w = if g.chance(1, 6) { 20.0 } else { 3.2 }; let a = [val(g, -w, w), val(g, -w, w), val(g, -w, w)].map(|x| if g.chance(1, 4) { 0.0 } else if g.chance(1, 6) { PI / 2.0 } else { x }); r = rpy(a[0], a[1], a[2]); e = e.a("rpy", nums(g, &a)); }
    (Some(e), rt(r, p))
}
pub fn urdf_inertial(g: &mut G) -> (E, (f64, V3, M3)) {
    let (o, h) = urdf_origin(g); let mass = { let m = g.log10(-2.0, 2.0); if g.bool() { (m * 100.0).ceil() / 100.0 } else { m } }; let q = unit4(g); let d = moments(g).map(|x| x * mass); let t = turned(&qrot(q), &diag(d)); let t: M3 = core::array::from_fn(|i| core::array::from_fn(|j| t[i.min(j)][i.max(j)]));
    let r: M3 = core::array::from_fn(|i| core::array::from_fn(|j| h[i][j]));
    let mut e = E::new("inertial"); let mut parts = vec![]; if let Some(o) = o { parts.push(o); } parts.push(E::new("mass").a("value", num(g, mass)));
    parts.push(E::new("inertia").a("ixx", num(g, t[0][0])).a("ixy", num(g, t[0][1])).a("ixz", num(g, t[0][2])).a("iyy", num(g, t[1][1])).a("iyz", num(g, t[1][2])).a("izz", num(g, t[2][2])));
    shuffle(g, &mut parts); e.kids = parts; (e, (mass, [h[0][3], h[1][3], h[2][3]], turned(&r, &t)))
}
fn noise_shape(g: &mut G, tag: &str) -> E { let s = match g.below(3) { 0 => E::new("box").a("size", "1 2 3"), 1 => E::new("sphere").a("radius", "nan"), _ => E::new("mesh").a("filename", "package://x/y.dae") }; let mut e = E::new(tag).k(E::new("geometry").k(s)); if g.bool() { e = e.k(E::new("origin").a("xyz", "9 9 9")); } e }
/// A URDF document and what it states.
pub fn urdf(g: &mut G) -> (E, Expect) {
    let n = g.size(1, 12); let shape = g.below(3);
    let parent: Vec<Option<usize>> = (0..n).map(|i| if i == 0 { None } else { Some(match shape { 0 => i - 1, 1 => g.below(i), _ => i - 1 - g.below(i.min(2)) }) }).collect();
    let anon = if g.chance(1, 8) { g.below(n) } else { n };
    let names: Vec<String> = (0..n).map(|i| if i == anon { "link".into() } else { name(g, "l", i) }).collect();
    let mut links = vec![]; let mut inertia = vec![];
    for i in 0..n {
        let mut e = E::new("link"); if i != anon { e = e.a("name", names[i].clone()); } let mut w = None; let mut kids = vec![];
        if g.chance(2, 3) { let (x, s) = urdf_inertial(g); kids.push(x); w = Some(s); }
        if g.chance(1, 4) { kids.push(noise_shape(g, "visual")); } if g.chance(1, 4) { kids.push(noise_shape(g, "collision")); }
        shuffle(g, &mut kids); e.kids = kids; links.push(e); inertia.push(w);
    }
    let mut joints: Vec<(usize, E, H, Option<JD>)> = vec![];
    for i in 1..n {
        let kind = g.pick(&[JointKind::Revolute, JointKind::Revolute, JointKind::Continuous, JointKind::Prismatic, JointKind::Fixed]); let mut kids = vec![]; let mut e = E::new("joint");
        let jn = if g.chance(1, 12) { "joint".to_string() } else { let s = name(g, "j", i); e = e.a("name", s.clone()); s };
        e = e.a("type", match kind { JointKind::Revolute => "revolute", JointKind::Continuous => "continuous", JointKind::Prismatic => "prismatic", _ => "fixed" });
        kids.push(E::new("parent").a("link", names[parent[i].unwrap()].clone())); kids.push(E::new("child").a("link", names[i].clone()));
        let (o, h) = urdf_origin(g); kids.extend(o);
        let mut d = JD { axis: [1.0, 0.0, 0.0], kind, ..floating(&jn) };
        if g.chance(3, 4) { let a = axis3(g); let mut x = E::new("axis"); if g.chance(9, 10) { x = x.a("xyz", nums(g, &a)); d.axis = unit(a); } kids.push(x); }
        if kind != JointKind::Continuous && kind != JointKind::Fixed { let lo = val(g, -3.0, 2.0); let hi = lo + val(g, 0.0, 3.0); kids.push(E::new("limit").a("lower", num(g, lo)).a("upper", num(g, hi)).a("effort", "87").a("velocity", "2")); d.limits = Some((lo, hi)); }
        if kind == JointKind::Continuous && g.bool() { kids.push(E::new("limit").a("effort", "87")); }
        if g.chance(1, 3) { let mut x = E::new("dynamics"); if g.chance(2, 3) { d.damping = val(g, 0.0, 5.0); x = x.a("damping", num(g, d.damping)); } if g.chance(2, 3) { d.friction = val(g, 0.0, 5.0); x = x.a("friction", num(g, d.friction)); } kids.push(x); }
        if g.chance(1, 4) { kids.push(E::new("safety_controller").a("soft_lower_limit", "-0.1").a("k_velocity", "1")); }
        if g.chance(1, 12) { let (mut k, mut o) = (1.0, 0.0); let mut x = E::new("mimic").a("joint", "lead"); if g.bool() { k = val(g, -2.0, 2.0); x = x.a("multiplier", num(g, k)); } if g.bool() { o = val(g, -2.0, 2.0); x = x.a("offset", num(g, o)); } kids.push(x); d.mimic = Some(("lead".into(), k, o)); }
        shuffle(g, &mut kids); e.kids = kids; joints.push((i, e, h, if kind == JointKind::Fixed { None } else { Some(d) }));
    }
    shuffle(g, &mut joints);
    // Depth-first, a link's children in the order the document lists their joints.
    let mut bodies: Vec<BD> = vec![]; let mut at = vec![usize::MAX; n]; let mut todo = vec![0usize];
    while let Some(i) = todo.pop() {
        at[i] = bodies.len(); let j = joints.iter().find(|j| j.0 == i);
        bodies.push(BD { name: names[i].clone(), parent: parent[i].map(|p| at[p]), pose: j.map_or(ID, |j| j.2), inertia: inertia[i], joint: j.and_then(|j| j.3.clone()) });
        for j in joints.iter().rev() { if parent[j.0] == Some(i) { todo.push(j.0); } }
    }
    let mut order: Vec<usize> = (0..n).collect(); shuffle(g, &mut order); let mut li: Vec<E> = order.into_iter().map(|i| links[i].clone()).collect(); let mut ji: Vec<E> = joints.into_iter().map(|j| j.1).collect();
    // Interleave, keeping the joints in their own order.
    li.reverse(); ji.reverse(); let mut kids = vec![]; let mut ignored = vec![];
    while !li.is_empty() || !ji.is_empty() {
        if g.chance(1, 12) { let t = g.pick(&["transmission", "gazebo", "material"]); ignored.push(t.to_string()); kids.push(E::new(t).a("name", "x").k(E::new("joint").a("name", "zz"))); }
        let from = if li.is_empty() { &mut ji } else if ji.is_empty() || g.bool() { &mut li } else { &mut ji }; kids.extend(from.pop());
    }
    ignored.sort(); ignored.dedup();
    let mut root = E::new("robot"); let nm = if g.chance(1, 6) { "model".into() } else { let s = name(g, "robot", 0); root = root.a("name", s.clone()); s };
    root.kids = kids; (root, Expect { name: nm, format: ModelFormat::Urdf, bodies, floating: false, ignored })
}

// ---------------------------------------------------------------- MJCF
#[derive(Clone, Debug, PartialEq)]
pub enum V { N(Vec<f64>), T(&'static str) }
pub type Set = BTreeMap<&'static str, V>;
fn put(g: &mut G, mut e: E, s: &Set) -> E { for (k, v) in s { let t = match v { V::N(x) => nums(g, x), V::T(t) => t.to_string() }; e = e.a(k, t); } e }
fn over(a: &Set, b: &Set) -> Set { let mut r = a.clone(); r.extend(b.iter().map(|(k, v)| (*k, v.clone()))); r }
fn n<'a>(s: &'a Set, k: &str) -> Option<&'a [f64]> { match s.get(k) { Some(V::N(x)) => Some(x), _ => None } }
fn t(s: &Set, k: &str) -> Option<&'static str> { match s.get(k) { Some(V::T(x)) => Some(x), _ => None } }
#[derive(Clone, Debug, Default)]
pub struct Class { pub name: Option<String>, pub geom: Set, pub joint: Set }
fn geom_set(g: &mut G, p: u64) -> Set {
    let mut s = Set::new();
    if g.chance(p, 6) { let k = g.pick(&["sphere", "ellipsoid", "box", "cylinder", "capsule"]); let w = match k { "sphere" => 1, "cylinder" | "capsule" => 2, _ => 3 }; s.insert("type", V::T(k)); s.insert("size", V::N((0..w).map(|_| { let x = g.log10(-2.0, 0.0); if g.bool() { (x * 100.0).ceil() / 100.0 } else { x } }).collect())); }
    let kind = t(&s, "type");
    if g.chance(p, 6) && !(kind.is_some_and(|k| k == "cylinder" || k == "capsule") && g.bool()) { s.insert("pos", V::N((0..3).map(|_| val(g, -1.0, 1.0)).collect())); }
    else if kind.is_some_and(|k| k == "cylinder" || k == "capsule") { s.insert("fromto", V::N((0..6).map(|_| val(g, -1.0, 1.0)).collect())); if g.bool() { if let Some(V::N(z)) = s.get_mut("size") { z.truncate(1); } } }
    if g.chance(p, 6) { s.insert("quat", V::N(unit4(g).to_vec())); }
    if g.chance(p, 8) { s.insert("mass", V::N(vec![if g.chance(1, 6) { 0.0 } else { val(g, 0.1, 5.0) }])); }
    if g.chance(p, 8) { s.insert("density", V::N(vec![val(g, 100.0, 3000.0)])); }
    s
}
fn joint_set(g: &mut G, p: u64) -> Set {
    let mut s = Set::new();
    if g.chance(p, 8) { s.insert("type", V::T(g.pick(&["hinge", "hinge", "slide"]))); }
    if g.chance(p, 6) { s.insert("axis", V::N(axis3(g).to_vec())); }
    if g.chance(p, 8) { s.insert("pos", V::N((0..3).map(|_| val(g, -1.0, 1.0)).collect())); }
    if g.chance(p, 7) { let lo = val(g, -90.0, 30.0); s.insert("range", V::N(vec![lo, lo + val(g, 0.0, 90.0)])); }
    if g.chance(p, 10) { s.insert("limited", V::T(g.pick(&["true", "false", "auto", "auto"]))); }
    for k in ["armature", "damping", "frictionloss", "stiffness"] { if g.chance(p, 10) { s.insert(k, V::N(vec![val(g, 0.0, 5.0)])); } }
    for k in ["ref", "springref"] { if g.chance(p, 10) { s.insert(k, V::N(vec![val(g, -40.0, 40.0)])); } }
    s
}
/// A geom's mass, centre and inertia from the textbook solid; `Ok(None)` if it carries none, `Err` if unusable.
pub fn solid(s: &Set) -> Result<Option<(f64, V3, M3)>, &'static str> {
    if n(s, "mass") == Some(&[0.0]) { return Ok(None); }
    let kind = t(s, "type").unwrap_or("sphere"); let z = n(s, "size").unwrap_or(&[]); let long = kind == "cylinder" || kind == "capsule";
    let mut c = [0.0; 3]; if let Some(p) = n(s, "pos") { c = [p[0], p[1], p[2]]; }
    let mut q = qrot([1.0, 0.0, 0.0, 0.0]); if let Some(w) = n(s, "quat") { q = qrot([w[0], w[1], w[2], w[3]]); }
    let mut half = z.get(1).copied(); let mut along: Option<V3> = None;
    if let Some(f) = n(s, "fromto") { if !long { return Err("fromto"); } if s.contains_key("pos") { return Err("placement"); } let d = [f[3] - f[0], f[4] - f[1], f[5] - f[2]]; let l = nrm(&d); if l < 1e-3 { return Err("short"); } half = Some(l / 2.0); along = Some(d.map(|x| x / l)); c = [(f[0] + f[3]) / 2.0, (f[1] + f[4]) / 2.0, (f[2] + f[5]) / 2.0]; }
    match kind { "sphere" if z.len() != 1 => return Err("size"), "box" | "ellipsoid" if z.len() != 3 => return Err("size"), "cylinder" | "capsule" if along.is_none() && z.len() != 2 => return Err("size"), "cylinder" | "capsule" if z.is_empty() => return Err("size"), _ => {} }
    let vol = match kind { "sphere" => 4.0 / 3.0 * PI * z[0].powi(3), "ellipsoid" => 4.0 / 3.0 * PI * z[0] * z[1] * z[2], "box" => 8.0 * z[0] * z[1] * z[2], "cylinder" => PI * z[0] * z[0] * 2.0 * half.unwrap(), _ => PI * z[0] * z[0] * 2.0 * half.unwrap() + 4.0 / 3.0 * PI * z[0].powi(3) };
    let m = match n(s, "mass") { Some(m) => m[0], None => vol * n(s, "density").map_or(1000.0, |d| d[0]) };
    let own = match kind {
        "sphere" => { let i = 0.4 * m * z[0] * z[0]; [i, i, i] } "ellipsoid" => { let (a, b, c) = (z[0] * z[0], z[1] * z[1], z[2] * z[2]); [0.2 * m * (b + c), 0.2 * m * (a + c), 0.2 * m * (a + b)] }
        "box" => { let (a, b, c) = (4.0 * z[0] * z[0], 4.0 * z[1] * z[1], 4.0 * z[2] * z[2]); [m / 12.0 * (b + c), m / 12.0 * (a + c), m / 12.0 * (a + b)] }
        "cylinder" => { let (r, h) = (z[0], 2.0 * half.unwrap()); let i = m / 12.0 * (3.0 * r * r + h * h); [i, i, m * r * r / 2.0] }
        _ => { let (r, h) = (z[0], 2.0 * half.unwrap()); let mc = m * (PI * r * r * h) / vol; let ms = m - mc; let i = mc * (h * h / 12.0 + r * r / 4.0) + ms * (0.4 * r * r + h * h / 4.0 + 3.0 * h * r / 8.0); [i, i, mc * r * r / 2.0 + ms * 0.4 * r * r] }
    };
    let tensor = match along { Some(d) => core::array::from_fn(|i| core::array::from_fn(|j| (if i == j { own[0] } else { 0.0 }) + (own[2] - own[0]) * d[i] * d[j])), None => turned(&q, &diag(own)) };
    Ok(Some((m, c, tensor)))
}
pub fn together(parts: &[(f64, V3, M3)]) -> Option<(f64, V3, M3)> {
    let m: f64 = parts.iter().map(|p| p.0).sum(); if parts.is_empty() { return None; }
    let c: V3 = core::array::from_fn(|k| parts.iter().map(|p| p.0 * p.1[k]).sum::<f64>() / m);
    let mut i = [[0.0; 3]; 3]; for p in parts { let d: V3 = core::array::from_fn(|k| p.1[k] - c[k]); let dd: f64 = d.iter().map(|x| x * x).sum(); for r in 0..3 { for s in 0..3 { i[r][s] += p.2[r][s] + p.0 * ((if r == s { dd } else { 0.0 }) - d[r] * d[s]); } } }
    Some((m, c, i))
}
pub struct Mj { pub classes: BTreeMap<String, Class>, pub root: Class, pub degrees: bool, pub auto: bool, pub infer: &'static str }
impl Mj {
    fn class(&self, own: Option<&str>, chain: Option<&str>) -> Class { match own.or(chain) { Some("main") | None => self.root.clone(), Some(c) => { let k = &self.classes[c]; Class { name: k.name.clone(), geom: over(&self.root.geom, &k.geom), joint: over(&self.root.joint, &k.joint) } } } }
    fn pick(&self, g: &mut G) -> Option<String> { let v: Vec<&String> = self.classes.keys().collect(); if v.is_empty() { None } else { Some(v[g.below(v.len())].clone()) } }
}
fn default_block(g: &mut G, mj: &mut Mj, inherited: &Class, name: Option<String>, depth: usize, id: &mut usize, p: u64) -> E {
    let mut e = E::new("default"); if let Some(c) = &name { e = e.a("class", c.clone()); }
    let mut cur = inherited.clone(); cur.name = name.clone(); let mut kids = vec![];
    for _ in 0..g.below(3) { if g.bool() { let s = geom_set(g, p); cur.geom = over(&cur.geom, &s); kids.push(put(g, E::new("geom"), &s)); } else { let s = joint_set(g, p); cur.joint = over(&cur.joint, &s); kids.push(put(g, E::new("joint"), &s)); } }
    if g.chance(1, 4) { kids.push(E::new("motor").a("ctrlrange", "-1 1")); }
    match &name { None => mj.root = cur.clone(), Some(c) if c == "main" => mj.root = cur.clone(), Some(c) => { mj.classes.insert(c.clone(), cur.clone()); } }
    if depth < 3 { for _ in 0..g.below(3) { *id += 1; let c = format!("c{}", *id); let b = default_block(g, mj, &cur, Some(c), depth + 1, id, 3); kids.push(b); } }
    e.kids = kids; e
}
/// An MJCF document and what it states; `None` where the settings it picked do not describe a loadable model
/// (then the reason the loader must refuse it is `Err`).
pub fn mjcf(g: &mut G) -> (E, Result<Expect, &'static str>) {
    let mut mj = Mj { classes: BTreeMap::new(), root: Class::default(), degrees: true, auto: true, infer: "auto" };
    let mut sections = vec![];
    if g.chance(2, 3) { let mut parts: Vec<(&str, &'static str)> = vec![]; if g.bool() { let v = g.pick(&["degree", "radian"]); mj.degrees = v == "degree"; parts.push(("angle", v)); } if g.chance(1, 3) { let v = g.pick(&["true", "true", "false"]); mj.auto = v == "true"; parts.push(("autolimits", v)); } if g.chance(1, 3) { mj.infer = g.pick(&["true", "false", "auto"]); parts.push(("inertiafromgeom", mj.infer)); } if g.chance(1, 3) { parts.push(("meshdir", "assets")); } if g.chance(1, 4) { parts.push(g.pick(&[("settotalmass", "-1"), ("boundmass", "0"), ("boundinertia", "0"), ("balanceinertia", "false"), ("inertiagrouprange", "0 5"), ("coordinate", "local")])); }
        let cut = if g.chance(1, 4) { g.below(parts.len() + 1) } else { parts.len() }; for half in [&parts[..cut], &parts[cut..]] { if half.is_empty() && cut != parts.len() { continue; } let mut e = E::new("compiler"); for (k, v) in half { e = e.a(k, *v); } sections.push(e); } }
    if g.chance(3, 4) { let mut id = 0; let nm = if g.chance(1, 3) { Some("main".to_string()) } else { None }; let none = Class::default(); let b = default_block(g, &mut mj, &none, nm, 0, &mut id, 1); sections.push(b); if g.chance(1, 4) { let root = mj.root.clone(); let mut e = E::new("default"); id += 1; let c = format!("c{id}"); e.kids.push(default_block(g, &mut mj, &root, Some(c), 1, &mut id, 3)); sections.push(e); } }
    let total = g.size(1, 9); let mut bodies: Vec<BD> = vec![]; let mut bad: Option<&'static str> = None; let mut tops = vec![]; let mut count = 0; let mut is_floating = false;
    while count < total { let e = mj_body(g, &mj, None, None, 0, total, &mut count, &mut bodies, &mut bad, &mut is_floating); tops.push(e); }
    // One worldbody, or several sections of it.
    let mut worlds = vec![E::new("worldbody")]; for b in tops { if g.chance(1, 8) { worlds.push(E::new("worldbody")); } let w = worlds.last_mut().unwrap(); if g.chance(1, 6) { w.kids.push(E::new("light").a("pos", "0 0 3")); } if g.chance(1, 6) { w.kids.push(E::new("geom").a("type", "plane").a("size", "1 1 1")); } w.kids.push(b); }
    let mut ignored = vec![]; for x in ["actuator", "sensor", "asset", "option", "keyframe", "contact", "equality", "tendon"] { if g.chance(1, 8) { ignored.push(x.to_string()); sections.push(E::new(x).k(E::new("joint").a("name", "j").a("axis", "zzz"))); } }
    sections.extend(worlds);
    // The order of sections says nothing, save that repeated ones keep theirs.
    let mut order: Vec<usize> = (0..sections.len()).collect(); shuffle(g, &mut order); let mut slots: Vec<E> = vec![E::new(""); sections.len()];
    for tag in sections.iter().map(|s| s.tag.clone()).collect::<std::collections::BTreeSet<_>>() { let from: Vec<usize> = (0..sections.len()).filter(|&i| sections[i].tag == tag).collect(); let mut to: Vec<usize> = from.iter().map(|&i| order[i]).collect(); to.sort(); for (a, b) in from.into_iter().zip(to) { slots[b] = sections[a].clone(); } }
    ignored.sort(); let mut root = E::new("mujoco"); let nm = if g.chance(1, 4) { "model".into() } else { let s = name(g, "robot", 1); root = root.a("model", s.clone()); s }; root.kids = slots;
    (root, match bad { Some(b) => Err(b), None => Ok(Expect { name: nm, format: ModelFormat::Mjcf, bodies, floating: is_floating, ignored }) })
}
#[allow(clippy::too_many_arguments)]
fn mj_body(g: &mut G, mj: &Mj, parent: Option<usize>, chain: Option<&str>, depth: usize, total: usize, count: &mut usize, out: &mut Vec<BD>, bad: &mut Option<&'static str>, is_floating: &mut bool) -> E {
    *count += 1; let mut e = E::new("body"); let nm = if g.chance(1, 10) { "body".into() } else { let s = name(g, "b", *count); e = e.a("name", s.clone()); s };
    let (mut p, mut q) = ([0.0; 3], [1.0, 0.0, 0.0, 0.0]); if g.chance(4, 5) { p = [val(g, -1.0, 1.0), val(g, -1.0, 1.0), val(g, -1.0, 1.0)]; e = e.a("pos", nums(g, &p)); } if g.chance(2, 3) { q = unit4(g); e = e.a("quat", nums(g, &q)); }
    let childclass = if g.chance(1, 4) { mj.pick(g) } else { None }; if let Some(c) = &childclass { e = e.a("childclass", c.clone()); } let chain = childclass.as_deref().or(chain);
    let mut kids = vec![]; let mut joint = None;
    if g.chance(3, 4) {
        if parent.is_none() && out.is_empty() && g.chance(1, 3) { kids.push(if g.bool() { E::new("freejoint").a("name", "root") } else { E::new("joint").a("type", "free") }); joint = Some(floating(&nm)); *is_floating = true; }
        else {
            let own = joint_set(g, 4); let cls = if g.chance(1, 3) { mj.pick(g) } else { None }; let s = over(&mj.class(cls.as_deref(), chain).joint, &own); let mut x = put(g, E::new("joint"), &own); if let Some(c) = &cls { x = x.a("class", c.clone()); }
            let jn = if g.chance(1, 8) { "joint".into() } else { let s = name(g, "j", *count); x = x.a("name", s.clone()); s }; kids.push(x);
            let hinge = t(&s, "type") != Some("slide"); let k = if hinge && mj.degrees { PI / 180.0 } else { 1.0 };
            let range = n(&s, "range").map(|r| (r[0] * k, r[1] * k));
            let limits = match t(&s, "limited").unwrap_or("auto") { "false" => None, "true" => { if range.is_none() { *bad = Some("range"); } range } _ => { if range.is_some() && !mj.auto { *bad = Some("range"); } range } };
            let f = |key: &str| n(&s, key).map_or(0.0, |x| x[0]);
            joint = Some(JD { name: jn, kind: if !hinge { JointKind::Prismatic } else if limits.is_some() { JointKind::Revolute } else { JointKind::Continuous }, axis: n(&s, "axis").map_or([0.0, 0.0, 1.0], |a| unit([a[0], a[1], a[2]])), anchor: n(&s, "pos").map_or([0.0; 3], |a| [a[0], a[1], a[2]]), limits, zero: f("ref") * k, armature: f("armature"), damping: f("damping"), friction: f("frictionloss"), sref: f("springref") * k, stiff: f("stiffness"), mimic: None });
        }
    }
    let mut inertial = None; let need = mj.infer == "false"; let mut parts = vec![];
    if need || g.bool() {
        let mut x = E::new("inertial"); let m = val(g, 0.1, 5.0); x = x.a("mass", num(g, m)); let mut c = [0.0; 3]; if g.chance(2, 3) { c = [val(g, -1.0, 1.0), val(g, -1.0, 1.0), val(g, -1.0, 1.0)]; x = x.a("pos", nums(g, &c)); } let d = moments(g);
        let tensor = if g.bool() { let w = unit4(g); if g.chance(2, 3) { x = x.a("quat", nums(g, &w)); x = x.a("diaginertia", nums(g, &d)); turned(&qrot(w), &diag(d)) } else { x = x.a("diaginertia", nums(g, &d)); diag(d) } } else { let w = turned(&qrot(unit4(g)), &diag(d)); x = x.a("fullinertia", nums(g, &[w[0][0], w[1][1], w[2][2], w[0][1], w[0][2], w[1][2]])); let s = |i: usize, j: usize| w[i.min(j)][i.max(j)]; core::array::from_fn(|i| core::array::from_fn(|j| s(i, j))) };
        kids.push(x); inertial = Some((m, c, tensor));
    }
    let must = mj.infer == "true" || inertial.is_none(); let reads = must && !need;
    for k in 0..(if must { 1 + g.below(3) } else { g.below(2) }) {
        let cls = if g.chance(1, 3) { mj.pick(g) } else { None }; let base = mj.class(cls.as_deref(), chain).geom; let mut own = geom_set(g, 4);
        for _ in 0..4 { if solid(&over(&base, &own)).is_ok_and(|s| k > 0 || s.is_some()) { break; } own = geom_set(g, 6); if k == 0 { own.insert("mass", V::N(vec![val(g, 0.1, 3.0)])); } }
        let mut x = put(g, E::new("geom"), &own); if let Some(c) = &cls { x = x.a("class", c.clone()); } if g.chance(1, 5) { x = x.a("rgba", "1 0 0 1"); }
        if !reads && g.chance(1, 3) { x = x.a("euler", "1 2 3"); }
        if reads { match solid(&over(&base, &own)) { Ok(Some(s)) => parts.push(s), Ok(None) => {} Err(w) => *bad = Some(w) } } kids.push(x);
    }
    if reads && g.chance(1, 6) { kids.push(E::new("geom").a("type", "mesh").a("mesh", "m").a("mass", "0")); }
    let inertia = if reads { let s = together(&parts); if s.is_none() { *bad = Some("mass"); } s } else { inertial };
    if g.chance(1, 6) { kids.push(E::new("site").a("pos", "1 2 3")); } if g.chance(1, 8) { kids.push(E::new("camera").a("quat", "1 0 0 0")); }
    shuffle(g, &mut kids); let at = out.len(); out.push(BD { name: nm, parent, pose: rt(qrot(q), p), inertia, joint });
    while *count < total && depth < 8 && g.chance(if depth == 0 { 6 } else { 2 }, if depth == 0 { 7 } else { 3 }) { let b = mj_body(g, mj, Some(at), chain, depth + 1, total, count, out, bad, is_floating); kids.push(b); }
    // Child bodies may stand anywhere among the rest, in their own order.
    let (mut b, mut o): (Vec<E>, Vec<E>) = kids.into_iter().partition(|k| k.tag == "body"); b.reverse(); o.reverse(); let late = g.bool(); let mut all = vec![]; while !b.is_empty() || !o.is_empty() { let from = if b.is_empty() { &mut o } else if o.is_empty() || (!late && g.chance(1, 3)) { &mut b } else { &mut o }; all.extend(from.pop()); }
    e.kids = all; e
}

/// World placements of an expected model's bodies at configuration `q`, as matrices.
pub fn place(bodies: &[BD], q: &[f64]) -> Vec<H> {
    let free = bodies.first().is_some_and(|b| b.joint.as_ref().is_some_and(|j| j.kind == JointKind::Floating)); let mut w: Vec<H> = vec![];
    for (i, b) in bodies.iter().enumerate() {
        let base = b.parent.map_or(ID, |k| w[k]); let o = if free && i > 0 { i + 6 } else { i };
        let h = match &b.joint { None => mul(&base, &b.pose), Some(j) => match j.kind {
            JointKind::Floating => rt(qrot([q[3], q[4], q[5], q[6]]), [q[0], q[1], q[2]]),
            JointKind::Prismatic => { let d = q[o] - j.zero; mul(&mul(&base, &b.pose), &rt(diag([1.0; 3]), j.axis.map(|x| x * d))) }
            _ => { let r = rod(j.axis, q[o] - j.zero); let ra = act(&rt(r, [0.0; 3]), j.anchor); mul(&mul(&base, &b.pose), &rt(r, core::array::from_fn(|k| j.anchor[k] - ra[k]))) } } };
        w.push(h);
    }
    w
}
/// The chain from the root to body `tip`, renumbered.
pub fn chain(bodies: &[BD], tip: usize) -> (Vec<usize>, Vec<BD>) { let mut path = vec![tip]; while let Some(p) = bodies[path[path.len() - 1]].parent { path.push(p); } path.reverse(); let out = path.iter().enumerate().map(|(k, &i)| BD { parent: if k == 0 { None } else { Some(k - 1) }, ..bodies[i].clone() }).collect(); (path, out) }
