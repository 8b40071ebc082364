//! Robot model files on a disk that fails: what a file says is what loads, or a named refusal.
//!
//! A run describes a robot element by element, writes it out as MJCF or URDF over one or several
//! files on a scratch disk, damages what was written, and reads it back through the loader. The
//! oracle works from the description: it resolves defaults, units, and mass properties on its own.

use crate::core::*;
use crate::ensure;
use multicalc::kinematics::{JointKind, JointParent};
use multicalc_robot_model::{GeneratedScalar, ModelError, RobotModel, RustSourceOptions};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::PathBuf;

type M3 = [[f64; 3]; 3];
type V3 = [f64; 3];

fn mat_mul(a: M3, b: M3) -> M3 {
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                o[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    o
}
fn transposed(a: M3) -> M3 {
    let mut o = a;
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = a[j][i];
        }
    }
    o
}
fn from_quat(q: [f64; 4]) -> Option<M3> {
    let big = q.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    if !(big > 0.0) || !big.is_finite() || q.iter().any(|v| !v.is_finite()) {
        return None;
    }
    let q: Vec<f64> = q.iter().map(|v| v / big).collect();
    let n = q.iter().map(|v| v * v).sum::<f64>().sqrt();
    let (w, x, y, z) = (q[0] / n, q[1] / n, q[2] / n, q[3] / n);
    Some([
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
        [2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)],
        [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)],
    ])
}
fn from_rpy(r: f64, p: f64, y: f64) -> M3 {
    let (cr, sr, cp, sp, cy, sy) = (r.cos(), r.sin(), p.cos(), p.sin(), y.cos(), y.sin());
    let rx = [[1.0, 0.0, 0.0], [0.0, cr, -sr], [0.0, sr, cr]];
    let ry = [[cp, 0.0, sp], [0.0, 1.0, 0.0], [-sp, 0.0, cp]];
    let rz = [[cy, -sy, 0.0], [sy, cy, 0.0], [0.0, 0.0, 1.0]];
    mat_mul(rz, mat_mul(ry, rx))
}
const EYE: M3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];

// ----- Attributes -----

/// Attribute names by number, so that an event can name one.
const NAMES: [&str; 21] = [
    "pos", "quat", "type", "size", "fromto", "mass", "density", "axis", "range", "limited",
    "armature", "damping", "frictionloss", "ref", "springref", "stiffness", "diaginertia",
    "fullinertia", "euler", "xyaxes", "zaxis",
];
const GEOM_TYPES: [&str; 8] =
    ["sphere", "ellipsoid", "box", "cylinder", "capsule", "mesh", "plane", "hfield"];
const JOINT_TYPES: [&str; 4] = ["hinge", "slide", "ball", "free"];
const WORDS: [&str; 4] = ["false", "true", "auto", "maybe"];
fn code(name: &str) -> f64 {
    NAMES.iter().position(|n| *n == name).unwrap_or(0) as f64
}
/// How an attribute's text is spoilt.
const SPOILS: [&str; 6] = ["1.2.3", "", "0x1p3", "1,2,3", "1e", "--1"];

#[derive(Clone, Debug)]
struct Attr {
    vals: Vec<f64>,
    spoilt: Option<usize>,
}
type Attrs = BTreeMap<&'static str, Attr>;

fn read_attr(e: &Ev) -> (&'static str, Attr) {
    (
        NAMES[e.u(1).min(NAMES.len() - 1)],
        Attr {
            vals: e.a.get(3..).unwrap_or(&[]).to_vec(),
            spoilt: if e.n(2) > 0.0 { Some((e.u(2) - 1) % SPOILS.len()) } else { None },
        },
    )
}

fn text_of(name: &str, a: &Attr, geom: bool, pen: &mut Rng) -> String {
    if let Some(s) = a.spoilt {
        return SPOILS[s].to_string();
    }
    let v = a.vals.first().copied().unwrap_or(0.0).max(0.0) as usize;
    match name {
        "type" if geom => return GEOM_TYPES[v % GEOM_TYPES.len()].to_string(),
        "type" => return JOINT_TYPES[v % JOINT_TYPES.len()].to_string(),
        "limited" => return WORDS[v % WORDS.len()].to_string(),
        _ => {}
    }
    let mut s = String::new();
    for (i, v) in a.vals.iter().enumerate() {
        if i > 0 {
            s.push_str(*pen.pick(&[" ", "  ", "\t", "\n "]));
        }
        s.push_str(&number(*v, pen));
    }
    if pen.chance(0.1) {
        s = format!(" {s} ");
    }
    s
}

/// A number as text that reads back as the same number.
fn number(v: f64, pen: &mut Rng) -> String {
    if !v.is_finite() {
        return format!("{v}");
    }
    match pen.below(5) {
        0 => format!("{v:e}"),
        1 => format!("{v:E}"),
        2 if v > 0.0 => format!("+{v}"),
        3 if v.abs() < 1.0 && v != 0.0 => format!("{v}").replacen("0.", ".", 1),
        _ => format!("{v:?}"),
    }
}

// ----- What a loaded model should be -----

#[derive(Clone, Debug)]
struct Mass {
    mass: f64,
    com: V3,
    inertia: M3,
    /// How large the numbers that went in were.
    scale: f64,
}

#[derive(Clone, Debug)]
struct WantJoint {
    name: String,
    kind: JointKind,
    axis: V3,
    anchor: V3,
    limits: Option<(f64, f64)>,
    zero_offset: f64,
    armature: f64,
    damping: f64,
    friction: f64,
    spring_reference: f64,
    spring_stiffness: f64,
    mimic: Option<(String, f64, f64)>,
}

#[derive(Clone, Debug)]
struct WantBody {
    name: String,
    parent: Option<usize>,
    turn: M3,
    shift: V3,
    mass: Option<Mass>,
    joint: Option<WantJoint>,
}

#[derive(Default, Debug)]
struct Want {
    name: String,
    bodies: Vec<WantBody>,
    floating: bool,
    ignored: Vec<String>,
    /// Refusals that must come (any one of them).
    must: BTreeSet<&'static str>,
    /// Refusals that may come: faults in elements the reader has no need to read.
    may: BTreeSet<&'static str>,
    /// A number that is not finite was written somewhere.
    unsound: bool,
}

fn kind_of(e: &ModelError) -> &'static str {
    match e {
        ModelError::Xml(_) => "Xml",
        ModelError::FileRead(_) => "FileRead",
        ModelError::MissingWorldbody => "MissingWorldbody",
        ModelError::NoBodies => "NoBodies",
        ModelError::MultipleJoints { .. } => "MultipleJoints",
        ModelError::FreeJointNotAtRoot { .. } => "FreeJointNotAtRoot",
        ModelError::UnsupportedJoint { .. } => "UnsupportedJoint",
        ModelError::UnsupportedOrientation { .. } => "UnsupportedOrientation",
        ModelError::LimitsNeedRange { .. } => "LimitsNeedRange",
        ModelError::NoInertiaSource { .. } => "NoInertiaSource",
        ModelError::UnsupportedGeomType { .. } => "UnsupportedGeomType",
        ModelError::MeshInertiaUnsupported { .. } => "MeshInertiaUnsupported",
        ModelError::UnsupportedFromTo { .. } => "UnsupportedFromTo",
        ModelError::ConflictingPlacement { .. } => "ConflictingPlacement",
        ModelError::BadAttribute { .. } => "BadAttribute",
        ModelError::UndefinedClass { .. } => "UndefinedClass",
        ModelError::UnknownBody { .. } => "UnknownBody",
        ModelError::TreeCapacityExceeded { .. } => "TreeCapacityExceeded",
        ModelError::IncludeNeedsFile => "IncludeNeedsFile",
        ModelError::IncludeTooDeep { .. } => "IncludeTooDeep",
        ModelError::MissingRootLink => "MissingRootLink",
        ModelError::MultipleRootLinks { .. } => "MultipleRootLinks",
        ModelError::UnknownLink { .. } => "UnknownLink",
        ModelError::LinkHasTwoParents { .. } => "LinkHasTwoParents",
        ModelError::CyclicLinkage { .. } => "CyclicLinkage",
        ModelError::JointNeedsLimit { .. } => "JointNeedsLimit",
        ModelError::MimicJointInTree { .. } => "MimicJointInTree",
        ModelError::UnexpectedRootElement { .. } => "UnexpectedRootElement",
        ModelError::FormatNotEnabled { .. } => "FormatNotEnabled",
        ModelError::Inertia(_) => "Inertia",
        ModelError::Kinematics(_) => "Kinematics",
        _ => "Other",
    }
}

fn close(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * scale.max(a.abs()).max(b.abs())
}
fn close3(a: V3, b: V3, scale: f64) -> bool {
    (0..3).all(|i| close(a[i], b[i], scale))
}

fn check_body(i: usize, b: &multicalc_robot_model::BodyDescription, w: &WantBody) -> R {
    ensure!(b.name() == w.name, "body has another name | {i}: {} wanted {}", b.name(), w.name);
    ensure!(b.parent() == w.parent, "body hangs off the wrong parent | {i}: {:?} wanted {:?}", b.parent(), w.parent);
    let t = b.pose().translation().into_array();
    ensure!(t == w.shift, "body sits elsewhere than its file says | {i}: {t:?} wanted {:?}", w.shift);
    let r = b.pose().rotation().to_matrix();
    for a in 0..3 {
        for c in 0..3 {
            ensure!((r[(a, c)] - w.turn[a][c]).abs() <= 1e-12, "body faces elsewhere than its file says | {i}: {r:?} wanted {:?}", w.turn);
        }
    }
    match (b.inertia(), &w.mass) {
        (None, None) => {}
        (Some(got), Some(want)) => {
            ensure!(close(got.mass(), want.mass, 0.0), "body has the wrong mass | {i}: {} wanted {}", got.mass(), want.mass);
            let com = got.center_of_mass().into_array();
            ensure!(close3(com, want.com, want.scale), "body balances at the wrong point | {i}: {com:?} wanted {:?}", want.com);
            let g = got.rotational_inertia();
            let size = want.inertia.iter().flatten().fold(want.mass * want.scale * want.scale * 1e-3, |m, v| m.max(v.abs()));
            for a in 0..3 {
                for c in 0..3 {
                    ensure!(close(g[(a, c)], want.inertia[a][c], size), "body has the wrong rotational inertia | {i}: {g:?} wanted {:?}", want.inertia);
                }
            }
        }
        (g, w) => return Err(format!("body has mass where its file states none, or none where it states some | {i}: {g:?} wanted {w:?}")),
    }
    match (b.joint(), &w.joint) {
        (None, None) => {}
        (Some(g), Some(j)) => {
            ensure!(g.name() == j.name, "joint has another name | {i}: {} wanted {}", g.name(), j.name);
            ensure!(g.kind() == j.kind, "joint is of another kind | {i}: {:?} wanted {:?}", g.kind(), j.kind);
            if j.kind != JointKind::Floating {
                let ax = g.axis().into_array();
                ensure!(close3(ax, j.axis, 1e-3), "joint turns about another axis | {i}: {ax:?} wanted {:?}", j.axis);
                ensure!(g.anchor().into_array() == j.anchor, "joint turns about another point | {i}: {:?} wanted {:?}", g.anchor(), j.anchor);
                let lim = match (g.limits(), j.limits) {
                    (None, None) => true,
                    (Some(a), Some(b)) => close(a.0, b.0, 0.0) && close(a.1, b.1, 0.0),
                    _ => false,
                };
                ensure!(lim, "joint has other limits | {i}: {:?} wanted {:?}", g.limits(), j.limits);
                for (what, a, b) in [
                    ("zero offset", g.zero_offset(), j.zero_offset),
                    ("armature", g.armature(), j.armature),
                    ("damping", g.damping(), j.damping),
                    ("friction loss", g.friction_loss(), j.friction),
                    ("spring reference", g.spring_reference(), j.spring_reference),
                    ("spring stiffness", g.spring_stiffness(), j.spring_stiffness),
                ] {
                    ensure!(close(a, b, 0.0), "joint has another {what} | {i}: {a} wanted {b}");
                }
                let m = g.mimic().map(|m| (m.joint().to_string(), m.multiplier(), m.offset()));
                ensure!(m == j.mimic, "joint follows another one than its file says | {i}: {m:?} wanted {:?}", j.mimic);
            }
        }
        (g, w) => return Err(format!("body has a joint its file does not state, or lacks one it states | {i}: {g:?} wanted {w:?}")),
    }
    Ok(())
}

/// Holds a read model against the description, then everything the model is turned into.
fn check_model(m: &RobotModel, w: &Want, tip: usize, cx: &mut Cx) -> R {
    ensure!(m.name() == w.name, "model has another name | {} wanted {}", m.name(), w.name);
    ensure!(m.body_count() == w.bodies.len(), "model has another number of bodies | {} wanted {}", m.body_count(), w.bodies.len());
    ensure!(m.has_floating_base() == w.floating, "model floats where it is held, or is held where it floats | {}", m.has_floating_base());
    ensure!(m.ignored() == w.ignored.as_slice(), "sections passed over are not named | {:?} wanted {:?}", m.ignored(), w.ignored);
    for (i, b) in w.bodies.iter().enumerate() {
        check_body(i, m.body(i).ok_or("body is missing")?, b)?;
        let first = w.bodies.iter().position(|o| o.name == b.name);
        ensure!(
            m.body_named(&b.name).map(|b| b as *const _) == first.and_then(|f| m.body(f)).map(|b| b as *const _),
            "asking for a body by name gives another one | {i}"
        );
    }
    let movable = w.bodies.iter().filter(|b| b.joint.is_some()).count();
    ensure!(m.movable_joint_count() == movable, "joints are counted wrong | {} wanted {movable}", m.movable_joint_count());
    check_trees(m, w, tip, cx)
}

const CAP: usize = 24;
const CONF: usize = 30;

fn chain(w: &Want, mut at: usize) -> Vec<usize> {
    let mut out = vec![at];
    while let Some(p) = w.bodies[at].parent {
        out.push(p);
        at = p;
    }
    out.reverse();
    out
}

/// Whether the slots describe a tree at all, and if not, by which refusal.
fn tree_refusals(w: &Want, slots: &[usize], cap: usize, conf: usize) -> BTreeSet<&'static str> {
    let mut out = BTreeSet::new();
    if slots.len() > cap {
        out.insert("TreeCapacityExceeded");
    }
    let mut width = 0;
    for (k, &s) in slots.iter().enumerate() {
        width += 1;
        let b = &w.bodies[s];
        if b.shift.iter().any(|v| !v.is_finite()) {
            out.insert("Kinematics");
        }
        if let Some(j) = &b.joint {
            if j.mimic.is_some() {
                out.insert("MimicJointInTree");
            }
            if j.kind == JointKind::Floating {
                width += 6;
                if k != 0 {
                    out.insert("Kinematics");
                }
                continue;
            }
            let numbers = [j.zero_offset, j.armature, j.damping, j.friction];
            if numbers.iter().chain(&j.anchor).chain(&j.axis).any(|v| !v.is_finite()) {
                out.insert("Kinematics");
            }
            if let Some((a, b)) = j.limits {
                if !(a.is_finite() && b.is_finite() && a <= b) {
                    out.insert("Kinematics");
                }
            }
        }
    }
    if width > conf {
        out.insert("Kinematics");
    }
    out
}

fn check_joint(i: usize, got: multicalc::kinematics::Joint<f64>, b: &WantBody) -> R {
    let t = got.origin().translation().into_array();
    let r = got.origin().rotation().to_matrix();
    let floating = b.joint.as_ref().is_some_and(|j| j.kind == JointKind::Floating);
    // A floating joint's reading is the body's place itself, so nothing is added to it.
    let (turn, shift) = if floating { (EYE, [0.0; 3]) } else { (b.turn, b.shift) };
    ensure!(t == shift, "joint in the tree sits elsewhere | {i}: {t:?} wanted {shift:?}");
    for a in 0..3 {
        for c in 0..3 {
            ensure!((r[(a, c)] - turn[a][c]).abs() <= 1e-12, "joint in the tree faces elsewhere | {i}");
        }
    }
    match &b.joint {
        None => ensure!(got.kind() == JointKind::Fixed, "welded body moves in the tree | {i}: {:?}", got.kind()),
        Some(j) => {
            ensure!(got.kind() == j.kind, "joint in the tree is of another kind | {i}: {:?} wanted {:?}", got.kind(), j.kind);
            if j.kind == JointKind::Floating {
                return Ok(());
            }
            ensure!(close3(got.axis().into_array(), j.axis, 1e-3), "joint in the tree turns about another axis | {i}");
            if j.kind != JointKind::Prismatic {
                ensure!(got.anchor().into_array() == j.anchor, "joint in the tree turns about another point | {i}");
            }
            let lim = match (got.limits(), j.limits) {
                (None, None) => true,
                (Some(a), Some(b)) => close(a.0, b.0, 0.0) && close(a.1, b.1, 0.0),
                _ => false,
            };
            ensure!(lim, "joint in the tree has other limits | {i}: {:?} wanted {:?}", got.limits(), j.limits);
            for (what, a, b) in [
                ("zero offset", got.zero_offset(), j.zero_offset),
                ("armature", got.armature(), j.armature),
                ("damping", got.damping(), j.damping),
                ("friction loss", got.friction_loss(), j.friction),
            ] {
                ensure!(close(a, b, 0.0), "joint in the tree has another {what} | {i}: {a} wanted {b}");
            }
        }
    }
    Ok(())
}

fn check_trees(m: &RobotModel, w: &Want, tip: usize, cx: &mut Cx) -> R {
    let all: Vec<usize> = (0..w.bodies.len()).collect();
    let tip = tip % w.bodies.len();
    let tip_name = &w.bodies[tip].name;
    let first = w.bodies.iter().position(|b| &b.name == tip_name).unwrap_or(tip);
    let path = chain(w, first);
    let got_path = m.path_to(tip_name);
    ensure!(got_path.as_ref().ok() == Some(&path), "the way to a body is another one | {got_path:?} wanted {path:?}");
    ensure!(
        matches!(m.path_to("no such body"), Err(ModelError::UnknownBody { .. })),
        "a body the model lacks is found"
    );
    let runs: [(&[usize], bool, bool); 4] =
        [(&all, false, false), (&all, true, false), (&path, false, true), (&path, true, true)];
    for (slots, small, to_tip) in runs {
        let (cap, conf) = if small { (4, 6) } else { (CAP, CONF) };
        let want = tree_refusals(w, slots, cap, conf);
        let mut view: Option<Vec<(multicalc::kinematics::Joint<f64>, JointParent)>> = None;
        macro_rules! build {
            ($a:literal, $b:literal) => {{
                let t = if to_tip { m.kinematic_tree_to::<$a, $b>(tip_name) } else { m.kinematic_tree::<$a, $b>() };
                t.map(|t| {
                    view = Some((0..t.len()).filter_map(|i| Some((t.joint(i)?, t.parent(i)?))).collect());
                })
            }};
        }
        let got = if small { build!(4, 6) } else { build!(24, 30) };
        match got {
            Err(e) => {
                ensure!(want.contains(kind_of(&e)), "a sound model is refused as a tree | {e:?}");
                cx.reach("tree refused");
            }
            Ok(()) => {
                ensure!(want.is_empty(), "an unsound model becomes a tree | wanted {want:?}");
                let view = view.unwrap_or_default();
                ensure!(view.len() == slots.len(), "tree has another number of joints | {} wanted {}", view.len(), slots.len());
                for (k, (j, p)) in view.iter().enumerate() {
                    check_joint(k, *j, &w.bodies[slots[k]])?;
                    let up = w.bodies[slots[k]].parent.and_then(|p| slots.iter().position(|s| *s == p));
                    let up = up.map_or(JointParent::World, JointParent::Joint);
                    ensure!(*p == up, "joint in the tree hangs off the wrong parent | {k}: {p:?} wanted {up:?}");
                }
                cx.reach("tree built");
                check_source(m, w, slots, to_tip.then_some(tip_name.as_str()), &view)?;
            }
        }
        let wide = tree_refusals(w, slots, 128, 134);
        if !wide.is_empty() {
            let mut o = RustSourceOptions::new("made");
            if to_tip {
                o = o.with_tip(tip_name);
            }
            ensure!(m.to_rust_source(&o).is_err(), "a model no tree can hold is written out as source | {wide:?}");
        }
    }
    Ok(())
}

/// Reads the written source back as a compiler would and holds it against the tree.
fn check_source(m: &RobotModel, w: &Want, slots: &[usize], tip: Option<&str>, tree: &[(multicalc::kinematics::Joint<f64>, JointParent)]) -> R {
    for double in [true, false] {
        let mut o = RustSourceOptions::new("made").with_scalar(if double { GeneratedScalar::F64 } else { GeneratedScalar::F32 });
        if let Some(t) = tip {
            o = o.with_tip(t);
        }
        let text = m.to_rust_source(&o).map_err(|e| format!("a sound model is not written out as source | {e:?}"))?;
        let token = if double { "f64" } else { "f32" };
        let narrow = |v: f64| if double { v } else { v as f32 as f64 };
        let conf = slots.len() + if w.floating { 6 } else { 0 };
        ensure!(
            text.contains(&format!("pub fn made() -> KinematicTree<{}, {conf}, {token}> {{", slots.len())),
            "written source builds a tree of another size | {}", text.lines().find(|l| l.starts_with("pub fn")).unwrap_or("")
        );
        // Between the pushes every line is a comment or part of one push.
        let body: Vec<&str> = text.lines().skip_while(|l| !l.contains("::new();")).skip(1).take_while(|l| l.trim() != "tree").collect();
        let mut pushes: Vec<String> = Vec::new();
        for line in body {
            let l = line.trim();
            if l.starts_with("//") {
                continue;
            }
            if l == "tree.push(" {
                pushes.push(String::new());
            } else {
                let now = pushes.last_mut().ok_or_else(|| format!("written source has a line of no joint's | {l}"))?;
                if !l.starts_with(".unwrap_or_else(") && l != ")" {
                    now.push_str(l);
                }
                ensure!(
                    l == ")" || [".", "Joint", "JointParent"].iter().any(|s| l.starts_with(s)),
                    "written source has a line of no joint's | {l}"
                );
            }
        }
        ensure!(pushes.len() == tree.len(), "written source builds another number of joints | {} wanted {}", pushes.len(), tree.len());
        for (k, (text, (j, p))) in pushes.iter().zip(tree).enumerate() {
            let name = match j.kind() {
                JointKind::Fixed => "fixed",
                JointKind::Floating => "floating",
                JointKind::Revolute => "revolute",
                JointKind::Prismatic => "prismatic",
                JointKind::Continuous => "continuous",
            };
            ensure!(text.starts_with(&format!("Joint::{name}(")), "written source builds another kind of joint | {k}: {text}");
            let up = match p {
                JointParent::World => text.ends_with("JointParent::World,"),
                JointParent::Joint(i) => text.ends_with(&format!("JointParent::Joint({i}),")),
            };
            ensure!(up, "written source hangs a joint off the wrong parent | {k}: {text} wanted {p:?}");
            let mut want: Vec<f64> = Vec::new();
            if !matches!(j.kind(), JointKind::Fixed | JointKind::Floating) {
                want.extend(w.bodies[slots[k]].joint.as_ref().map_or([0.0; 3], |j| j.axis));
            }
            want.extend(j.origin().translation().into_array());
            want.extend(j.origin().rotation().quaternion().as_array());
            if matches!(j.kind(), JointKind::Revolute | JointKind::Continuous) {
                want.extend(j.anchor().into_array());
            }
            if let Some((a, b)) = j.limits() {
                want.extend([a, b]);
            }
            if !matches!(j.kind(), JointKind::Fixed | JointKind::Floating) {
                want.extend([j.zero_offset(), j.armature(), j.damping(), j.friction_loss()]);
            }
            let upto = text.rfind("JointParent").unwrap_or(text.len());
            let got = numbers_in(&text[..upto]);
            ensure!(got.len() == want.len(), "written source states another number of numbers | {k}: {text}");
            for (g, v) in got.iter().zip(&want) {
                let slack = if double { 1e-12 } else { 2e-7 };
                ensure!((g - narrow(*v)).abs() <= slack * v.abs() + 1e-15, "written source states another number | {k}: {g} wanted {v} in {text}");
            }
        }
    }
    Ok(())
}

fn numbers_in(s: &str) -> Vec<f64> {
    s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '_' || c == '+'))
        .filter(|t| t.starts_with(|c: char| c.is_ascii_digit() || c == '-'))
        .filter_map(|t| t.parse().ok())
        .collect()
}

// ----- The scratch disk -----

struct Disk {
    dir: PathBuf,
}

impl Disk {
    fn new() -> Result<Self, String> {
        let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let id = format!("{:?}", std::thread::current().id()).replace(|c: char| !c.is_ascii_digit(), "");
        let dir = base.join(format!("multicalc-dst-{}-{id}", std::process::id()));
        std::fs::create_dir_all(&dir).map_err(|e| format!("scratch disk: {e}"))?;
        Ok(Disk { dir })
    }
    fn write(&self, name: &str, bytes: &[u8]) -> R {
        let p = self.dir.join(name);
        if let Some(up) = p.parent() {
            std::fs::create_dir_all(up).map_err(|e| format!("scratch disk: {e}"))?;
        }
        std::fs::write(p, bytes).map_err(|e| format!("scratch disk: {e}"))
    }
}
impl Drop for Disk {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

/// What happens to a file after it is written.
const DAMAGE: [&str; 9] = [
    "torn write", "lost file", "directory in its place", "invalid bytes", "zeroed block",
    "stale tail", "written twice", "empty file", "flipped bit",
];

/// Damages a file and says which refusal must follow, or `None` where anything sane may.
fn damage(kind: usize, at: f64, bytes: &mut Option<Vec<u8>>, dir: &mut bool) -> Option<&'static str> {
    let data = bytes.clone().unwrap_or_default();
    let n = data.len();
    let spot = ((at.abs().fract()) * n as f64) as usize;
    match kind {
        0 => {
            // A cut anywhere before the last character leaves the outermost element open.
            let mut cut = spot.min(n.saturating_sub(2));
            while cut > 0 && !data.is_char_boundary(cut) {
                cut -= 1;
            }
            *bytes = Some(data[..cut].to_vec());
            Some("Xml")
        }
        1 => {
            *bytes = None;
            Some("FileRead")
        }
        2 => {
            *bytes = None;
            *dir = true;
            Some("FileRead")
        }
        3 => {
            let mut d = data;
            d[spot.min(n - 1)] = 0xff;
            *bytes = Some(d);
            Some("FileRead")
        }
        4 => {
            let mut d = data;
            let end = (spot + 64).min(n);
            let from = spot.min(n - 1);
            d[from..end].fill(0);
            *bytes = Some(d);
            None
        }
        5 => {
            let mut d = data.clone();
            let mut from = (n / 2).max(n.saturating_sub(2 + spot % 40));
            while from > 0 && !data.is_char_boundary(from) {
                from -= 1;
            }
            d.extend_from_slice(&data[from..]);
            *bytes = Some(d);
            Some("Xml")
        }
        6 => {
            let mut d = data.clone();
            d.extend_from_slice(&data);
            *bytes = Some(d);
            Some("Xml")
        }
        7 => {
            *bytes = Some(Vec::new());
            Some("Xml")
        }
        _ => {
            let mut d = data;
            let bit = (at.abs().fract() * 1e6) as usize % 7;
            d[spot.min(n - 1)] ^= 1 << bit;
            *bytes = Some(d);
            None
        }
    }
}

trait CharBoundary {
    fn is_char_boundary(&self, at: usize) -> bool;
}
impl CharBoundary for Vec<u8> {
    fn is_char_boundary(&self, at: usize) -> bool {
        at == 0 || at >= self.len() || (self[at] as i8) >= -0x40
    }
}

// ----- MJCF -----

#[derive(Clone, Default)]
struct Class {
    id: usize,
    parent: usize,
    geom: Attrs,
    joint: Attrs,
}
#[derive(Clone, Default)]
struct Item {
    class: usize,
    attrs: Attrs,
    free: bool,
}
#[derive(Clone, Default)]
struct Body {
    id: usize,
    parent: usize,
    childclass: usize,
    name: f64,
    /// File this body's element is written in, 0 for the same as its parent's.
    file: usize,
    how: usize,
    attrs: Attrs,
    geoms: Vec<Item>,
    joints: Vec<Item>,
    inertials: Vec<Attrs>,
    wrap: usize,
}

#[derive(Default)]
struct Robot {
    classes: Vec<Class>,
    /// The unnamed block's settings, one set per top-level block.
    root: [(Attrs, Attrs); 2],
    blocks: usize,
    bodies: Vec<Body>,
    compilers: Vec<[usize; 4]>,
    sections: Vec<usize>,
    damage: Vec<(usize, usize, f64)>,
    cycle: bool,
    deep: usize,
    late: bool,
}

const SECTIONS: [&str; 6] = ["actuator", "sensor", "option", "asset", "keyframe", "contact"];
const WRAPS: [&str; 6] = ["", "frame", "replicate", "attach", "composite", "flexcomp"];

fn body_name(b: &Body) -> String {
    let n = b.name;
    if n < 0.0 {
        "body".into()
    } else {
        match n as usize % 4 {
            0 => format!("b{}", n as usize),
            1 => format!("left arm {}", n as usize),
            2 => format!("größe<{}>", n as usize),
            _ => format!("a&\"{}'", n as usize),
        }
    }
}
fn escaped(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&apos;")
}
fn class_name(id: usize) -> String {
    format!("class{id}")
}

fn robot_of(t: &Trace) -> Robot {
    let mut r = Robot { blocks: 1 + t.cu(4).min(1), ..Robot::default() };
    r.late = t.c(5) > 0.0;
    for e in &t.evs {
        let id = e.u(0);
        match e.k {
            "class" => r.classes.push(Class { id, parent: e.u(1), ..Class::default() }),
            "cgeom" | "cjoint" => {
                let (n, a) = read_attr(e);
                let joint = e.k == "cjoint";
                if id < 2 {
                    let block = &mut r.root[id.min(r.blocks - 1)];
                    if joint { &mut block.1 } else { &mut block.0 }.insert(n, a);
                } else if let Some(c) = r.classes.iter_mut().find(|c| c.id == id) {
                    if joint { &mut c.joint } else { &mut c.geom }.insert(n, a);
                }
            }
            "body" => r.bodies.push(Body {
                id,
                parent: e.u(1),
                childclass: e.u(2),
                name: e.n(3),
                file: e.u(4),
                how: e.u(5),
                wrap: e.u(6) % WRAPS.len(),
                ..Body::default()
            }),
            "compiler" => r.compilers.push([e.u(0) % 4, e.u(1) % 4, e.u(2) % 5, e.u(3)]),
            "section" => r.sections.push(id % SECTIONS.len()),
            "damage" => r.damage.push((e.u(0), e.u(1) % DAMAGE.len(), e.n(2))),
            "cycle" => r.cycle = true,
            "deep" => r.deep = id,
            k => {
                // The rest belongs to one body.
                let Some(b) = r.bodies.iter_mut().find(|b| b.id == id) else { continue };
                match k {
                    "battr" => {
                        let (n, a) = read_attr(e);
                        b.attrs.insert(n, a);
                    }
                    "geom" => b.geoms.push(Item { class: e.u(1), ..Item::default() }),
                    "gattr" => {
                        let (n, a) = read_attr(e);
                        if let Some(g) = b.geoms.last_mut() {
                            g.attrs.insert(n, a);
                        }
                    }
                    "joint" => b.joints.push(Item { class: e.u(1), free: e.n(2) > 0.0, ..Item::default() }),
                    "jattr" => {
                        let (n, a) = read_attr(e);
                        if let Some(g) = b.joints.last_mut() {
                            g.attrs.insert(n, a);
                        }
                    }
                    "inertial" => b.inertials.push(Attrs::new()),
                    "iattr" => {
                        let (n, a) = read_attr(e);
                        if let Some(g) = b.inertials.last_mut() {
                            g.insert(n, a);
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    r
}

impl Robot {
    /// The class settings with everything above it applied, unnamed block first.
    fn resolved(&self, class: usize, joint: bool) -> Option<Attrs> {
        let mut out = Attrs::new();
        for b in &self.root[..self.blocks] {
            out.extend(if joint { b.1.clone() } else { b.0.clone() });
        }
        if class == 0 {
            return Some(out);
        }
        let mut line = Vec::new();
        let mut at = class;
        while at != 0 {
            let c = self.classes.iter().find(|c| c.id == at)?;
            if line.len() > self.classes.len() {
                return None;
            }
            line.push(c);
            at = c.parent;
        }
        for c in line.iter().rev() {
            out.extend(if joint { c.joint.clone() } else { c.geom.clone() });
        }
        Some(out)
    }
    fn children(&self, id: usize) -> Vec<usize> {
        (0..self.bodies.len()).filter(|&i| self.bodies[i].parent == id && (id == 0 || self.bodies[i].id > id)).collect()
    }
    /// Top bodies in the order the main file reaches them.
    fn tops(&self) -> Vec<usize> {
        let all = self.children(0);
        let (late, here): (Vec<usize>, Vec<usize>) = all.into_iter().partition(|&i| self.second_section(i));
        if self.late {
            here.into_iter().chain(late).collect()
        } else {
            late.into_iter().chain(here).collect()
        }
    }
    fn second_section(&self, i: usize) -> bool {
        let b = &self.bodies[i];
        b.parent == 0 && b.file > 0 && b.how % 4 == 3
    }
}

fn got<'a>(a: &'a Attrs, name: &str, n: usize, bad: &mut BTreeSet<&'static str>) -> Option<&'a [f64]> {
    let v = a.get(name)?;
    if v.spoilt.is_some() || v.vals.len() != n {
        bad.insert("BadAttribute");
        return None;
    }
    Some(&v.vals)
}
fn arr<const N: usize>(a: &Attrs, name: &str, bad: &mut BTreeSet<&'static str>) -> Option<[f64; N]> {
    got(a, name, N, bad).and_then(|v| <[f64; N]>::try_from(v).ok())
}
fn word(a: &Attrs, name: &str, words: &[&'static str]) -> Option<&'static str> {
    let v = a.get(name)?;
    Some(match v.spoilt {
        Some(s) => SPOILS[s],
        None => words[v.vals.first().copied().unwrap_or(0.0).max(0.0) as usize % words.len()],
    })
}

/// One shape's mass, balance point and inertia about the body's own origin.
fn geom_mass(a: &Attrs, own: &Attrs, bad: &mut BTreeSet<&'static str>) -> Option<(f64, V3, M3, f64)> {
    // A number that cannot be read is refused wherever it stands on the element itself.
    for (n, len) in [("pos", 3), ("quat", 4), ("mass", 1), ("density", 1), ("fromto", 6)] {
        let _ = got(own, n, len, bad);
    }
    if own.get("size").is_some_and(|s| s.spoilt.is_some_and(|k| !SPOILS[k].is_empty())) {
        bad.insert("BadAttribute");
    }
    for n in ["euler", "xyaxes", "zaxis"] {
        if own.contains_key(n) {
            bad.insert("UnsupportedOrientation");
        }
    }
    let mass = arr::<1>(a, "mass", bad).map(|v| v[0]);
    if mass == Some(0.0) {
        return None;
    }
    let density = arr::<1>(a, "density", bad).map_or(1000.0, |v| v[0]);
    if mass.is_some_and(|m| m < 0.0) || (mass.is_none() && density < 0.0) {
        bad.insert("BadAttribute");
        return None;
    }
    let shape = word(a, "type", &GEOM_TYPES).unwrap_or("sphere");
    match shape {
        "sphere" | "ellipsoid" | "box" | "cylinder" | "capsule" => {}
        "mesh" => {
            bad.insert("MeshInertiaUnsupported");
            return None;
        }
        _ => {
            bad.insert("UnsupportedGeomType");
            return None;
        }
    }
    let round = matches!(shape, "cylinder" | "capsule");
    let ends = arr::<6>(a, "fromto", bad);
    let pos = arr::<3>(a, "pos", bad);
    let quat = arr::<4>(a, "quat", bad);
    let size: Vec<f64> = a.get("size").filter(|s| s.spoilt.is_none()).map_or(Vec::new(), |s| s.vals.clone());
    let mut half = None;
    let mut centre = pos.unwrap_or([0.0; 3]);
    let mut turn = EYE;
    if let Some(e) = ends {
        if !round {
            bad.insert("UnsupportedFromTo");
            return None;
        }
        if a.contains_key("pos") {
            bad.insert("ConflictingPlacement");
            return None;
        }
        let d = [e[3] - e[0], e[4] - e[1], e[5] - e[2]];
        let len = d.iter().map(|v| v * v).sum::<f64>().sqrt();
        if len == 0.0 {
            bad.insert("BadAttribute");
            return None;
        }
        half = Some(len / 2.0);
        centre = [(e[0] + e[3]) / 2.0, (e[1] + e[4]) / 2.0, (e[2] + e[5]) / 2.0];
        // Any frame whose third axis lies along the line.
        let z = [d[0] / len, d[1] / len, d[2] / len];
        let pick = if z[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
        let dot = pick[0] * z[0] + pick[1] * z[1] + pick[2] * z[2];
        let mut x = [pick[0] - dot * z[0], pick[1] - dot * z[1], pick[2] - dot * z[2]];
        let nx = x.iter().map(|v| v * v).sum::<f64>().sqrt();
        x.iter_mut().for_each(|v| *v /= nx);
        let y = [z[1] * x[2] - z[2] * x[1], z[2] * x[0] - z[0] * x[2], z[0] * x[1] - z[1] * x[0]];
        turn = [[x[0], y[0], z[0]], [x[1], y[1], z[1]], [x[2], y[2], z[2]]];
    } else if let Some(q) = quat {
        match from_quat(q) {
            Some(m) => turn = m,
            None => {
                bad.insert("BadAttribute");
            }
        }
    }
    let extents = match (shape, half) {
        (_, Some(h)) if !size.is_empty() => Some([size[0], size[0], h]),
        ("sphere", None) if size.len() == 1 => Some([size[0]; 3]),
        ("cylinder" | "capsule", None) if size.len() == 2 => Some([size[0], size[0], size[1]]),
        ("box" | "ellipsoid", None) if size.len() == 3 => Some([size[0], size[1], size[2]]),
        _ => None,
    };
    let Some([p, q, r]) = extents else {
        bad.insert("BadAttribute");
        return None;
    };
    if [p, q, r].iter().any(|v| *v < 0.0) {
        bad.insert("BadAttribute");
        return None;
    }
    let pi = std::f64::consts::PI;
    // Second moments per unit mass along the shape's own axes.
    let (vol, s) = match shape {
        "sphere" | "ellipsoid" => (4.0 / 3.0 * pi * p * q * r, [p * p / 5.0, q * q / 5.0, r * r / 5.0]),
        "box" => (8.0 * p * q * r, [p * p / 3.0, q * q / 3.0, r * r / 3.0]),
        "cylinder" => (2.0 * pi * p * p * r, [p * p / 4.0, p * p / 4.0, r * r / 3.0]),
        _ => {
            // By slices along the axis: a slice of radius s carries s²/4 across.
            let n = 64;
            let (mut v, mut across, mut along) = (0.0, 0.0, 0.0);
            let mut gauss = |lo: f64, hi: f64, f: &dyn Fn(f64) -> f64| {
                let h = (hi - lo) / n as f64;
                for i in 0..n {
                    let mid = lo + (i as f64 + 0.5) * h;
                    for (x, wt) in [(0.0, 128.0 / 225.0), (0.538_469_310_105_683_1, 0.478_628_670_499_366_5), (-0.538_469_310_105_683_1, 0.478_628_670_499_366_5), (0.906_179_845_938_664, 0.236_926_885_056_189_1), (-0.906_179_845_938_664, 0.236_926_885_056_189_1)] {
                        let z = mid + x * h / 2.0;
                        let s2 = f(z);
                        let area = pi * s2;
                        v += wt * h / 2.0 * area;
                        across += wt * h / 2.0 * area * s2 / 4.0;
                        along += wt * h / 2.0 * area * z * z;
                    }
                }
            };
            if r > 0.0 {
                gauss(-r, r, &|_| p * p);
            }
            gauss(r, r + p, &|z| p * p - (z - r) * (z - r));
            gauss(-r - p, -r, &|z| p * p - (z + r) * (z + r));
            (v, if v > 0.0 { [across / v, across / v, along / v] } else { [0.0; 3] })
        }
    };
    let m = mass.unwrap_or(density * vol);
    if m == 0.0 {
        return None;
    }
    let d = [
        [m * (s[1] + s[2]), 0.0, 0.0],
        [0.0, m * (s[0] + s[2]), 0.0],
        [0.0, 0.0, m * (s[0] + s[1])],
    ];
    let mut i = mat_mul(turn, mat_mul(d, transposed(turn)));
    let c2 = centre.iter().map(|v| v * v).sum::<f64>();
    for a in 0..3 {
        for b in 0..3 {
            i[a][b] += m * (if a == b { c2 } else { 0.0 } - centre[a] * centre[b]);
        }
    }
    Some((m, centre, i, p.max(q).max(r)))
}

fn stated_mass(a: &Attrs, bad: &mut BTreeSet<&'static str>) -> Option<Mass> {
    for n in ["euler", "xyaxes", "zaxis"] {
        if a.contains_key(n) {
            bad.insert("UnsupportedOrientation");
        }
    }
    let com = arr::<3>(a, "pos", bad).unwrap_or([0.0; 3]);
    let mass = arr::<1>(a, "mass", bad).map(|v| v[0]);
    let diag = arr::<3>(a, "diaginertia", bad);
    let full = arr::<6>(a, "fullinertia", bad);
    let Some(mass) = mass else {
        bad.insert("BadAttribute");
        return None;
    };
    let inertia = match (diag, full) {
        (Some(d), None) => {
            let turn = match arr::<4>(a, "quat", bad) {
                None => EYE,
                Some(q) => match from_quat(q) {
                    Some(m) => m,
                    None => {
                        bad.insert("BadAttribute");
                        EYE
                    }
                },
            };
            mat_mul(turn, mat_mul([[d[0], 0.0, 0.0], [0.0, d[1], 0.0], [0.0, 0.0, d[2]]], transposed(turn)))
        }
        (None, Some(f)) => [[f[0], f[3], f[4]], [f[3], f[1], f[5]], [f[4], f[5], f[2]]],
        _ => {
            bad.insert("BadAttribute");
            return None;
        }
    };
    sound_mass(Mass { mass, com, inertia, scale: 0.0 }, bad)
}

/// Mass properties no body can have are refused.
fn sound_mass(m: Mass, bad: &mut BTreeSet<&'static str>) -> Option<Mass> {
    let finite = m.mass.is_finite() && m.com.iter().chain(m.inertia.iter().flatten()).all(|v| v.is_finite());
    let positive = m.mass > 0.0 && (0..3).all(|i| m.inertia[i][i] > 0.0);
    if !finite || !positive {
        bad.insert("Inertia");
        return None;
    }
    Some(m)
}

struct Settings {
    degrees: bool,
    auto: bool,
    from_geom: usize,
}

fn want_joint(r: &Robot, b: &Body, class: Option<usize>, s: &Settings, w: &mut Want) -> Option<WantJoint> {
    let name = body_name(b);
    if b.joints.len() > 1 {
        w.must.insert("MultipleJoints");
        return None;
    }
    let j = b.joints.first()?;
    let kind_text = word(&j.attrs, "type", &JOINT_TYPES);
    if j.free || kind_text == Some("free") {
        if b.parent != 0 {
            w.must.insert("FreeJointNotAtRoot");
            return None;
        }
        w.floating = true;
        return Some(WantJoint {
            name,
            kind: JointKind::Floating,
            axis: [1.0, 0.0, 0.0],
            anchor: [0.0; 3],
            limits: None,
            zero_offset: 0.0,
            armature: 0.0,
            damping: 0.0,
            friction: 0.0,
            spring_reference: 0.0,
            spring_stiffness: 0.0,
            mimic: None,
        });
    }
    let mut bad = BTreeSet::new();
    let Some(mut a) = r.resolved(if j.class > 0 { j.class } else { class.unwrap_or(0) }, true) else {
        w.must.insert("UndefinedClass");
        return None;
    };
    a.extend(j.attrs.clone());
    let ty = word(&a, "type", &JOINT_TYPES).unwrap_or("hinge");
    if !matches!(ty, "hinge" | "slide") {
        bad.insert("UnsupportedJoint");
    }
    let hinge = ty == "hinge";
    let angle = |v: f64| if hinge && s.degrees { v.to_radians() } else { v };
    let axis = arr::<3>(&a, "axis", &mut bad).unwrap_or([0.0, 0.0, 1.0]);
    let big = axis.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    if !(big > 0.0) || axis.iter().any(|v| !v.is_finite()) {
        if axis.iter().all(|v| v.is_finite()) {
            bad.insert("BadAttribute");
        } else {
            w.may.insert("BadAttribute");
            w.unsound = true;
        }
    }
    let n = axis.iter().map(|v| (v / big).powi(2)).sum::<f64>().sqrt() * big;
    let range = arr::<2>(&a, "range", &mut bad).map(|v| (angle(v[0]), angle(v[1])));
    let limits = match word(&a, "limited", &WORDS).unwrap_or("auto") {
        "false" => None,
        "true" => {
            if range.is_none() {
                bad.insert("LimitsNeedRange");
            }
            range
        }
        "auto" => {
            if range.is_some() && !s.auto {
                bad.insert("LimitsNeedRange");
            }
            range
        }
        _ => {
            bad.insert("BadAttribute");
            None
        }
    };
    let mut one = |n: &str| arr::<1>(&a, n, &mut bad).map_or(0.0, |v| v[0]);
    let out = WantJoint {
        name: "joint".into(),
        kind: match (hinge, limits) {
            (true, Some(_)) => JointKind::Revolute,
            (true, None) => JointKind::Continuous,
            _ => JointKind::Prismatic,
        },
        axis: [axis[0] / n, axis[1] / n, axis[2] / n],
        anchor: [0.0; 3],
        limits,
        zero_offset: angle(one("ref")),
        armature: one("armature"),
        damping: one("damping"),
        friction: one("frictionloss"),
        spring_reference: angle(one("springref")),
        spring_stiffness: one("stiffness"),
        mimic: None,
    };
    let anchor = arr::<3>(&a, "pos", &mut bad).unwrap_or([0.0; 3]);
    let fine = bad.is_empty();
    w.must.extend(bad);
    fine.then_some(WantJoint { anchor, name: joint_name(b), ..out })
}

fn joint_name(b: &Body) -> String {
    if b.name < 0.0 { "joint".into() } else { format!("j{}", b.id) }
}

fn want_of(r: &Robot) -> Want {
    let mut w = Want { name: "model".into(), ..Want::default() };
    // Repeated compiler sections add up, later settings over earlier ones.
    let mut s = Settings { degrees: true, auto: true, from_geom: 1 };
    for c in &r.compilers {
        match c[0] {
            1 => s.degrees = true,
            2 => s.degrees = false,
            3 => {
                w.must.insert("BadAttribute");
            }
            _ => {}
        }
        match c[1] {
            1 => s.auto = true,
            2 => s.auto = false,
            3 => {
                w.must.insert("BadAttribute");
            }
            _ => {}
        }
        match c[2] {
            4 => {
                w.must.insert("BadAttribute");
            }
            0 => {}
            k => s.from_geom = k - 1,
        }
    }
    for block in &r.root[..r.blocks] {
        spoilt_settings(&block.0, &block.1, &mut w);
    }
    for c in &r.classes {
        // A class is written only where the classes above it are.
        if r.resolved(c.id, false).is_some() {
            spoilt_settings(&c.geom, &c.joint, &mut w);
        }
    }
    for top in r.tops() {
        walk(r, top, None, None, &s, &mut w);
    }
    if w.bodies.is_empty() {
        w.must.insert("NoBodies");
        w.must.insert("MissingWorldbody");
    }
    let mut names: Vec<String> = r.sections.iter().map(|&k| SECTIONS[k].to_string()).collect();
    names.sort();
    names.dedup();
    w.ignored = names;
    w
}

fn spoilt_settings(geom: &Attrs, joint: &Attrs, w: &mut Want) {
    let mut bad = BTreeSet::new();
    for (n, len) in [("pos", 3), ("quat", 4), ("mass", 1), ("density", 1), ("fromto", 6)] {
        let _ = got(geom, n, len, &mut bad);
    }
    if geom.get("size").is_some_and(|s| s.spoilt.is_some_and(|k| !SPOILS[k].is_empty())) {
        bad.insert("BadAttribute");
    }
    for (n, len) in [("axis", 3), ("pos", 3), ("range", 2), ("armature", 1), ("damping", 1), ("frictionloss", 1), ("ref", 1), ("springref", 1), ("stiffness", 1)] {
        let _ = got(joint, n, len, &mut bad);
    }
    w.must.extend(bad);
}

fn walk(r: &Robot, i: usize, parent: Option<usize>, above: Option<usize>, s: &Settings, w: &mut Want) {
    let b = &r.bodies[i];
    if b.wrap != 0 {
        w.must.insert("Other");
    }
    let mut bad = BTreeSet::new();
    let shift = arr::<3>(&b.attrs, "pos", &mut bad).unwrap_or([0.0; 3]);
    let turn = match arr::<4>(&b.attrs, "quat", &mut bad) {
        None => EYE,
        Some(q) => from_quat(q).unwrap_or_else(|| {
            bad.insert("BadAttribute");
            EYE
        }),
    };
    if b.attrs.contains_key("euler") {
        bad.insert("UnsupportedOrientation");
    }
    w.must.extend(bad);
    let class = if b.childclass > 0 { Some(b.childclass) } else { above };
    let joint = want_joint(r, b, class, s, w);
    let stated = b.inertials.first();
    let use_stated = match s.from_geom {
        0 => {
            if stated.is_none() {
                w.must.insert("NoInertiaSource");
            }
            true
        }
        1 => stated.is_some(),
        _ => false,
    };
    let mut bad_stated = BTreeSet::new();
    let a = stated.and_then(|a| stated_mass(a, &mut bad_stated));
    let mut bad_geoms = BTreeSet::new();
    let mut parts = Vec::new();
    for g in &b.geoms {
        match r.resolved(if g.class > 0 { g.class } else { class.unwrap_or(0) }, false) {
            None => {
                bad_geoms.insert("UndefinedClass");
            }
            Some(mut set) => {
                set.extend(g.attrs.clone());
                parts.extend(geom_mass(&set, &g.attrs, &mut bad_geoms));
            }
        }
    }
    let total: f64 = parts.iter().map(|p| p.0).sum();
    let from_shapes = if total == 0.0 {
        bad_geoms.insert("NoInertiaSource");
        None
    } else {
        let mut com = [0.0; 3];
        let mut inertia = [[0.0; 3]; 3];
        let mut scale = 0.0f64;
        for (m, c, i, size) in &parts {
            for k in 0..3 {
                com[k] += m * c[k] / total;
                scale = scale.max(c[k].abs()).max(*size);
                for l in 0..3 {
                    inertia[k][l] += i[k][l];
                }
            }
        }
        let c2 = com.iter().map(|v| v * v).sum::<f64>();
        for k in 0..3 {
            for l in 0..3 {
                inertia[k][l] -= total * (if k == l { c2 } else { 0.0 } - com[k] * com[l]);
            }
        }
        sound_mass(Mass { mass: total, com, inertia, scale }, &mut bad_geoms)
    };
    let (mass, needed, idle) = if use_stated { (a, bad_stated, bad_geoms) } else { (from_shapes, bad_geoms, bad_stated) };
    w.must.extend(needed);
    w.may.extend(idle);
    let at = w.bodies.len();
    w.bodies.push(WantBody { name: body_name(b), parent, turn, shift, mass, joint });
    for c in r.children(b.id) {
        walk(r, c, Some(at), class, s, w);
    }
}

// ----- Writing MJCF -----

const PLACES: [&str; 3] = ["", "parts/", "deep/er/"];
fn file_name(k: usize) -> String {
    if k == 0 { "robot.xml".into() } else { format!("{}p{k}.xml", PLACES[k % 3]) }
}
fn way(from: usize, to: usize) -> String {
    let up = match from {
        0 => "",
        k => ["", "../", "../../"][k % 3],
    };
    format!("{up}{}", file_name(to))
}

struct Writer<'a> {
    r: &'a Robot,
    pen: Rng,
    files: BTreeMap<usize, String>,
}

impl Writer<'_> {
    fn attrs(&mut self, a: &Attrs, geom: bool) -> String {
        let mut list: Vec<String> = a
            .iter()
            .map(|(n, v)| {
                let text = text_of(n, v, geom, &mut self.pen);
                if self.pen.chance(0.3) { format!("{n}='{text}'") } else { format!("{n}=\"{text}\"") }
            })
            .collect();
        if list.len() > 1 && self.pen.chance(0.5) {
            list.reverse();
        }
        list.iter().map(|s| format!(" {s}")).collect()
    }
    fn noise(&mut self) -> String {
        match self.pen.below(12) {
            0 => "<!-- <body name=\"ghost\"><include file=\"ghost.xml\"/></body> -->".into(),
            1 => "<site name=\"s\" pos=\"1 2 3\" euler=\"1 2 3\"/>".into(),
            2 => "<camera mode=\"track\" mass=\"9\"/>".into(),
            3 => "\r\n".into(),
            4 => "stray text".into(),
            5 => "<light pos=\"0 0 1\"/>".into(),
            _ => "\n".into(),
        }
    }
    fn body(&mut self, i: usize, file: usize) -> String {
        let b = self.r.bodies[i].clone();
        let mut s = String::from("<body");
        if b.name >= 0.0 {
            let _ = write!(s, " name=\"{}\"", escaped(&body_name(&b)));
        }
        if b.childclass > 0 {
            let _ = write!(s, " childclass=\"{}\"", class_name(b.childclass));
        }
        s += &self.attrs(&b.attrs, false);
        s += ">";
        let mut inner: Vec<String> = Vec::new();
        for j in &b.joints {
            let class = if j.class > 0 { format!(" class=\"{}\"", class_name(j.class)) } else { String::new() };
            let name = if b.name >= 0.0 { format!(" name=\"j{}\"", b.id) } else { String::new() };
            let attrs = self.attrs(&j.attrs, false);
            inner.push(if j.free { "<freejoint/>".into() } else { format!("<joint{name}{class}{attrs}/>") });
        }
        for a in &b.inertials {
            let attrs = self.attrs(a, false);
            inner.push(format!("<inertial{attrs}/>"));
        }
        for g in &b.geoms {
            let class = if g.class > 0 { format!(" class=\"{}\"", class_name(g.class)) } else { String::new() };
            let attrs = self.attrs(&g.attrs, true);
            inner.push(format!("<geom{class}{attrs}/>"));
        }
        for c in self.r.children(b.id) {
            inner.push(self.placed(c, file));
        }
        for part in inner {
            s += &self.noise();
            s += &part;
        }
        s += &self.noise();
        s + "</body>"
    }
    /// A body where it stands: itself, or the element that pulls its file in.
    fn placed(&mut self, i: usize, file: usize) -> String {
        let b = self.r.bodies[i].clone();
        if b.file == 0 || self.files.contains_key(&b.file) {
            let text = self.body(i, file);
            return match b.wrap {
                0 => text,
                k => format!("<{}>{text}</{}>", WRAPS[k], WRAPS[k]),
            };
        }
        self.files.insert(b.file, String::new());
        let text = self.body(i, b.file);
        let text = match b.wrap {
            0 => text,
            k => format!("<{}>{text}</{}>", WRAPS[k], WRAPS[k]),
        };
        let whole = if b.parent == 0 && b.how % 4 != 0 {
            format!("<?xml version=\"1.0\"?>\n<mujoco model=\"part\"><worldbody>{text}</worldbody></mujoco>")
        } else if b.how % 2 == 0 {
            format!("<mujocoinclude>{text}</mujocoinclude>")
        } else {
            format!("<mujoco>\n{text}</mujoco>\n")
        };
        self.files.insert(b.file, whole);
        format!("<include file=\"{}\"/>", way(file, b.file))
    }
    fn class(&mut self, id: usize) -> String {
        let Some(c) = self.r.classes.iter().find(|c| c.id == id).cloned() else { return String::new() };
        let mut s = format!("<default class=\"{}\">", class_name(id));
        s += &self.settings(&c.geom, &c.joint);
        for k in self.r.classes.iter().filter(|k| k.parent == id && k.id > id).map(|k| k.id).collect::<Vec<_>>() {
            s += &self.class(k);
        }
        s + "</default>"
    }
    fn settings(&mut self, geom: &Attrs, joint: &Attrs) -> String {
        let mut s = String::new();
        if !geom.is_empty() {
            let a = self.attrs(geom, true);
            let _ = write!(s, "<geom{a}/>");
        }
        if !joint.is_empty() {
            let a = self.attrs(joint, false);
            let _ = write!(s, "<joint{a}/>");
        }
        s + "<site size=\"0.1\"/>"
    }
    fn compiler(&mut self, c: [usize; 4]) -> String {
        let mut s = String::from("<compiler");
        s += ["", " angle=\"degree\"", " angle=\"radian\"", " angle=\"turns\""][c[0]];
        s += ["", " autolimits=\"true\"", " autolimits=\"false\"", " autolimits=\"sometimes\""][c[1]];
        s += ["", " inertiafromgeom=\"false\"", " inertiafromgeom=\"auto\"", " inertiafromgeom=\"true\"", " inertiafromgeom=\"perhaps\""][c[2]];
        s + " meshdir=\"assets\"/>"
    }
    fn main(&mut self) -> String {
        let mut s = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<mujoco>");
        let cs = self.r.compilers.clone();
        let cut = cs.len().div_ceil(2);
        for (k, c) in cs[..cut].iter().enumerate() {
            let text = self.compiler(*c);
            if c[3] % 3 == 1 {
                // A file of its own.
                s += &format!("<include file=\"{}\"/>", way(0, 40 + k));
                self.files.insert(40 + k, format!("<mujoco>{text}</mujoco>"));
            } else {
                s += &text;
            }
        }
        for block in 0..self.r.blocks {
            let (g, j) = self.r.root[block].clone();
            let last = block + 1 == self.r.blocks;
            let mut d = String::from(if self.pen.chance(0.3) { "<default class=\"main\">" } else { "<default>" });
            d += &self.settings(&g, &j);
            if last {
                for id in self.r.classes.iter().filter(|c| c.parent == 0).map(|c| c.id).collect::<Vec<_>>() {
                    d += &self.class(id);
                }
            }
            d += "</default>";
            if self.pen.chance(0.3) {
                s += &format!("<include file=\"{}\"/>", way(0, 50 + block));
                self.files.insert(50 + block, format!("<mujoco>{d}</mujoco>"));
            } else {
                s += &d;
            }
        }
        let (late, here): (Vec<usize>, Vec<usize>) = self.r.children(0).into_iter().partition(|&i| self.r.second_section(i));
        let mut second = String::new();
        for i in late {
            // A section of its own, in its own file or beside the first.
            second += &if self.r.bodies[i].id % 2 == 0 {
                self.placed(i, 0)
            } else {
                let t = self.body(i, 0);
                let wrap = self.r.bodies[i].wrap;
                if wrap == 0 { format!("<worldbody>{t}</worldbody>") } else { format!("<worldbody><{}>{t}</{}></worldbody>", WRAPS[wrap], WRAPS[wrap]) }
            };
        }
        let mut first = String::from("<worldbody><geom type=\"plane\" size=\"1 1 1\" mass=\"5\"/>");
        for i in here {
            first += &self.noise();
            first += &self.placed(i, 0);
        }
        if self.r.cycle {
            let _ = write!(first, "<include file=\"{}\"/>", way(0, 60));
            self.files.insert(60, format!("<mujoco><include file=\"{}\"/></mujoco>", way(60, 0)));
        }
        for k in 0..self.r.deep {
            if k == 0 {
                let _ = write!(first, "<include file=\"{}\"/>", way(0, 61));
            }
            let at = 61 + k;
            let inner = if k + 1 < self.r.deep { format!("<include file=\"{}\"/>", way(at, at + 1)) } else { "<site/>".into() };
            self.files.insert(at, format!("<mujoco>{inner}</mujoco>"));
        }
        first += "</worldbody>";
        s += &if self.r.late { format!("{first}{second}") } else { format!("{second}{first}") };
        for &k in &self.r.sections {
            let _ = write!(s, "<{} timestep=\"0.01\"><general/></{}>", SECTIONS[k], SECTIONS[k]);
        }
        for c in &cs[cut..] {
            s += &self.compiler(*c);
        }
        s + "</mujoco>"
    }
}

pub struct Mjcf;

fn gen_vec(r: &mut Rng, n: usize, s: f64) -> Vec<f64> {
    (0..n).map(|_| tidy(r, s)).collect()
}
fn tidy(r: &mut Rng, s: f64) -> f64 {
    match r.below(6) {
        0 => 0.0,
        1 => (r.range(-s, s) * 10.0).round() / 10.0,
        2 => r.sign() * s * r.log_range(1e-6, 1.0),
        _ => r.range(-s, s),
    }
}
fn gen_quat(r: &mut Rng) -> Vec<f64> {
    match r.below(5) {
        0 => vec![1.0, 0.0, 0.0, 0.0],
        1 => vec![0.0, r.sign(), 0.0, 0.0],
        2 => {
            // Barely turned.
            let e = r.log_range(1e-8, 1e-2);
            vec![1.0, e * r.sign(), e * r.unit(), 0.0]
        }
        3 => {
            let k = r.log_range(1e-3, 1e3);
            (0..4).map(|_| k * r.normal()).collect()
        }
        _ => (0..4).map(|_| r.normal()).collect(),
    }
}
fn at(k: &'static str, id: usize, name: &str, v: &[f64]) -> Ev {
    let mut a = vec![id as f64, code(name), 0.0];
    a.extend_from_slice(v);
    ev(k, &a)
}
fn gen_geom(r: &mut Rng, out: &mut Vec<Ev>, k: &'static str, id: usize, class: bool) {
    let ty = r.below(5);
    let skip = |r: &mut Rng| class && r.chance(0.5);
    let big = r.log_range(0.01, 20.0);
    let tied = !skip(r);
    if tied {
        if ty != 0 || r.chance(0.5) {
            out.push(at(k, id, "type", &[ty as f64]));
        }
        let n = match ty {
            0 => 1,
            3 | 4 => 2,
            _ => 3,
        };
        let size: Vec<f64> = (0..n).map(|_| big * r.range(0.05, 1.0)).collect();
        out.push(at(k, id, "size", &size));
    }
    let ends = tied && ty >= 3 && r.chance(0.4);
    if ends {
        out.push(at(k, id, "fromto", &gen_vec(r, 6, big)));
    } else if !skip(r) && r.chance(0.7) && !class {
        out.push(at(k, id, "pos", &gen_vec(r, 3, big * 3.0)));
    }
    if r.chance(0.5) && !class {
        out.push(at(k, id, "quat", &gen_quat(r)));
    }
    if r.chance(0.4) {
        let m = if r.chance(0.15) { 0.0 } else { r.log_range(1e-3, 1e3) };
        out.push(at(k, id, "mass", &[m]));
    }
    if r.chance(0.3) {
        out.push(at(k, id, "density", &[r.log_range(1.0, 1e4)]));
    }
}
fn gen_joint(r: &mut Rng, out: &mut Vec<Ev>, k: &'static str, id: usize) {
    if r.chance(0.5) {
        out.push(at(k, id, "type", &[r.below(2) as f64]));
    }
    if r.chance(0.6) {
        let v: Vec<f64> = (0..3).map(|_| r.normal() * if r.chance(0.3) { 40.0 } else { 1.0 }).collect();
        out.push(at(k, id, "axis", &v));
    }
    if r.chance(0.4) {
        out.push(at(k, id, "pos", &gen_vec(r, 3, 1.0)));
    }
    if r.chance(0.5) {
        let lo = r.range(-180.0, 0.0);
        out.push(at(k, id, "range", &[lo, lo + r.range(0.0, 200.0)]));
    }
    if r.chance(0.2) {
        out.push(at(k, id, "limited", &[r.below(3) as f64]));
    }
    for n in ["armature", "damping", "frictionloss", "ref", "springref", "stiffness"] {
        if r.chance(0.25) {
            out.push(at(k, id, n, &[r.range(0.0, 5.0)]));
        }
    }
}
/// Moments a real body could have, in any frame.
fn gen_moments(r: &mut Rng) -> V3 {
    let k = r.log_range(1e-6, 1e7);
    let s: V3 = [r.range(0.05, 1.0), r.range(0.05, 1.0), r.range(0.05, 1.0)];
    [k * (s[1] + s[2]), k * (s[0] + s[2]), k * (s[0] + s[1])]
}

impl World for Mjcf {
    fn name(&self) -> &'static str {
        "mjcf"
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        // style, by path, tip, unused, blocks, late
        t.cfg = vec![r.below(1 << 30) as f64, r.below(4) as f64, r.below(30) as f64, 0.0, r.below(2) as f64, r.below(2) as f64];
        let e = &mut t.evs;
        for _ in 0..r.below(3) {
            e.push(ev("compiler", &[r.below(3) as f64, r.below(2) as f64 * r.below(3) as f64, *r.pick(&[0.0, 0.0, 2.0, 2.0, 3.0, 1.0]), r.below(6) as f64]));
        }
        let classes = r.below(4);
        for block in 0..2 {
            if r.chance(0.4) {
                gen_geom(r, e, "cgeom", block, true);
            }
            if r.chance(0.4) {
                gen_joint(r, e, "cjoint", block);
            }
        }
        for k in 0..classes {
            let id = 2 + k;
            let parent = if k > 0 && r.chance(0.5) { 2 + r.below(k) } else { 0 };
            e.push(ev("class", &[id as f64, parent as f64]));
            if r.chance(0.7) {
                gen_geom(r, e, "cgeom", id, true);
            }
            if r.chance(0.7) {
                gen_joint(r, e, "cjoint", id);
            }
        }
        let some_class = |r: &mut Rng, p: f64| if classes > 0 && r.chance(p) { (2 + r.below(classes)) as f64 } else { 0.0 };
        let n = if r.chance(0.1) { r.int(13, 28) } else { r.int(1, 8) };
        let split = r.chance(0.5);
        for k in 0..n {
            let id = k + 1;
            let parent = if k == 0 || r.chance(0.1) { 0 } else if r.chance(0.6) { k } else { r.int(1, k) };
            let class = some_class(r, 0.4);
            let name = if r.chance(0.1) { -1.0 } else if r.chance(0.05) { r.below(n) as f64 } else { id as f64 };
            let file = if split && r.chance(0.4) { id as f64 } else { 0.0 };
            e.push(ev("body", &[id as f64, parent as f64, class, name, file, r.below(8) as f64, 0.0]));
            if r.chance(0.7) {
                e.push(at("battr", id, "pos", &gen_vec(r, 3, 2.0)));
            }
            if r.chance(0.5) {
                e.push(at("battr", id, "quat", &gen_quat(r)));
            }
            if r.chance(0.7) {
                let free = parent == 0 && k == 0 && r.chance(0.4);
                let class = some_class(r, 0.3);
                e.push(ev("joint", &[id as f64, class, if free && r.chance(0.7) { 1.0 } else { 0.0 }]));
                if free {
                    e.push(at("jattr", id, "type", &[3.0]));
                } else {
                    gen_joint(r, e, "jattr", id);
                }
            }
            let stated = r.chance(0.5);
            if stated {
                e.push(ev("inertial", &[id as f64]));
                e.push(at("iattr", id, "mass", &[r.log_range(1e-3, 1e5)]));
                if r.chance(0.6) {
                    e.push(at("iattr", id, "pos", &gen_vec(r, 3, 1.0)));
                }
                let d = gen_moments(r);
                if r.chance(0.6) {
                    e.push(at("iattr", id, "diaginertia", &d));
                    if r.chance(0.7) {
                        e.push(at("iattr", id, "quat", &gen_quat(r)));
                    }
                } else {
                    let q = gen_quat(r);
                    let turn = from_quat([q[0], q[1], q[2], q[3]]).unwrap_or(EYE);
                    let m = mat_mul(turn, mat_mul([[d[0], 0.0, 0.0], [0.0, d[1], 0.0], [0.0, 0.0, d[2]]], transposed(turn)));
                    e.push(at("iattr", id, "fullinertia", &[m[0][0], m[1][1], m[2][2], m[0][1], m[0][2], m[1][2]]));
                }
            }
            let geoms = if stated { r.below(3) } else { r.int(1, 3) };
            for _ in 0..geoms {
                e.push(ev("geom", &[id as f64, some_class(r, 0.3)]));
                gen_geom(r, e, "gattr", id, false);
            }
        }
        for _ in 0..r.below(3) {
            e.push(ev("section", &[r.below(6) as f64]));
        }
        // Faults.
        if r.chance(0.55) {
            let id = r.int(1, n);
            match r.below(14) {
                0 | 1 | 2 | 3 => {
                    let file = if r.chance(0.5) { 0 } else { r.below(64) };
                    e.push(ev("damage", &[file as f64, r.below(9) as f64, r.unit()]));
                }
                4 => e.push(ev("cycle", &[])),
                5 => e.push(ev("deep", &[r.int(1, 11) as f64])),
                6 | 7 | 8 => {
                    // One number spoilt, missing, too many, not finite or negative.
                    let spots: Vec<usize> = (0..e.len()).filter(|&i| e[i].k.ends_with("attr") || e[i].k == "cgeom" || e[i].k == "cjoint").collect();
                    if !spots.is_empty() {
                        let i = *r.pick(&spots);
                        match r.below(5) {
                            0 => e[i].a[2] = r.int(1, SPOILS.len()) as f64,
                            1 => {
                                e[i].a.pop();
                            }
                            2 => e[i].a.push(1.0),
                            3 => {
                                let last = e[i].a.len() - 1;
                                if last >= 3 {
                                    e[i].a[last] = r.broken();
                                }
                            }
                            _ => {
                                let j = r.int(3, e[i].a.len().max(4) - 1);
                                if let Some(v) = e[i].a.get_mut(j) {
                                    *v = -*v;
                                }
                            }
                        }
                    }
                }
                9 => e.push(ev("joint", &[id as f64, 0.0, r.below(2) as f64])),
                10 => {
                    e.push(ev("geom", &[id as f64, 99.0]));
                    gen_geom(r, e, "gattr", id, false);
                }
                11 => e.push(ev("compiler", &[r.below(4) as f64, r.below(4) as f64, r.below(5) as f64, 0.0])),
                12 => {
                    if let Some(b) = e.iter_mut().find(|v| v.k == "body" && v.u(0) == id) {
                        b.a[6] = r.int(1, 5) as f64;
                    }
                }
                _ => {
                    let (k, n) = *r.pick(&[("battr", "euler"), ("gattr", "zaxis"), ("iattr", "xyaxes"), ("gattr", "euler")]);
                    let spot = (0..e.len()).rev().find(|&i| e[i].k == k && e[i].u(0) == id);
                    if let Some(i) = spot {
                        let mut a = vec![id as f64, code(n), 0.0];
                        a.extend([1.0, 2.0, 3.0]);
                        e.insert(i + 1, ev(k, &a));
                    }
                }
            }
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let r = robot_of(t);
        let mut w = want_of(&r);
        let mut writer = Writer { r: &r, pen: Rng::new(t.cu(0) as u64), files: BTreeMap::new() };
        let main = writer.main();
        let mut files: BTreeMap<usize, Option<Vec<u8>>> = writer.files.into_iter().map(|(k, v)| (k, Some(v.into_bytes()))).collect();
        files.insert(0, Some(main.into_bytes()));
        let mut dirs: BTreeSet<usize> = BTreeSet::new();
        let mut loose = false;
        let parts = files.len() > 1;
        // A section pulled in twice over, or deeper than the limit.
        if r.cycle {
            cx.fault("include cycle");
            w.must.insert("IncludeTooDeep");
        }
        if r.deep > 8 {
            cx.fault("includes nested too deep");
            w.must.insert("IncludeTooDeep");
        }
        let depth = include_depth(&files);
        if depth > 8 {
            w.must.insert("IncludeTooDeep");
        }
        for (file, kind, spot) in &r.damage {
            let keys: Vec<usize> = files.keys().copied().collect();
            let k = keys[file % keys.len()];
            let mut dir = false;
            if files[&k].as_ref().is_none_or(|b| b.is_empty()) {
                continue;
            }
            let slot = files.get_mut(&k).ok_or("no such file")?;
            let must = damage(*kind, *spot, slot, &mut dir);
            if dir {
                dirs.insert(k);
            }
            cx.fault(DAMAGE[*kind]);
            match must {
                Some(e) => {
                    w.must.insert(e);
                }
                None => loose = true,
            }
        }
        for e in &t.evs {
            match e.k {
                "compiler" if e.u(0) % 4 == 3 || e.u(1) % 4 == 3 || e.u(2) % 5 == 4 => cx.fault("unknown setting"),
                "body" if e.n(6) > 0.0 => cx.fault("unsupported element"),
                _ if e.k.ends_with("attr") || e.k == "cgeom" || e.k == "cjoint" => {
                    if e.n(2) > 0.0 {
                        cx.fault("unreadable number");
                    } else if e.a.iter().any(|v| !v.is_finite()) {
                        cx.fault("number that is not finite");
                        w.unsound = true;
                    }
                }
                _ => {}
            }
        }
        cx.step("load");
        let by_path = parts || t.c(1) > 0.0 || !r.damage.is_empty();
        let loaded = if by_path {
            let disk = Disk::new()?;
            for (k, bytes) in &files {
                match bytes {
                    Some(b) => disk.write(&file_name(*k), b)?,
                    None if dirs.contains(k) => std::fs::create_dir_all(disk.dir.join(file_name(*k))).map_err(|e| format!("scratch disk: {e}"))?,
                    None => {}
                }
            }
            let path = disk.dir.join("robot.xml");
            let one = multicalc_robot_model::mjcf::load_path(&path);
            let two = multicalc_robot_model::load_path(&path);
            ensure!(same(&one, &two), "the same file read twice gives different models | {one:?} and {two:?}");
            cx.reach(if parts { "several files" } else { "one file" });
            if parts && !loose && r.damage.is_empty() {
                let text = String::from_utf8_lossy(files[&0].as_ref().map_or(&[][..], |v| v)).to_string();
                ensure!(
                    matches!(multicalc_robot_model::mjcf::load_str(&text), Err(ModelError::IncludeNeedsFile)),
                    "text that pulls in files is read without them"
                );
            }
            one
        } else {
            let text = String::from_utf8(files[&0].clone().unwrap_or_default()).map_err(|e| e.to_string())?;
            let one = multicalc_robot_model::mjcf::load_str(&text);
            let two = multicalc_robot_model::load_str(&text);
            ensure!(same(&one, &two), "the same text read twice gives different models | {one:?} and {two:?}");
            cx.reach("text");
            one
        };
        judge(&loaded, &w, loose, t.cu(2), cx)
    }
}

fn same(a: &Result<RobotModel, ModelError>, b: &Result<RobotModel, ModelError>) -> bool {
    // Compared as text, so that a number that is not one still equals itself.
    format!("{a:?}") == format!("{b:?}")
}

fn include_depth(files: &BTreeMap<usize, Option<Vec<u8>>>) -> usize {
    let text = |k: usize| String::from_utf8_lossy(files.get(&k).and_then(|v| v.as_deref()).unwrap_or(&[])).to_string();
    fn down(k: usize, text: &dyn Fn(usize) -> String, keys: &[usize], level: usize) -> usize {
        if level > 12 {
            return level;
        }
        let body = text(k);
        keys.iter()
            .filter(|&&j| j != 0 && j != k && body.contains(&format!("<include file=\"{}\"/>", way(k, j))))
            .map(|&j| down(j, text, keys, level + 1))
            .max()
            .unwrap_or(level)
    }
    let keys: Vec<usize> = files.keys().copied().collect();
    down(0, &text, &keys, 0)
}

fn judge(loaded: &Result<RobotModel, ModelError>, w: &Want, loose: bool, tip: usize, cx: &mut Cx) -> R {
    match loaded {
        Err(e) => {
            let k = kind_of(e);
            let said = format!("{e}");
            ensure!(!said.is_empty(), "a refusal says nothing | {e:?}");
            cx.logu(hash_str(k));
            cx.reach("refused");
            cx.state(&[hash_str(k) as i64]);
            if loose {
                return Ok(());
            }
            ensure!(
                (w.unsound && matches!(k, "BadAttribute" | "Inertia" | "NoInertiaSource")) || w.must.contains(k) || w.may.contains(k) || (k == "Other" && w.must.contains("Other")),
                "a sound model is refused, or refused for a reason it does not have | {e:?} wanted {:?}", w.must
            );
            Ok(())
        }
        Ok(m) => {
            for (i, b) in m.bodies().iter().enumerate() {
                cx.logs(&b.pose().translation().into_array());
                if let Some(j) = b.inertia() {
                    cx.log(j.mass());
                    ensure!(
                        j.mass() > 0.0 && j.mass().is_finite() && j.center_of_mass().is_finite() && j.rotational_inertia().is_finite(),
                        "a body is loaded with a mass no body can have | {i}: {j:?}"
                    );
                }
                ensure!(b.parent().is_none_or(|p| p < i), "a body comes before its parent | {i}");
                cx.state(&[b.joint().map_or(9, |j| j.kind() as i64), b.inertia().is_some() as i64, b.parent().map_or(-1, |p| (i - p) as i64).min(4)]);
            }
            let _ = m.kinematic_tree::<CAP, CONF>();
            if loose {
                return Ok(());
            }
            if w.unsound {
                // A number that is not one stops the model here or when it becomes a tree.
                for (i, b) in m.bodies().iter().enumerate() {
                    let q = b.pose().rotation().quaternion().as_array();
                    let odd = b.joint().is_some_and(|j| j.kind() != JointKind::Floating && {
                        let n = [j.zero_offset(), j.armature(), j.damping(), j.friction_loss()];
                        !j.axis().is_finite() || (j.kind() != JointKind::Prismatic && !j.anchor().is_finite()) || n.iter().any(|v| !v.is_finite())
                    });
                    let floats = b.joint().is_some_and(|j| j.kind() == JointKind::Floating);
                    let lost = !floats && (!b.pose().translation().is_finite() || q.iter().any(|v| !v.is_finite()));
                    if odd || lost {
                        ensure!(m.kinematic_tree::<CAP, CONF>().is_err(), "a number that is not one reaches a tree | {i}: {b:?}");
                        cx.reach("tree refused");
                    }
                }
                return Ok(());
            }
            ensure!(w.must.is_empty(), "a damaged or unsupported file loads as a model | wanted one of {:?}", w.must);
            cx.reach("loaded");
            check_model(m, w, tip, cx)
        }
    }
}

// ----- URDF -----

pub struct Urdf;

const KINDS: [&str; 7] = ["fixed", "revolute", "continuous", "prismatic", "floating", "planar", ""];
/// What a link or joint may state, by number.
const FIELDS: [&str; 12] = [
    "xyz", "rpy", "mass", "inertia", "axis", "lower", "upper", "damping", "friction", "mimic", "com", "turn",
];
fn field(k: &'static str, id: usize, name: &str, v: &[f64]) -> Ev {
    let mut a = vec![id as f64, FIELDS.iter().position(|n| *n == name).unwrap_or(0) as f64, 0.0];
    a.extend_from_slice(v);
    ev(k, &a)
}

#[derive(Clone, Default)]
struct Link {
    id: usize,
    name: f64,
    stated: bool,
    what: Attrs,
}
#[derive(Clone, Default)]
struct Tie {
    id: usize,
    parent: usize,
    child: usize,
    kind: usize,
    /// 1 without a limit element, 2 without dynamics, 4 with noise inside.
    flags: usize,
    what: Attrs,
}

fn link_name(links: &[Link], id: usize) -> String {
    links.iter().find(|l| l.id == id).map_or(format!("ghost{id}"), |l| if l.name < 0.0 { "link".into() } else { format!("l&{}", l.name as usize) })
}

fn spoilt_text(a: &Attr, pen: &mut Rng) -> String {
    text_of("", a, false, pen)
}

impl World for Urdf {
    fn name(&self) -> &'static str {
        "urdf"
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        t.cfg = vec![r.below(1 << 30) as f64, r.below(3) as f64, r.below(30) as f64];
        let n = if r.chance(0.1) { r.int(13, 28) } else { r.int(1, 9) };
        // Elements in any order, then shuffled.
        let mut groups: Vec<Vec<Ev>> = Vec::new();
        for id in 1..=n {
            let mut e = vec![ev("link", &[id as f64, id as f64, 0.0])];
            if r.chance(0.7) {
                e[0].a[2] = 1.0;
                e.push(field("lattr", id, "mass", &[r.log_range(1e-4, 1e6)]));
                let d = gen_moments(r);
                let q = gen_quat(r);
                let turn = from_quat([q[0], q[1], q[2], q[3]]).unwrap_or(EYE);
                let m = mat_mul(turn, mat_mul([[d[0], 0.0, 0.0], [0.0, d[1], 0.0], [0.0, 0.0, d[2]]], transposed(turn)));
                e.push(field("lattr", id, "inertia", &[m[0][0], m[0][1], m[0][2], m[1][1], m[1][2], m[2][2]]));
                if r.chance(0.7) {
                    e.push(field("lattr", id, "com", &gen_vec(r, 3, 1.0)));
                }
                if r.chance(0.6) {
                    let s = *r.pick(&[1e-6, 0.1, 3.2, 7.0]);
                    e.push(field("lattr", id, "turn", &gen_vec(r, 3, s)));
                }
            }
            groups.push(e);
            if id > 1 {
                let up = if r.chance(0.6) { id - 1 } else { r.int(1, id - 1) };
                let mut e = vec![ev("tie", &[id as f64, up as f64, id as f64, r.below(4) as f64, (r.below(3) * 2) as f64])];
                let kind = e[0].u(3);
                if r.chance(0.8) {
                    e.push(field("tattr", id, "xyz", &gen_vec(r, 3, 2.0)));
                }
                if r.chance(0.6) {
                    let s = *r.pick(&[0.1, 3.2, 7.0]);
                    e.push(field("tattr", id, "rpy", &gen_vec(r, 3, s)));
                }
                if r.chance(0.6) {
                    e.push(field("tattr", id, "axis", &[r.normal(), r.normal(), r.normal() * 10.0]));
                }
                if kind == 1 || kind == 3 || r.chance(0.2) {
                    let lo = r.range(-3.0, 1.0);
                    e.push(field("tattr", id, "lower", &[lo]));
                    e.push(field("tattr", id, "upper", &[lo + r.range(0.0, 4.0)]));
                }
                for f in ["damping", "friction"] {
                    if r.chance(0.4) {
                        e.push(field("tattr", id, f, &[r.range(0.0, 3.0)]));
                    }
                }
                if r.chance(0.08) {
                    let mut v = vec![r.int(1, n) as f64];
                    if r.chance(0.7) {
                        v.extend([r.range(-2.0, 2.0), r.range(-1.0, 1.0)]);
                    }
                    e.push(field("tattr", id, "mimic", &v));
                }
                groups.push(e);
            }
        }
        if r.chance(0.6) {
            for i in (1..groups.len()).rev() {
                groups.swap(i, r.below(i + 1));
            }
        }
        t.evs = groups.into_iter().flatten().collect();
        for _ in 0..r.below(3) {
            let at = r.below(t.evs.len() + 1);
            t.evs.insert(at, ev("section", &[r.below(5) as f64]));
        }
        if r.chance(0.55) {
            let e = &mut t.evs;
            let id = r.int(1, n);
            match r.below(13) {
                0 | 1 => e.push(ev("damage", &[0.0, r.below(9) as f64, r.unit()])),
                2 | 3 | 4 => {
                    let spots: Vec<usize> = (0..e.len()).filter(|&i| e[i].k.ends_with("attr")).collect();
                    if !spots.is_empty() {
                        let i = *r.pick(&spots);
                        match r.below(5) {
                            0 => e[i].a[2] = r.int(1, SPOILS.len()) as f64,
                            1 => {
                                e[i].a.pop();
                            }
                            2 => e[i].a.push(1.0),
                            3 => {
                                let last = e[i].a.len() - 1;
                                if last >= 3 {
                                    e[i].a[last] = r.broken();
                                }
                            }
                            _ => {
                                if let Some(v) = e[i].a.get_mut(3) {
                                    *v = -*v;
                                }
                            }
                        }
                    }
                }
                5 => e.push(ev("tie", &[(n + 1) as f64, r.int(1, n) as f64, r.int(1, n) as f64, 0.0, 0.0])),
                6 => e.push(ev("tie", &[(n + 1) as f64, id as f64, (n + 5) as f64, 0.0, 0.0])),
                7 => e.push(ev("link", &[(n + 1) as f64, r.int(1, n + 1) as f64, 0.0])),
                8 => {
                    // A ring of links apart from the rest.
                    for k in 0..2 {
                        e.push(ev("link", &[(n + 1 + k) as f64, (n + 1 + k) as f64, 0.0]));
                        e.push(ev("tie", &[(n + 1 + k) as f64, (n + 1 + k) as f64, (n + 2 - k) as f64, 0.0, 0.0]));
                    }
                }
                9 => {
                    if let Some(b) = e.iter_mut().find(|v| v.k == "tie" && v.u(0) == id) {
                        b.a[3] = r.int(4, 6) as f64;
                    }
                }
                10 => {
                    if let Some(i) = e.iter().position(|v| v.k == "tattr" && v.u(0) == id && v.u(1) >= 5) {
                        e.remove(i);
                    }
                }
                11 => {
                    if let Some(b) = e.iter_mut().find(|v| v.k == "tattr" && v.u(1) == 4) {
                        b.a[3..].fill(0.0);
                    }
                }
                _ => {
                    // The joint that holds one link is lost.
                    e.retain(|v| !(matches!(v.k, "tie" | "tattr") && v.u(0) == id));
                }
            }
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let mut links: Vec<Link> = Vec::new();
        let mut ties: Vec<Tie> = Vec::new();
        let mut sections = Vec::new();
        let mut order: Vec<(char, usize)> = Vec::new();
        for e in &t.evs {
            let id = e.u(0);
            match e.k {
                "link" => {
                    order.push(('l', links.len()));
                    links.push(Link { id, name: e.n(1), stated: e.n(2) > 0.0, ..Link::default() });
                }
                "tie" => {
                    order.push(('t', ties.len()));
                    ties.push(Tie { id, parent: e.u(1), child: e.u(2), kind: e.u(3).min(6), flags: e.u(4), ..Tie::default() });
                }
                "section" => {
                    order.push(('s', sections.len()));
                    sections.push(id % 5);
                }
                "lattr" | "tattr" => {
                    let a = Attr {
                        vals: e.a.get(3..).unwrap_or(&[]).to_vec(),
                        spoilt: if e.n(2) > 0.0 { Some((e.u(2) - 1) % SPOILS.len()) } else { None },
                    };
                    let name = FIELDS[e.u(1).min(FIELDS.len() - 1)];
                    if e.n(2) > 0.0 {
                        cx.fault("unreadable number");
                    } else if a.vals.iter().any(|v| !v.is_finite()) {
                        cx.fault("number that is not finite");
                    }
                    if e.k == "lattr" {
                        if let Some(l) = links.iter_mut().find(|l| l.id == id) {
                            l.what.insert(name, a);
                        }
                    } else if let Some(l) = ties.iter_mut().find(|l| l.id == id) {
                        l.what.insert(name, a);
                    }
                }
                _ => {}
            }
        }
        let mut w = want_urdf(&links, &ties);
        w.unsound |= t.evs.iter().any(|e| e.k.ends_with("attr") && e.a.iter().any(|v| !v.is_finite()));
        const NAMED: [&str; 5] = ["transmission", "gazebo", "material", "sensor", "mujoco"];
        let mut named: Vec<String> = sections.iter().map(|&k| NAMED[k].to_string()).collect();
        named.sort();
        named.dedup();
        w.ignored = named;
        let mut pen = Rng::new(t.cu(0) as u64);
        let name = if pen.chance(0.5) { "model" } else { "r2" };
        w.name = name.into();
        let mut s = String::from("<?xml version=\"1.0\"?>\n<robot");
        if name != "model" || pen.chance(0.3) {
            let _ = write!(s, " name=\"{name}\"");
        }
        s += ">";
        for (k, i) in order {
            s += *pen.pick(&["\n", "<!-- <link name=\"ghost\"/> -->", "\r\n  ", ""]);
            match k {
                'l' => s += &write_link(&links, &links[i], &mut pen),
                't' => s += &write_tie(&links, &ties, &ties[i], &mut pen),
                _ => {
                    let n = NAMED[sections[i]];
                    let _ = write!(s, "<{n}><link name=\"ghost\"/><joint name=\"ghost\"/></{n}>");
                }
            }
        }
        s += "</robot>";
        let mut bytes = Some(s.into_bytes());
        let mut dir = false;
        let mut loose = false;
        let mut hurt = false;
        for e in t.evs.iter().filter(|e| e.k == "damage") {
            if bytes.as_ref().is_none_or(|b| b.is_empty()) {
                continue;
            }
            let kind = e.u(1) % DAMAGE.len();
            cx.fault(DAMAGE[kind]);
            hurt = true;
            match damage(kind, e.n(2), &mut bytes, &mut dir) {
                Some(k) => {
                    w.must.insert(k);
                }
                None => loose = true,
            }
        }
        cx.step("load");
        let loaded = if hurt || t.c(1) > 0.0 {
            let disk = Disk::new()?;
            let file = if t.c(1) > 1.0 { "robot.URDF" } else { "robot.urdf" };
            match &bytes {
                Some(b) => disk.write(file, b)?,
                None if dir => std::fs::create_dir_all(disk.dir.join(file)).map_err(|e| format!("scratch disk: {e}"))?,
                None => {}
            }
            let path = disk.dir.join(file);
            let one = multicalc_robot_model::load_path(&path);
            let two = multicalc_robot_model::urdf::load_path(&path);
            ensure!(same(&one, &two), "the same file read twice gives different models | {one:?} and {two:?}");
            cx.reach("one file");
            one
        } else {
            let text = String::from_utf8(bytes.unwrap_or_default()).map_err(|e| e.to_string())?;
            let one = multicalc_robot_model::load_str(&text);
            let two = multicalc_robot_model::urdf::load_str(&text);
            ensure!(same(&one, &two), "the same text read twice gives different models | {one:?} and {two:?}");
            cx.reach("text");
            one
        };
        judge(&loaded, &w, loose, t.cu(2), cx)
    }
}

fn write_link(links: &[Link], l: &Link, pen: &mut Rng) -> String {
    let mut s = String::from("<link");
    if l.name >= 0.0 {
        let _ = write!(s, " name=\"{}\"", escaped(&link_name(links, l.id)));
    }
    s += ">";
    if pen.chance(0.3) {
        s += "<visual><origin xyz=\"9 9 9\"/><geometry><box size=\"1 1 1\"/></geometry></visual>";
    }
    if l.stated {
        s += "<inertial>";
        s += &origin(&l.what, "com", "turn", pen);
        if let Some(m) = l.what.get("mass") {
            let _ = write!(s, "<mass value=\"{}\"/>", spoilt_text(m, pen));
        }
        if let Some(m) = l.what.get("inertia") {
            s += "<inertia";
            let names = ["ixx", "ixy", "ixz", "iyy", "iyz", "izz"];
            if m.spoilt.is_some() {
                let _ = write!(s, " ixx=\"{}\"", spoilt_text(m, pen));
            } else {
                for (n, v) in names.iter().zip(&m.vals) {
                    let _ = write!(s, " {n}=\"{}\"", number(*v, pen));
                }
            }
            s += "/>";
        }
        s += "</inertial>";
    }
    if pen.chance(0.3) {
        s += "<collision><origin rpy=\"1 1 1\"/></collision>";
    }
    s + "</link>"
}

fn origin(a: &Attrs, place: &str, turn: &str, pen: &mut Rng) -> String {
    let (p, t) = (a.get(place), a.get(turn));
    if p.is_none() && t.is_none() {
        return String::new();
    }
    let mut s = String::from("<origin");
    if let Some(p) = p {
        let _ = write!(s, " xyz=\"{}\"", spoilt_text(p, pen));
    }
    if let Some(t) = t {
        let _ = write!(s, " rpy=\"{}\"", spoilt_text(t, pen));
    }
    s + "/>"
}

fn write_tie(links: &[Link], ties: &[Tie], j: &Tie, pen: &mut Rng) -> String {
    let mut s = format!("<joint name=\"j{}\"", j.id);
    if j.kind < 6 {
        let _ = write!(s, " type=\"{}\"", KINDS[j.kind]);
    }
    s += ">";
    let mut parts = vec![
        format!("<parent link=\"{}\"/>", escaped(&link_name(links, j.parent))),
        format!("<child link=\"{}\"/>", escaped(&link_name(links, j.child))),
        origin(&j.what, "xyz", "rpy", pen),
    ];
    if let Some(a) = j.what.get("axis") {
        parts.push(format!("<axis xyz=\"{}\"/>", spoilt_text(a, pen)));
    }
    let (lo, hi) = (j.what.get("lower"), j.what.get("upper"));
    if lo.is_some() || hi.is_some() || pen.chance(0.2) {
        let mut l = String::from("<limit effort=\"1\" velocity=\"2\"");
        for (n, a) in [("lower", lo), ("upper", hi)] {
            if let Some(a) = a {
                let _ = write!(l, " {n}=\"{}\"", spoilt_text(a, pen));
            }
        }
        parts.push(l + "/>");
    }
    let (d, f) = (j.what.get("damping"), j.what.get("friction"));
    if d.is_some() || f.is_some() {
        let mut l = String::from("<dynamics");
        for (n, a) in [("damping", d), ("friction", f)] {
            if let Some(a) = a {
                let _ = write!(l, " {n}=\"{}\"", spoilt_text(a, pen));
            }
        }
        parts.push(l + "/>");
    }
    if let Some(m) = j.what.get("mimic") {
        let driver = m.vals.first().map_or(0, |v| if v.is_finite() { v.abs() as usize } else { 0 });
        let _ = ties;
        let mut l = format!("<mimic joint=\"j{driver}\"");
        if m.spoilt.is_some() {
            let _ = write!(l, " multiplier=\"{}\"", spoilt_text(m, pen));
        } else {
            for (n, v) in ["multiplier", "offset"].iter().zip(m.vals.iter().skip(1)) {
                let _ = write!(l, " {n}=\"{}\"", number(*v, pen));
            }
        }
        parts.push(l + "/>");
    }
    if j.flags & 4 != 0 {
        parts.push("<safety_controller soft_lower_limit=\"-9\" k_position=\"1\"/><calibration rising=\"0\"/>".into());
    }
    if pen.chance(0.5) {
        parts.reverse();
    }
    s + &parts.concat() + "</joint>"
}

fn want_urdf(links: &[Link], ties: &[Tie]) -> Want {
    let mut w = Want::default();
    let name = |l: &Link| link_name(links, l.id);
    // Names decide; the first link of a name is the one joints mean.
    let find = |id: usize| -> Option<usize> {
        let n = link_name(links, id);
        links.iter().position(|l| name(l) == n)
    };
    let masses: Vec<Option<Mass>> = links
        .iter()
        .map(|l| {
            if !l.stated {
                return None;
            }
            let mut bad = BTreeSet::new();
            let com = arr::<3>(&l.what, "com", &mut bad).unwrap_or([0.0; 3]);
            let rpy = arr::<3>(&l.what, "turn", &mut bad).unwrap_or([0.0; 3]);
            let mass = arr::<1>(&l.what, "mass", &mut bad);
            let i = l.what.get("inertia").filter(|a| a.spoilt.is_none() && a.vals.len() >= 6).map(|a| a.vals.clone());
            if mass.is_none() || i.is_none() {
                bad.insert("BadAttribute");
            }
            let out = match (mass, i) {
                (Some([mass]), Some(i)) => {
                    let t = from_rpy(rpy[0], rpy[1], rpy[2]);
                    let m = [[i[0], i[1], i[2]], [i[1], i[3], i[4]], [i[2], i[4], i[5]]];
                    let inertia = mat_mul(t, mat_mul(m, transposed(t)));
                    sound_mass(Mass { mass, com, inertia, scale: 0.0 }, &mut bad)
                }
                _ => None,
            };
            w.must.extend(bad);
            out
        })
        .collect();
    let mut holds: Vec<Vec<usize>> = vec![Vec::new(); links.len()];
    let mut held: Vec<Option<usize>> = vec![None; links.len()];
    let mut joints: Vec<Option<WantJoint>> = Vec::new();
    let mut places: Vec<(M3, V3)> = Vec::new();
    for (k, j) in ties.iter().enumerate() {
        let mut bad = BTreeSet::new();
        let shift = arr::<3>(&j.what, "xyz", &mut bad).unwrap_or([0.0; 3]);
        let rpy = arr::<3>(&j.what, "rpy", &mut bad).unwrap_or([0.0; 3]);
        places.push((from_rpy(rpy[0], rpy[1], rpy[2]), shift));
        let kind = match KINDS[j.kind] {
            "revolute" => Some(JointKind::Revolute),
            "continuous" => Some(JointKind::Continuous),
            "prismatic" => Some(JointKind::Prismatic),
            "fixed" => None,
            "floating" => {
                w.must.insert("FreeJointNotAtRoot");
                None
            }
            _ => {
                w.must.insert("UnsupportedJoint");
                None
            }
        };
        joints.push(kind.and_then(|kind| {
            let axis = arr::<3>(&j.what, "axis", &mut bad).unwrap_or([1.0, 0.0, 0.0]);
            let n = axis.iter().map(|v| v * v).sum::<f64>().sqrt();
            if !(n > 0.0) {
                bad.insert("BadAttribute");
            }
            let bound = |n: &str, bad: &mut BTreeSet<&'static str>| {
                if !j.what.contains_key(n) {
                    bad.insert("JointNeedsLimit");
                }
                arr::<1>(&j.what, n, bad).map(|v| v[0])
            };
            let limits = if kind == JointKind::Continuous {
                None
            } else {
                let (lo, hi) = (bound("lower", &mut bad), bound("upper", &mut bad));
                lo.zip(hi)
            };
            let one = |n: &str, bad: &mut BTreeSet<&'static str>| arr::<1>(&j.what, n, bad).map_or(0.0, |v| v[0]);
            let damping = one("damping", &mut bad);
            let friction = one("friction", &mut bad);
            let mimic = j.what.get("mimic").map(|m| {
                if m.spoilt.is_some() {
                    bad.insert("BadAttribute");
                }
                let at = |k: usize, d: f64| m.vals.get(k).copied().unwrap_or(d);
                let driver = m.vals.first().map_or(0, |v| if v.is_finite() { v.abs() as usize } else { 0 });
                (format!("j{driver}"), at(1, 1.0), at(2, 0.0))
            });
            Some(WantJoint {
                name: format!("j{}", j.id),
                kind,
                axis: [axis[0] / n, axis[1] / n, axis[2] / n],
                anchor: [0.0; 3],
                limits,
                zero_offset: 0.0,
                armature: 0.0,
                damping,
                friction,
                spring_reference: 0.0,
                spring_stiffness: 0.0,
                mimic,
            })
        }));
        w.must.extend(bad);
        match (find(j.parent), find(j.child)) {
            (Some(p), Some(c)) => {
                if held[c].is_some() {
                    w.must.insert("LinkHasTwoParents");
                } else {
                    held[c] = Some(k);
                    holds[p].push(c);
                }
            }
            _ => {
                w.must.insert("UnknownLink");
            }
        }
    }
    let roots: Vec<usize> = (0..links.len()).filter(|&i| held[i].is_none()).collect();
    if links.is_empty() {
        w.must.extend(["NoBodies", "MissingRootLink"]);
    } else if roots.is_empty() {
        w.must.insert("MissingRootLink");
    } else if roots.len() > 1 {
        w.must.insert("MultipleRootLinks");
    } else {
        let mut stack = vec![(roots[0], None)];
        while let Some((i, parent)) = stack.pop() {
            let at = w.bodies.len();
            let (turn, shift) = held[i].map_or((EYE, [0.0; 3]), |k| places[k]);
            w.bodies.push(WantBody {
                name: name(&links[i]),
                parent,
                turn,
                shift,
                mass: masses[i].clone(),
                joint: held[i].and_then(|k| joints[k].clone()),
            });
            for &c in holds[i].iter().rev() {
                stack.push((c, Some(at)));
            }
        }
        if w.bodies.len() < links.len() {
            w.must.insert("CyclicLinkage");
        }
    }
    w
}
