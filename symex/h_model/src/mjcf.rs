//! C44: MJCF files.
use crate::load::*;
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::kinematics::JointKind;
use multicalc::spatial::SE3;

pub fn turn<S: Sc>(k: usize) -> [S; 4] {
    let (n, d): ([i64; 4], i64) = [([1, 0, 0, 0], 1), ([1, 1, -1, 1], 2), ([4, 0, 3, 0], 5), ([2, 1, 0, -2], 3)][k];
    n.map(|x| S::rat(x, d))
}
pub fn placed<S: Sc>(cx: &mut Cx<S>, l: &str, p: SE3<S>, r: &Rows<S, 3, 3>, t: &[S; 3]) {
    cx.eqs(&format!("{l} at"), &p.translation().into_array(), t);
    let m = rows(&p.rotation().to_matrix());
    meq(cx, &format!("{l} turned"), &m, r);
}
const SOLID: &str = r#"<inertial mass="1" diaginertia="1 1 1"/>"#;
/// A scaled quaternion's text and the turn it stands for.
fn any_turn<S: Model>(cx: &mut Cx<S>, n: &str, k: usize) -> (String, Rows<S, 3, 3>) {
    let q = turn::<S>(k);
    // a length the normalisation accepts
    let l = cx.var_open(n, 0.01, 100.0);
    let s = if cx.choose(2) == 1 { -l } else { l };
    (txt(&scale(&q, s)), rotm(&q))
}
pub fn degrees<S: Sc>(x: S) -> S {
    x * S::PI / S::from_usize(180)
}
/// Angles agree to rounding: a conversion factor may be written as a decimal.
fn angle<S: Sc>(cx: &mut Cx<S>, l: &str, a: S, b: S) {
    cx.near(l, a, b, 1e-11)
}
fn number<S: Sc>(cx: &mut Cx<S>, n: &str) -> S {
    cx.var_in(n, -1000.0, 1000.0)
}

/// Bodies keep their order, names, parents and placements.
fn bodies<S: Model>(cx: &mut Cx<S>) {
    let (a, b, c): ([S; 3], [S; 3], [S; 3]) = (cx.vars("a"), cx.vars("b"), cx.vars("c"));
    let (qa, ra) = any_turn(cx, "qa", 1);
    let k = cx.choose(3) + 1;
    let (qb, rb) = any_turn(cx, "qb", k);
    let xml = format!(
        r#"<mujoco model="m"><worldbody><geom size="1"/>
        <body name="base" pos="{}" quat="{qa}">{SOLID}
          <body name="left" pos="{}">{SOLID}<body name="tip" quat="{qb}">{SOLID}</body></body>
          <body name="right" quat="{qb}" pos="{}">{SOLID}</body></body>
        <worldbody><body name="other">{SOLID}</body></worldbody>
        </worldbody><visual/><actuator/><visual/></mujoco>"#,
        txt(&a),
        txt(&b),
        txt(&c)
    );
    let by = if cx.choose(2) == 0 { By::Format } else { By::Root };
    let m = S::mjcf(&xml, by).expect("loads");
    let names: Vec<&str> = m.bodies.iter().map(|b| b.name.as_str()).collect();
    cx.holds("names", names == ["base", "left", "tip", "right", "other"]);
    cx.holds("parents", m.bodies.iter().map(|b| b.parent).collect::<Vec<_>>() == [None, Some(0), Some(1), Some(0), None]);
    cx.holds("model", m.name == "m" && !m.urdf && !m.floating && m.movable == 0);
    cx.holds("left out", m.ignored == ["actuator", "visual"]);
    cx.holds("no joints", m.bodies.iter().all(|b| b.joint.is_none()));
    let o = [S::ZERO; 3];
    placed(cx, "base", m.bodies[0].pose, &ra, &a);
    placed(cx, "left", m.bodies[1].pose, &id(), &b);
    placed(cx, "tip", m.bodies[2].pose, &rb, &o);
    placed(cx, "right", m.bodies[3].pose, &rb, &c);
    placed(cx, "other", m.bodies[4].pose, &id(), &o);
}
/// Angles are degrees unless the compiler says radians; lengths are never converted.
fn joints<S: Model>(cx: &mut Cx<S>) {
    let radians = cx.choose(3);
    let slide = cx.choose(2) == 1;
    let auto = cx.choose(3);
    let limited = cx.choose(4);
    let ranged = cx.choose(2) == 1;
    let comp = [r#"angle="degree""#, r#"angle="radian""#, ""][radians];
    let autos = [r#"autolimits="true""#, r#"autolimits="false""#, ""][auto];
    let lim = [r#"limited="true""#, r#"limited="false""#, r#"limited="auto""#, ""][limited];
    let (lo, hi) = (number(cx, "lo"), number(cx, "hi"));
    let v: [S; 6] = std::array::from_fn(|i| number(cx, &format!("v{i}")));
    let anchor: [S; 3] = cx.vars("p");
    let d = dirs::<S>(0);
    let len = cx.var_open("len", 0.01, 100.0);
    let range = if ranged { format!(r#"range="{}""#, txt(&[lo, hi])) } else { String::new() };
    let xml = format!(
        r#"<mujoco><compiler {comp} {autos}/><worldbody><body name="b">{SOLID}
        <joint name="j" type="{}" axis="{}" pos="{}" {range} {lim} ref="{}" armature="{}" damping="{}" frictionloss="{}" springref="{}" stiffness="{}"/>
        </body></worldbody></mujoco>"#,
        if slide { "slide" } else { "hinge" },
        txt(&scale(&d, len)),
        txt(&anchor),
        v[0].text(),
        v[1].text(),
        v[2].text(),
        v[3].text(),
        v[4].text(),
        v[5].text()
    );
    let got = S::mjcf(&xml, By::Format);
    // limited: stated, or (auto) by a range when the compiler infers limits
    let want = match limited {
        0 => Some(true),
        1 => Some(false),
        _ if !ranged => Some(false),
        _ if auto == 1 => None,
        _ => Some(true),
    };
    if want.is_none() || (want == Some(true) && !ranged) {
        cx.holds("limits need a range", got.err().as_deref() == Some(r#"LimitsNeedRange { body: "b" }"#));
        return;
    }
    let m = got.expect("loads");
    let u = |x: S| if radians == 1 || slide { x } else { degrees(x) };
    let j = m.bodies[0].joint.clone().expect("joint");
    cx.holds("name", j.name == "j" && m.movable == 1 && j.mimic.is_none());
    let kind = match (slide, want) {
        (true, _) => JointKind::Prismatic,
        (false, Some(true)) => JointKind::Revolute,
        _ => JointKind::Continuous,
    };
    cx.holds("kind", j.kind == kind);
    cx.eqs("axis", &j.axis, &d);
    cx.eqs("anchor", &j.anchor, &anchor);
    match (want, j.limits) {
        (Some(true), Some((a, b))) => {
            angle(cx, "lower", a, u(lo));
            angle(cx, "upper", b, u(hi));
        }
        (Some(false), None) => {}
        _ => cx.holds("limited", false),
    }
    angle(cx, "reference", j.zero, u(v[0]));
    cx.eq("armature", j.armature, v[1]);
    cx.eq("damping", j.damping, v[2]);
    cx.eq("friction", j.friction, v[3]);
    angle(cx, "spring reference", j.spring, u(v[4]));
    cx.eq("stiffness", j.stiffness, v[5]);
}
/// What a joint is when the file says nothing of it.
fn plain_joint<S: Model>(cx: &mut Cx<S>) {
    let a: [S; 3] = cx.vars("a");
    let xml = format!(r#"<mujoco><worldbody><body pos="{}">{SOLID}<joint/></body></worldbody></mujoco>"#, txt(&a));
    let m = S::mjcf(&xml, By::Format).expect("loads");
    cx.eqs("at", &m.bodies[0].pose.translation().into_array(), &a);
    let j = m.bodies[0].joint.clone().expect("joint");
    cx.holds("kind", j.kind == JointKind::Continuous && j.limits.is_none());
    cx.eqs("axis", &j.axis, &[S::ZERO, S::ZERO, S::ONE]);
    cx.eqs("rest", &[j.zero, j.armature, j.damping, j.friction, j.spring, j.stiffness, j.anchor[0], j.anchor[1], j.anchor[2]], &[S::ZERO; 9]);
}
/// Own attributes before the named class, that before the body's childclass, that before the
/// unnamed block; each level set or not.
fn precedence<S: Model>(cx: &mut Cx<S>) {
    let set: Vec<bool> = (0..4).map(|_| cx.choose(2) == 1).collect();
    let which = cx.choose(9);
    let inner = cx.choose(2) == 1;
    let v: Vec<S> = (0..4).map(|i| cx.var_open(&format!("v{i}"), 0.01, 1000.0)).collect();
    let angular = which == 0 || which == 5 || which == 8;
    let attr = |x: S| match which {
        0 => format!(r#"ref="{}""#, x.text()),
        1 => format!(r#"damping="{}""#, x.text()),
        2 => format!(r#"armature="{}""#, x.text()),
        3 => format!(r#"frictionloss="{}""#, x.text()),
        4 => format!(r#"stiffness="{}""#, x.text()),
        5 => format!(r#"range="0 {}""#, x.text()),
        6 => format!(r#"pos="0 {} 0""#, x.text()),
        7 => format!(r#"axis="{} 0 0""#, x.text()),
        _ => format!(r#"springref="{}""#, x.text()),
    };
    let at = |i: usize| if set[i] { attr(v[i]) } else { String::new() };
    // the named classes are nested, so what the unnamed block sets reaches them too
    let xml = format!(
        r#"<mujoco><default><joint {}/><default class="near"><joint {}/></default><default class="own"><joint {}/></default><default class="far"><joint damping="7" ref="7"/></default></default>
        <worldbody><body name="a" childclass="{}">{SOLID}<body name="b" {}>{SOLID}<joint class="own" {}/></body></body></worldbody></mujoco>"#,
        at(0),
        at(1),
        at(2),
        if inner { "far" } else { "near" },
        if inner { r#"childclass="near""# } else { "" },
        at(3)
    );
    let m = S::mjcf(&xml, By::Format).expect("loads");
    let j = m.named("b").joint.clone().expect("joint");
    // a class inside the unnamed block carries that block's value, so `own` beats `near` with it
    let stated = if set[3] {
        Some(v[3])
    } else if set[2] {
        Some(v[2])
    } else if set[0] {
        Some(v[0])
    } else if set[1] {
        Some(v[1])
    } else {
        None
    };
    let x = stated.unwrap_or(S::ZERO);
    let x = if angular { degrees(x) } else { x };
    match which {
        0 => angle(cx, "ref", j.zero, x),
        1 => cx.eq("damping", j.damping, x),
        2 => cx.eq("armature", j.armature, x),
        3 => cx.eq("friction", j.friction, x),
        4 => cx.eq("stiffness", j.stiffness, x),
        5 => match (stated, j.limits) {
            (None, None) => {}
            (Some(_), Some((a, b))) => {
                cx.eq("lower", a, S::ZERO);
                angle(cx, "upper", b, x);
            }
            _ => cx.holds("limits", false),
        },
        6 => cx.eqs("pos", &j.anchor, &[S::ZERO, x, S::ZERO]),
        7 => cx.eqs("axis", &j.axis, &if stated.is_some() { [S::ONE, S::ZERO, S::ZERO] } else { [S::ZERO, S::ZERO, S::ONE] }),
        _ => angle(cx, "springref", j.spring, x),
    }
}
/// The same for a shape, with classes written side by side.
fn geom_precedence<S: Model>(cx: &mut Cx<S>) {
    let set: Vec<bool> = (0..4).map(|_| cx.choose(2) == 1).collect();
    let which = cx.choose(4);
    let v: Vec<S> = (0..4).map(|i| cx.pos(&format!("v{i}"))).collect();
    let attr = |x: S| match which {
        0 => format!(r#"mass="{}""#, x.text()),
        1 => format!(r#"density="{}""#, x.text()),
        2 => format!(r#"size="{}""#, x.text()),
        _ => format!(r#"pos="{} 0 0""#, x.text()),
    };
    let at = |i: usize| if set[i] { attr(v[i]) } else { String::new() };
    let rest = if which == 2 { "" } else { r#"size="2""# };
    let nested = cx.choose(2) == 1;
    let classes = if nested {
        format!(r#"<default><geom {}/></default><default class="near"><geom {}/><default class="own"><geom {}/></default></default>"#, at(0), at(1), at(2))
    } else {
        format!(r#"<default><geom {}/></default><default class="near"><geom {}/></default><default class="own"><geom {}/></default>"#, at(0), at(1), at(2))
    };
    let xml = format!(
        r#"<mujoco>{classes}<worldbody><body name="a" childclass="near"><geom class="own" {rest} {}/></body></worldbody></mujoco>"#,
        at(3)
    );
    let got = S::mjcf(&xml, By::Format);
    let stated = [3, 2, 1, 0].iter().find(|i| set[**i]).map(|i| v[*i]);
    if which == 2 && stated.is_none() {
        cx.holds("no size", got.err().is_some_and(|e| e.starts_with("BadAttribute")));
        return;
    }
    let b = got.expect("loads").bodies[0].inertia.expect("inertia");
    let r = if which == 2 { stated.unwrap() } else { S::TWO };
    let ball = S::rat(4, 3) * S::PI * r * r * r;
    let mass = match (which, stated) {
        (0, Some(m)) => m,
        (1, Some(d)) => d * ball,
        _ => S::from_usize(1000) * ball,
    };
    cx.eq("mass", b.mass(), mass);
    let at = if which == 3 { stated.unwrap_or(S::ZERO) } else { S::ZERO };
    cx.eqs("centre", &b.center_of_mass().into_array(), &[at, S::ZERO, S::ZERO]);
}
/// Mass, centre and tensor as the file states them, in body axes.
fn stated<S: Model>(cx: &mut Cx<S>) {
    let mass = cx.pos("m");
    let c: [S; 3] = cx.vars("c");
    let full = cx.choose(2) == 1;
    let k = cx.choose(4);
    let (q, r) = any_turn(cx, "q", k);
    let d: [S; 3] = std::array::from_fn(|i| cx.var_open(&format!("d{i}"), 0.1, 1e6));
    let o: [S; 3] = std::array::from_fn(|i| cx.var_open(&format!("o{i}"), -0.1, 0.1));
    let (body, want) = if full {
        (
            format!(r#"fullinertia="{} {}""#, txt(&d), txt(&o)),
            [[d[0], o[0], o[1]], [o[0], d[1], o[2]], [o[1], o[2], d[2]]],
        )
    } else {
        (format!(r#"diaginertia="{}""#, txt(&d)), mm(&mm(&r, &dg(&d)), &tr(&r)))
    };
    let from = ["", r#"inertiafromgeom="auto""#, r#"inertiafromgeom="false""#][cx.choose(3)];
    // the shape is not asked when the file states the inertia
    let xml = format!(
        r#"<mujoco><compiler {from}/><worldbody><body><geom type="mesh"/><inertial pos="{}" quat="{q}" mass="{}" {body}/></body></worldbody></mujoco>"#,
        txt(&c),
        mass.text()
    );
    let b = S::mjcf(&xml, By::Format).expect("loads").bodies[0].inertia.expect("inertia");
    cx.eq("mass", b.mass(), mass);
    cx.eqs("centre", &b.center_of_mass().into_array(), &c);
    meq(cx, "tensor", &rows(&b.rotational_inertia()), &want);
}
/// Volume and principal second moments about the centre, from the textbook tensors.
fn solid<S: Sc>(shape: &str, a: S, b: S, c: S) -> (S, Box<dyn Fn(S) -> [S; 3]>) {
    let f = |n: i64, d: i64| S::rat(n, d);
    match shape {
        "ellipsoid" => (f(4, 3) * S::PI * a * b * c, Box::new(move |m| [m * (b * b + c * c) * S::rat(1, 5), m * (a * a + c * c) * S::rat(1, 5), m * (a * a + b * b) * S::rat(1, 5)])),
        "box" => (f(8, 1) * a * b * c, Box::new(move |m| [m * (b * b + c * c) * S::rat(1, 3), m * (a * a + c * c) * S::rat(1, 3), m * (a * a + b * b) * S::rat(1, 3)])),
        "cylinder" => {
            let l = S::TWO * c;
            (S::PI * a * a * l, Box::new(move |m| [m * (S::THREE * a * a + l * l) * S::rat(1, 12), m * (S::THREE * a * a + l * l) * S::rat(1, 12), m * a * a * S::rat(1, 2)]))
        }
        // a cylinder and two half balls, each of the same density
        _ => {
            let l = S::TWO * c;
            let (vc, vs) = (S::PI * a * a * l, f(4, 3) * S::PI * a * a * a);
            let v = vc + vs;
            (
                v,
                Box::new(move |m| {
                    let (mc, ms) = (m * vc / v, m * vs / v);
                    let across = mc * (l * l * S::rat(1, 12) + a * a * S::rat(1, 4)) + ms * (S::rat(2, 5) * a * a + l * l * S::rat(1, 4) + S::rat(3, 8) * l * a);
                    [across, across, mc * a * a * S::rat(1, 2) + ms * S::rat(2, 5) * a * a]
                }),
            )
        }
    }
}
/// One shape: mass from volume and density or as stated, and its tensor turned into body axes.
fn shapes<S: Model>(cx: &mut Cx<S>) {
    let which = cx.choose(5);
    let shape = ["sphere", "ellipsoid", "box", "cylinder", "capsule"][which];
    let [a, b, c]: [S; 3] = std::array::from_fn(|i| cx.pos(&format!("s{i}")));
    let weight = cx.choose(3);
    let w = cx.pos("w");
    let k = cx.choose(4);
    let (q, r) = any_turn(cx, "q", k);
    let p: [S; 3] = cx.vars("p");
    let size = match which {
        0 => txt(&[a]),
        1 | 2 => txt(&[a, b, c]),
        _ => txt(&[a, c]),
    };
    let ws = [String::new(), format!(r#"density="{}""#, w.text()), format!(r#"mass="{}" density="9""#, w.text())][weight].clone();
    let ty = if which == 0 && weight == 0 { String::new() } else { format!(r#"type="{shape}""#) };
    let xml = format!(r#"<mujoco><worldbody><body><geom {ty} size="{size}" {ws} pos="{}" quat="{q}"/></body></worldbody></mujoco>"#, txt(&p));
    let (vol, pr) = match which {
        0 => solid("ellipsoid", a, a, a),
        _ => solid(shape, a, b, c),
    };
    let mass = match weight {
        0 => S::from_usize(1000) * vol,
        1 => w * vol,
        _ => w,
    };
    let g = S::mjcf(&xml, By::Format).expect("loads").bodies[0].inertia.expect("inertia");
    cx.eq("mass", g.mass(), mass);
    cx.eqs("centre", &g.center_of_mass().into_array(), &p);
    let want = mm(&mm(&r, &dg(&pr(mass))), &tr(&r));
    meq(cx, "tensor", &rows(&g.rotational_inertia()), &want);
}
/// A shape whose axis runs between two points.
fn between<S: Model>(cx: &mut Cx<S>) {
    let shape = ["cylinder", "capsule"][cx.choose(2)];
    let k = cx.choose(6);
    let d = dirs::<S>(k);
    let l = cx.pos("l");
    let a: [S; 3] = cx.vars("a");
    let b = add(&a, &scale(&d, l));
    let (r, w) = (cx.pos("r"), cx.pos("w"));
    // a length in `size` and a `quat` say nothing more
    let extra = if cx.choose(2) == 1 { ("5", r#"quat="0 1 1 0""#) } else { ("", "") };
    let xml = format!(
        r#"<mujoco><worldbody><body><geom type="{shape}" fromto="{} {}" size="{} {}" mass="{}" {}/></body></worldbody></mujoco>"#,
        txt(&a),
        txt(&b),
        r.text(),
        extra.0,
        w.text(),
        extra.1
    );
    let g = S::mjcf(&xml, By::Format).expect("loads").bodies[0].inertia.expect("inertia");
    let (_, pr) = solid(shape, r, r, l * S::rat(1, 2));
    let pr = pr(w);
    cx.eq("mass", g.mass(), w);
    cx.eqs("centre", &g.center_of_mass().into_array(), &scale(&add(&a, &b), S::rat(1, 2)));
    // symmetric about the axis: across (I - dd') + along dd'
    let want: Rows<S, 3, 3> = std::array::from_fn(|i| {
        std::array::from_fn(|j| {
            let one = if i == j { S::ONE } else { S::ZERO };
            pr[0] * (one - d[i] * d[j]) + pr[2] * d[i] * d[j]
        })
    });
    meq(cx, "tensor", &rows(&g.rotational_inertia()), &want);
}
/// Several shapes: masses add, the centre is their mean, and the tensor about any point adds.
fn several<S: Model>(cx: &mut Cx<S>) {
    let m: [S; 3] = std::array::from_fn(|i| cx.pos(&format!("m{i}")));
    let n = cx.choose(2) + 2;
    let p: Vec<[S; 3]> = (0..n).map(|i| cx.vars(&format!("p{i}_"))).collect();
    let r = S::rat(1, 2);
    let mut geoms = String::new();
    for i in 0..n {
        geoms += &format!(r#"<geom size="{}" mass="{}" pos="{}"/>"#, r.text(), m[i].text(), txt(&p[i]));
        // without mass: neither read nor counted
        if i == 0 {
            geoms += r#"<geom type="mesh" mass="0"/><geom type="box" size="1 1 1" mass="0" pos="4 4 4"/>"#;
        }
    }
    let from = ["", r#"inertiafromgeom="true""#][cx.choose(2)];
    let other = if from.is_empty() { String::new() } else { r#"<inertial mass="50" diaginertia="1 2 3"/>"#.into() };
    let xml = format!(r#"<mujoco><compiler {from}/><worldbody><body>{other}{geoms}</body></worldbody></mujoco>"#);
    let g = S::mjcf(&xml, By::Format).expect("loads").bodies[0].inertia.expect("inertia");
    let total = (0..n).fold(S::ZERO, |s, i| s + m[i]);
    cx.eq("mass", g.mass(), total);
    let c = g.center_of_mass().into_array();
    for k in 0..3 {
        cx.eq("first moment", c[k] * total, (0..n).fold(S::ZERO, |s, i| s + m[i] * p[i][k]));
    }
    // second moments about the body's origin
    let about = |t: &Rows<S, 3, 3>, m: S, p: &[S; 3]| -> Rows<S, 3, 3> {
        let d2 = dot(p, p);
        std::array::from_fn(|i| std::array::from_fn(|j| t[i][j] + m * ((if i == j { d2 } else { S::ZERO }) - p[i] * p[j])))
    };
    let mut want = [[S::ZERO; 3]; 3];
    for i in 0..n {
        let own = dg(&[S::rat(2, 5) * m[i] * r * r; 3]);
        let x = about(&own, m[i], &p[i]);
        want = std::array::from_fn(|a| std::array::from_fn(|b| want[a][b] + x[a][b]));
    }
    meq(cx, "tensor", &about(&rows(&g.rotational_inertia()), total, &c), &want);
}
/// Joint motion of a hinge or slide with its anchor and reference, as a rigid map.
pub type Aff<S> = (Rows<S, 3, 3>, [S; 3]);
pub fn then<S: Sc>(a: &Aff<S>, b: &Aff<S>) -> Aff<S> {
    (mm(&a.0, &b.0), add(&mv(&a.0, &b.1), &a.1))
}
pub fn about_axis<S: Sc>(d: &[S; 3], x: S) -> Rows<S, 3, 3> {
    let (c, s) = (x.cos(), x.sin());
    let k = skew(d);
    std::array::from_fn(|i| {
        std::array::from_fn(|j| {
            let one = if i == j { S::ONE } else { S::ZERO };
            c * one + s * k[i][j] + (S::ONE - c) * d[i] * d[j]
        })
    })
}
/// A hinge displacement of either sign, outside the series about zero.
pub fn swing<S: Sc>(cx: &mut Cx<S>, n: &str) -> S {
    let x = cx.var_open(n, 0.1, 2.5);
    if cx.choose(2) == 1 { -x } else { x }
}
/// The tree moves as the file says, whole or as the chain to one body.
fn tree<S: Model>(cx: &mut Cx<S>) {
    let (a, b, c): ([S; 3], [S; 3], [S; 3]) = (cx.vars("a"), cx.vars("b"), cx.vars("c"));
    let anchor: [S; 3] = cx.vars("p");
    let (x, q2) = (swing(cx, "x"), cx.var("q2"));
    let (ref1, ref2) = (cx.var_open("ref1", -3.0, 3.0), cx.var("ref2"));
    let q1 = ref1 + x;
    let (qa, ra) = any_turn(cx, "qa", 2);
    let d = dirs::<S>(1);
    let xml = format!(
        r#"<mujoco><compiler angle="radian"/><worldbody><body name="base" pos="{}" quat="{qa}">{SOLID}
          <body name="side" pos="1 2 3">{SOLID}</body>
          <body name="arm" pos="{}">{SOLID}<joint axis="{}" pos="{}" ref="{}"/>
            <body name="hand" pos="{}">{SOLID}<joint type="slide" axis="0 2 0" pos="{}" ref="{}"/></body>
          </body></body></worldbody></mujoco>"#,
        txt(&a),
        txt(&b),
        txt(&d),
        txt(&anchor),
        ref1.text(),
        txt(&c),
        txt(&anchor),
        ref2.text()
    );
    let base: Aff<S> = (ra, a);
    let r = about_axis(&d, x);
    // turn about the anchor
    let hinge: Aff<S> = (r, sub(&anchor, &mv(&r, &anchor)));
    let arm = then(&then(&base, &(id(), b)), &hinge);
    let slide: Aff<S> = (id(), [S::ZERO, q2 - ref2, S::ZERO]);
    let hand = then(&then(&arm, &(id(), c)), &slide);
    let side = then(&base, &(id(), [S::ONE, S::TWO, S::THREE]));
    let want: Vec<(&str, Aff<S>)> = match cx.choose(3) {
        0 => {
            let p = S::poses::<4, 4>(&xml, None, [S::ONE, S::TWO, q1, q2]).expect("tree");
            cx.holds("all", p.len() == 4);
            for (i, (n, w)) in [("base", &base), ("side", &side), ("arm", &arm), ("hand", &hand)].into_iter().enumerate() {
                placed(cx, n, p[i], &w.0, &w.1);
            }
            return;
        }
        1 => vec![("base", base), ("arm", arm), ("hand", hand)],
        _ => vec![("base", base), ("side", side)],
    };
    let tip = want.last().unwrap().0;
    let p = S::poses::<4, 3>(&xml, Some(tip), [S::ONE, q1, q2]).expect("chain");
    cx.holds("the chain alone", p.len() == want.len());
    for (i, (n, w)) in want.iter().enumerate() {
        placed(cx, n, p[i], &w.0, &w.1);
    }
    let path = S::path_to(&xml, tip).expect("path");
    cx.holds("path", path == if tip == "hand" { vec![0, 2, 3] } else { vec![0, 1] });
    cx.holds("nobody", S::path_to(&xml, "nobody").err().as_deref() == Some(r#"UnknownBody { name: "nobody" }"#));
    cx.holds("no room", S::poses::<3, 4>(&xml, None, [S::ONE, S::TWO, q1, q2]).err().as_deref() == Some("TreeCapacityExceeded { needed: 4, capacity: 3 }"));
}
/// Limits and losses reach the tree with the joint.
fn tree_settings<S: Model>(cx: &mut Cx<S>) {
    let v: [S; 3] = std::array::from_fn(|i| cx.nonneg(&format!("v{i}")));
    let lo = cx.var_open("lo", -90.0, 0.0);
    let hi = cx.var_open("hi", 0.0, 90.0);
    let slide = cx.choose(2) == 1;
    let xml = format!(
        r#"<mujoco><worldbody><body name="b">{SOLID}<joint type="{}" range="{}" armature="{}" damping="{}" frictionloss="{}"/></body></worldbody></mujoco>"#,
        if slide { "slide" } else { "hinge" },
        txt(&[lo, hi]),
        v[0].text(),
        v[1].text(),
        v[2].text()
    );
    let j = S::tree_joints::<1, 1>(&xml).expect("tree");
    let u = |x: S| if slide { x } else { degrees(x) };
    let (a, b) = j[0].0.expect("limits");
    angle(cx, "lower", a, u(lo));
    angle(cx, "upper", b, u(hi));
    cx.eqs("losses", &j[0].1, &v);
}
/// A free base: the reading is the pose in the world, whatever the file placed it at.
fn floating<S: Model>(cx: &mut Cx<S>) {
    let a: [S; 3] = cx.vars("a");
    let form = ["<freejoint/>", r#"<joint type="free" name="f"/>"#][cx.choose(2)];
    let xml = format!(r#"<mujoco><worldbody><body name="base" pos="{}">{SOLID}{form}<body name="arm" pos="{}">{SOLID}<joint/></body></body></worldbody></mujoco>"#, txt(&a), txt(&a));
    let m = S::mjcf(&xml, By::Root).expect("loads");
    cx.holds("floats", m.floating && m.movable == 2);
    cx.holds("kind", m.bodies[0].joint.as_ref().is_some_and(|j| j.kind == JointKind::Floating));
    cx.eqs("at", &m.bodies[0].pose.translation().into_array(), &a);
    let t: [S; 3] = cx.vars("t");
    let q = turn::<S>(3);
    let p = S::poses::<2, 8>(&xml, None, [t[0], t[1], t[2], q[0], q[1], q[2], q[3], S::ZERO]).expect("tree");
    placed(cx, "base", p[0], &rotm(&q), &t);
    placed(cx, "arm", p[1], &rotm(&q), &add(&t, &mv(&rotm(&q), &a)));
}
/// Included files stand where they are included, found next to the file that names them.
fn included<S: Model>(cx: &mut Cx<S>) {
    let (a, b, c): ([S; 3], [S; 3], [S; 3]) = (cx.vars("a"), cx.vars("b"), cx.vars("c"));
    let d = cx.var_open("d", 0.01, 1000.0);
    let body = |n: &str, p: &[S; 3], inner: &str| format!(r#"<body name="{n}" pos="{}">{SOLID}{inner}</body>"#, txt(p));
    let main = format!(
        r#"<mujoco><include file="set.xml"/><worldbody>{}<include file="sub/one.xml"/>{}</worldbody></mujoco>"#,
        body("first", &a, r#"<include file="sub/deep.xml"/>"#),
        body("last", &c, "<joint/>")
    );
    let dir = Dir::new(&[
        ("main.xml", main),
        ("set.xml", format!(r#"<mujocoinclude><compiler angle="radian"/><default><joint ref="{}"/></default></mujocoinclude>"#, d.text())),
        ("sub/one.xml", format!(r#"<x>{}<!-- no --><include file="two.xml"/>{}</x>"#, body("one", &b, ""), body("four", &b, ""))),
        ("sub/two.xml", format!("<x>{}{}</x>", body("two", &c, r#"<include file="deep.xml"/>"#), body("three", &a, ""))),
        ("sub/deep.xml", format!("<x>{}</x>", body("deep", &b, "<joint/>"))),
        ("two.xml", format!("<x>{}</x>", body("wrong", &c, ""))),
        ("loop.xml", r#"<mujoco><include file="loop.xml"/></mujoco>"#.into()),
        ("lost.xml", r#"<mujoco><worldbody><include file="absent.xml"/></worldbody></mujoco>"#.into()),
        ("bare.xml", "<mujoco><include/></mujoco>".into()),
        ("r.URDF", format!(r#"<robot><link name="x"/><link name="y"/><joint name="j" type="fixed"><origin xyz="{}"/><parent link="x"/><child link="y"/></joint></robot>"#, txt(&a))),
    ]);
    match cx.choose(5) {
        0 => {
            let m = S::mjcf(&dir.path("main.xml"), By::Path).expect("loads");
            let names: Vec<&str> = m.bodies.iter().map(|b| b.name.as_str()).collect();
            cx.holds("order", names == ["first", "deep", "one", "two", "deep", "three", "four", "last"]);
            cx.holds("parents", m.bodies.iter().map(|b| b.parent).collect::<Vec<_>>() == [None, Some(0), None, None, Some(3), None, None, None]);
            for (i, p) in [a, b, b, c, b, a, b, c].iter().enumerate() {
                cx.eqs("at", &m.bodies[i].pose.translation().into_array(), p);
            }
            for i in [1, 4, 7] {
                cx.eq("radians, by the included defaults", m.bodies[i].joint.as_ref().expect("joint").zero, d);
            }
        }
        1 => cx.holds("goes round", S::mjcf(&dir.path("loop.xml"), By::Path).err().is_some_and(|e| e.starts_with("IncludeTooDeep"))),
        2 => cx.holds("absent", S::mjcf(&dir.path("lost.xml"), By::Path).err().is_some_and(|e| e.starts_with("FileRead"))),
        3 => cx.holds("unnamed", S::mjcf(&dir.path("bare.xml"), By::Path).err().as_deref() == Some(r#"BadAttribute { element: "include", attribute: "file", value: "" }"#)),
        _ => {
            let m = S::urdf(&dir.path("r.URDF"), By::Path).expect("loads");
            cx.holds("by extension", m.urdf);
            cx.eqs("at", &m.named("y").pose.translation().into_array(), &a);
        }
    }
}
/// What cannot be read is refused by name.
fn refused<S: Model>(cx: &mut Cx<S>) {
    let x = cx.pos("x");
    let t = x.text();
    let body = |inner: &str| format!(r#"<mujoco><worldbody><body name="b">{inner}</body></worldbody></mujoco>"#);
    let bad = |e: &str, a: &str, v: &str| format!("BadAttribute {{ element: {e:?}, attribute: {a:?}, value: {v:?} }}");
    let z3 = "0 0 0";
    let cases: Vec<(String, String)> = vec![
        (body(""), r#"NoInertiaSource { body: "b" }"#.into()),
        (body(r#"<geom size="1" mass="0"/>"#), r#"NoInertiaSource { body: "b" }"#.into()),
        (format!(r#"<mujoco><compiler inertiafromgeom="false"/><worldbody><body name="b"><geom size="{t}"/></body></worldbody></mujoco>"#), r#"NoInertiaSource { body: "b" }"#.into()),
        (format!(r#"<mujoco><compiler inertiafromgeom="true"/><worldbody><body name="b">{SOLID}</body></worldbody></mujoco>"#), r#"NoInertiaSource { body: "b" }"#.into()),
        ("<mujoco/>".into(), "MissingWorldbody".into()),
        ("<mujoco><worldbody/></mujoco>".into(), "NoBodies".into()),
        (body(&format!("{SOLID}<joint/><joint type=\"slide\"/>")), r#"MultipleJoints { body: "b", count: 2 }"#.into()),
        (body(&format!("{SOLID}<freejoint/><joint/>")), r#"MultipleJoints { body: "b", count: 2 }"#.into()),
        (body(&format!("{SOLID}<joint type=\"ball\"/>")), r#"UnsupportedJoint { body: "b", joint_type: "ball" }"#.into()),
        (body(&format!(r#"{SOLID}<body name="c">{SOLID}<freejoint/></body>"#)), r#"FreeJointNotAtRoot { body: "c" }"#.into()),
        (body(&format!(r#"{SOLID}<body name="c">{SOLID}<joint type="free"/></body>"#)), r#"FreeJointNotAtRoot { body: "c" }"#.into()),
        (body(&format!(r#"<geom type="mesh" mass="{t}"/>"#)), r#"MeshInertiaUnsupported { body: "b" }"#.into()),
        (body(&format!(r#"<geom type="plane" size="1 1 1" mass="{t}"/>"#)), r#"UnsupportedGeomType { body: "b", geom_type: "plane" }"#.into()),
        (body(&format!(r#"<geom type="box" fromto="{z3} {t} 0 0" size="1" mass="1"/>"#)), r#"UnsupportedFromTo { body: "b", geom_type: "box" }"#.into()),
        (body(&format!(r#"<geom fromto="{z3} {t} 0 0" size="1" mass="1"/>"#)), r#"UnsupportedFromTo { body: "b", geom_type: "sphere" }"#.into()),
        (body(&format!(r#"<geom type="capsule" fromto="{z3} {t} 0 0" pos="{z3}" size="1"/>"#)), r#"ConflictingPlacement { body: "b" }"#.into()),
        (body(&format!(r#"<geom type="capsule" fromto="{z3} {z3}" size="{t}"/>"#)), bad("geom", "fromto", "0 0 0 0 0 0")),
        (body(&format!(r#"<geom type="box" size="{t} 1"/>"#)), bad("geom", "size", &format!("{t} 1"))),
        (body(&format!(r#"<geom type="cylinder" size="{t}"/>"#)), bad("geom", "size", &t)),
        (body(&format!(r#"<geom type="sphere" size="{t} 1"/>"#)), bad("geom", "size", &format!("{t} 1"))),
        (body(&format!(r#"<geom size="{t}" quat="0 0 0 0"/>"#)), bad("geom", "quat", "0 0 0 0")),
        (body(&format!(r#"{SOLID}<joint axis="{z3}"/>"#)), bad("joint", "axis", z3)),
        (body(&format!(r#"{SOLID}<joint damping="{t} {t}"/>"#)), bad("joint", "damping", &format!("{t} {t}"))),
        (body(&format!(r#"{SOLID}<joint damping="x{t}"/>"#)), bad("joint", "damping", &format!("x{t}"))),
        (body(&format!(r#"{SOLID}<joint limited="maybe"/>"#)), bad("joint", "limited", "maybe")),
        (body(&format!(r#"<inertial mass="{t}" diaginertia="1 1"/>"#)), bad("inertial", "diaginertia", "1 1")),
        (body(r#"<inertial diaginertia="1 1 1"/>"#), bad("inertial", "mass", "")),
        (body(&format!(r#"<inertial mass="{t}"/>"#)), bad("inertial", "fullinertia", "")),
        (body(&format!(r#"<inertial mass="{t}" diaginertia="1 1 1" fullinertia="1 1 1 0 0 0"/>"#)), bad("inertial", "fullinertia", "1 1 1 0 0 0")),
        (body(&format!(r#"<inertial mass="{}" diaginertia="1 1 1"/>"#, (-x).text())), "Inertia(NonPositiveMass)".into()),
        (body(&format!(r#"<inertial mass="0" diaginertia="1 {t} 1"/>"#)), "Inertia(NonPositiveMass)".into()),
        (body(&format!(r#"<inertial mass="{t}" diaginertia="1 0 1"/>"#)), "Inertia(NonPositiveInertia)".into()),
        (body(&format!(r#"{SOLID}<joint class="ghost"/>"#)), r#"UndefinedClass { name: "ghost" }"#.into()),
        (format!(r#"<mujoco><worldbody><body childclass="ghost"><geom size="{t}"/></body></worldbody></mujoco>"#), r#"UndefinedClass { name: "ghost" }"#.into()),
        (format!(r#"<mujoco><worldbody><body name="b" euler="0 0 {t}">{SOLID}</body></worldbody></mujoco>"#), r#"UnsupportedOrientation { element: "body", attribute: "euler" }"#.into()),
        (body(&format!(r#"<geom size="1" axisangle="0 0 1 {t}"/>"#)), r#"UnsupportedOrientation { element: "geom", attribute: "axisangle" }"#.into()),
        (body(&format!(r#"<inertial mass="1" diaginertia="1 1 1" zaxis="0 0 {t}"/>"#)), r#"UnsupportedOrientation { element: "inertial", attribute: "zaxis" }"#.into()),
        (body(&format!(r#"<geom size="1" xyaxes="1 0 0 0 {t} 0"/>"#)), r#"UnsupportedOrientation { element: "geom", attribute: "xyaxes" }"#.into()),
        (format!(r#"<mujoco><compiler angle="grad"/><worldbody><body>{SOLID}</body></worldbody></mujoco>"#), bad("compiler", "angle", "grad")),
        (format!(r#"<mujoco><include file="a.xml"/><worldbody><body>{SOLID}</body></worldbody></mujoco>"#), "IncludeNeedsFile".into()),
    ];
    let i = cx.choose(cases.len() as u32);
    let (xml, want) = &cases[i];
    let got = S::mjcf(xml, By::Format).err();
    cx.holds(&format!("refused {i} {want}"), got.as_deref() == Some(want.as_str()));
}
/// Heavy bodies in any facing: rounding in the turned tensor never makes it unreadable.
fn heavy<S: Model>(cx: &mut Cx<S>) {
    let f: [f64; 4] = [[0.9, 0.1, 0.03, 0.4], [0.9, 0.05, 0.03, 0.1], [2.0, 1.0, 0.0, -2.0], [0.3, 0.9, -0.2, 0.1], [1.0, 0.5, 0.25, 0.7], [0.2, -0.6, 0.5, 0.9]][cx.choose(6)];
    let q: [S; 4] = f.map(|x| S::c(x));
    let k = S::from_usize([1, 7, 100, 1000, 100000][cx.choose(5)]);
    let [a, b, c]: [S; 3] = [[60.0, 250.0, 270.0], [600.0, 2500.0, 2700.0], [0.6, 2.5, 2.7]][cx.choose(3)].map(|x| S::c(x) * k);
    let r = rotm(&scale(&q, S::ONE / dot(&q, &q).sqrt()));
    let (xml, d) = if cx.choose(2) == 0 {
        (format!(r#"<inertial mass="1500" diaginertia="{}" quat="{}"/>"#, txt(&[a, b, c]), txt(&q)), [a, b, c])
    } else {
        // a box of these squared widths
        let w = [a, b, c].map(|x| x.sqrt());
        (format!(r#"<geom type="box" mass="3" size="{}" quat="{}"/>"#, txt(&w), txt(&q)), [b + c, a + c, a + b])
    };
    let got = S::mjcf(&format!("<mujoco><worldbody><body>{xml}</body></worldbody></mujoco>"), By::Format);
    match got {
        Ok(m) => {
            let want = mm(&mm(&r, &dg(&d)), &tr(&r));
            let t = rows(&m.bodies[0].inertia.expect("inertia").rotational_inertia());
            mnear(cx, "tensor", &t, &want, (d[0] + d[1] + d[2]) * S::c(1e-13));
        }
        Err(e) => cx.holds(&format!("loads: {e}"), false),
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C44", bodies, "mjcf::load_str, load_str, read, walk_body, top_level_bodies, ignored_sections; five bodies, positions and quaternion scales symbolic, turns rational"),
        h!("C44", joints, "read_joint, read_limits, CompilerSettings::{read, to_radians}; every combination of unit, type, limited, autolimits and range; numbers symbolic"),
        h!("C44", plain_joint, "read_joint with no attribute stated"),
        h!("C44", precedence, "DefaultTable::{build, walk, resolve}, JointDefaults::{read, overridden_by}, joint::effective; nine attributes, every choice of levels, values symbolic"),
        h!("C44", geom_precedence, "GeomDefaults::{read, overridden_by}, geometry::effective; four attributes, every choice of levels, classes side by side or nested"),
        h!("C44", stated, "stated_inertia; diagonal (turned) or full; mass, centre and moments symbolic"),
        h!("C44", shapes, "read_geom, extents, capsule; five shapes, sizes, mass or density and place symbolic, turns rational"),
        h!("C44", between, "geometry::axis, Quaternion::from_two_vectors; six directions, ends and radius symbolic"),
        h!("C44", several, "synthesized_inertia, shifted; two or three balls, masses and places symbolic"),
        h!("C44", tree, "RobotModel::{kinematic_tree, kinematic_tree_to, path_to}, build_joint, joints_and_parents, KinematicTree::forward_kinematics; hinge and slide with anchors and references, numbers symbolic; hinge displacements 0.1-2.5 of either sign", |x| {
            x.cfg.abs_fork = true;
            x.cfg.arc = true;
            x.cfg.trig_base = 4;
        }),
        h!("C44", tree_settings, "build_joint: limits and losses"),
        h!("C44", floating, "build_joint for a free base; place symbolic"),
        h!("C44", included, "load_path, document::{assemble, read, inner_source}; three levels of included files, numbers symbolic"),
        h!("C44", heavy, "stated_inertia, read_geom in double precision at 180 heavy bodies (rounded as the machine does)", |x| x.cfg.const_f64 = true),
        h!("C44", refused, "one malformed or unsupported file per documented error; 40 files"),
    ]
}
