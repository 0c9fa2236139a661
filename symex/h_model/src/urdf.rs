//! C44: URDF files.
use crate::load::*;
use crate::mjcf::{Aff, about_axis, placed, swing, then};
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::kinematics::JointKind;

/// Fixed-axis roll, pitch, yaw.
fn rpy<S: Sc>(v: &[S; 3]) -> Rows<S, 3, 3> {
    let e = |k: usize| -> [S; 3] { std::array::from_fn(|i| if i == k { S::ONE } else { S::ZERO }) };
    mm(&mm(&about_axis(&e(2), v[2]), &about_axis(&e(1), v[1])), &about_axis(&e(0), v[0]))
}
/// Which of roll, pitch and yaw turn in a case, so that few angles are open at once.
fn angles<S: Sc>(cx: &mut Cx<S>, n: &str) -> [S; 3] {
    let k = cx.choose(if cx.thorough() { 4 } else { 3 });
    std::array::from_fn(|i| {
        if k == 3 || i == k {
            cx.var_open(&format!("{n}{i}"), -3.0, 3.0)
        } else {
            S::ZERO
        }
    })
}
fn origins<S: Model>(cx: &mut Cx<S>) {
    let t: [S; 3] = cx.vars("t");
    let a = angles(cx, "a");
    let xml = format!(
        r#"<robot name="r"><link name="x"/><link name="y"/><joint name="j" type="fixed"><origin xyz="{}" rpy="{}"/><parent link="x"/><child link="y"/></joint></robot>"#,
        txt(&t),
        txt(&a)
    );
    let m = S::urdf(&xml, if cx.choose(2) == 0 { By::Format } else { By::Root }).expect("loads");
    cx.holds("model", m.name == "r" && m.urdf && !m.floating && m.movable == 0 && m.bodies.len() == 2);
    cx.holds("massless", m.bodies.iter().all(|b| b.inertia.is_none() && b.joint.is_none()));
    placed(cx, "root", m.named("x").pose, &id(), &[S::ZERO; 3]);
    placed(cx, "child", m.named("y").pose, &rpy(&a), &t);
}
/// Mass properties in link axes.
fn inertial<S: Model>(cx: &mut Cx<S>) {
    let c: [S; 3] = cx.vars("c");
    let a = angles(cx, "a");
    let m = cx.pos("m");
    let d: [S; 3] = std::array::from_fn(|i| S::rat([5, 7, 6][i], 2));
    let o: [S; 3] = if cx.thorough() { std::array::from_fn(|i| cx.var_open(&format!("o{i}"), -0.1, 0.1)) } else { [S::rat(1, 10), S::rat(-1, 5), S::rat(3, 10)] };
    let turned = cx.choose(2) == 1;
    let org = if turned { format!(r#"<origin xyz="{}" rpy="{}"/>"#, txt(&c), txt(&a)) } else { format!(r#"<origin xyz="{}"/>"#, txt(&c)) };
    let xml = format!(
        r#"<robot><link name="x"><visual/><inertial>{org}<mass value="{}"/><inertia ixx="{}" ixy="{}" ixz="{}" iyy="{}" iyz="{}" izz="{}"/></inertial></link></robot>"#,
        m.text(),
        d[0].text(),
        o[0].text(),
        o[1].text(),
        d[1].text(),
        o[2].text(),
        d[2].text()
    );
    let g = S::urdf(&xml, By::Format).expect("loads").bodies[0].inertia.expect("inertia");
    let t = [[d[0], o[0], o[1]], [o[0], d[1], o[2]], [o[1], o[2], d[2]]];
    let want = if turned {
        let r = rpy(&a);
        mm(&mm(&r, &t), &tr(&r))
    } else {
        t
    };
    cx.eq("mass", g.mass(), m);
    cx.eqs("centre", &g.center_of_mass().into_array(), &c);
    meq(cx, "tensor", &rows(&g.rotational_inertia()), &want);
}
fn joints<S: Model>(cx: &mut Cx<S>) {
    let which = cx.choose(4);
    let ty = ["revolute", "continuous", "prismatic", "fixed"][which];
    let (lo, hi, damping, friction) = (cx.var("lo"), cx.var("hi"), cx.var("d"), cx.var("f"));
    let (mult, off) = (cx.var("k"), cx.var("o"));
    let len = cx.var_open("len", 0.01, 100.0);
    let d = dirs::<S>(3);
    let stated = cx.choose(2) == 1;
    let mimic = cx.choose(3);
    let ax = if stated { format!(r#"<axis xyz="{}"/><dynamics damping="{}" friction="{}"/>"#, txt(&scale(&d, len)), damping.text(), friction.text()) } else { String::new() };
    let mm = [String::new(), r#"<mimic joint="i"/>"#.to_owned(), format!(r#"<mimic joint="i" multiplier="{}" offset="{}"/>"#, mult.text(), off.text())][mimic].clone();
    let xml = format!(
        r#"<robot><link name="x"/><link name="y"/><joint name="j" type="{ty}"><parent link="x"/><child link="y"/>{ax}<limit lower="{}" upper="{}" effort="1" velocity="1"/>{mm}</joint></robot>"#,
        lo.text(),
        hi.text()
    );
    let m = S::urdf(&xml, By::Format).expect("loads");
    let Some(j) = m.named("y").joint.clone() else {
        cx.holds("fixed", which == 3 && m.movable == 0);
        return;
    };
    let kind = [JointKind::Revolute, JointKind::Continuous, JointKind::Prismatic, JointKind::Fixed][which];
    cx.holds("kind", j.kind == kind && j.name == "j" && which != 3 && m.movable == 1);
    cx.eqs("axis", &j.axis, &if stated { d } else { [S::ONE, S::ZERO, S::ZERO] });
    match j.limits {
        Some((a, b)) => {
            cx.holds("bounded", which != 1);
            cx.eqs("limits", &[a, b], &[lo, hi]);
        }
        None => cx.holds("unbounded", which == 1),
    }
    let (wd, wf) = if stated { (damping, friction) } else { (S::ZERO, S::ZERO) };
    cx.eqs("losses", &[j.damping, j.friction], &[wd, wf]);
    cx.eqs("none of these", &[j.zero, j.armature, j.spring, j.stiffness, j.anchor[0], j.anchor[1], j.anchor[2]], &[S::ZERO; 7]);
    match (mimic, &j.mimic) {
        (0, None) => {}
        (1, Some((n, k, o))) => {
            cx.holds("follows", n == "i");
            cx.eqs("as is", &[*k, *o], &[S::ONE, S::ZERO]);
        }
        (2, Some((n, k, o))) => {
            cx.holds("follows", n == "i");
            cx.eqs("scaled", &[*k, *o], &[mult, off]);
        }
        _ => cx.holds("mimic", false),
    }
    let t = S::poses::<2, 2>(&xml, None, [S::ZERO; 2]);
    if mimic > 0 {
        cx.holds("no coupled tree", t.err().as_deref() == Some(r#"MimicJointInTree { joint: "j", follows: "i" }"#));
    }
}
/// Links and joints in any order: parents come first, and each link keeps its own joint.
fn order<S: Model>(cx: &mut Cx<S>) {
    // root a; b and c under a; d under c
    let links = ["a", "b", "c", "d"];
    let off: [S; 3] = cx.vars("o");
    let edges = [("a", "b"), ("a", "c"), ("c", "d")];
    // any of the 24 orders of the links and the 6 of the joints
    let mut left: Vec<usize> = (0..4).collect();
    let mut text = String::new();
    for k in (1..=4).rev() {
        let i = left.remove(cx.choose(k));
        text += &format!(r#"<link name="{}"/>"#, links[i]);
    }
    let mut left: Vec<usize> = (0..3).collect();
    for k in (1..=3).rev() {
        let i = left.remove(cx.choose(k));
        let (p, c) = edges[i];
        text += &format!(r#"<joint name="j{c}" type="continuous"><child link="{c}"/><parent link="{p}"/><origin xyz="0 {} 0"/></joint>"#, off[i].text());
    }
    let m = S::urdf(&format!("<robot><material/>{text}<gazebo/></robot>"), By::Format).expect("loads");
    cx.holds("left out", m.ignored == ["gazebo", "material"]);
    cx.holds("count", m.bodies.len() == 4 && m.bodies[0].name == "a" && m.movable == 3);
    for (i, b) in m.bodies.iter().enumerate() {
        let up = b.parent.map(|p| m.bodies[p].name.as_str());
        cx.holds("parents first", b.parent.is_none_or(|p| p < i));
        let e = edges.iter().position(|e| e.1 == b.name);
        cx.holds("parent", up == e.map(|k| edges[k].0));
        let y = e.map_or(S::ZERO, |k| off[k]);
        cx.eqs("at", &b.pose.translation().into_array(), &[S::ZERO, y, S::ZERO]);
        cx.holds("joint", b.joint.as_ref().map(|j| j.name.clone()) == e.map(|_| format!("j{}", b.name)));
    }
}
/// Any graph of three links and up to three joints: a tree loads, anything else is refused for a
/// reason it has.
fn graphs<S: Model>(cx: &mut Cx<S>) {
    let names = ["a", "b", "c", "ghost"];
    let n = cx.choose(4) as usize;
    let x = cx.var("x");
    let mut text = String::from(r#"<link name="a"/><link name="b"/><link name="c"/>"#);
    let mut e = vec![];
    for k in 0..n {
        let m = if n == 3 { 3 } else { 4 };
        let (p, c) = (cx.choose(m), cx.choose(m));
        e.push((p, c));
        text += &format!(r#"<joint name="j{k}" type="fixed"><origin xyz="{} 0 0"/><parent link="{}"/><child link="{}"/></joint>"#, x.text(), names[p], names[c]);
    }
    let got = S::urdf(&format!("<robot>{text}</robot>"), By::Format);
    let unknown = e.iter().any(|(p, c)| *p == 3 || *c == 3);
    let incoming: Vec<usize> = (0..3).map(|i| e.iter().filter(|(_, c)| *c == i).count()).collect();
    let twice = incoming.iter().any(|k| *k > 1);
    let roots = incoming.iter().filter(|k| **k == 0).count();
    // reached from the only root
    let mut seen: Vec<bool> = incoming.iter().map(|k| *k == 0).collect();
    for _ in 0..3 {
        for (p, c) in &e {
            if *p < 3 && *c < 3 && seen[*p] {
                seen[*c] = true;
            }
        }
    }
    let cyclic = seen.iter().any(|s| !s);
    let fine = !unknown && !twice && roots == 1 && !cyclic;
    match got {
        Ok(m) => {
            cx.holds("a tree", fine && m.bodies.len() == 3);
            let mut up: Vec<usize> = vec![0; 3];
            for b in &m.bodies {
                let i = names.iter().position(|n| *n == b.name).unwrap();
                up[i] += 1;
                let p = e.iter().find(|(_, c)| *c == i).map(|(p, _)| names[*p]);
                cx.holds("parent", b.parent.map(|p| m.bodies[p].name.as_str()) == p);
                cx.eq("at", b.pose.translation()[0], if p.is_some() { x } else { S::ZERO });
            }
            cx.holds("each once", up == [1, 1, 1]);
        }
        Err(s) => {
            let why = s.split([' ', '(']).next().unwrap_or("");
            let ok = match why {
                "UnknownLink" => unknown,
                "LinkHasTwoParents" => twice,
                "MultipleRootLinks" => roots > 1,
                "MissingRootLink" => roots == 0,
                "CyclicLinkage" => cyclic,
                _ => false,
            };
            cx.holds(&format!("refused for {s}"), !fine && ok);
        }
    }
}
fn refused<S: Model>(cx: &mut Cx<S>) {
    let x = cx.pos("x").text();
    let joint = |ty: &str, inner: &str| format!(r#"<robot><link name="x"/><link name="y"/><joint name="j" type="{ty}"><parent link="x"/><child link="y"/>{inner}</joint></robot>"#);
    let mass = |inner: &str| format!(r#"<robot><link name="x"><inertial>{inner}</inertial></link></robot>"#);
    let bad = |e: &str, a: &str, v: &str| format!("BadAttribute {{ element: {e:?}, attribute: {a:?}, value: {v:?} }}");
    let i = r#"<inertia ixx="1" iyy="1" izz="1" ixy="0" ixz="0" iyz="0"/>"#;
    let cases: Vec<(String, String)> = vec![
        (joint("revolute", ""), r#"JointNeedsLimit { joint: "j" }"#.into()),
        (joint("prismatic", &format!(r#"<limit lower="{x}"/>"#)), r#"JointNeedsLimit { joint: "j" }"#.into()),
        (joint("revolute", &format!(r#"<limit upper="{x}"/>"#)), r#"JointNeedsLimit { joint: "j" }"#.into()),
        (joint("planar", ""), r#"UnsupportedJoint { body: "y", joint_type: "planar" }"#.into()),
        (joint("floating", ""), r#"FreeJointNotAtRoot { body: "y" }"#.into()),
        (joint("continuous", r#"<axis xyz="0 0 0"/>"#), bad("axis", "xyz", "0 0 0")),
        (joint("continuous", &format!(r#"<axis xyz="{x} 0"/>"#)), bad("axis", "xyz", &format!("{x} 0"))),
        (joint("continuous", &format!(r#"<mimic multiplier="{x}"/>"#)), bad("mimic", "joint", "")),
        (joint("fixed", &format!(r#"<origin xyz="{x} 0 nothing"/>"#)), bad("origin", "xyz", &format!("{x} 0 nothing"))),
        (r#"<robot><link name="x"/><joint name="j" type="fixed"><child link="x"/></joint></robot>"#.into(), bad("joint", "parent", "")),
        (r#"<robot><link name="x"/><joint name="j" type="fixed"><parent link="x"/></joint></robot>"#.into(), bad("joint", "child", "")),
        (mass(i), bad("inertial", "mass", "")),
        (mass(&format!(r#"<mass value="{x}"/>"#)), bad("inertial", "inertia", "")),
        (mass(&format!(r#"<mass value="{x}"/><inertia ixx="1" iyy="1" izz="1" ixy="0" ixz="0"/>"#)), bad("inertia", "iyz", "")),
        (mass(&format!(r#"<mass/>{i}"#)), bad("mass", "value", "")),
        (mass(&format!(r#"<mass value="0"/>{i}"#)), "Inertia(NonPositiveMass)".into()),
        (mass(&format!(r#"<mass value="{x}"/><inertia ixx="1" iyy="0" izz="1" ixy="0" ixz="0" iyz="0"/>"#)), "Inertia(NonPositiveInertia)".into()),
        ("<mujoco/>".into(), r#"UnexpectedRootElement { found: "mujoco" }"#.into()),
        ("<robot/>".into(), "MissingRootLink".into()),
        (format!(r#"<robot><link name="b"/><link name="a"/></robot>"#), r#"MultipleRootLinks { names: ["a", "b"] }"#.into()),
    ];
    let i = cx.choose(cases.len() as u32);
    let (xml, want) = &cases[i];
    let got = S::urdf(xml, By::Format).err();
    cx.holds(&format!("refused {i} {want}"), got.as_deref() == Some(want.as_str()));
    cx.holds("no such root", S::urdf("<sdf/>", By::Root).err().as_deref() == Some(r#"UnexpectedRootElement { found: "sdf" }"#));
}
/// The tree moves as the file says.
fn tree<S: Model>(cx: &mut Cx<S>) {
    let (t, u): ([S; 3], [S; 3]) = (cx.vars("t"), cx.vars("u"));
    let (a, q1, q2) = (cx.var_open("a", -3.0, 3.0), swing(cx, "q1"), cx.var("q2"));
    let k = cx.choose(3) as usize;
    let ang: [S; 3] = std::array::from_fn(|i| if i == k { a } else { S::ZERO });
    let d = dirs::<S>(1);
    let xml = format!(
        r#"<robot><link name="c"/><link name="b"/><link name="a"/>
        <joint name="j2" type="prismatic"><origin xyz="{}"/><parent link="b"/><child link="c"/><axis xyz="0 0 3"/><limit lower="-1" upper="1"/></joint>
        <joint name="j1" type="revolute"><origin xyz="{}" rpy="{}"/><parent link="a"/><child link="b"/><axis xyz="{}"/><limit lower="-1" upper="1"/></joint></robot>"#,
        txt(&u),
        txt(&t),
        txt(&ang),
        txt(&d)
    );
    let o: Aff<S> = (id(), [S::ZERO; 3]);
    let b = then(&(rpy(&ang), t), &(about_axis(&d, q1), [S::ZERO; 3]));
    let c = then(&b, &(id(), add(&u, &[S::ZERO, S::ZERO, q2])));
    let tip = [None, Some("c"), Some("b")][cx.choose(3)];
    let p = S::poses::<3, 3>(&xml, tip, [S::ONE, q1, q2]).expect("tree");
    cx.holds("count", p.len() == if tip == Some("b") { 2 } else { 3 });
    for (i, w) in [&o, &b, &c].into_iter().take(p.len()).enumerate() {
        placed(cx, ["a", "b", "c"][i], p[i], &w.0, &w.1);
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C44", origins, "urdf::load_str, load_str, read_origin; place and angles symbolic"),
        h!("C44", inertial, "read_links, read_inertial; mass, centre and angles symbolic, six moments (symbolic products of inertia in the thorough tier)"),
        h!("C44", joints, "urdf read_joint, movable, read_limits, read_mimic, reject_mimic_joints; four types, numbers symbolic"),
        h!("C44", order, "urdf tree::build, walk; every order of four links and three joints, offsets symbolic"),
        h!("C44", graphs, "urdf tree::build; every graph of three links (and an unknown one) with up to three joints (an unknown link with up to two)"),
        h!("C44", refused, "one malformed or unsupported file per documented error; 20 files"),
        h!("C44", tree, "RobotModel::{kinematic_tree, kinematic_tree_to} of a URDF; revolute and prismatic, numbers symbolic; hinge readings 0.1-2.5 of either sign", |x| {
            x.cfg.abs_fork = true;
            x.cfg.arc = true;
            x.cfg.trig_base = 4;
        }),
    ]
}
