//! C45: a model written out as Rust source.
mod text;
#[path = "../../h_spatial/src/util.rs"]
#[allow(dead_code)]
mod util;
use engine::Sym;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::kinematics::{Joint, JointKind};
use multicalc::spatial::{Quaternion, SO3};
use text::*;
use util::*;

/// How the text is asked for.
#[derive(Clone, Default)]
struct Ask {
    name: &'static str,
    single: bool,
    slots: Option<usize>,
    numbers: Option<usize>,
    tip: Option<&'static str>,
    header: Option<&'static str>,
    doc: Option<&'static str>,
}
trait Writer: Sc {
    fn text(self) -> String;
    fn number(s: &str, single: bool) -> Option<Self>;
    fn narrow(self) -> Self;
    fn written(xml: &str, a: &Ask) -> Result<String, String>;
    fn tree(xml: &str, tip: Option<&str>) -> Result<Tree<Self>, String>;
}
macro_rules! writer {
    ($t:ty, $m:ident, $text:expr, $number:expr, $narrow:expr) => {
        impl Writer for $t {
            fn text(self) -> String {
                let f: fn($t) -> String = $text;
                f(self)
            }
            fn number(s: &str, single: bool) -> Option<Self> {
                let f: fn(&str, bool) -> Option<$t> = $number;
                f(s, single)
            }
            fn narrow(self) -> Self {
                let f: fn($t) -> $t = $narrow;
                f(self)
            }
            fn written(xml: &str, a: &Ask) -> Result<String, String> {
                use $m::{GeneratedScalar as G, RustSourceOptions as O};
                let m = $m::load_str(xml).map_err(|e| format!("{e:?}"))?;
                let mut o = O::new(a.name);
                // single precision is what is written when nothing is said
                if !a.single {
                    o = o.with_scalar(G::F64);
                } else if a.slots.is_some() {
                    o = o.with_scalar(G::F32);
                }
                if let Some(n) = a.slots {
                    o = o.with_capacity(n);
                }
                if let Some(n) = a.numbers {
                    o = o.with_configuration_capacity(n);
                }
                if let Some(t) = a.tip {
                    o = o.with_tip(t);
                }
                if let Some(t) = a.header {
                    o = o.with_header(t);
                }
                if let Some(t) = a.doc {
                    o = o.with_documentation(t);
                }
                m.to_rust_source(&o).map_err(|e| format!("{e:?}"))
            }
            fn tree(xml: &str, tip: Option<&str>) -> Result<Tree<Self>, String> {
                let m = $m::load_str(xml).map_err(|e| format!("{e:?}"))?;
                match tip {
                    Some(t) => m.kinematic_tree_to(t),
                    None => m.kinematic_tree(),
                }
                .map_err(|e| format!("{e:?}"))
            }
        }
    };
}
writer!(Sym, model_gen, |x| format!("@{}", x.0), |s, _| match s.strip_prefix("__s") {
    Some(k) => k.parse().ok().map(Sym),
    None => s.parse().ok().map(<Sym as Sc>::c),
}, model_gen::rt::narrow);
writer!(f64, multicalc_robot_model, |x| format!("{x:?}"), |s, single| if single {
    s.parse::<f32>().ok().map(|x| x as f64)
} else {
    s.parse().ok()
}, |x| x as f32 as f64);

fn txt<S: Writer>(v: &[S]) -> String {
    v.iter().map(|x| x.text()).collect::<Vec<_>>().join(" ")
}
const SOLID: &str = r#"<inertial mass="1" diaginertia="1 1 1"/>"#;
fn turned<S: Writer>(cx: &mut Cx<S>, n: &str, k: usize) -> [S; 4] {
    let (q, d): ([i64; 4], i64) = [([1, 1, -1, 1], 2), ([4, 0, 3, 0], 5), ([2, 1, 0, -2], 3), ([0, 2, 2, 1], 3)][k];
    let l = cx.var_open(n, 0.01, 100.0);
    q.map(|x| S::rat(x, d) * l)
}
/// The file's function, run, against the tree the model gives.
fn same_tree<S: Writer>(cx: &mut Cx<S>, xml: &str, a: &Ask, numbers: usize) {
    let want = S::tree(xml, a.tip).expect("tree");
    let text = match S::written(xml, a) {
        Ok(t) => t,
        Err(e) => return cx.holds(&format!("written: {e}"), false),
    };
    let token = if a.single { "f32" } else { "f64" };
    let got = (|| {
        let mut r = Run::<S>::new(&text, token, S::number)?;
        if a.single {
            return singles(cx, r, &text, a, &want);
        }
        r.call(a.name, vec![])?;
        cx.holds(
            "sizes and scalar",
            r.declared == Some(format!("<{},{},{token}>", a.slots.unwrap_or(want.len()), numbers)),
        );
        let t = r.tree.unwrap();
        cx.holds("as many joints", t.len() == want.len());
        for i in 0..want.len().min(t.len()) {
            let (x, y) = (t.joint(i).unwrap(), want.joint(i).unwrap());
            cx.holds(&format!("kind {i}"), x.kind() == y.kind());
            cx.holds(&format!("parent {i}"), t.parent(i) == want.parent(i));
            let (p, q) = (x.origin(), y.origin());
            cx.eqs(&format!("at {i}"), &p.translation().into_array(), &q.translation().into_array());
            meq(cx, &format!("turned {i}"), &rows(&p.rotation().to_matrix()), &rows(&q.rotation().to_matrix()));
            numbers_of(cx, i, x, y, |v| v);
        }
        Ok(())
    })();
    if let Err(e) = got {
        cx.holds(&format!("the text builds the tree: {e}"), false);
    }
}
fn numbers_of<S: Writer>(cx: &mut Cx<S>, i: usize, x: Joint<S>, y: Joint<S>, f: fn(S) -> S) {
    if matches!(y.kind(), JointKind::Fixed | JointKind::Floating) {
        return;
    }
    cx.eqs(&format!("axis {i}"), &x.axis().into_array(), &y.axis().into_array().map(f));
    cx.eqs(&format!("anchor {i}"), &x.anchor().into_array(), &y.anchor().into_array().map(f));
    match (x.limits(), y.limits()) {
        (Some((a, b)), Some((c, d))) => cx.eqs(&format!("limits {i}"), &[a, b], &[f(c), f(d)]),
        (a, b) => cx.holds(&format!("limits {i}"), a.is_none() == b.is_none()),
    }
    cx.eqs(
        &format!("settings {i}"),
        &[x.zero_offset(), x.armature(), x.damping(), x.friction_loss()],
        &[y.zero_offset(), y.armature(), y.damping(), y.friction_loss()].map(f),
    );
}
/// In single precision every number is the narrowed one; turns are compared as written, before
/// the text makes them unit again.
fn singles<S: Writer>(cx: &mut Cx<S>, mut r: Run<S>, text: &str, a: &Ask, want: &Tree<S>) -> Result<(), String> {
    cx.assume(eq(S::ZERO.narrow(), S::ZERO));
    // rounding leaves a turn's four numbers with a length of about one
    for i in 0..want.len() {
        let q = want.joint(i).unwrap().origin().rotation().quaternion().as_array().map(S::narrow);
        let n = dot(&q, &q);
        cx.assume(and(vec![lt(S::rat(9, 10), n), lt(n, S::rat(11, 10))]));
    }
    // what the text's own pose function does, on numbers both precisions carry
    let n = |v: &[i64]| V::Arr(v.iter().map(|x| V::Num(S::rat(*x, 1))).collect());
    let V::Se3(p) = r.call("pose", vec![n(&[1, 2, -3]), n(&[4, 2, 0, -4])])? else { return Err("pose".into()) };
    cx.eqs("pose at", &p.translation().into_array(), &[S::ONE, S::TWO, -S::THREE]);
    meq(cx, "pose turned", &rows(&p.rotation().to_matrix()), &rotm(&[2, 1, 0, -2].map(|x| S::rat(x, 3))));
    // the rest with the pose left as given
    let keep = r#"fn pose(t: [f32; 3], q: [f32; 4]) -> SE3<f32> { SE3::from_parts(SO3::from_quaternion(Quaternion::new(q[0], q[1], q[2], q[3])), Vector::new(t)) }"#;
    let at = text.find("fn pose(").ok_or("no pose")?;
    let mut r = Run::<S>::new(&format!("{}{keep}", &text[..at]), "f32", S::number)?;
    r.raw = true;
    r.call(a.name, vec![])?;
    cx.holds("single scalar", r.declared.as_deref().is_some_and(|d| d.ends_with(",f32>")));
    cx.holds("as many joints", r.raw_joints.len() == want.len());
    for (i, (x, p)) in r.raw_joints.iter().enumerate().take(want.len()) {
        let y = want.joint(i).unwrap();
        cx.holds(&format!("kind {i}"), x.kind() == y.kind());
        cx.holds(&format!("parent {i}"), Some(*p) == want.parent(i));
        let (o, w) = (x.origin(), y.origin());
        cx.eqs(&format!("at {i}"), &o.translation().into_array(), &w.translation().into_array().map(S::narrow));
        let [qw, qx, qy, qz] = w.rotation().quaternion().as_array().map(S::narrow);
        let wq = SO3::from_quaternion(Quaternion::new(qw, qx, qy, qz));
        cx.eqs(&format!("turned {i}"), &o.rotation().quaternion().as_array(), &wq.quaternion().as_array());
        numbers_of(cx, i, *x, y, S::narrow);
    }
    Ok(())
}
/// A machine with every kind of joint, its numbers free.
fn machine<S: Writer>(cx: &mut Cx<S>, free: bool) -> String {
    let [a, b, c]: [[S; 3]; 3] = [cx.vars("a"), cx.vars("b"), cx.vars("c")];
    let p: [S; 3] = cx.vars("p");
    let l: [S; 3] = std::array::from_fn(|i| cx.nonneg(&format!("l{i}")));
    let (lo, hi) = (cx.var_open("lo", -3.0, 0.0), cx.var_open("hi", 0.0, 3.0));
    let (z1, z2) = (cx.var("z1"), cx.var("z2"));
    let (q1, q2) = (turned(cx, "q1", 0), turned(cx, "q2", 2));
    let ax: [S; 3] = cx.vars("ax");
    cx.assume(lt(S::rat(1, 100), dot(&ax, &ax)));
    let settings = format!(r#"armature="{}" damping="{}" frictionloss="{}""#, l[0].text(), l[1].text(), l[2].text());
    format!(
        r#"<mujoco><compiler angle="radian"/><worldbody><body name="base" pos="{}" quat="{}">{SOLID}{}
          <body name="side" pos="1 2 3" quat="4 0 3 0">{SOLID}<joint axis="0 3 4" pos="{}" ref="{}" {settings}/></body>
          <body name="arm" pos="{}" quat="{}">{SOLID}<joint axis="{}" pos="{}" ref="{}" range="{}" {settings}/>
            <body name="plate" pos="{}">{SOLID}
              <body name="hand" pos="0 0 1">{SOLID}<joint type="slide" axis="0 2 0" pos="{}" ref="{}" {} {settings}/></body></body>
          </body></body></worldbody></mujoco>"#,
        txt(&a),
        txt(&q1),
        if free { "<freejoint/>" } else { "" },
        txt(&p),
        z2.text(),
        txt(&b),
        txt(&q2),
        txt(&ax),
        txt(&p),
        z1.text(),
        txt(&[lo, hi]),
        txt(&c),
        txt(&p),
        z2.text(),
        if cx.choose(2) == 0 { format!(r#"range="{}""#, txt(&[lo, hi])) } else { String::new() },
    )
}
fn double<S: Writer>(cx: &mut Cx<S>) {
    let free = cx.choose(2) == 1;
    let xml = machine(cx, free);
    let tip = [None, Some("hand"), Some("side")][cx.choose(3) as usize];
    let (slots, numbers) = [(None, None), (Some(6), None), (None, Some(13)), (Some(7), Some(14))][cx.choose(4) as usize];
    let used = slots.unwrap_or(match tip {
        None => 5,
        Some("hand") => 4,
        _ => 2,
    });
    let want = numbers.unwrap_or(used + if free { 6 } else { 0 });
    same_tree(cx, &xml, &Ask { name: "machine", slots, numbers, tip, ..Default::default() }, want);
}
fn single<S: Writer>(cx: &mut Cx<S>) {
    let free = cx.choose(2) == 1;
    let xml = machine(cx, free);
    let tip = [None, Some("hand")][cx.choose(2) as usize];
    let slots = [None, Some(7)][cx.choose(2) as usize];
    same_tree(cx, &xml, &Ask { name: "machine", single: true, slots, tip, ..Default::default() }, 0);
}
/// Names, first line and description appear where asked and nowhere else, whatever they say.
fn words<S: Writer>(cx: &mut Cx<S>) {
    let x = cx.var("x");
    let names = [["base", "arm"], ["b, 1", "\"q\" {x} /* */"], ["tree", "fn pose() {}"], ["first&#10;second", "end&#13;&#10;let tree = 1;"]][cx.choose(4) as usize];
    let xml = format!(
        r#"<mujoco><worldbody><body name='{}'>{SOLID}<body name='{}' pos="{} 0 0">{SOLID}<joint/></body></body></worldbody></mujoco>"#,
        names[0],
        names[1],
        x.text()
    );
    let header = [None, Some("Written from a file.")][cx.choose(2) as usize];
    let doc = [None, Some("The machine.")][cx.choose(2) as usize];
    let name = ["arm", "build"][cx.choose(2) as usize];
    let ask = Ask { name, header, doc, ..Default::default() };
    same_tree(cx, &xml, &ask, 2);
    let Ok(text) = S::written(&xml, &ask) else { return };
    let first = text.lines().next().unwrap_or_default();
    cx.holds("first line", match header {
        Some(h) => first == format!("// {h}"),
        None => !first.starts_with("//"),
    });
    let lines: Vec<&str> = text.lines().collect();
    let at = lines.iter().position(|l| l.starts_with(&format!("pub fn {name}("))).unwrap_or(0);
    cx.holds("description", match doc {
        Some(d) => at > 0 && lines[at - 1] == format!("/// {d}"),
        None => at > 0 && !lines[at - 1].starts_with("///"),
    });
}
fn urdf<S: Writer>(cx: &mut Cx<S>) {
    let (a, b): ([S; 3], [S; 3]) = (cx.vars("a"), cx.vars("b"));
    let (lo, hi) = (cx.var_open("lo", -3.0, 0.0), cx.var_open("hi", 0.0, 3.0));
    let l: [S; 2] = std::array::from_fn(|i| cx.nonneg(&format!("l{i}")));
    let kind = ["revolute", "continuous", "prismatic"][cx.choose(3) as usize];
    let mimic = cx.choose(2) == 1;
    let xml = format!(
        r#"<robot name="r"><link name="hand"/><link name="base"/><link name="arm"/><link name="tool"/>
        <joint name="j" type="{kind}"><parent link="base"/><child link="arm"/><origin xyz="{}" rpy="0 0 0"/><axis xyz="0 3 -4"/><limit lower="{}" upper="{}"/><dynamics damping="{}" friction="{}"/></joint>
        <joint name="k" type="fixed"><parent link="arm"/><child link="hand"/><origin xyz="{}"/></joint>
        <joint name="m" type="continuous"><parent link="base"/><child link="tool"/>{}</joint></robot>"#,
        txt(&a),
        lo.text(),
        hi.text(),
        l[0].text(),
        l[1].text(),
        txt(&b),
        if mimic { r#"<mimic joint="j"/>"# } else { "" }
    );
    let tip = [None, Some("hand")][cx.choose(2) as usize];
    let ask = Ask { name: "r", tip, ..Default::default() };
    if mimic && tip.is_none() {
        return cx.holds("follower refused", matches!(S::written(&xml, &ask), Err(e) if e.starts_with("MimicJointInTree")));
    }
    same_tree(cx, &xml, &ask, if tip.is_some() { 3 } else { 4 });
}
fn refused<S: Writer>(cx: &mut Cx<S>) {
    let x = cx.var("x");
    let xml = format!(r#"<mujoco><worldbody><body name="a" pos="{} 0 0">{SOLID}<body name="b">{SOLID}<body name="c">{SOLID}</body></body></body></worldbody></mujoco>"#, x.text());
    let a = Ask { name: "f", ..Default::default() };
    let of = |a: Ask| S::written(&xml, &a).err();
    cx.holds("too few slots", of(Ask { slots: Some(2), ..a.clone() }).as_deref() == Some("TreeCapacityExceeded { needed: 3, capacity: 2 }"));
    cx.holds("enough for the chain", of(Ask { slots: Some(2), tip: Some("b"), ..a.clone() }).is_none());
    cx.holds("nobody", of(Ask { tip: Some("d"), ..a.clone() }).as_deref() == Some(r#"UnknownBody { name: "d" }"#));
    // limits the wrong way round make no joint
    let bad = format!(r#"<mujoco><compiler angle="radian"/><worldbody><body name="a" pos="{} 0 0">{SOLID}<joint range="1 -1"/></body></worldbody></mujoco>"#, x.text());
    let e = S::tree(&bad, None).err();
    cx.holds("unusable joint", e.is_some() && S::written(&bad, &a).err() == e);
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C45", double, "RobotModel::to_rust_source, render, render_push, RustSourceOptions in double precision; five bodies, every kind of joint, all numbers symbolic (turns rational up to scale), three tips, four size choices"),
        h!("C45", single, "the same in single precision, narrowing an uninterpreted function"),
        h!("C45", words, "names, header, documentation and function name; four pairs of body names"),
        h!("C45", urdf, "to_rust_source of a URDF; three kinds, followers refused"),
        h!("C45", refused, "to_rust_source: every documented error"),
    ]
}
fn main() {
    engine::main_with(all())
}
