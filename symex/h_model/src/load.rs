//! One view of the loaded model for both scalars: the loaders over `Sym` (model_src) and the
//! crate itself over `f64`.
use engine::Sym;
use engine::cx::*;
use multicalc::kinematics::JointKind;
use multicalc::spatial::{SE3, SpatialInertia};

#[derive(Clone, Debug)]
pub struct JointView<S> {
    pub name: String,
    pub kind: JointKind,
    pub axis: [S; 3],
    pub anchor: [S; 3],
    pub limits: Option<(S, S)>,
    pub zero: S,
    pub armature: S,
    pub damping: S,
    pub friction: S,
    pub spring: S,
    pub stiffness: S,
    pub mimic: Option<(String, S, S)>,
}
#[derive(Clone, Debug)]
pub struct BodyView<S: Sc> {
    pub name: String,
    pub parent: Option<usize>,
    pub pose: SE3<S>,
    pub inertia: Option<SpatialInertia<S>>,
    pub joint: Option<JointView<S>>,
}
#[derive(Clone, Debug)]
pub struct View<S: Sc> {
    pub name: String,
    pub urdf: bool,
    pub floating: bool,
    pub movable: usize,
    pub ignored: Vec<String>,
    pub bodies: Vec<BodyView<S>>,
}
impl<S: Sc> View<S> {
    pub fn named(&self, n: &str) -> &BodyView<S> {
        self.bodies.iter().find(|b| b.name == n).expect(n)
    }
}
/// What was asked of the file.
#[derive(Clone, Copy)]
pub enum By {
    Format,
    Root,
    /// A file of this path, by its extension.
    Path,
}
pub trait Model: Sc {
    fn text(self) -> String;
    fn mjcf(xml: &str, by: By) -> Result<View<Self>, String>;
    fn urdf(xml: &str, by: By) -> Result<View<Self>, String>;
    /// Poses of every joint of the tree (or of the chain to `tip`) at the readings `q`.
    fn poses<const J: usize, const C: usize>(xml: &str, tip: Option<&str>, q: [Self; C]) -> Result<Vec<SE3<Self>>, String>;
    /// Joint settings the tree carries: limits, armature, damping, friction loss.
    fn tree_joints<const J: usize, const C: usize>(xml: &str) -> Result<Vec<(Option<(Self, Self)>, [Self; 3])>, String>;
    fn path_to(xml: &str, tip: &str) -> Result<Vec<usize>, String>;
}
macro_rules! model {
    ($t:ty, $m:ident, $text:expr) => {
        impl Model for $t {
            fn text(self) -> String {
                let f: fn($t) -> String = $text;
                f(self)
            }
            fn mjcf(xml: &str, by: By) -> Result<View<Self>, String> {
                let m = match by {
                    By::Format => $m::mjcf::load_str(xml),
                    By::Root => $m::load_str(xml),
                    By::Path => $m::load_path(std::path::Path::new(xml)),
                };
                m.map(|m| Self::view(&m)).map_err(|e| format!("{e:?}"))
            }
            fn urdf(xml: &str, by: By) -> Result<View<Self>, String> {
                let m = match by {
                    By::Format => $m::urdf::load_str(xml),
                    By::Root => $m::load_str(xml),
                    By::Path => $m::load_path(std::path::Path::new(xml)),
                };
                m.map(|m| Self::view(&m)).map_err(|e| format!("{e:?}"))
            }
            fn poses<const J: usize, const C: usize>(xml: &str, tip: Option<&str>, q: [Self; C]) -> Result<Vec<SE3<Self>>, String> {
                let m = $m::load_str(xml).map_err(|e| format!("{e:?}"))?;
                let t = match tip {
                    Some(n) => m.kinematic_tree_to::<J, C>(n),
                    None => m.kinematic_tree::<J, C>(),
                };
                let t = t.map_err(|e| format!("{e:?}"))?;
                let s = t.forward_kinematics(&multicalc::linear_algebra::Vector::new(q)).map_err(|e| format!("{e:?}"))?;
                Ok((0..t.len()).map(|i| s.pose(i).unwrap()).collect())
            }
            fn tree_joints<const J: usize, const C: usize>(xml: &str) -> Result<Vec<(Option<(Self, Self)>, [Self; 3])>, String> {
                let m = $m::load_str(xml).map_err(|e| format!("{e:?}"))?;
                let t = m.kinematic_tree::<J, C>().map_err(|e| format!("{e:?}"))?;
                Ok((0..t.len())
                    .map(|i| {
                        let j = t.joint(i).unwrap();
                        (j.limits(), [j.armature(), j.damping(), j.friction_loss()])
                    })
                    .collect())
            }
            fn path_to(xml: &str, tip: &str) -> Result<Vec<usize>, String> {
                let m = $m::load_str(xml).map_err(|e| format!("{e:?}"))?;
                m.path_to(tip).map_err(|e| format!("{e:?}"))
            }
        }
        impl Seen<$m::RobotModel> for $t {
            fn view(m: &$m::RobotModel) -> View<Self> {
                View {
                    name: m.name().to_owned(),
                    urdf: matches!(m.format(), $m::ModelFormat::Urdf),
                    floating: m.has_floating_base(),
                    movable: m.movable_joint_count(),
                    ignored: m.ignored().to_vec(),
                    bodies: (0..m.body_count())
                        .map(|i| {
                            let b = m.body(i).unwrap();
                            BodyView {
                                name: b.name().to_owned(),
                                parent: b.parent(),
                                pose: b.pose(),
                                inertia: b.inertia(),
                                joint: b.joint().map(|j| JointView {
                                    name: j.name().to_owned(),
                                    kind: j.kind(),
                                    axis: j.axis().into_array(),
                                    anchor: j.anchor().into_array(),
                                    limits: j.limits(),
                                    zero: j.zero_offset(),
                                    armature: j.armature(),
                                    damping: j.damping(),
                                    friction: j.friction_loss(),
                                    spring: j.spring_reference(),
                                    stiffness: j.spring_stiffness(),
                                    mimic: j.mimic().map(|m| (m.joint().to_owned(), m.multiplier(), m.offset())),
                                }),
                            }
                        })
                        .collect(),
                }
            }
        }
    };
}
trait Seen<M>: Sc {
    fn view(m: &M) -> View<Self>;
}
model!(Sym, model_src, |x| format!("@{}", x.0));
model!(f64, multicalc_robot_model, |x| format!("{x:?}"));

/// Numbers as an attribute's text.
pub fn txt<S: Model>(v: &[S]) -> String {
    v.iter().map(|x| x.text()).collect::<Vec<_>>().join(" ")
}

/// A scratch directory of files, removed afterwards.
pub struct Dir(pub std::path::PathBuf);
impl Dir {
    pub fn new(files: &[(&str, String)]) -> Dir {
        use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("h_model-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
        for (n, t) in files {
            let f = d.join(n);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(f, t).unwrap();
        }
        Dir(d)
    }
    pub fn path(&self, n: &str) -> String {
        self.0.join(n).display().to_string()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
