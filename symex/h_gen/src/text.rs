//! Runs a generated file: a small reader of the Rust it is written in, over either scalar.
//! Anything a compiler would refuse, or that would panic, comes back as `Err`.
use engine::cx::*;
use multicalc::kinematics::{Joint, JointParent, KinematicTree};
use multicalc::linear_algebra::Vector;
use multicalc::spatial::{Quaternion, SE3, SO3};
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::{Expr, Item, ItemFn, Lit, Pat, Stmt, UseTree};

pub const SLOTS: usize = 8;
pub const NUMBERS: usize = 14;
pub type Tree<S> = KinematicTree<SLOTS, NUMBERS, S>;

#[derive(Clone)]
pub enum V<S: Sc> {
    Num(S),
    Size(usize),
    Arr(Vec<V<S>>),
    Vec3([S; 3]),
    Quat(Quaternion<S>),
    Maybe(Option<Quaternion<S>>),
    So3(SO3<S>),
    Se3(SE3<S>),
    Joint(Joint<S>),
    Parent(JointParent),
    Done(Result<(), String>),
    Tree,
    Unit,
    Closure,
}
pub struct Run<S: Sc> {
    fns: HashMap<String, ItemFn>,
    known: HashSet<String>,
    /// The scalar the text names.
    token: String,
    /// What the tree's type says: slots, numbers, scalar.
    pub declared: Option<String>,
    pub tree: Option<Tree<S>>,
    /// Keep the joints as given instead of pushing them.
    pub raw: bool,
    pub raw_joints: Vec<(Joint<S>, JointParent)>,
    number: fn(&str, bool) -> Option<S>,
}
type R<T> = Result<T, String>;
fn flat(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}
fn leaves(t: &UseTree, out: &mut HashSet<String>) {
    match t {
        UseTree::Path(p) => leaves(&p.tree, out),
        UseTree::Name(n) => {
            out.insert(n.ident.to_string());
        }
        UseTree::Rename(n) => {
            out.insert(n.rename.to_string());
        }
        UseTree::Group(g) => g.items.iter().for_each(|t| leaves(t, out)),
        UseTree::Glob(_) => {}
    }
}
impl<S: Sc> Run<S> {
    /// Symbolic values are spelled `@12` in the text.
    pub fn new(text: &str, token: &str, number: fn(&str, bool) -> Option<S>) -> R<Self> {
        let file = syn::parse_file(&text.replace('@', "__s")).map_err(|e| format!("not Rust: {e}"))?;
        let (mut fns, mut known) = (HashMap::new(), HashSet::new());
        for i in file.items {
            match i {
                Item::Use(u) => leaves(&u.tree, &mut known),
                Item::Fn(f) => {
                    fns.insert(f.sig.ident.to_string(), f);
                }
                other => return Err(format!("unexpected {}", flat(&other))),
            }
        }
        Ok(Run { fns, known, token: token.into(), declared: None, tree: None, raw: false, raw_joints: vec![], number })
    }
    pub fn call(&mut self, name: &str, args: Vec<V<S>>) -> R<V<S>> {
        let f = self.fns.get(name).cloned().ok_or(format!("no function {name}"))?;
        if f.sig.inputs.len() != args.len() {
            return Err(format!("{name} takes {}", f.sig.inputs.len()));
        }
        let mut env = HashMap::new();
        for (p, a) in f.sig.inputs.iter().zip(args) {
            let syn::FnArg::Typed(t) = p else { return Err("self".into()) };
            if let V::Arr(v) = &a {
                if flat(&t.ty) != format!("[{};{}]", self.token, v.len()) {
                    return Err(format!("{} given {} numbers", flat(&t.ty), v.len()));
                }
            }
            env.insert(flat(&t.pat), a);
        }
        let out = self.block(&f.block.stmts, &mut env)?;
        let ty = flat(&f.sig.output);
        let fits = match &out {
            V::Tree => ty == format!("->KinematicTree{}", self.declared.clone().unwrap_or_default()),
            V::Se3(_) => ty == format!("->SE3<{}>", self.token),
            _ => false,
        };
        if fits { Ok(out) } else { Err(format!("{name} answers {ty}")) }
    }
    fn block(&mut self, stmts: &[Stmt], env: &mut HashMap<String, V<S>>) -> R<V<S>> {
        let mut last = V::Unit;
        for s in stmts {
            last = match s {
                Stmt::Local(l) => {
                    let name = match &l.pat {
                        Pat::Ident(i) => i.ident.to_string(),
                        Pat::Type(t) => flat(&t.pat),
                        p => return Err(format!("pattern {}", flat(p))),
                    };
                    let init = l.init.as_ref().ok_or("no value")?;
                    let v = self.eval(&init.expr, env)?;
                    env.insert(name, v);
                    V::Unit
                }
                Stmt::Expr(e, semi) => {
                    let v = self.eval(e, env)?;
                    if semi.is_some() { V::Unit } else { v }
                }
                s => return Err(format!("statement {}", flat(s))),
            };
        }
        Ok(last)
    }
    fn num(&mut self, e: &Expr, env: &mut HashMap<String, V<S>>) -> R<S> {
        match self.eval(e, env)? {
            V::Num(x) => Ok(x),
            _ => Err(format!("{} is no number", flat(e))),
        }
    }
    fn args(&mut self, a: &syn::punctuated::Punctuated<Expr, syn::Token![,]>, env: &mut HashMap<String, V<S>>) -> R<Vec<V<S>>> {
        a.iter().map(|e| self.eval(e, env)).collect()
    }
    fn eval(&mut self, e: &Expr, env: &mut HashMap<String, V<S>>) -> R<V<S>> {
        match e {
            Expr::Paren(p) => self.eval(&p.expr, env),
            Expr::Lit(l) => match &l.lit {
                Lit::Float(f) => (self.number)(f.base10_digits(), self.token == "f32").map(V::Num).ok_or("number".into()),
                Lit::Int(i) => i.base10_parse().map(V::Size).map_err(|e| e.to_string()),
                l => Err(format!("literal {}", flat(l))),
            },
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) => Ok(V::Num(-self.num(&u.expr, env)?)),
            Expr::Array(a) => Ok(V::Arr(a.elems.iter().map(|e| self.num(e, env).map(V::Num)).collect::<R<_>>()?)),
            Expr::Index(i) => match (self.eval(&i.expr, env)?, self.eval(&i.index, env)?) {
                (V::Arr(v), V::Size(k)) => v.get(k).cloned().ok_or("index out of range".into()),
                _ => Err(format!("index {}", flat(e))),
            },
            Expr::Closure(_) => Ok(V::Closure),
            Expr::Path(p) => {
                let s = flat(p);
                if let Some(v) = env.get(&s) {
                    return Ok(v.clone());
                }
                if s.starts_with("__s") {
                    return (self.number)(&s, self.token == "f32").map(V::Num).ok_or(format!("unknown {s}"));
                }
                if s == "JointParent::World" && self.known.contains("JointParent") {
                    return Ok(V::Parent(JointParent::World));
                }
                Err(format!("unknown {s}"))
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return Err(format!("call {}", flat(&c.func))) };
                let s = flat(p);
                let a = self.args(&c.args, env)?;
                if !s.contains("::") {
                    return self.call(&s, a);
                }
                let head = p.path.segments[0].ident.to_string();
                if !self.known.contains(&head) {
                    return Err(format!("{head} is not imported"));
                }
                if let Some(g) = s.strip_prefix("KinematicTree::").and_then(|x| x.strip_suffix("::new")) {
                    if !a.is_empty() || self.declared.is_some() {
                        return Err(s);
                    }
                    self.declared = Some(g.into());
                    self.tree = Some(Tree::new());
                    return Ok(V::Tree);
                }
                let three = |v: &[V<S>]| -> Option<[S; 3]> {
                    match v {
                        [V::Num(x), V::Num(y), V::Num(z)] => Some([*x, *y, *z]),
                        _ => None,
                    }
                };
                Ok(match (s.as_str(), a.as_slice()) {
                    ("Vector::new", [V::Arr(v)]) if three(v).is_some() => V::Vec3(three(v).unwrap()),
                    ("Quaternion::new", [V::Num(w), V::Num(x), V::Num(y), V::Num(z)]) => V::Quat(Quaternion::new(*w, *x, *y, *z)),
                    ("SO3::from_quaternion", [V::Quat(q)]) => V::So3(SO3::from_quaternion(*q)),
                    ("SE3::from_parts", [V::So3(r), V::Vec3(t)]) => V::Se3(SE3::from_parts(*r, Vector::new(*t))),
                    ("JointParent::Joint", [V::Size(k)]) => V::Parent(JointParent::Joint(*k)),
                    ("Joint::fixed", [V::Se3(o)]) => V::Joint(Joint::fixed(*o)),
                    ("Joint::floating", [V::Se3(o)]) => V::Joint(Joint::floating(*o)),
                    ("Joint::revolute", [V::Vec3(a), V::Se3(o)]) => V::Joint(Joint::revolute(Vector::new(*a), *o)),
                    ("Joint::continuous", [V::Vec3(a), V::Se3(o)]) => V::Joint(Joint::continuous(Vector::new(*a), *o)),
                    ("Joint::prismatic", [V::Vec3(a), V::Se3(o)]) => V::Joint(Joint::prismatic(Vector::new(*a), *o)),
                    _ => return Err(format!("call {s} with {} arguments", a.len())),
                })
            }
            Expr::MethodCall(m) => {
                let on = self.eval(&m.receiver, env)?;
                let a = self.args(&m.args, env)?;
                let name = m.method.to_string();
                Ok(match (on, name.as_str(), a.as_slice()) {
                    (V::Quat(q), "try_normalized", []) => V::Maybe(q.try_normalized()),
                    (V::Maybe(q), "unwrap_or_else", [V::Closure]) => V::Quat(q.ok_or("panics: no turn")?),
                    (V::Done(r), "unwrap_or_else", [V::Closure]) => {
                        r.map_err(|e| format!("panics: {e}"))?;
                        V::Unit
                    }
                    (V::Joint(j), "with_anchor", [V::Vec3(p)]) => V::Joint(j.with_anchor(Vector::new(*p))),
                    (V::Joint(j), "with_limits", [V::Num(a), V::Num(b)]) => V::Joint(j.with_limits(*a, *b)),
                    (V::Joint(j), "with_zero_offset", [V::Num(a)]) => V::Joint(j.with_zero_offset(*a)),
                    (V::Joint(j), "with_armature", [V::Num(a)]) => V::Joint(j.with_armature(*a)),
                    (V::Joint(j), "with_damping", [V::Num(a)]) => V::Joint(j.with_damping(*a)),
                    (V::Joint(j), "with_friction_loss", [V::Num(a)]) => V::Joint(j.with_friction_loss(*a)),
                    (V::Tree, "push", [V::Joint(j), V::Parent(p)]) if self.raw => {
                        self.raw_joints.push((*j, *p));
                        V::Done(Ok(()))
                    }
                    (V::Tree, "push", [V::Joint(j), V::Parent(p)]) => {
                        let t = self.tree.as_mut().ok_or("no tree")?;
                        V::Done(t.push(*j, *p).map_err(|e| format!("{e:?}")))
                    }
                    (_, n, a) => return Err(format!("method {n} with {} arguments", a.len())),
                })
            }
            e => Err(format!("expression {}", flat(e))),
        }
    }
}
