//! Reads the loader's sources out of /repo and writes them as one file with the scalar type
//! `f64` replaced by the engine's `Sym`; nothing else changes.
use proc_macro2::{Delimiter, Group, Ident, Punct, Spacing, Span, TokenStream, TokenTree as T};
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::str::FromStr;

fn is_p(t: Option<&T>, c: char) -> bool {
    matches!(t, Some(T::Punct(p)) if p.as_char() == c)
}
fn is_i(t: Option<&T>, s: &str) -> bool {
    matches!(t, Some(T::Ident(i)) if i == s)
}
fn ts(s: &str) -> Vec<T> {
    TokenStream::from_str(s).unwrap().into_iter().collect()
}
fn float(s: &str) -> bool {
    let b = s.as_bytes();
    if !b[0].is_ascii_digit() || s.starts_with("0x") || s.starts_with("0b") || s.starts_with("0o") {
        return false;
    }
    if s.ends_with("f64") {
        return true;
    }
    let ints = ["usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "i128", "f32"];
    if ints.iter().any(|x| s.ends_with(x)) {
        return false;
    }
    s.contains('.') || s.contains('e') || s.contains('E')
}
fn mentions_f64(ts: &[T]) -> bool {
    ts.iter().any(|t| match t {
        T::Ident(i) => i == "f64",
        T::Group(g) => mentions_f64(&g.stream().into_iter().collect::<Vec<_>>()),
        _ => false,
    })
}
/// Names of constants whose type carries an `f64`: they become functions.
fn consts(v: &[T], out: &mut HashSet<String>) {
    for i in 0..v.len() {
        if let T::Group(g) = &v[i] {
            consts(&g.stream().into_iter().collect::<Vec<_>>(), out);
        }
        if (is_i(v.get(i), "const") || is_i(v.get(i), "static")) && matches!(v.get(i + 1), Some(T::Ident(_))) && is_p(v.get(i + 2), ':') {
            let end = (i..v.len()).find(|&k| is_p(v.get(k), '=')).unwrap_or(v.len());
            // a constant, not a const parameter
            if end < v.len() && mentions_f64(&v[i + 3..end]) {
                out.insert(v[i + 1].to_string());
            }
        }
    }
}
struct Rw {
    consts: HashSet<String>,
    maths: HashSet<&'static str>,
}
impl Rw {
    fn walk(&self, v: &[T]) -> TokenStream {
        let mut o: Vec<T> = vec![];
        let mut i = 0;
        while i < v.len() {
            // attributes and imports stay as written, apart from the crate's name
            if is_p(v.get(i), '#') {
                o.push(v[i].clone());
                i += 1;
                if is_p(v.get(i), '!') {
                    o.push(v[i].clone());
                    i += 1;
                }
                if i < v.len() {
                    o.push(v[i].clone());
                    i += 1;
                }
                continue;
            }
            if is_i(v.get(i), "use") {
                while !is_p(v.get(i), ';') {
                    if is_i(v.get(i), "multicalc") && is_p(v.get(i + 1), ':') {
                        o.extend(ts("crate::shim"));
                    } else {
                        o.push(v[i].clone());
                    }
                    i += 1;
                }
                continue;
            }
            // const NAME: .. f64 .. = expr;
            if is_i(v.get(i), "const") || is_i(v.get(i), "static") {
                if let (Some(T::Ident(n)), true) = (v.get(i + 1), is_p(v.get(i + 2), ':')) {
                    if self.consts.contains(&n.to_string()) {
                        let eq = (i..v.len()).find(|&k| is_p(v.get(k), '=')).unwrap();
                        let end = (eq..v.len()).find(|&k| is_p(v.get(k), ';')).unwrap();
                        o.extend(ts("fn"));
                        o.push(v[i + 1].clone());
                        o.extend(ts("() ->"));
                        o.extend(self.walk(&v[i + 3..eq]));
                        o.push(T::Group(Group::new(Delimiter::Brace, self.walk(&v[eq + 1..end]))));
                        i = end + 1;
                        continue;
                    }
                }
            }
            // a number narrowed to single precision
            if is_i(v.get(i), "as") && is_i(v.get(i + 1), "f32") {
                let x = o.pop().unwrap();
                o.extend(ts("crate::rt::narrow"));
                o.push(T::Group(Group::new(Delimiter::Parenthesis, std::iter::once(x).collect())));
                i += 2;
                continue;
            }
            match &v[i] {
                T::Group(g) => {
                    let inner: Vec<T> = g.stream().into_iter().collect();
                    let mut h = Group::new(g.delimiter(), self.walk(&inner));
                    h.set_span(g.span());
                    o.push(T::Group(h));
                }
                T::Ident(id) => {
                    let s = id.to_string();
                    let after_path = o.len() >= 2 && is_p(o.last(), ':') && is_p(o.get(o.len() - 2), ':');
                    let after_dot = is_p(o.last(), '.');
                    // std::f64::consts::X and std::f64::X are numbers
                    if (s == "std" || s == "core") && !after_path && is_p(v.get(i + 1), ':') && is_i(v.get(i + 3), "f64") {
                        let mut k = i + 4;
                        while is_p(v.get(k), ':') && is_p(v.get(k + 1), ':') {
                            k += 3;
                        }
                        let path: TokenStream = v[i..k].iter().cloned().collect();
                        o.extend(ts("crate::rt::k"));
                        o.push(T::Group(Group::new(Delimiter::Parenthesis, path)));
                        i = k;
                        continue;
                    }
                    if s == "f64" && is_p(v.get(i + 1), ':') && is_p(v.get(i + 2), ':') && !after_path {
                        if let Some(T::Ident(c)) = v.get(i + 3) {
                            if c.to_string().chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) {
                                let path: TokenStream = v[i..i + 4].iter().cloned().collect();
                                o.extend(ts("crate::rt::k"));
                                o.push(T::Group(Group::new(Delimiter::Parenthesis, path)));
                                i += 4;
                                continue;
                            }
                        }
                    }
                    if s == "f64" {
                        o.extend(ts("::engine::Sym"));
                    } else if s == "multicalc" && !after_path && !after_dot && is_p(v.get(i + 1), ':') {
                        o.extend(ts("crate::shim"));
                    } else if self.maths.contains(s.as_str()) && !after_dot {
                        o.extend(ts("crate::rt::k"));
                        o.push(T::Group(Group::new(Delimiter::Parenthesis, ts(&format!("::std::f64::consts::{s}")).into_iter().collect())));
                    } else if self.consts.contains(&s) && !after_dot {
                        o.push(v[i].clone());
                        o.extend(ts("()"));
                    } else {
                        o.push(v[i].clone());
                    }
                }
                T::Literal(l) => {
                    let s = l.to_string();
                    if float(&s) && !is_p(o.last(), '.') {
                        o.extend(ts("crate::rt::k"));
                        o.push(T::Group(Group::new(Delimiter::Parenthesis, TokenStream::from(v[i].clone()))));
                    } else {
                        o.push(v[i].clone());
                    }
                }
                t => o.push(t.clone()),
            }
            i += 1;
        }
        o.into_iter().collect()
    }
}
/// The module in `file`, its child modules written in place.
fn load(file: &Path, dir: &Path) -> Vec<T> {
    println!("cargo::rerun-if-changed={}", file.display());
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {e}", file.display()));
    let v: Vec<T> = TokenStream::from_str(&text).unwrap().into_iter().collect();
    let mut o: Vec<T> = ts("#[allow(unused_imports)] use crate::rt::Numeric as _; #[allow(unused_imports)] use crate::rt::Extra as _;");
    let writer = std::env::var_os("CARGO_FEATURE_WRITER").is_some();
    let mut i = 0;
    while i < v.len() {
        // inner attributes
        if is_p(v.get(i), '#') && is_p(v.get(i + 1), '!') {
            i += 3;
            continue;
        }
        // doc comments say nothing the compiler needs
        if is_p(v.get(i), '#') {
            if let Some(T::Group(g)) = v.get(i + 1) {
                let a: Vec<T> = g.stream().into_iter().collect();
                if is_i(a.first(), "doc") {
                    i += 2;
                    continue;
                }
            }
        }
        if is_i(v.get(i), "mod") && is_p(v.get(i + 2), ';') {
            let name = v[i + 1].to_string();
            if name == "codegen" && !writer {
                i += 3;
                continue;
            }
            let flat = dir.join(format!("{name}.rs"));
            let nested = dir.join(&name);
            let file: PathBuf = if flat.exists() { flat } else { nested.join("mod.rs") };
            let body = load(&file, &nested);
            o.push(T::Ident(Ident::new("mod", Span::call_site())));
            o.push(v[i + 1].clone());
            o.push(T::Group(Group::new(Delimiter::Brace, body.into_iter().collect())));
            i += 3;
            continue;
        }
        // pub use codegen::{..};
        if is_i(v.get(i), "pub") && is_i(v.get(i + 1), "use") && is_i(v.get(i + 2), "codegen") && !writer {
            while !is_p(v.get(i), ';') {
                i += 1;
            }
            i += 1;
            continue;
        }
        o.push(v[i].clone());
        i += 1;
    }
    o
}
fn main() {
    let src = Path::new("/repo/crates/multicalc-robot-model/src");
    println!("cargo::rerun-if-changed=../model_src/build.rs");
    println!("cargo::rerun-if-changed={}", src.display());
    let all = load(&src.join("lib.rs"), src);
    let mut c = HashSet::new();
    consts(&all, &mut c);
    let maths = ["PI", "TAU", "FRAC_PI_2", "FRAC_PI_4", "FRAC_PI_3", "FRAC_PI_6", "FRAC_PI_8", "FRAC_1_PI", "FRAC_2_PI", "SQRT_2", "FRAC_1_SQRT_2"];
    let rw = Rw { maths: maths.into_iter().filter(|m| !c.contains(*m)).collect(), consts: c };
    let _ = Punct::new(';', Spacing::Alone);
    let text = rw.walk(&all).to_string();
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(Path::new(&out).join("model.rs"), text).unwrap();
}
