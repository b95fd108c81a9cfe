//! A program made of generated code: source, compilation, and talking to the running program.
use crate::types::{Entry, D};
use aldrin_codegen::rust::names;
use aldrin_codegen::{Generator, Options, RustOptions};
use aldrin_parser::{MemoryResolver, Parser, Renderer};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::fs;
use std::io::{Read, Write as _};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Intro {
    On,
    Off,
    IfOn,
    IfOff,
}

#[derive(Clone, Copy, Debug)]
pub struct Conf {
    pub client: bool,
    pub server: bool,
    pub intro: Intro,
    /// Through `generate!` instead of files written by the code generator.
    pub via_macro: bool,
    /// The library under another name.
    pub alt_crate: bool,
    pub edition: &'static str,
}

impl Conf {
    pub fn introspectable(&self) -> bool {
        matches!(self.intro, Intro::On | Intro::IfOn)
    }

    pub fn services(&self) -> bool {
        self.client || self.server
    }
}

/// A set of schemas in a module of its own.
pub struct Wrap {
    pub name: String,
    pub set: Vec<(String, String)>,
    pub conf: Conf,
}

/// Everything a program is made of.
#[derive(Clone, Default)]
pub struct Program {
    pub files: Vec<(String, String)>,
    /// Only see whether it compiles.
    pub check: bool,
    pub edition: &'static str,
}

#[derive(Debug)]
pub enum NoCode {
    /// The schema has errors.
    Invalid(String),
    Codegen(String),
}

fn parser(set: &[(String, String)], main: usize) -> Parser {
    let mut r = MemoryResolver::new(set[main].0.clone(), Ok(set[main].1.clone()));
    for (i, (n, t)) in set.iter().enumerate() {
        if i != main {
            r.add(n.clone(), Ok(t.clone()));
        }
    }
    Parser::parse(r)
}

/// Whether each schema of the set is free of errors.
pub fn validate(set: &[(String, String)]) -> Result<(), String> {
    for main in 0..set.len() {
        let p = parser(set, main);
        if let Some(e) = p.errors().first() {
            return Err(Renderer::new(false, false, 100).render(e, &p));
        }
    }
    Ok(())
}

impl Program {
    pub fn new(wraps: &[Wrap], exprs: &[String]) -> Result<Self, NoCode> {
        let conf = wraps[0].conf;
        let lib = if conf.alt_crate { "alt" } else { "aldrin" };
        let mut files = vec![];
        let mut root = format!("extern crate genrt as {lib};\nuse ::{lib}::rt;\n");
        for w in wraps {
            let intro = w.conf.intro != Intro::Off;
            let feature = match w.conf.intro {
                Intro::IfOn => Some("on"),
                Intro::IfOff => Some("off"),
                _ => None,
            };
            for (n, t) in &w.set {
                files.push((format!("{}/{n}.aldrin", w.name), t.clone()));
            }
            let _ = writeln!(root, "pub mod {} {{", w.name);
            if w.conf.via_macro {
                let _ = write!(root, "::{lib}::generate!(");
                for (n, _) in &w.set {
                    let _ = write!(root, "\"@DIR@/{}/{n}.aldrin\", ", w.name);
                }
                let _ = write!(root, "include = \"@DIR@/{}\", client = {}, server = {}", w.name, w.conf.client, w.conf.server);
                match feature {
                    Some(f) => {
                        let _ = write!(root, ", introspection_if = \"{f}\"");
                    }
                    None => {
                        let _ = write!(root, ", introspection = {intro}");
                    }
                }
                if conf.alt_crate {
                    let _ = write!(root, ", crate = ::{lib}");
                }
                let _ = writeln!(root, ");");
            } else {
                for (main, (n, _)) in w.set.iter().enumerate() {
                    let p = parser(&w.set, main);
                    if let Some(e) = p.errors().first() {
                        return Err(NoCode::Invalid(Renderer::new(false, false, 100).render(e, &p)));
                    }
                    let mut o = Options::new();
                    o.client = w.conf.client;
                    o.server = w.conf.server;
                    o.introspection = intro;
                    let mut ro = RustOptions::new();
                    ro.introspection_if = feature;
                    ro.krate = conf.alt_crate.then_some("::alt");
                    let g = Generator::new(&o, &p).rust(&ro).map_err(|e| NoCode::Codegen(e.to_string()))?;
                    assert_eq!(g.module_name, *n);
                    files.push((format!("{}/{n}.rs", w.name), g.module_content));
                    let _ = writeln!(root, "#[path = \"{n}.rs\"] pub mod r#{n};");
                }
            }
            let _ = writeln!(root, "}}");
        }
        let _ = writeln!(root, "fn main() {{ rt::serve(&[");
        for e in exprs {
            let _ = writeln!(root, "  {e},");
        }
        let _ = writeln!(root, "]) }}");
        files.push(("main.rs".into(), root));
        Ok(Program { files, check: false, edition: conf.edition })
    }

    fn hash(&self) -> u64 {
        let mut h = vp::fnv(self.edition.bytes());
        for (a, b) in &self.files {
            h = vp::mix(h ^ vp::fnv(a.bytes())) ^ vp::fnv(b.bytes());
        }
        h
    }

    pub fn listing(&self) -> String {
        let mut t = String::new();
        for (n, c) in &self.files {
            if n.ends_with(".aldrin") || n == "main.rs" {
                let _ = writeln!(t, "== {n}\n{c}");
            }
        }
        t
    }
}

/// The expression for a type's entry.
pub fn type_entry(wrap: &str, e: &Entry, intro: bool) -> String {
    let m = format!("{wrap}::r#{}", e.schema);
    let p = format!("{m}::r#{}", e.name);
    let r = format!("{m}::r#{}", names::default_ref_type(&e.name));
    let tag = format!("<{p} as ::genrt_tag>::Tag").replace("::genrt_tag", "rt::PrimaryTag");
    let by_ref = match &e.d {
        D::Newtype(_) => format!("|x| rt::bytes::<{tag}, _>({r}(&x.0))"),
        D::Struct(f, fb) if f.is_empty() && fb.is_none() => format!("|_| rt::bytes::<{tag}, _>({r})"),
        D::Struct(f, fb) => {
            let names = f.iter().map(|f| &f.name).chain(fb);
            let init: Vec<_> = names.map(|n| format!("r#{n}: &x.r#{n}")).collect();
            format!("|x| rt::bytes::<{tag}, _>({r} {{ {} }})", init.join(", "))
        }
        D::Enum(v, fb) => {
            let mut arms = vec![];
            // a variant hides a constructor of its name
            let hidden = |c: &String| v.iter().map(|v| &v.0).chain(fb).any(|n| n == c);
            for (n, _, t) in v {
                let c = names::enum_ref_type_ctor(n);
                arms.push(match t {
                    None if hidden(&c) => format!("y @ {p}::r#{n} => rt::bytes::<{tag}, _>(y)"),
                    Some(_) if hidden(&c) => format!("y @ {p}::r#{n}(_) => rt::bytes::<{tag}, _>(y)"),
                    None => format!("{p}::r#{n} => rt::bytes::<{tag}, _>({r}::r#{c}())"),
                    Some(_) => format!("{p}::r#{n}(v) => rt::bytes::<{tag}, _>({r}::r#{c}(v))"),
                });
            }
            if let Some(n) = fb {
                let c = names::enum_ref_type_ctor(n);
                arms.push(match hidden(&c) {
                    true => format!("y @ {p}::r#{n}(_) => rt::bytes::<{tag}, _>(y)"),
                    false => format!("{p}::r#{n}(v) => rt::bytes::<{tag}, _>({r}::r#{c}(v))"),
                });
            }
            format!("|x| match x {{ {} }}", arms.join(", "))
        }
    };
    let (id, record) =
        if intro { (format!("rt::id::<{p}>()"), format!("rt::record::<{p}>()")) } else { ("None".into(), "None".into()) };
    format!("rt::Entry {{ value: rt::value::<{p}>({by_ref}), id: {id}, record: {record} }}")
}

/// The type of a client, or of a server.
pub fn service_entry(wrap: &str, schema: &str, name: &str, client: bool) -> String {
    let name = if client { names::service_proxy(name) } else { name.into() };
    let p = format!("{wrap}::r#{schema}::r#{name}");
    format!("rt::Entry {{ value: None, id: rt::id::<{p}>(), record: rt::record::<{p}>() }}")
}

/// A compiled program.
pub struct Running {
    dir: PathBuf,
    child: Option<Child>,
}

impl Drop for Running {
    fn drop(&mut self) {
        self.stop();
        let _ = fs::remove_dir_all(&self.dir);
    }
}

#[derive(Debug, Clone)]
pub struct Rejected {
    /// The first error's code or message.
    pub what: String,
    pub text: String,
}

impl Running {
    fn stop(&mut self) {
        if let Some(mut c) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }

    pub fn call(&mut self, entry: usize, op: u8, b: &[u8]) -> Result<Vec<u8>, String> {
        if self.child.is_none() {
            let c = Command::new(self.dir.join("case"))
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .unwrap_or_else(|e| vp::give_up(&format!("cannot start a compiled program: {e}")));
            self.child = Some(c);
        }
        let c = self.child.as_mut().unwrap();
        let mut req = vec![];
        req.extend((entry as u32).to_le_bytes());
        req.push(op);
        req.extend((b.len() as u32).to_le_bytes());
        req.extend(b);
        let mut go = || {
            let i = c.stdin.as_mut().unwrap();
            i.write_all(&req)?;
            i.flush()?;
            let o = c.stdout.as_mut().unwrap();
            let mut h = [0; 5];
            o.read_exact(&mut h)?;
            let mut v = vec![0; u32::from_le_bytes(h[1..].try_into().unwrap()) as usize];
            o.read_exact(&mut v)?;
            Ok::<_, std::io::Error>((h[0] == 1, v))
        };
        match go() {
            Ok((true, v)) => Ok(v),
            Ok((false, v)) => Err(String::from_utf8_lossy(&v).into_owned()),
            Err(_) => {
                self.stop();
                Err("crash: the program ended".into())
            }
        }
    }
}

thread_local! {
    static LAST: RefCell<Option<(u64, Result<Running, Rejected>)>> = const { RefCell::new(None) };
}

static NEXT: AtomicU64 = AtomicU64::new(0);

/// Compiles the program, unless it is the one compiled last, and hands it out.
pub fn with<T>(p: &Program, work: &Path, f: impl FnOnce(&mut Running) -> T) -> Result<T, Rejected> {
    let h = p.hash();
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        if l.as_ref().is_none_or(|l| l.0 != h) {
            *l = None;
            *l = Some((h, compile(p, work)));
        }
        match &mut l.as_mut().unwrap().1 {
            Ok(r) => Ok(f(r)),
            Err(e) => Err(e.clone()),
        }
    })
}

fn compile(p: &Program, work: &Path) -> Result<Running, Rejected> {
    let dir = work.join(format!("crate-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst)));
    let ok = |r: std::io::Result<()>| r.unwrap_or_else(|e| vp::give_up(&format!("{}: {e}", dir.display())));
    ok(fs::create_dir_all(&dir));
    let r = Running { dir: dir.clone(), child: None };
    for (n, c) in &p.files {
        let f = dir.join(n);
        ok(fs::create_dir_all(f.parent().unwrap()));
        ok(fs::write(f, c.replace("@DIR@", dir.to_str().unwrap())));
    }
    let lib = std::env::current_exe().unwrap().parent().unwrap().to_path_buf();
    let out = Command::new("rustc")
        .args(["--edition", p.edition, "--crate-name", "case", "--crate-type", "bin", "-C", "debuginfo=0", "-C", "opt-level=0"])
        .args(["-A", "warnings", "--cfg", "feature=\"on\"", "--color", "never"])
        .arg("-L")
        .arg(format!("dependency={}", lib.join("deps").display()))
        .arg("--extern")
        .arg(format!("genrt={}", lib.join("libgenrt.rlib").display()))
        .arg("-o")
        .arg(dir.join("case"))
        .arg(dir.join("main.rs"))
        .args(p.check.then_some("--emit=metadata"))
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| vp::give_up(&format!("rustc: {e}")));
    if out.status.success() {
        return Ok(r);
    }
    let text = String::from_utf8_lossy(&out.stderr).replace(dir.to_str().unwrap(), "DIR");
    let Some(first) = text.lines().find(|l| l.starts_with("error")) else {
        vp::give_up(&format!("rustc ended with {} and no error:\n{text}", out.status))
    };
    if out.status.code() != Some(1) || text.contains("No space left") || text.contains("can't find crate") {
        vp::give_up(&format!("rustc ended with {}:\n{text}", out.status));
    }
    let what = match first.strip_prefix("error[").and_then(|x| x.split_once(']')) {
        Some((c, _)) => c.to_string(),
        None => first.chars().filter(|c| !c.is_ascii_digit()).take(60).collect(),
    };
    Err(Rejected { what, text: text.chars().take(6000).collect() })
}
