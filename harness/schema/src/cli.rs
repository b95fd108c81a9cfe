//! The command line tool, run on files in a scratch directory.
use crate::front::{self, Set};
use crate::gen::{self, Valid, SCHEMAS};
use crate::print::{print, Layout};
use crate::{corpus, mutate};
use aldrin_codegen::{Generator, Options, RustOptions};
use aldrin_parser::{FilesystemResolver, Parser};
use std::fs::{self, File};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vp::{ensure, fail, Ctx, Fail, Res, Src};

/// A directory of this case's own, removed at its end.
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("vp-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&d).unwrap();
        Self(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

struct Out {
    code: i32,
    out: Vec<u8>,
    err: Vec<u8>,
}

/// Runs the tool inside `dir`. It has to exit by itself, with 0 or 1.
fn run(dir: &Path, args: &[String], stdin: Option<&[u8]>) -> Result<Out, Fail> {
    let exe = std::env::current_exe().unwrap().with_file_name("aldrin-gen");
    let io = dir.join(".io");
    fs::create_dir_all(&io).unwrap();
    let (o, e) = (io.join("out"), io.join("err"));
    let input = match stdin {
        Some(b) => {
            fs::write(io.join("in"), b).unwrap();
            Stdio::from(File::open(io.join("in")).unwrap())
        }
        None => Stdio::null(),
    };
    let mut c = Command::new(&exe)
        .args(args)
        .current_dir(dir)
        .env_clear()
        .env("NO_COLOR", "1")
        .stdin(input)
        .stdout(File::create(&o).unwrap())
        .stderr(File::create(&e).unwrap())
        .spawn()
        .unwrap_or_else(|x| vp::give_up(&format!("{}: {x}", exe.display())));
    let t = Instant::now();
    let st = loop {
        if let Some(st) = c.try_wait().unwrap() {
            break st;
        }
        let d = t.elapsed();
        if d > Duration::from_secs(80) {
            c.kill().ok();
            c.wait().ok();
            return Err(Fail::new("cli-hangs", format!("aldrin-gen {args:?} is still running after 80 s")));
        }
        std::thread::sleep(if d.as_millis() < 20 { Duration::from_micros(300) } else { Duration::from_millis(5) });
    };
    let (out, err) = (fs::read(&o).unwrap(), fs::read(&e).unwrap());
    match st.code() {
        Some(code @ (0 | 1)) => Ok(Out { code, out, err }),
        _ => Err(Fail::new("cli-crashes", format!("aldrin-gen {args:?}: {st}\n{}", String::from_utf8_lossy(&err)))),
    }
}

/// What is in a file, including what is not a text.
#[derive(Clone)]
enum Body {
    Text(String),
    Bytes(Vec<u8>),
}

impl Body {
    fn bytes(&self) -> &[u8] {
        match self {
            Body::Text(t) => t.as_bytes(),
            Body::Bytes(b) => b,
        }
    }
}

/// Schemas of all sorts. Names are those of files.
fn schemas(s: &mut Src) -> Vec<(String, Body)> {
    let layout = |s: &mut Src| [Layout::Wild, Layout::Plain, Layout::Tight][s.weighted(&[4, 2, 1])];
    let set: Vec<(String, String)> = match s.weighted(&[4, 3, 2, 3]) {
        0 => {
            let o = gen::any_opts(s);
            let v = Valid { o, schemas: 3, defs: 5, depth: 3, odd_names: s.bool(), services: true, channels: true, array_max: 30 };
            let mut all = gen::valid_schemas(s, &v);
            if s.chance(1, 3) {
                gen::fault(s, &mut all);
            }
            let l = layout(s);
            all.iter().map(|(n, x)| (n.clone(), print(s, x, l))).collect()
        }
        1 => {
            let o = gen::any_opts(s);
            let l = layout(s);
            let mut v = vec![];
            for n in &SCHEMAS {
                if *n != "missing" && (v.is_empty() || s.bool()) {
                    let x = gen::any_schema(s, &o);
                    v.push((n.to_string(), print(s, &x, l)));
                }
            }
            v
        }
        2 => {
            let mut all = gen::rings(s, 1);
            if s.bool() {
                gen::fault(s, &mut all);
            }
            all.iter().map(|(n, x)| (n.clone(), print(s, x, Layout::Plain))).collect()
        }
        _ => {
            let i = s.us(corpus::files().len());
            let mut v = corpus::with_siblings(i);
            v.truncate(4);
            let k = s.us(v.len());
            v[k].1 = if s.bool() { mutate::gentle(s, &v[k].1) } else { mutate::wild(s, &v[k].1) };
            v
        }
    };
    let mut set: Vec<(String, Body)> = set.into_iter().map(|(n, t)| (n, Body::Text(t))).collect();
    for (_, b) in &mut set {
        match (s.weighted(&[40, 3, 2, 1, 1]), &mut *b) {
            (1, Body::Text(t)) => t.truncate(t.trim_end().len()),
            (2, Body::Text(t)) => *t = t.replace('\n', "\r\n"),
            (3, Body::Text(t)) => t.clear(),
            (4, Body::Text(t)) => {
                let mut x = t.clone().into_bytes();
                let i = s.us(x.len() + 1);
                x.insert(i, 0xff);
                *b = Body::Bytes(x)
            }
            _ => {}
        }
    }
    set
}

/// As the library sees the same files.
fn library(set: &[(String, Body)], main: usize, visible: &[usize]) -> Set {
    let get = |i: &usize| {
        let (n, b) = &set[*i];
        (n.clone(), std::str::from_utf8(b.bytes()).map(str::to_owned).map_err(|e| e.to_string()))
    };
    std::iter::once(&main).chain(visible.iter().filter(|i| **i != main)).map(get).collect()
}

fn describe(set: &[(String, Body)], ctx: &mut Ctx) {
    ctx.describe(|| set.iter().map(|(n, b)| format!("{n}.aldrin: {:?}\n", String::from_utf8_lossy(b.bytes()))).collect::<String>());
}

fn show(b: &[u8]) -> String {
    format!("{:?}", String::from_utf8_lossy(b))
}

/// `aldrin-gen fmt`
pub fn fmt(s: &mut Src, ctx: &mut Ctx) -> Res {
    let set = schemas(s);
    describe(&set, ctx);
    ctx.nontrivial = true;
    let d = Scratch::new();
    let path = |i: usize| d.0.join(format!("{}.aldrin", set[i].0));
    let write = || (0..set.len()).for_each(|i| fs::write(path(i), set[i].1.bytes()).unwrap());
    write();
    // the files named, some perhaps twice, and perhaps one that is not there
    let mut named: Vec<usize> = (0..s.range(1, set.len())).map(|_| s.us(set.len())).collect();
    if s.bool() {
        named.sort();
        named.dedup();
    }
    let absent = s.chance(1, 10);
    let mut args: Vec<String> = vec!["fmt".into()];
    let absolute = s.bool();
    for i in &named {
        args.push(if absolute { path(*i).display().to_string() } else { format!("{}.aldrin", set[*i].0) });
    }
    if absent {
        args.insert(1 + s.us(named.len() + 1), "absent.aldrin".into());
    }
    let want: Vec<Option<Vec<u8>>> =
        (0..set.len()).map(|i| front::format(&front::parse(&library(&set, i, &[]))).map(String::into_bytes)).collect();
    let good = !absent && named.iter().all(|i| want[*i].is_some());
    let check: Vec<String> = args[..1].iter().cloned().chain(["--check".into()]).chain(args[1..].iter().cloned()).collect();
    let neat = good && named.iter().all(|i| want[*i].as_deref() == Some(set[*i].1.bytes()));

    let r = run(&d.0, &check, None)?;
    ensure!((r.code == 0) == neat, "check", "fmt --check: exit {}, but formatted is {neat}\n{}", r.code, show(&r.err));
    for i in 0..set.len() {
        let now = fs::read(path(i)).unwrap_or_default();
        ensure!(now == set[i].1.bytes(), "check-writes", "fmt --check changes {} to {}", set[i].0, show(&now));
    }
    for round in 0..2 {
        let r = run(&d.0, &args, None)?;
        ensure!((r.code == 0) == good, "exit", "fmt, round {round}: exit {}, but all can be formatted is {good}\n{}", r.code, show(&r.err));
        for i in 0..set.len() {
            let now = fs::read(path(i)).unwrap_or_default();
            let (is, what) = match (&want[i], named.contains(&i)) {
                (Some(f), true) => (f.as_slice(), "formatted"),
                _ => (set[i].1.bytes(), "left alone"),
            };
            ensure!(now == is, "written", "round {round}, {what}: {} is {} and not {}", set[i].0, show(&now), show(is));
        }
    }
    let r = run(&d.0, &check, None)?;
    ensure!((r.code == 0) == good, "check", "fmt --check after fmt: exit {}, but all can be formatted is {good}\n{}", r.code, show(&r.err));
    ctx.count(if good { "formatted" } else { "with errors" });

    // from stdin
    let i = s.us(set.len());
    write();
    let r = run(&d.0, &["fmt".into(), "-".into()], Some(set[i].1.bytes()))?;
    ensure!((r.code == 0) == want[i].is_some(), "stdin", "fmt -: exit {} for {}\n{}", r.code, show(set[i].1.bytes()), show(&r.err));
    if let Some(f) = &want[i] {
        ensure!(&r.out == f, "stdin", "fmt - says {} and not {}", show(&r.out), show(f));
    }
    let neat = want[i].as_deref() == Some(set[i].1.bytes());
    let r = run(&d.0, &["fmt".into(), "--check".into(), "-".into()], Some(set[i].1.bytes()))?;
    ensure!((r.code == 0) == neat, "stdin-check", "fmt --check -: exit {}, but formatted is {neat}\n{}", r.code, show(&r.err));
    Ok(())
}

/// `aldrin-gen check` and `aldrin-gen rust`
pub fn check(s: &mut Src, ctx: &mut Ctx) -> Res {
    let set = schemas(s);
    describe(&set, ctx);
    ctx.nontrivial = true;
    let d = Scratch::new();
    // every file in a directory; some of the directories are included
    let places: Vec<usize> = set.iter().map(|_| s.us(3)).collect();
    let included: Vec<bool> = (0..3).map(|_| s.chance(4, 5)).collect();
    for p in 0..3 {
        fs::create_dir_all(d.0.join(format!("d{p}"))).unwrap();
    }
    let path = |i: usize| format!("d{}/{}.aldrin", places[i], set[i].0);
    for i in 0..set.len() {
        fs::write(d.0.join(path(i)), set[i].1.bytes()).unwrap();
    }
    // A directory is no schema.
    if s.chance(1, 4) && !set.iter().any(|x| x.0 == "missing") {
        fs::create_dir_all(d.0.join("d0/missing.aldrin")).unwrap();
    }
    let mut inc: Vec<String> = vec![];
    let mut paths = vec![];
    for p in 0..3 {
        if included[p] {
            match s.below(3) {
                0 => inc.extend(["-I".into(), format!("d{p}")]),
                1 => inc.push(format!("--include=d{p}/")),
                _ => inc.extend(["--include".into(), d.0.join(format!("d{p}")).display().to_string()]),
            }
            paths.push(d.0.join(format!("d{p}")));
        }
    }
    let visible: Vec<usize> = (0..set.len()).filter(|i| included[places[*i]]).collect();
    let parse = |i: usize| front::parse(&library(&set, i, &visible));

    let mut named: Vec<usize> = (0..s.range(1, 3)).map(|_| s.us(set.len())).collect();
    let absent = s.chance(1, 10);
    let mut args: Vec<String> = vec!["check".into()];
    args.extend(inc.iter().cloned());
    args.extend(named.iter().map(|i| path(*i)));
    if absent {
        args.push("d0/absent.aldrin".into());
    }
    let mut good = !absent;
    for i in &named {
        let p = parse(*i);
        let q = Parser::parse(FilesystemResolver::with_include_paths(d.0.join(path(*i)), &paths));
        let said = |p: &Parser| -> Vec<String> {
            let l = |m: String| m.lines().filter(|l| !l.contains("the schema is located at")).collect::<Vec<_>>().join("\n");
            front::messages(p).into_iter().map(l).collect()
        };
        let (a, b) = (said(&p), said(&q));
        // how a broken file is reported differs
        let io = set.iter().any(|x| matches!(x.1, Body::Bytes(_)));
        ensure!(io || a == b, "files", "from memory: {a:#?}\nfrom files: {b:#?}");
        ensure!(p.errors().is_empty() == q.errors().is_empty(), "files", "from memory: {a:#?}\nfrom files: {b:#?}");
        good &= p.errors().is_empty();
    }
    let a = run(&d.0, &args, None)?;
    ensure!((a.code == 0) == good, "check", "aldrin-gen {args:?}: exit {}, but no errors is {good}\n{}", a.code, show(&a.err));
    let b = run(&d.0, &args, None)?;
    ensure!(a.code == b.code && a.err == b.err && a.out == b.out, "check-differs", "aldrin-gen {args:?} says\n{}\nand then\n{}", show(&a.err), show(&b.err));
    ctx.count(if good { "without errors" } else { "with errors" });

    named.dedup();
    let i = named[0];
    let p = parse(i);
    let mut args: Vec<String> = vec!["rust".into()];
    args.extend(inc.iter().cloned());
    let mut o = Options::new();
    o.client = s.chance(3, 4);
    o.server = s.chance(3, 4);
    o.introspection = s.bool();
    let mut ro = RustOptions::new();
    if !o.client {
        args.push("--no-client".into());
    }
    if !o.server {
        args.push("--no-server".into());
    }
    if o.introspection {
        if s.bool() {
            args.extend(["--introspection-if".into(), "feature".into()]);
            ro.introspection_if = Some("feature");
        } else {
            args.push("--introspection".into());
        }
    }
    if s.bool() {
        args.extend(["--crate".into(), "::other::krate".into()]);
        ro.krate = Some("::other::krate");
    }
    let out = s.bool();
    if out {
        fs::create_dir_all(d.0.join("out")).unwrap();
        args.extend(["-o".into(), "out".into()]);
    }
    args.push(path(i));
    let file = d.0.join(if out { "out" } else { "." }).join(format!("{}.rs", set[i].0));
    if s.bool() {
        fs::write(&file, "// ".to_string() + &"old ".repeat(50_000)).unwrap();
    }
    let old = fs::read(&file).ok();
    let r = run(&d.0, &args, None)?;
    let now = fs::read(&file).ok();
    let good = p.errors().is_empty();
    ensure!((r.code == 0) == good, "rust", "aldrin-gen {args:?}: exit {}, but no errors is {good}\n{}", r.code, show(&r.err));
    if good {
        let Ok(g) = Generator::new(&o, &p).rust(&ro) else { fail!("codegen-fails", "the generator fails for {}", set[i].0) };
        ensure!(
            now.as_deref() == Some(g.module_content.as_bytes()),
            "rust-file",
            "aldrin-gen {args:?} writes {} and not {:?}",
            show(&now.unwrap_or_default()),
            g.module_content
        );
        ctx.count("code generated");
    } else {
        ensure!(now == old, "rust-reachable", "aldrin-gen {args:?} writes {} in spite of errors", show(&now.unwrap_or_default()));
    }
    for i in 0..set.len() {
        ensure!(fs::read(d.0.join(path(i))).ok().as_deref() == Some(set[i].1.bytes()), "input", "{} is changed", set[i].0);
    }
    Ok(())
}
