//! Texts so deep that they may exhaust the stack, each in a process of its own.
use crate::front;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vp::{fail, Ctx, Res, Src};

/// Name, group and text. Groups are what findings are told apart by.
fn kinds() -> Vec<(&'static str, &'static str, fn() -> String)> {
    const N: usize = 20_000;
    fn nest(o: &str, m: &str, c: &str, n: usize) -> String {
        format!("{}{m}{}", o.repeat(n), c.repeat(n))
    }
    vec![
        ("options", "nested-types", || format!("newtype T = {};", nest("option<", "u8", ">", N))),
        ("arrays", "nested-types", || format!("struct T {{ a @ 1 = {}; }}", nest("[", "u8", "; 2]", N))),
        ("unfinished", "nested-types", || format!("enum T {{ A @ 1 = {}", nest("map<u8 -> ", "", "", N))),
        ("300 options", "300-nested-types", || format!("newtype T = {};", nest("option<", "u8", ">", 300))),
        ("300 arrays", "300-nested-types", || format!("struct T {{ a @ 1 = {}; }}", nest("[", "u8", "; 2]", 300))),
        ("300 results", "300-nested-types", || format!("service S {{ uuid = 7c0a9ccf-0c4c-4b1d-b4b5-0c5a1ff8e3b0; version = 1; fn f @ 1 = {}; }}", nest("result<u8, ", "u8", ">", 300))),
        ("quotes", "markdown", || format!("/// {}x\nstruct S {{}}", "> ".repeat(N))),
        ("lists", "markdown", || format!("/// {}x\nstruct S {{}}", "- ".repeat(N))),
        ("brackets", "markdown", || format!("/// {}\nstruct S {{}}", nest("[", "x", "]", N))),
        ("emphasis", "markdown", || format!("/// {}\nstruct S {{}}", nest("*a ", "x", " b*", N))),
        ("images", "markdown", || format!("/// {}\nstruct S {{}}", nest("![", "x", "](a)", N))),
        ("links", "markdown", || format!("/// {}\nstruct S {{}}", "[Foo](self::Bar) ".repeat(N / 20))),
        ("comments", "lines", || format!("{}struct S {{}}", "// x\n".repeat(N))),
        ("docs", "lines", || format!("{}struct S {{}}", "/// x [Foo]\n".repeat(N / 10))),
        ("attributes", "lines", || format!("{}struct S {{}}", "#[rust(impl_copy)]\n".repeat(N / 10))),
        ("imports", "lines", || (0..N / 20).map(|i| format!("import a{i};")).collect()),
        ("digits", "lines", || format!("struct S {{ a @ {} = u8; }}", "1".repeat(N))),
        ("name", "lines", || format!("struct S{} {{}}", "a".repeat(N))),
        ("newtype chain", "type-chain", || (0..100_000).map(|i| format!("newtype S{i} = S{};\n", i + 1)).collect::<String>() + "newtype S100000 = u8;"),
        ("struct chain", "type-chain", || (0..100_000).map(|i| format!("struct S{i} {{ a @ 1 = S{}; }}\n", i + 1)).collect()),
    ]
}

/// The last two take minutes.
pub fn count(thorough: bool) -> u64 {
    if thorough { 20 } else { 18 }
}

/// In the child.
pub fn child(i: usize) {
    let set = vec![("main".to_string(), Ok(kinds()[i].2()))];
    let p = front::parse(&set);
    let n = p.errors().len() + p.warnings().len();
    let r = aldrin_parser::Renderer::new(true, true, 100);
    for e in p.errors().iter().take(20) {
        r.render(e, &p);
    }
    for e in p.warnings().iter().take(20) {
        r.render(e, &p);
    }
    let f = front::format(&p);
    println!("{n} reports, formatted: {}", f.is_some());
}

pub fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.u64() as usize;
    let (name, group, _) = kinds()[i];
    ctx.describe(|| name.to_string());
    ctx.nontrivial = true;
    let mut c = Command::new(std::env::current_exe().unwrap()).args(["deep", &i.to_string()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            if !st.success() {
                fail!(format!("stack-overflow-{group}"), "{name}: {st}");
            }
            ctx.count("finished");
            return Ok(());
        }
        if t.elapsed() > Duration::from_secs(300) {
            c.kill().ok();
            c.wait().ok();
            ctx.count("still busy after 300 s");
            return Ok(());
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}
