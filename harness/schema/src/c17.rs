use crate::front::{self, Set};
use crate::gen::{self, Valid, SCHEMAS};
use crate::print::{print, Layout};
use crate::{cli, corpus, deep, mutate};
use aldrin_codegen::{Generator, Options, RustOptions};
use aldrin_parser::{Diagnostic, DiagnosticKind, Formatter, LinkResolver, Parser, Renderer};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vp::{ensure, fail, Ctx, Kind, Part, Property, Res, Src};

const LINKS: [&str; 34] = [
    "", "self", "self::", "::", ":", ":::", "::::", "Foo", "self::Foo", "Foo::a", "Foo::a::b", "Foo::", "::Foo", "Bar::A", "Svc::f", "Svc::f::args",
    "Svc::f::args::a", "Svc::f::ok::A", "Svc::f::err", "Svc::f::nope", "Svc::ev", "Svc::ev::args", "Svc::ev::a", "other::Foo", "other::",
    "missing::Foo", "main::Foo", "Svc::unknown", "CONST", "CONST::a", "New", "New::a", "é", "Foo:a",
];

/// Everything a user can do with a set of schemas.
fn exercise(set: &Set, s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = front::parse(set);
    let plain = Renderer::new(false, false, 100);
    let first = front::rendered(&p, &plain);
    let n = first.len();
    ensure!(p.errors().iter().all(|e| e.kind() == DiagnosticKind::Error), "kind", "an error that is not one: {first:#?}");
    ensure!(
        p.warnings().iter().chain(p.other_warnings()).all(|e| e.kind() == DiagnosticKind::Warning),
        "kind",
        "a warning that is not one: {first:#?}"
    );
    for (color, unicode) in [(true, true), (false, true), (true, false)] {
        let w = *s.pick(&[100, 20, 1, 0, 80, 3, 140, usize::MAX]);
        front::rendered(&p, &Renderer::new(color, unicode, w));
    }
    let formatted = Formatter::new(&p).map(|f| f.to_string());
    for schema in set.iter().filter_map(|(n, _)| p.get_schema(n)) {
        let r = LinkResolver::new(&p, schema);
        for l in LINKS {
            let _ = r.resolve(l);
            let _ = LinkResolver::convert_broken_link(l);
            let _ = r.convert_broken_link_if_valid(l);
        }
    }
    // again, with its own hash seeds
    let q = front::parse(set);
    let second = front::rendered(&q, &plain);
    if first != second {
        let (mut a, mut b) = (first.clone(), second.clone());
        a.sort();
        b.sort();
        let sig = if a == b { "order" } else { "different" };
        fail!(sig, "parsed twice, reported\n{first:#?}\nand then\n{second:#?}\nfor {set:#?}");
    }
    let formatted2 = Formatter::new(&q).map(|f| f.to_string());
    ensure!(formatted.as_ref().ok() == formatted2.as_ref().ok(), "format-differs", "formatted twice: {formatted:?} and {formatted2:?}");
    if let Err(e) = &formatted {
        ensure!(!e.is_empty(), "format-why", "not formatted, but no errors");
    }
    ctx.count_n("reports", n as u64);
    generate(set, &p, s, ctx)
}

fn generate(set: &Set, p: &Parser, s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut o = Options::new();
    o.client = s.chance(3, 4);
    o.server = s.chance(3, 4);
    o.introspection = s.bool();
    if !p.errors().is_empty() {
        ctx.count("with errors");
        if s.chance(1, 16) {
            let r = catch_unwind(AssertUnwindSafe(|| Generator::new(&o, p)));
            ensure!(r.is_err(), "reachable", "a generator for a schema with errors: {set:#?}");
        }
        return Ok(());
    }
    ctx.count("without errors");
    if first_is_schema(p) && Formatter::new(p).is_err() {
        fail!("format-errors", "no errors, but the formatter refuses: {set:#?}");
    }
    let mut r = RustOptions::new();
    r.introspection_if = s.bool().then_some("feature");
    r.krate = s.bool().then_some("::other::krate");
    let g = Generator::new(&o, p);
    let a = g.rust(&r);
    let b = Generator::new(&o, p).rust(&r);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            ensure!(
                a.module_name == b.module_name && a.module_content == b.module_content,
                "code-differs",
                "generated twice:\n{}\n----\n{}",
                a.module_content,
                b.module_content
            );
            ensure!(a.module_name == p.main_schema().name(), "module", "{} for {}", a.module_name, p.main_schema().name());
            ctx.count("code generated");
        }
        (a, b) => fail!("codegen-fails", "{a:?} {b:?} for {set:#?}"),
    }
    Ok(())
}

fn first_is_schema(p: &Parser) -> bool {
    p.main_schema().source().is_some()
}

fn name(s: &mut Src) -> String {
    if s.chance(5, 6) {
        "main".into()
    } else {
        s.pick(&["", " ", "é", "type", "Camel", "a-b", "a::b", "other", "0x", "a\nb", "\u{1b}[31m", "_"]).to_string()
    }
}

fn soups(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut set: Set = vec![(name(s), Ok(mutate::soup(s)))];
    if s.chance(1, 4) {
        set.push(("other".into(), if s.chance(1, 4) { Err("no such file".into()) } else { Ok(mutate::soup(s)) }));
    }
    if s.chance(1, 50) {
        set[0].1 = Err(gen::line(s, true));
    }
    ctx.describe(|| format!("{set:#?}"));
    ctx.nontrivial = set[0].1.as_ref().is_ok_and(|t| t.len() > 20);
    exercise(&set, s, ctx)
}

fn mutants(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.us(corpus::files().len());
    let mut v = corpus::with_siblings(i);
    let k = if v.len() > 1 && s.chance(1, 4) { s.us(v.len()) } else { 0 };
    v[k].1 = if s.chance(1, 3) { mutate::gentle(s, &v[k].1) } else { mutate::wild(s, &v[k].1) };
    if k != 0 && s.bool() {
        v[0].1 = mutate::wild(s, &v[0].1);
    }
    let set = front::ok_set(&v);
    ctx.describe(|| format!("{} with {} as {:?}", corpus::files()[i].path.display(), v[k].0, v[k].1));
    ctx.nontrivial = true;
    exercise(&set, s, ctx)
}

fn layout(s: &mut Src) -> Layout {
    [Layout::Wild, Layout::Plain, Layout::Tight][s.weighted(&[4, 3, 1])]
}

/// Grammatical schemas importing each other, some missing or unreadable, hardly any free of errors.
fn grammatical(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = gen::any_opts(s);
    let mut set: Set = vec![];
    for n in &SCHEMAS {
        match (set.is_empty(), *n) {
            (_, "missing") => continue,
            (false, "broken") => set.push(("broken".into(), Err("cannot be read".into()))),
            (first, n) if first || s.bool() => {
                let x = gen::any_schema(s, &o);
                let l = layout(s);
                let mut t = print(s, &x, l);
                if s.chance(1, 8) {
                    t = mutate::wild(s, &t);
                }
                let n = if first { name(s) } else { n.to_string() };
                set.push((n, Ok(t)));
            }
            _ => {}
        }
    }
    ctx.describe(|| format!("{set:#?}"));
    ctx.nontrivial = true;
    exercise(&set, s, ctx)
}

/// Schemas without errors, with the hardest doc comments.
fn valid(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut o = gen::any_opts(s);
    o.wild_text = true;
    o.text = *s.pick(&[6, 2, 9]);
    let v = Valid { o, schemas: 3, defs: 6, depth: 3, odd_names: s.bool(), services: true, channels: true, array_max: 30 };
    let all = gen::valid_schemas(s, &v);
    let l = layout(s);
    let set: Set = all.iter().map(|(n, x)| (n.clone(), Ok(print(s, x, l)))).collect();
    ctx.describe(|| format!("{set:#?}"));
    ctx.nontrivial = true;
    let p = front::parse(&set);
    if !p.errors().is_empty() {
        let r = Renderer::new(false, false, 100);
        fail!("rejected", "generated to be valid, but {}\n{set:#?}", r.render(&p.errors()[0], &p));
    }
    exercise(&set, s, ctx)
}

/// One doc comment, everywhere.
fn docs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.range(1, 5);
    let doc = |s: &mut Src, mark: &str| {
        let mut t = String::new();
        for _ in 0..n {
            t.push_str(s.pick(&["", "", "    ", "\t"]));
            t.push_str(mark);
            t.push_str(&gen::line(s, true));
            t.push_str(s.pick(&["\n", "\r\n", "\n\n"]));
        }
        t
    };
    let mut t = doc(s, "//!");
    t.push_str("import other;\n");
    t.push_str(&doc(s, "///"));
    t.push_str("struct Foo {\n");
    t.push_str(&doc(s, "///"));
    t.push_str("a @ 1 = u8; unknown = fallback; }\nenum Bar { B @ 1; }\nservice Svc { uuid = 7c0a9ccf-0c4c-4b1d-b4b5-0c5a1ff8e3b0; version = 1;\n");
    t.push_str(&doc(s, "///"));
    t.push_str("fn f @ 1 { args = struct {\n");
    t.push_str(&doc(s, "//!"));
    t.push_str("a @ 1 = other::Foo; }\nok = enum { A @ 1; } }\nevent ev @ 1 = struct { a @ 1 = u8; }\n}\n");
    t.push_str(&doc(s, "///"));
    t.push_str("const CONST = u8(1);");
    let set: Set = vec![("main".into(), Ok(t)), ("other".into(), Ok("struct Foo { a @ 1 = u8; }".into()))];
    ctx.describe(|| format!("{set:#?}"));
    ctx.nontrivial = true;
    exercise(&set, s, ctx)
}

/// Few definitions, all over each other: every reference may close a ring.
fn rings(s: &mut Src, ctx: &mut Ctx) -> Res {
    let wrong = *s.pick(&[0, 1, 4]);
    let mut all = gen::rings(s, wrong);
    for _ in 0..s.below(3) {
        gen::fault(s, &mut all);
    }
    let l = *s.pick(&[Layout::Plain, Layout::Tight]);
    let set: Set = all.iter().map(|(n, x)| (n.clone(), Ok(print(s, x, l)))).collect();
    ctx.describe(|| format!("{set:#?}"));
    ctx.nontrivial = true;
    exercise(&set, s, ctx)
}

/// Regular texts of growing size.
fn shapes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (kind, n) = {
        let i = s.u64() as usize;
        (i % 18, [10, 30, 60, 100, 200][i / 18 % 5])
    };
    let w = n * 20;
    let nest = |o: &str, m: &str, c: &str, k: usize| format!("{}{m}{}", o.repeat(k), c.repeat(k));
    let mut other = None;
    let t = match kind {
        // references that fan out and meet again
        0 => (0..n).map(|i| format!("struct S{i} {{ a @ 1 = S{}; b @ 2 = S{}; }}\n", i + 1, i + 1)).collect::<String>() + &format!("struct S{n} {{}}"),
        1 => (0..n).map(|i| format!("enum S{i} {{ A @ 1 = option<S{}>; B @ 2 = S{}; }}\n", i + 1, i + 1)).collect::<String>() + &format!("enum S{n} {{ A @ 1; }}"),
        2 => (0..n).map(|i| format!("newtype S{i} = result<S{}, S{}>;\n", i + 1, i + 1)).collect::<String>() + &format!("newtype S{n} = u8;"),
        3 => (0..2 * n).map(|i| format!("newtype S{i} = S{};\n", i + 1)).collect::<String>() + &format!("newtype S{} = u8; newtype K = set<S0>;", 2 * n),
        4 => (0..2 * n).map(|i| format!("newtype S{i} = S{};\n", (i + 1) % (2 * n))).collect::<String>() + "newtype K = map<S0 -> u8>;",
        5 => format!("newtype T = {};", nest("option<", "u8", ">", n)),
        6 => format!("newtype T = {};", nest("[", "u8", "; 2]", n)),
        7 => format!("newtype T = {};", nest("map<u8 -> result<u8, ", "u8", ">>", n)),
        8 => format!("newtype T = {}", nest("option<", "u8", "", n)),
        9 => format!("/// {}\nstruct S {{}}", nest("[", "x", "]", w)),
        10 => format!("/// {}\nstruct S {{}}", "[`".repeat(w)),
        11 => format!("/// {}\nstruct S {{}}", "[Foo](".repeat(3 * n)),
        12 => format!("{}struct S {{}}", "/// > [Foo]\n".repeat(3 * n)),
        13 => format!("/// {}\nstruct S {{}}", "> ".repeat(n)),
        14 => format!("{}struct S {{}}", "// x\n".repeat(w)),
        15 => format!("struct S {{ {} }}", (0..2 * n).map(|i| format!("f{} @ {} = Nope;", i % 100, i % 90)).collect::<String>()),
        16 => format!("/// {}\nstruct S {{}}", "**_~~".repeat(w)),
        _ => {
            other = Some((0..n).map(|i| format!("struct S{i} {{ a @ 1 = main::S{i}; b @ 2 = main::S{i}; }}\n")).collect::<String>());
            format!("import other;\n{}", (0..n).map(|i| format!("struct S{i} {{ a @ 1 = other::S{}; b @ 2 = other::S{}; }}\n", i + 1, i + 1)).collect::<String>())
        }
    };
    let mut set: Set = vec![("main".into(), Ok(t))];
    if let Some(o) = other {
        set.push(("other".into(), Ok(format!("import main;\n{o}"))));
    }
    ctx.describe(|| format!("shape {kind}, size {n}"));
    ctx.nontrivial = true;
    exercise(&set, s, ctx)
}

fn repo(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.u64() as usize;
    let f = corpus::files();
    let k = i / f.len();
    let mut v = corpus::with_siblings(i % f.len());
    match k {
        0 => {}
        1 => v.truncate(1),
        2 => v.iter_mut().for_each(|x| x.1 = x.1.replace('\n', "\r\n")),
        3 => v[0].1 = v[0].1.replace('\n', "\r"),
        _ => v[0].1 = v[0].1.replace(' ', "\t"),
    }
    ctx.describe(|| format!("{} ({k})", f[i % f.len()].path.display()));
    ctx.nontrivial = true;
    exercise(&front::ok_set(&v), s, ctx)
}

pub fn property() -> Property {
    Property {
        id: "C17",
        level: "exploration",
        rule: "a text of more than 20 bytes; anything but a token soup always counts",
        assumptions: &["a case that takes over 90 s does not terminate", "the main thread's stack of 8 MiB"],
        parts: vec![
            Part::new("soups", Kind::Random(400000, 12000000), soups).secs(60, 900),
            Part::new("mutants", Kind::Random(80000, 3000000), mutants).secs(60, 1200),
            Part::new("grammatical", Kind::Random(30000, 1000000), grammatical).secs(60, 1200),
            Part::new("valid", Kind::Random(12000, 500000), valid).secs(60, 1200),
            Part::new("rings", Kind::Random(20000, 800000), rings).secs(60, 1200),
            Part::new("docs", Kind::Random(40000, 1500000), docs).secs(60, 1200),
            Part::new("tool", Kind::Random(1500, 100_000), cli::check).secs(60, 900),
            Part::new("shapes", Kind::Enumerate(|_| 18 * 5), shapes).hang(60),
            Part::new("deep", Kind::Enumerate(deep::count), deep::run).hang(400).secs(60, 900),
            Part::new("repository", Kind::Enumerate(|_| corpus::files().len() as u64 * 5), repo),
        ],
    }
}
