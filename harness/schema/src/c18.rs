use crate::front::{self, Set};
use crate::gen::{self, Valid};
use crate::model::{self, Schema};
use crate::print::{print, Layout};
use crate::{astx, cli, corpus, lexer, mutate};
use aldrin_parser::Formatter;
use vp::{ensure, fail, Ctx, Kind, Part, Property, Res, Src};

/// Formats the first schema of the set; `want` is what it says.
fn check(set: &Set, want: Option<&Schema>, ctx: &mut Ctx) -> Res {
    let p = front::parse(set);
    let src = set[0].1.as_ref().map_or("", |s| s);
    let f = match Formatter::new(&p) {
        Ok(f) => f.to_string(),
        Err(e) if want.is_some() => {
            let r = aldrin_parser::Renderer::new(false, false, 100);
            fail!("rejected", "generated by the grammar, but rejected: {}\n{src:?}", r.render(e[0], &p))
        }
        Err(_) => {
            ctx.count("not syntactically valid");
            return Ok(());
        }
    };
    let read = astx::schema(p.main_schema());
    let a = model::canonical(&read);
    if let Some(want) = want {
        let w = model::canonical(want);
        ensure!(a == w, "misread", "the schema as read differs from the one that was written: {}\n{src:?}", model::diff(&w, &a));
    }
    let mut buf = vec![];
    let w = Formatter::new(&p).unwrap().to_writer(&mut buf);
    ensure!(w.is_ok() && buf == f.as_bytes(), "writer", "to_writer and to_string differ: {w:?} {:?} {f:?}", String::from_utf8_lossy(&buf));
    let mut set2 = set.clone();
    set2[0].1 = Ok(f.clone());
    let p2 = front::parse(&set2);
    let f2 = match Formatter::new(&p2) {
        Ok(f) => f.to_string(),
        Err(e) => {
            let r = aldrin_parser::Renderer::new(false, false, 100);
            fail!("unparsable", "the formatted schema is rejected: {}\nsource    {src:?}\nformatted {f:?}", r.render(e[0], &p2))
        }
    };
    let read2 = astx::schema(p2.main_schema());
    let b = model::canonical(&read2);
    ensure!(a == b, "changed", "the formatted schema differs: {}\nsource    {src:?}\nformatted {f:?}", model::diff(&a, &b));
    let names: Vec<_> = read2.imports.iter().map(|i| &i.1).collect();
    ensure!(names.is_sorted(), "imports", "imports are not sorted: {names:?}\n{f:?}");
    let (m1, m2) = (front::messages(&p), front::messages(&p2));
    if m1 != m2 {
        let only = |x: &[String], y: &[String]| {
            let mut y = y.to_vec();
            x.iter().filter(|m| y.iter().position(|k| k == *m).map(|i| y.swap_remove(i)).is_none()).cloned().collect::<Vec<_>>()
        };
        fail!(
            "diagnostics",
            "reports differ: only before {:?}, only after {:?}\nsource    {src:?}\nformatted {f:?}",
            only(&m1, &m2),
            only(&m2, &m1)
        );
    }
    ensure!(f2 == f, "again", "formatting again changes it\nsource {src:?}\nonce   {f:?}\ntwice  {f2:?}");
    // what the text says, read without the parser
    let (x, y) = (lexer::bag(src), lexer::bag(&f));
    if x != y {
        let d: Vec<_> = x.iter().filter(|(k, n)| y.get(*k) != Some(n)).chain(y.iter().filter(|(k, n)| x.get(*k) != Some(n))).collect();
        fail!("text", "tokens lost or gained: {d:?}\nsource    {src:?}\nformatted {f:?}");
    }
    ctx.count_n("definitions", a.defs.len() as u64);
    ctx.count_n("diagnostics compared", m1.len() as u64);
    if f != src {
        ctx.count("layout changed");
    }
    Ok(())
}

fn layout(s: &mut Src) -> Layout {
    [Layout::Wild, Layout::Plain, Layout::Tight][s.weighted(&[6, 1, 2])]
}

/// Anything the grammar allows, with other schemas next to it.
fn any(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = gen::any_opts(s);
    let schema = gen::any_schema(s, &o);
    let l = layout(s);
    let main = print(s, &schema, l);
    let mut set: Set = vec![("main".into(), Ok(main))];
    for n in ["other", "third"] {
        if s.chance(1, 2) {
            let x = gen::any_schema(s, &o);
            let t = print(s, &x, Layout::Plain);
            set.push((n.into(), Ok(t)));
        }
    }
    ctx.describe(|| format!("{set:#?}"));
    ctx.nontrivial = !schema.defs.is_empty();
    check(&set, Some(&schema), ctx)
}

/// Schemas without errors.
fn valid(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = gen::any_opts(s);
    let v = Valid { o, schemas: 3, defs: 6, depth: 3, odd_names: true, services: true, channels: true, array_max: 30 };
    let all = gen::valid_schemas(s, &v);
    let l = layout(s);
    let set: Set = all.iter().map(|(n, x)| (n.clone(), Ok(print(s, x, l)))).collect();
    ctx.describe(|| format!("{set:#?}"));
    ctx.nontrivial = true;
    let p = front::parse(&set);
    if !p.errors().is_empty() {
        let r = aldrin_parser::Renderer::new(false, false, 100);
        fail!("rejected", "generated to be valid, but {}\n{set:#?}", r.render(&p.errors()[0], &p));
    }
    // every schema of the set is formatted
    for i in 0..set.len() {
        let mut set = set.clone();
        set.swap(0, i);
        check(&set, Some(&all[i].1), ctx)?;
    }
    Ok(())
}

/// Schemas with one or two mistakes, or small ones in rings.
fn faulty(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut all = if s.bool() {
        let o = gen::any_opts(s);
        gen::valid_schemas(s, &Valid { o, schemas: 3, defs: 5, depth: 2, odd_names: true, services: true, channels: true, array_max: 30 })
    } else {
        gen::rings(s, 2)
    };
    for _ in 0..s.range(1, 2) {
        gen::fault(s, &mut all);
    }
    let l = layout(s);
    let set: Set = all.iter().map(|(n, x)| (n.clone(), Ok(print(s, x, l)))).collect();
    ctx.describe(|| format!("{set:#?}"));
    ctx.nontrivial = true;
    for i in 0..set.len() {
        let mut set = set.clone();
        set.swap(0, i);
        check(&set, Some(&all[i].1), ctx)?;
    }
    Ok(())
}

fn repo(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.u64() as usize;
    let v = corpus::with_siblings(i);
    ctx.describe(|| corpus::files()[i].path.display().to_string());
    ctx.nontrivial = true;
    check(&front::ok_set(&v), None, ctx)
}

/// The repository's schemas with small changes, as far as they are still schemas.
fn mutants(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.us(corpus::files().len());
    let mut v = corpus::with_siblings(i);
    v[0].1 = mutate::gentle(s, &v[0].1);
    ctx.describe(|| format!("{} as {:?}", corpus::files()[i].path.display(), v[0].1));
    let set = front::ok_set(&v);
    ctx.nontrivial = front::format(&front::parse(&set)).is_some();
    check(&set, None, ctx)
}

pub fn property() -> Property {
    Property {
        id: "C18",
        level: "exploration",
        rule: "a syntactically valid schema with at least one definition is formatted",
        assumptions: &[
            "at most one blank after a comment marker and white space at the end of a line are layout",
            "diagnostics are compared by title, notes and schema; where they point is not compared",
        ],
        parts: vec![
            Part::new("any", Kind::Random(60000, 2000000), any).secs(60, 1200),
            Part::new("valid", Kind::Random(12000, 500000), valid).secs(60, 900),
            Part::new("faulty", Kind::Random(12000, 500000), faulty).secs(60, 900),
            Part::new("tool", Kind::Random(1500, 80_000), cli::fmt).secs(60, 900),
            Part::new("repository", Kind::Enumerate(|_| corpus::files().len() as u64), repo),
            Part::new("mutants", Kind::Random(40000, 1000000), mutants).secs(60, 900),
        ],
    }
}
