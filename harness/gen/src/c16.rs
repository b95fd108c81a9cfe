use crate::clash;
use crate::gen::{self, Opts, Valid};
use crate::krate::{self, Conf, Intro, NoCode, Program, Rejected, Running, Wrap};
use crate::model::{self, Def, Field, Schema, Ty, Variant};
use crate::print::{print, Layout};
use crate::types::Types;
use crate::values::{self, Gen, Project};
use vp::wire::{self, Epoch, N};
use vp::{ensure, fail, Ctx, Fail, Kind, Part, Property, Res, Src};

pub fn conf(s: &mut Src) -> Conf {
    let (client, server) = *s.pick(&[(true, true), (true, true), (true, true), (true, false), (false, true), (false, false)]);
    Conf {
        client,
        server,
        intro: *s.pick(&[Intro::On, Intro::On, Intro::Off, Intro::IfOn, Intro::IfOff]),
        via_macro: s.chance(1, 4),
        alt_crate: s.chance(1, 4),
        edition: *s.pick(&["2021", "2021", "2024"]),
    }
}

pub fn texts(s: &mut Src, set: &[(String, Schema)]) -> Vec<(String, String)> {
    set.iter().map(|(n, x)| (n.clone(), print(s, x, Layout::Plain))).collect()
}

/// The parts of the schemas that a program has types for.
pub fn visible(conf: &Conf, t: &Types) -> Vec<usize> {
    (0..t.entries.len()).filter(|i| conf.services() || !t.entries[*i].inline).collect()
}

pub fn show(n: &N) -> String {
    let t = format!("{n:?}");
    if t.len() > 1500 {
        format!("{}...", t.chars().take(1500).collect::<String>())
    } else {
        t
    }
}

pub fn compile_fail(p: &Program, r: Rejected) -> Fail {
    Fail::new(format!("compile {}", r.what), format!("the generated code does not compile:\n{}\n{}", r.text, p.listing()))
}

fn epoch(s: &mut Src) -> Epoch {
    *s.pick(&[Epoch::V2, Epoch::V1, Epoch::Mixed])
}

struct Out<'a> {
    r: &'a mut Running,
    listing: &'a str,
}

impl Out<'_> {
    /// Decodes and encodes again through a generated type; `None` if it is rejected.
    fn through(&mut self, entry: usize, op: u8, b: &[u8], name: &str) -> Result<Option<N>, Fail> {
        match self.r.call(entry, op, b) {
            Ok(v) => match wire::decode_prefix(&v, true) {
                Ok((n, len)) if len == v.len() => Ok(Some(n)),
                e => fail!("malformed", "{name} encodes to something malformed ({e:?}): {}\n{}", vp::hex(&v), self.listing),
            },
            Err(e) if e.starts_with("decode: ") => Ok(None),
            Err(e) => fail!(e.split(':').next().unwrap().to_string(), "{name}, input {}: {e}\n{}", vp::hex(b), self.listing),
        }
    }
}

/// One value through one entry, in every way.
fn value(s: &mut Src, t: &Types, i: usize, entry: usize, n: &N, o: &mut Out, ctx: &mut Ctx) -> Res {
    let e = &t.entries[i];
    let mut p = Project { t, kept: 0, dropped: 0 };
    let want = p.def(&e.d, n);
    let ep = epoch(s);
    let sloppy = s.bool();
    let b = wire::encode_once(s, n, ep, sloppy);
    let op = s.below(4) as u8;
    let how = ["by reference", "by value", "through the reference type", "cloned"][op as usize];
    let got = o.through(entry, op, &b, &e.name)?;
    match (want, got) {
        (Ok(w), Some(g)) => {
            if w != g {
                fail!(
                    "changed",
                    "{}: a value changed through decoding and encoding ({how}, {ep:?})\n in   {}\n out  {}\n want {}\n{}",
                    e.name, show(n), show(&g), show(&w), o.listing
                );
            }
            ctx.count("accepted");
            ctx.count_n("unknown kept", p.kept);
            ctx.count_n("unknown dropped", p.dropped);
        }
        (Err(_), None) => ctx.count("rejected"),
        (Ok(_), None) => fail!("rejected", "{}: a conforming value is rejected ({ep:?}): {}\nbytes {}\n{}", e.name, show(n), vp::hex(&b), o.listing),
        (Err(w), Some(g)) => fail!("accepted", "{}: a value that does not conform is accepted ({ep:?}): {}, {w}; encodes to {}\n{}", e.name, show(n), show(&g), o.listing),
    }
    Ok(())
}

fn values_case(s: &mut Src, ctx: &mut Ctx) -> Res {
    let conf = conf(s);
    let v = Valid {
        o: Opts { text: *s.pick(&[0, 0, 3]), wild_text: s.bool(), attrs: false, wild: false },
        schemas: *s.pick(&[1, 1, 2, 3]),
        defs: 5,
        depth: *s.pick(&[2, 2, 3]),
        odd_names: s.bool(),
        services: s.chance(1, 3),
        channels: s.chance(1, 3),
        array_max: *s.pick(&[3, 5, 40]),
    };
    let mut set = gen::valid_schemas(s, &v);
    if !clash::tidy(&mut set) {
        ctx.count("skipped: names");
        return Ok(());
    }
    let src = texts(s, &set);
    let t = Types::new(&set);
    let vis = visible(&conf, &t);
    let mut exprs: Vec<_> = vis.iter().map(|i| krate::type_entry("w", &t.entries[*i], conf.introspectable())).collect();
    services("w", &conf, &set, &mut exprs);
    let w = Wrap { name: "w".into(), set: src, conf };
    if let Err(e) = krate::validate(&w.set) {
        ctx.count("schema not valid");
        ctx.describe(|| e);
        return Ok(());
    }
    let p = program(&[w], &exprs)?;
    ctx.describe(|| format!("{conf:?}\n{}", p.listing()));
    let l = p.listing();
    let rounds = if ctx.thorough { 40 } else { 24 };
    let work = ctx.work.clone();
    krate::with(&p, &work, |r| {
        let mut o = Out { r, listing: &l };
        for round in 0..rounds {
            for (k, i) in vis.iter().enumerate() {
                let e = &t.entries[*i];
                let Some(h) = e.height else { continue };
                if h > 28 || t.bytes_of(*i) > 100_000 {
                    ctx.count("skipped: deep or large");
                    continue;
                }
                let depth = (h + *s.pick(&[3, 5, 1, 0, 32])).min(32);
                let mut g = Gen { t: &t, budget: *s.pick(&[20, 60, 5, 200]), over: false };
                let mut n = g.def(s, &e.d, depth);
                ctx.nontrivial = true;
                if g.over {
                    ctx.count("skipped: deep or large");
                    continue;
                }
                if round % 3 == 2 {
                    for _ in 0..s.range(1, 2) {
                        values::mutate(s, &mut n);
                    }
                }
                if n.depth() > 32 || n.size() > 5000 {
                    ctx.count("skipped: deep or large");
                    continue;
                }
                value(s, &t, *i, k, &n, &mut o, ctx)?;
            }
        }
        ctx.count_n("types", vis.len() as u64);
        Ok(())
    })
    .unwrap_or_else(|r| Err(compile_fail(&p, r)))
}

pub fn services(wrap: &str, conf: &Conf, set: &[(String, Schema)], exprs: &mut Vec<String>) {
    if conf.introspectable() && conf.services() {
        for (n, s) in set {
            for d in &s.defs {
                if let Def::Service(v) = d {
                    if conf.client {
                        exprs.push(krate::service_entry(wrap, n, &v.name, true));
                    }
                    if conf.server {
                        exprs.push(krate::service_entry(wrap, n, &v.name, false));
                    }
                }
            }
        }
    }
}

pub fn program(wraps: &[Wrap], exprs: &[String]) -> Result<Program, Fail> {
    Program::new(wraps, exprs).map_err(|e| match e {
        NoCode::Invalid(e) => Fail::new("schema", e),
        NoCode::Codegen(e) => Fail::new("codegen", format!("no code is generated: {e}\n{:?}", wraps[0].set)),
    })
}

/// What a later version of a schema may do.
fn evolve(s: &mut Src, set: &mut [(String, Schema)]) {
    let ty = |s: &mut Src| {
        let p = Ty::Prim(*s.pick(&["u8", "string", "value", "unit", "i64", "bytes"]));
        match s.below(4) {
            0 => Ty::One("vec", Box::new(p)),
            1 => Ty::One("option", Box::new(p)),
            2 => Ty::Map(Box::new(Ty::Prim("string")), Box::new(p)),
            _ => p,
        }
    };
    let fresh = |s: &mut Src, used: Vec<String>| {
        let mut id = s.int(32) as u32;
        while used.contains(&id.to_string()) {
            id = id.wrapping_add(1);
        }
        id.to_string()
    };
    for (_, sch) in set {
        for d in &mut sch.defs {
            match d {
                Def::Struct { fields, .. } => {
                    for i in 0..s.below(3) {
                        let id = fresh(s, fields.iter().map(|f| f.id.clone()).collect());
                        let at = s.us(fields.len() + 1);
                        fields.insert(at, Field { pre: Default::default(), required: s.bool(), name: format!("added_{i}"), id, ty: ty(s) });
                    }
                }
                Def::Enum { vars, .. } => {
                    for i in 0..s.below(3) {
                        let id = fresh(s, vars.iter().map(|f| f.id.clone()).collect());
                        let at = s.us(vars.len() + 1);
                        vars.insert(at, Variant { pre: Default::default(), name: format!("Added{i}"), id, ty: s.bool().then(|| ty(s)) });
                    }
                }
                _ => {}
            }
        }
    }
}

fn evolution_case(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut conf = conf(s);
    conf.via_macro = false;
    conf.intro = Intro::Off;
    let v = Valid {
        o: Opts { text: 0, wild_text: false, attrs: false, wild: false },
        schemas: *s.pick(&[1, 1, 2]),
        defs: 5,
        depth: 2,
        odd_names: false,
        services: false,
        channels: s.chance(1, 3),
        array_max: 3,
    };
    let mut old = gen::valid_schemas(s, &v);
    // most types with a fallback
    for (_, sch) in &mut old {
        for d in &mut sch.defs {
            if let Def::Struct { fallback, .. } | Def::Enum { fallback, .. } = d {
                if fallback.is_none() && s.bool() {
                    *fallback = Some(model::Fallback { pre: Default::default(), name: if s.bool() { "Unknown" } else { "rest" }.into() });
                }
            }
        }
    }
    let mut new = old.clone();
    evolve(s, &mut new);
    let (to, tn) = (Types::new(&old), Types::new(&new));
    let mut exprs: Vec<_> = to.entries.iter().map(|e| krate::type_entry("old", e, false)).collect();
    exprs.extend(tn.entries.iter().map(|e| krate::type_entry("new", e, false)));
    let wraps = [
        Wrap { name: "old".into(), set: texts(s, &old), conf },
        Wrap { name: "new".into(), set: texts(s, &new), conf },
    ];
    if let Err(e) = wraps.iter().try_for_each(|w| krate::validate(&w.set)) {
        ctx.count("schema not valid");
        ctx.describe(|| e);
        return Ok(());
    }
    let p = program(&wraps, &exprs)?;
    ctx.describe(|| p.listing());
    let l = p.listing();
    let k = to.entries.len();
    ensure!(k == tn.entries.len(), "schema", "entries");
    let rounds = if ctx.thorough { 40 } else { 24 };
    let work = ctx.work.clone();
    krate::with(&p, &work, |r| {
        let mut o = Out { r, listing: &l };
        for _ in 0..rounds {
            for i in 0..k {
                let (eo, en) = (&to.entries[i], &tn.entries[i]);
                let Some(h) = en.height.filter(|h| *h < 24) else { continue };
                if tn.bytes_of(i) > 100_000 {
                    ctx.count("skipped: deep or large");
                    continue;
                }
                let mut g = Gen { t: &tn, budget: *s.pick(&[20, 60, 200]), over: false };
                let n = g.def(s, &en.d, (h + 4).min(30));
                if g.over || n.depth() > 31 || n.size() > 5000 {
                    continue;
                }
                let ep = epoch(s);
                let b = wire::encode_once(s, &n, ep, false);
                // written by the new type, passed on by the old one, read by the new one
                let mut pn = Project { t: &tn, kept: 0, dropped: 0 };
                let w1 = pn.def(&en.d, &n).map_err(|e| Fail::new("model", e))?;
                let b1 = match o.r.call(k + i, s.below(4) as u8, &b) {
                    Ok(b) => b,
                    Err(e) => fail!("rejected", "new {}: {e}: {}\n{l}", en.name, show(&n)),
                };
                let mut po = Project { t: &to, kept: 0, dropped: 0 };
                let w2 = po.def(&eo.d, &w1);
                let got = o.through(i, s.below(4) as u8, &b1, &eo.name)?;
                let g2 = match (&w2, got) {
                    (Ok(w), Some(g)) => {
                        ensure!(*w == g, "old", "old {}: a value of the new version changed\n in   {}\n out  {}\n want {}\n{l}", eo.name, show(&w1), show(&g), show(w));
                        g
                    }
                    (Err(_), None) => {
                        ctx.count("rejected by the old version");
                        continue;
                    }
                    (Ok(_), None) => fail!("old rejects", "old {}: a value of the new version is rejected: {}\n{l}", eo.name, show(&w1)),
                    (Err(w), Some(_)) => fail!("old accepts", "old {}: a value of the new version is accepted: {w}: {}\n{l}", eo.name, show(&w1)),
                };
                ctx.nontrivial = true;
                ctx.count("passed on");
                if g2 == w1 {
                    ctx.count_n("passed on whole, with unknown parts", (po.kept > 0) as u64);
                } else {
                    ctx.count("passed on in part");
                }
                let b2 = wire::encode_canonical(&g2, Epoch::V2);
                let w3 = Project { t: &tn, kept: 0, dropped: 0 }.def(&en.d, &g2);
                let got = o.through(k + i, s.below(4) as u8, &b2, &en.name)?;
                ensure!(w3.as_ref().ok() == got.as_ref(), "new", "new {}: what the old version passed on: want {w3:?}, got {got:?}\n{l}", en.name);
                if po.dropped == 0 {
                    ensure!(got.as_ref() == Some(&w1), "lost", "new {}: lost through the old version: {} and {got:?}\n{l}", en.name, show(&w1));
                }
            }
        }
        Ok(())
    })
    .unwrap_or_else(|r| Err(compile_fail(&p, r)))
}

/// Only that it compiles: services, text, attributes and names of all sorts.
fn compile_case(s: &mut Src, ctx: &mut Ctx) -> Res {
    let conf = conf(s);
    let v = Valid {
        o: Opts { text: *s.pick(&[3, 9]), wild_text: true, attrs: false, wild: false },
        schemas: *s.pick(&[1, 2, 3]),
        defs: 7,
        depth: 3,
        odd_names: true,
        services: true,
        channels: s.chance(1, 3),
        array_max: *s.pick(&[3, 40, 5000]),
    };
    let mut set = gen::valid_schemas(s, &v);
    if !clash::tidy(&mut set) {
        ctx.count("skipped: names");
        return Ok(());
    }
    let t = Types::new(&set);
    let vis = visible(&conf, &t);
    let mut exprs: Vec<_> = vis.iter().map(|i| krate::type_entry("w", &t.entries[*i], conf.introspectable())).collect();
    services("w", &conf, &set, &mut exprs);
    let w = Wrap { name: "w".into(), set: texts(s, &set), conf };
    if let Err(e) = krate::validate(&w.set) {
        ctx.count("schema not valid");
        ctx.describe(|| e);
        return Ok(());
    }
    let p = program(&[w], &exprs)?;
    ctx.describe(|| format!("{conf:?}\n{}", p.listing()));
    ctx.nontrivial = exprs.len() > 1;
    let work = ctx.work.clone();
    let n = exprs.len();
    krate::with(&p, &work, |r| {
        if conf.introspectable() {
            for i in 0..n {
                if let Err(e) = r.call(i, 101, &[]) {
                    fail!("record", "introspection of entry {i}: {e}\n{}", p.listing());
                }
            }
        }
        Ok(())
    })
    .unwrap_or_else(|r| Err(compile_fail(&p, r)))
}

/// Whatever the parser accepts has to compile: small sets full of references to each other, and larger ones with
/// something changed that may well make them invalid.
fn accepted_case(s: &mut Src, ctx: &mut Ctx) -> Res {
    let conf = Conf { client: true, server: true, intro: *s.pick(&[Intro::On, Intro::Off]), via_macro: s.chance(1, 4), alt_crate: false, edition: "2021" };
    let mut wraps = vec![];
    for i in 0..40 {
        let mut set = if s.chance(2, 3) {
            let wrong = *s.pick(&[0, 0, 1]);
            gen::rings(s, wrong)
        } else {
            let v = Valid {
                o: Opts { text: 0, wild_text: false, attrs: false, wild: false },
                schemas: 3,
                defs: 4,
                depth: 1,
                odd_names: false,
                services: true,
                channels: true,
                array_max: 10,
            };
            gen::valid_schemas(s, &v)
        };
        let k = s.weighted(&[2, 5, 2]);
        for _ in 0..k {
            gen::fault(s, &mut set);
        }
        let set = texts(s, &set);
        if krate::validate(&set).is_ok() {
            wraps.push(Wrap { name: format!("w{i}"), set, conf });
        }
    }
    ctx.count_n("sets", wraps.len() as u64);
    ctx.count_n("sets with errors", 40 - wraps.len() as u64);
    if wraps.is_empty() {
        return Ok(());
    }
    let p = program(&wraps, &[])?;
    ctx.describe(|| format!("{conf:?}\n{}", p.listing()));
    ctx.nontrivial = true;
    let work = ctx.work.clone();
    krate::with(&p, &work, |_| Ok(())).unwrap_or_else(|r| Err(compile_fail(&p, r)))
}

pub fn property() -> Property {
    Property {
        id: "C16",
        level: "exploration",
        rule: "a generated set of schemas whose code was compiled and whose types were given at least one value",
        assumptions: &[
            "rustc decides whether code compiles; lints other than those it denies by default are off",
            "types of more than about 100 kB, and values of more than 5000 nodes, are not given values",
            "names that are known not to work (known findings, clash.txt) are kept out of all parts but names",
        ],
        parts: vec![
            Part::new("values", Kind::Random(280, 12000), values_case).secs(90, 2400).hang(200).shrink(150),
            Part::new("evolution", Kind::Random(120, 6000), evolution_case).secs(60, 1200).hang(200).shrink(150),
            Part::new("names", Kind::Enumerate(clash::total), clash::case).secs(900, 2400).hang(200).shrink(150),
            Part::new("compile", Kind::Random(160, 8000), compile_case).secs(60, 1200).hang(200).shrink(150),
            Part::new("accepted", Kind::Random(32, 2400), accepted_case).secs(60, 1200).hang(200).shrink(150),
        ],
    }
}
