//! Names: which ones a schema gives to what, and whether the generated code compiles all the same.
use crate::c16::compile_fail;
use crate::krate::{self, Conf, Intro, Wrap};
use crate::model::{Def, Inline, Item, Schema};
use aldrin_codegen::rust::names;
use std::collections::HashSet;
use vp::{Ctx, Fail, Res, Src};

/// What is named; the name replaces this word of `BASE`.
const PLACES: [&str; 19] = [
    "struct", "emptystruct", "enum", "newtype", "keynewtype", "service", "const", "strconst", "schema", "field", "reqfield", "unitvariant",
    "variant", "structfallback", "enumfallback", "fn", "event", "fnfallback", "evfallback",
];

/// Every word of `PLACES` in angle brackets is the default name of that place.
const BASE: &str = "
//! Everything.
const <const> = u32(3);
const <strconst> = string(\"text\");
const ID = uuid(54f45c9b-94b2-4d7c-8ed1-c4ea93b3a0a6);
/// A struct.
struct <struct> {
    required <reqfield> @ 1 = u8;
    <field> @ 2 = string;
    other @ 3 = option<bool>;
    vecs @ 4 = vec<<struct>>;
    <structfallback> = fallback;
}
struct <emptystruct> {}
struct Optional { x @ 1 = [u8; <const>]; m @ 2 = map<<keynewtype> -> <newtype>>; y @ 3 = sender<<enum>>; }
enum <enum> {
    <unitvariant> @ 1;
    <variant> @ 2 = box<<struct>>;
    Another @ 3 = result<u8, <emptystruct>>;
    <enumfallback> = fallback;
}
newtype <newtype> = option<<struct>>;
newtype <keynewtype> = string;
service <service> {
    uuid = 5ae4b7c2-62a9-4d63-9d5a-47ba1a4d6dc9;
    version = 1;
    fn <fn> @ 1 {
        args = struct { a @ 1 = u32; required b @ 2 = string; }
        ok = enum { A @ 1; B @ 2 = <enum>; }
        err = <struct>;
    }
    fn plain @ 2 = u8;
    fn nothing @ 3;
    event <event> @ 1 = struct { a @ 1 = u32; }
    event quiet @ 2;
    event typed @ 3 = <newtype>;
    fn <fnfallback> = fallback;
    event <evfallback> = fallback;
}
";

const DEFAULT: [&str; 19] = [
    "Strukt", "Nil", "Choice", "Wrapped", "Key", "Svc", "LENGTH", "TEXT", "things", "field", "needed", "Unit", "Full", "rest", "Rest", "call", "happened",
    "unknown_fn", "unknown_ev",
];

const NAMES: &[&str] = &[
    // Rust
    "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "gen", "if", "impl",
    "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true",
    "try", "type", "union", "unsafe", "use", "where", "while", "abstract", "yield", "macro", "_", "__", "_a", "a_", "macro_rules", "auto", "default",
    "bool", "char", "str", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "usize",
    "Ok", "Err", "Some", "None", "Option", "Result", "Vec", "String", "Box", "Clone", "Copy", "Debug", "Default", "Eq", "PartialEq", "Ord",
    "PartialOrd", "Hash", "Send", "Sync", "Sized", "Drop", "Fn", "From", "Into", "Iterator", "Stream", "Future", "Poll", "Pin", "HashMap", "HashSet",
    "ToString", "ToOwned", "AsRef", "Infallible", "Formatter", "Hasher", "std", "core", "alloc", "aldrin", "aldrin_core", "uuid", "main", "test",
    "unreachable", "panic", "format", "vec",
    // the library
    "Tag", "PrimaryTag", "RefType", "Serialize", "Deserialize", "Introspectable", "Introspection", "Value", "Bytes", "Uuid", "ObjectId", "ServiceId",
    "LifetimeId", "Handle", "Error", "Object", "Promise", "Event", "UnknownFields", "UnknownVariant", "UnknownCall", "UnknownEvent", "UnboundSender",
    "UnboundReceiver", "Serializer", "Deserializer", "SerializedValue", "LexicalId", "References", "LayoutIr", "T", "T0", "T1", "D", "S", "G", "K", "V", "E", "U",
    "KeyTag", "PrimaryKeyTag", "SerializeKey", "DeserializeKey", "Service", "Proxy", "Call", "service", "tags", "low_level", "private",
    // what the code uses inside
    "id", "version", "new", "inner", "inner_mut", "into_inner", "client", "type_id", "introspection", "query_introspection", "subscribe_all",
    "unsubscribe_all", "poll_next_event", "next_event", "dispatch_event", "destroy", "poll_next_call", "next_call", "dispatch_call",
    "invalid_event", "invalid_call", "all", "call", "event", "args", "info", "object", "proxy", "handle", "serializer", "deserializer", "field",
    "fallback", "value", "name", "_deserializer", "_fallback", "_field0", "_Strukt", "_Field", "_Needed", "_Other", "_Full", "_needed", "fmt", "clone", "eq", "hash", "cmp", "partial_cmp", "poll_next", "drop", "try_from", "from", "into", "layout",
    "lexical_id", "add_references", "references", "serialize", "deserialize", "variant", "try_get", "UUID", "VERSION", "promise", "handler", "cx",
    "unknown_fields", "timestamp", "reply", "schema", "required", "optional", "newtype", "ok", "err", "size_hint", "next", "borrow", "to_owned",
    // made of the other names
    "StruktRef", "Strukt", "ChoiceRef", "WrappedRef", "SvcProxy", "SvcEvent", "SvcEventHandler", "SvcCall", "SvcCallHandler", "SvcIntrospection",
    "SvcCallArgs", "SvcCallOk", "SvcCallError", "SvcHappenedArgs", "SvcCallArgsRef", "call_val", "call_ref", "plain_val", "plain_ref", "quiet_val",
    "quiet_ref", "typed_ref", "typed_val", "nothing_val", "subscribe_quiet", "unsubscribe_quiet", "Plain", "Quiet", "register_introspection_things", "another", "Call_", "plain_", "Field",
];

pub fn texts_of(place: &str, name: &str) -> Vec<(String, String)> {
    let mut t = BASE.to_owned();
    let mut schema = "things".to_owned();
    for (p, d) in PLACES.iter().zip(DEFAULT) {
        let n = if *p == place { name } else { d };
        if *p == "schema" {
            schema = n.to_owned();
        }
        t = t.replace(&format!("<{p}>"), n);
    }
    vec![(schema, t)]
}

fn one(place: &str, name: &str, conf: Conf, ctx: &mut Ctx) -> Res {
    let set = texts_of(place, name);
    if let Err(e) = krate::validate(&set) {
        ctx.count("schema not valid");
        ctx.describe(|| e);
        return Ok(());
    }
    ctx.nontrivial = true;
    let mut p = crate::c16::program(&[Wrap { name: "w".into(), set, conf }], &[])?;
    p.check = true;
    ctx.describe(|| format!("{place} named {name}, {conf:?}"));
    let work = ctx.work.clone();
    match krate::with(&p, &work, |_| ()) {
        Ok(()) => Ok(()),
        Err(r) => Err(Fail::new(format!("{place} named {name}"), compile_fail(&p, r).msg)),
    }
}

/// Names known not to work: class, place and name.
const KNOWN: &str = include_str!("clash.txt");

/// How many names of `NAMES` are keywords.
const KEYWORDS: usize = 44;

fn class(place: &str, name: &str) -> Option<&'static str> {
    for l in KNOWN.lines() {
        let (c, at) = l.split_once(' ').unwrap();
        if at.split_once(' ') == Some((place, name)) {
            return Some(c);
        }
    }
    // What is named like a local variable of the generated code, whatever those are, cannot be
    // shadowed by it.
    let global = matches!(place, "newtype" | "keynewtype" | "const" | "strconst");
    if global && !name.starts_with(char::is_uppercase) && !NAMES[..KEYWORDS].contains(&name) {
        return Some("local");
    }
    None
}

/// One of each known class, and then others.
const QUICK: [(&str, &str); 16] = [
    ("newtype", "id"), ("struct", "Box"), ("struct", "SvcProxy"), ("fn", "version"), ("event", "all"), ("variant", "another"),
    ("structfallback", "Field"), ("struct", "_Field"), ("field", "self"),
    // repaired
    ("field", "Ok"), ("const", "as"), ("struct", "usize"), ("newtype", "Ok"), ("newtype", "None"), ("field", "__"), ("reqfield", "_deserializer"),
];

pub fn total(thorough: bool) -> u64 {
    match thorough {
        true => (QUICK.len() + PLACES.len() * NAMES.len()) as u64,
        false => 120,
    }
}

pub fn case(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.u64() as usize;
    let (place, name) = match i.checked_sub(QUICK.len()) {
        None => QUICK[i],
        Some(j) => {
            let n = PLACES.len() * NAMES.len();
            // so that the first ones are from all over
            let j = (j * 3181) % n;
            (PLACES[j % PLACES.len()], NAMES[j / PLACES.len()])
        }
    };
    let conf = Conf { client: true, server: true, intro: Intro::On, via_macro: false, alt_crate: false, edition: "2021" };
    match (one(place, name, conf, ctx), class(place, name)) {
        (Err(f), Some(c)) if f.sig.contains(" named ") => Err(Fail::new(format!("names {c}"), format!("{}: {}", f.sig, f.msg))),
        (r, _) => r,
    }
}

// ---------------------------------------------------------------------------------------------

/// Members of every service, by where they are.
const PROXY: [&str; 20] = [
    "UUID", "VERSION", "client", "dispatch_event", "id", "inner", "inner_mut", "into_inner", "introspection", "invalid_call", "new", "next_event",
    "poll_next_event", "query_introspection", "subscribe_all", "type_id", "unsubscribe_all", "version", "invalid_event", "destroy",
];
const SERVER: [&str; 20] = [
    "UUID", "VERSION", "client", "destroy", "dispatch_call", "id", "inner", "inner_mut", "into_inner", "introspection", "invalid_event", "new",
    "next_call", "poll_next_call", "query_introspection", "type_id", "version", "invalid_call", "next_event", "dispatch_event",
];

/// Takes `name`, or one made of it for which `free` holds.
fn settle(name: &mut String, mut free: impl FnMut(&str) -> bool) {
    while !free(name) {
        name.push_str("_n");
    }
}

fn inline(i: &mut Inline) {
    match i {
        Inline::Struct(_, f, fb) => fields(f, fb),
        Inline::Enum(_, v, fb) => variants(v, fb),
        Inline::Ty(_) => {}
    }
}

fn fields(f: &mut [crate::model::Field], fb: &mut Option<crate::model::Fallback>) {
    let mut used = HashSet::new();
    for n in f.iter_mut().map(|f| &mut f.name).chain(fb.iter_mut().map(|f| &mut f.name)) {
        settle(n, |n| used.insert(names::function_variant(n)));
    }
}

fn variants(v: &mut [crate::model::Variant], fb: &mut Option<crate::model::Fallback>) {
    let mut used = HashSet::new();
    for n in v.iter_mut().map(|v| &mut v.name).chain(fb.iter_mut().map(|f| &mut f.name)) {
        settle(n, |n| used.insert(names::enum_ref_type_ctor(n)));
    }
}

/// Renames members whose names are known not to work in the generated code. Says whether the other
/// names do.
pub fn tidy(set: &mut [(String, Schema)]) -> bool {
    for (schema, s) in set {
        for d in &mut s.defs {
            match d {
                Def::Struct { fields: f, fallback, .. } => fields(f, fallback),
                Def::Enum { vars, fallback, .. } => variants(vars, fallback),
                Def::Service(v) => {
                    let mut proxy: HashSet<String> = PROXY.iter().map(|s| s.to_string()).collect();
                    let mut server: HashSet<String> = SERVER.iter().map(|s| s.to_string()).collect();
                    let (mut calls, mut events, mut types) = (HashSet::new(), HashSet::new(), HashSet::new());
                    // events first, as the names made of them are the longer ones
                    for i in &mut v.items {
                        if let Item::Ev { name, ty, .. } = i {
                            if let Some(t) = ty {
                                inline(t);
                            }
                            settle(name, |n| {
                                let a = [n.to_owned(), names::emit_val(n), names::emit_ref(n)];
                                let b = [names::subscribe(n), names::unsubscribe(n)];
                                let v = names::event_variant(n);
                                let ok = !a.iter().any(|n| server.contains(n)) && !b.iter().any(|n| proxy.contains(n)) && !events.contains(&v);
                                if ok {
                                    server.extend(a);
                                    proxy.extend(b);
                                    types.insert(v.clone());
                                    events.insert(v);
                                }
                                ok
                            });
                        }
                    }
                    for i in &mut v.items {
                        if let Item::Fn { name, args, ok, err, .. } = i {
                            for p in [args, ok, err].into_iter().flatten() {
                                inline(&mut p.ty);
                            }
                            settle(name, |n| {
                                let a = [n.to_owned(), names::call_val(n), names::call_ref(n)];
                                let v = names::function_variant(n);
                                let ok = !a.iter().any(|n| proxy.contains(n)) && !calls.contains(&v) && !types.contains(&v);
                                if ok {
                                    proxy.extend(a);
                                    calls.insert(v);
                                }
                                ok
                            });
                        }
                    }
                    if let Some(f) = &mut v.fn_fallback {
                        settle(&mut f.name, |n| calls.insert(names::function_variant(n)) && n != "invalid_call" && !proxy.contains(n));
                    }
                    if let Some(f) = &mut v.ev_fallback {
                        settle(&mut f.name, |n| events.insert(names::event_variant(n)) && n != "invalid_event" && !server.contains(n));
                    }
                }
                _ => {}
            }
        }
        let mut all = HashSet::from([names::register_introspection(schema)]);
        for d in &s.defs {
            let n = d.name();
            let mut own = vec![n.to_owned()];
            match d {
                Def::Struct { .. } | Def::Enum { .. } | Def::Newtype { .. } => own.push(names::default_ref_type(n)),
                Def::Const { .. } => {}
                Def::Service(v) => {
                    own.extend([names::service_proxy(n), names::service_event(n), names::service_event_handler(n)]);
                    own.extend([names::service_call(n), names::service_call_handler(n), names::service_introspection(n)]);
                    for i in &v.items {
                        let types = match i {
                            Item::Fn { name, .. } => vec![names::function_args(n, name), names::function_ok(n, name), names::function_err(n, name)],
                            Item::Ev { name, .. } => vec![names::event_args(n, name)],
                        };
                        for t in types {
                            own.push(names::default_ref_type(&t));
                            own.push(t);
                        }
                    }
                }
            }
            let place = if matches!(d, Def::Const { .. }) { "const" } else { "newtype" };
            if class(place, n).is_some() || (n.starts_with('_') && place == "newtype") || !own.into_iter().all(|n| all.insert(n)) {
                return false;
            }
        }
    }
    true
}
