//! Prints a model schema with arbitrary layout: any white space and line ends between tokens,
//! comments, doc comments and attributes interleaved, optional forms chosen at random.
#![allow(dead_code)]
use crate::model::*;
use vp::Src;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Layout {
    Plain,
    Tight,
    Wild,
}

pub struct P<'a> {
    s: &'a mut Src,
    out: String,
    l: Layout,
    crlf: u8,
}

const WS: [&str; 16] = [
    " ", "\n", "", "  ", "\t", "\r\n", "\n\n", "\r", "\u{a0}", "\u{3000}", "\u{b}", "\u{2028}", "\u{85}", " \n ", "\n\n\n", "\u{c}",
];

pub fn print(s: &mut Src, schema: &Schema, l: Layout) -> String {
    let crlf = s.weighted(&[4, 2, 2]) as u8;
    let mut p = P { s, out: String::new(), l, crlf };
    p.schema(schema);
    p.out
}

impl P<'_> {
    /// Optional white space.
    fn sp(&mut self) {
        match self.l {
            Layout::Plain => self.out.push(' '),
            Layout::Tight => {}
            Layout::Wild => {
                let w = *self.s.pick(&WS);
                self.out.push_str(w);
            }
        }
    }

    /// Mandatory white space.
    fn ws(&mut self) {
        match self.l {
            Layout::Plain | Layout::Tight => self.out.push(' '),
            Layout::Wild => {
                let w = *self.s.pick(&WS);
                self.out.push_str(if w.is_empty() { " " } else { w });
            }
        }
    }

    fn nl(&mut self) {
        let crlf = match self.crlf {
            0 => false,
            1 => true,
            _ => self.s.bool(),
        };
        self.out.push_str(if crlf { "\r\n" } else { "\n" });
    }

    fn t(&mut self, t: &str) {
        self.out.push_str(t);
        if self.l == Layout::Plain && (t == ";" || t == "{" || t == "}") {
            self.nl();
        } else {
            self.sp();
        }
    }

    fn kw(&mut self, t: &str) {
        self.out.push_str(t);
        self.ws();
    }

    fn line(&mut self, mark: &str, text: &str) {
        self.out.push_str(mark);
        self.out.push_str(text);
        self.nl();
        if self.l == Layout::Wild {
            self.sp();
        }
    }

    fn comments(&mut self, c: &Lines) {
        for x in c {
            self.line("//", x);
        }
    }

    fn attr(&mut self, (name, opts): &(String, Vec<String>), inline: bool) {
        self.t("#");
        if inline {
            self.t("!");
        }
        self.t("[");
        self.t(name);
        if !opts.is_empty() {
            self.t("(");
            for (i, o) in opts.iter().enumerate() {
                if i > 0 {
                    self.t(",");
                }
                self.t(o);
            }
            if self.l == Layout::Wild && self.s.chance(1, 4) {
                self.t(",");
            }
            self.t(")");
        }
        self.t("]");
        if self.l == Layout::Plain {
            self.nl();
        }
    }

    /// The three lists interleaved at random, each in its order.
    fn pre(&mut self, p: &Pre, inline: bool) {
        let (mut c, mut d, mut a) = (0, 0, 0);
        loop {
            let left = [p.comment.len() - c, p.doc.len() - d, p.attrs.len() - a];
            if left == [0, 0, 0] {
                return;
            }
            let k = if self.l == Layout::Wild {
                self.s.weighted(&left.map(|x| (x > 0) as u64))
            } else {
                left.iter().position(|x| *x > 0).unwrap()
            };
            match k {
                0 => {
                    self.line("//", &p.comment[c]);
                    c += 1;
                }
                1 => {
                    self.line(if inline { "//!" } else { "///" }, &p.doc[d]);
                    d += 1;
                }
                _ => {
                    self.attr(&p.attrs[a], inline);
                    a += 1;
                }
            }
        }
    }

    fn named(&mut self, m: &Option<String>, n: &str) {
        if let Some(m) = m {
            self.t(m);
            self.t("::");
        }
        self.t(n);
    }

    fn ty(&mut self, ty: &Ty) {
        match ty {
            Ty::Prim(p) => self.t(p),
            Ty::One(k, t) => {
                self.t(k);
                self.t("<");
                self.ty(t);
                self.t(">");
            }
            Ty::Map(a, b) => {
                self.t("map");
                self.t("<");
                self.ty(a);
                self.t("->");
                self.ty(b);
                self.t(">");
            }
            Ty::Result(a, b) => {
                self.t("result");
                self.t("<");
                self.ty(a);
                self.t(",");
                self.ty(b);
                self.t(">");
            }
            Ty::Array(t, len) => {
                self.t("[");
                self.ty(t);
                self.t(";");
                match len {
                    Len::Lit(l) => self.t(l),
                    Len::Ref(m, n) => self.named(m, n),
                }
                self.t("]");
            }
            Ty::Ref(m, n) => self.named(m, n),
        }
    }

    fn fields(&mut self, fs: &[Field], fb: &Option<Fallback>) {
        for f in fs {
            self.pre(&f.pre, false);
            if f.required {
                self.kw("required");
                self.t(&f.name);
            } else if f.name == "required" {
                // anything else is the keyword
                self.out.push_str("required");
            } else {
                self.t(&f.name);
            }
            self.t("@");
            self.t(&f.id);
            self.t("=");
            self.ty(&f.ty);
            self.t(";");
        }
        self.fallback(fb);
    }

    fn fallback(&mut self, fb: &Option<Fallback>) {
        if let Some(f) = fb {
            self.pre(&f.pre, false);
            self.t(&f.name);
            self.t("=");
            self.t("fallback");
            self.t(";");
        }
    }

    fn vars(&mut self, vs: &[Variant], fb: &Option<Fallback>) {
        for v in vs {
            self.pre(&v.pre, false);
            self.t(&v.name);
            self.t("@");
            self.t(&v.id);
            if let Some(t) = &v.ty {
                self.t("=");
                self.ty(t);
            }
            self.t(";");
        }
        self.fallback(fb);
    }

    fn inline(&mut self, i: &Inline) {
        match i {
            Inline::Ty(t) => {
                self.ty(t);
                self.t(";");
            }
            Inline::Struct(p, fs, fb) => {
                self.kw("struct");
                self.t("{");
                self.pre(p, true);
                self.fields(fs, fb);
                self.t("}");
            }
            Inline::Enum(p, vs, fb) => {
                self.kw("enum");
                self.t("{");
                self.pre(p, true);
                self.vars(vs, fb);
                self.t("}");
            }
        }
    }

    fn part(&mut self, k: &str, p: &Option<FnPart>) {
        if let Some(p) = p {
            self.comments(&p.comment);
            self.t(k);
            self.t("=");
            self.inline(&p.ty);
        }
    }

    fn item(&mut self, i: &Item) {
        match i {
            Item::Fn { pre, name, id, args, ok, err } => {
                self.pre(pre, false);
                self.kw("fn");
                self.t(name);
                self.t("@");
                self.t(id);
                let short = self.l != Layout::Wild || self.s.chance(2, 3);
                match (args, ok, err) {
                    (None, None, None) if short => self.t(";"),
                    (None, Some(p), None) if short && p.comment.is_empty() => {
                        self.t("=");
                        self.inline(&p.ty);
                    }
                    _ => {
                        self.t("{");
                        self.part("args", args);
                        self.part("ok", ok);
                        self.part("err", err);
                        self.t("}");
                    }
                }
            }
            Item::Ev { pre, name, id, ty } => {
                self.pre(pre, false);
                self.kw("event");
                self.t(name);
                self.t("@");
                self.t(id);
                match ty {
                    Some(t) => {
                        self.t("=");
                        self.inline(t);
                    }
                    None => self.t(";"),
                }
            }
        }
    }

    fn item_fallback(&mut self, k: &str, fb: &Option<Fallback>) {
        if let Some(f) = fb {
            self.pre(&f.pre, false);
            self.kw(k);
            self.t(&f.name);
            self.t("=");
            self.t("fallback");
            self.t(";");
        }
    }

    fn def(&mut self, d: &Def) {
        match d {
            Def::Struct { pre, name, fields, fallback } => {
                self.pre(pre, false);
                self.kw("struct");
                self.t(name);
                self.t("{");
                self.fields(fields, fallback);
                self.t("}");
            }
            Def::Enum { pre, name, vars, fallback } => {
                self.pre(pre, false);
                self.kw("enum");
                self.t(name);
                self.t("{");
                self.vars(vars, fallback);
                self.t("}");
            }
            Def::Service(v) => {
                self.pre(&v.pre, false);
                self.kw("service");
                self.t(&v.name);
                self.t("{");
                self.comments(&v.uuid_comment);
                self.t("uuid");
                self.t("=");
                self.t(&v.uuid);
                self.t(";");
                self.comments(&v.ver_comment);
                self.t("version");
                self.t("=");
                self.t(&v.ver);
                self.t(";");
                for i in &v.items {
                    self.item(i);
                }
                if self.l == Layout::Wild && self.s.bool() {
                    self.item_fallback("event", &v.ev_fallback);
                    self.item_fallback("fn", &v.fn_fallback);
                } else {
                    self.item_fallback("fn", &v.fn_fallback);
                    self.item_fallback("event", &v.ev_fallback);
                }
                self.t("}");
            }
            Def::Const { pre, name, kind, val } => {
                self.pre(pre, false);
                self.kw("const");
                self.t(name);
                self.t("=");
                self.t(kind);
                self.t("(");
                self.t(val);
                self.t(")");
                self.t(";");
            }
            Def::Newtype { pre, name, ty } => {
                self.pre(pre, false);
                self.kw("newtype");
                self.t(name);
                self.t("=");
                self.ty(ty);
                self.t(";");
            }
        }
    }

    fn schema(&mut self, s: &Schema) {
        if self.l == Layout::Wild {
            self.sp();
        }
        // comments belong to the schema only up to its last doc comment
        let mut c = 0;
        for (i, d) in s.doc.iter().enumerate() {
            while c < s.comment.len() && (i + 1 == s.doc.len() || self.l != Layout::Wild || self.s.bool()) {
                self.line("//", &s.comment[c]);
                c += 1;
            }
            self.line("//!", d);
        }
        for (c, n) in &s.imports {
            self.comments(c);
            self.kw("import");
            self.t(n);
            self.t(";");
        }
        for d in &s.defs {
            self.def(d);
        }
        if self.l == Layout::Wild {
            self.sp();
        }
    }
}
