//! A plain AST for type system documents, its renderer, and the facts a document states.
use cynic_parser::type_system as ts;
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Int(i64),
    Float(f64),
    Str(String),
    Bool(bool),
    Enum(String),
    List(Vec<Val>),
    Obj(Vec<(String, Val)>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dir {
    pub name: String,
    pub args: Vec<(String, Val)>,
}

/// `lists` runs from the innermost list to the outermost; true is non-null.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ty {
    pub base: String,
    pub inner: bool,
    pub lists: Vec<bool>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fld {
    pub name: String,
    pub desc: Option<String>,
    pub args: Vec<Fld>,
    pub ty: Ty,
    pub default: Option<Val>,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct EVal {
    pub name: String,
    pub desc: Option<String>,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Scalar,
    Object,
    Interface,
    Union,
    Enum,
    Input,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Def {
    pub kind: Kind,
    pub name: String,
    pub desc: Option<String>,
    pub extend: bool,
    pub dirs: Vec<Dir>,
    pub implements: Vec<String>,
    pub fields: Vec<Fld>,
    pub values: Vec<EVal>,
    pub members: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct DirDef {
    pub name: String,
    pub desc: Option<String>,
    pub repeatable: bool,
    pub args: Vec<Fld>,
    pub locations: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Doc {
    pub defs: Vec<Def>,
    /// Definitions of directives of the users' own.
    pub directives: Vec<DirDef>,
    /// query, mutation, subscription
    pub roots: [Option<String>; 3],
    pub on_schema: Vec<Dir>,
}

impl Ty {
    pub fn named(base: &str) -> Ty {
        Ty { base: base.into(), inner: false, lists: vec![] }
    }
    pub fn text(&self) -> String {
        let mut s = self.base.clone();
        if self.inner {
            s.push('!');
        }
        for nn in &self.lists {
            s = format!("[{s}]{}", if *nn { "!" } else { "" });
        }
        s
    }
    pub fn outer(&self) -> bool {
        *self.lists.last().unwrap_or(&self.inner)
    }
    pub fn set_outer(&mut self, nn: bool) {
        match self.lists.last_mut() {
            Some(l) => *l = nn,
            None => self.inner = nn,
        }
    }
    /// Everything but the outermost nullability.
    pub fn shape(&self) -> Ty {
        let mut t = self.clone();
        t.set_outer(false);
        t
    }
}

impl Dir {
    pub fn new(name: &str, args: &[(&str, Val)]) -> Dir {
        Dir { name: name.into(), args: args.iter().map(|(n, v)| (n.to_string(), v.clone())).collect() }
    }
    pub fn arg(&self, name: &str) -> Option<&Val> {
        self.args.iter().find(|(n, _)| n == name).map(|(_, v)| v)
    }
    pub fn str(&self, name: &str) -> Option<&str> {
        match self.arg(name) {
            Some(Val::Str(s)) => Some(s),
            _ => None,
        }
    }
    pub fn text(&self) -> String {
        let mut s = format!("@{}", self.name);
        if !self.args.is_empty() {
            let args: Vec<_> = self.args.iter().map(|(n, v)| format!("{n}: {}", v.text())).collect();
            let _ = write!(s, "({})", args.join(", "));
        }
        s
    }
}

pub fn has(dirs: &[Dir], name: &str) -> bool {
    dirs.iter().any(|d| d.name == name)
}

pub fn dir<'a>(dirs: &'a [Dir], name: &str) -> Option<&'a Dir> {
    dirs.iter().find(|d| d.name == name)
}

pub fn quote(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

impl Val {
    pub fn text(&self) -> String {
        match self {
            Val::Null => "null".into(),
            Val::Int(i) => i.to_string(),
            Val::Float(f) => format!("{f:?}"),
            Val::Str(s) => quote(s),
            Val::Bool(b) => b.to_string(),
            Val::Enum(e) => e.clone(),
            Val::List(l) => format!("[{}]", l.iter().map(Val::text).collect::<Vec<_>>().join(", ")),
            Val::Obj(o) => format!("{{{}}}", o.iter().map(|(n, v)| format!("{n}: {}", v.text())).collect::<Vec<_>>().join(", ")),
        }
    }
}

pub fn s(x: impl AsRef<str>) -> Val {
    Val::Str(x.as_ref().to_string())
}

impl Def {
    pub fn new(kind: Kind, name: &str) -> Def {
        Def { kind, name: name.into(), desc: None, extend: false, dirs: vec![], implements: vec![], fields: vec![], values: vec![], members: vec![] }
    }
    pub fn field(&self, name: &str) -> Option<&Fld> {
        self.fields.iter().find(|f| f.name == name)
    }
    pub fn field_mut(&mut self, name: &str) -> Option<&mut Fld> {
        self.fields.iter_mut().find(|f| f.name == name)
    }
    pub fn is_composite(&self) -> bool {
        matches!(self.kind, Kind::Object | Kind::Interface | Kind::Union)
    }
}

impl Fld {
    pub fn new(name: &str, ty: Ty) -> Fld {
        Fld { name: name.into(), desc: None, args: vec![], ty, default: None, dirs: vec![] }
    }
    pub fn arg(&self, name: &str) -> Option<&Fld> {
        self.args.iter().find(|a| a.name == name)
    }
}

impl Doc {
    pub fn def(&self, name: &str) -> Option<&Def> {
        self.defs.iter().find(|d| d.name == name)
    }
    pub fn def_mut(&mut self, name: &str) -> Option<&mut Def> {
        self.defs.iter_mut().find(|d| d.name == name)
    }

    pub fn render(&self) -> String {
        let mut out = String::new();
        for d in &self.directives {
            desc(&mut out, &d.desc, "");
            let _ = write!(out, "directive @{}", d.name);
            for (i, a) in d.args.iter().enumerate() {
                out.push_str(if i == 0 { "(" } else { ", " });
                if let Some(d) = &a.desc {
                    out.push_str(&quote(d));
                    out.push(' ');
                }
                value(&mut out, a);
            }
            let _ = write!(
                out,
                "{}{} on {}\n\n",
                if d.args.is_empty() { "" } else { ")" },
                if d.repeatable { " repeatable" } else { "" },
                d.locations.join(" | ")
            );
        }
        for d in &self.defs {
            desc(&mut out, &d.desc, "");
            if d.extend {
                out.push_str("extend ");
            }
            out.push_str(match d.kind {
                Kind::Scalar => "scalar ",
                Kind::Object => "type ",
                Kind::Interface => "interface ",
                Kind::Union => "union ",
                Kind::Enum => "enum ",
                Kind::Input => "input ",
            });
            out.push_str(&d.name);
            if !d.implements.is_empty() {
                let _ = write!(out, " implements {}", d.implements.join(" & "));
            }
            dirs(&mut out, &d.dirs);
            if !d.members.is_empty() {
                let _ = write!(out, " = {}", d.members.join(" | "));
            }
            if !d.values.is_empty() {
                out.push_str(" {\n");
                for v in &d.values {
                    desc(&mut out, &v.desc, "  ");
                    let _ = write!(out, "  {}", v.name);
                    dirs(&mut out, &v.dirs);
                    out.push('\n');
                }
                out.push('}');
            }
            if !d.fields.is_empty() {
                out.push_str(" {\n");
                for f in &d.fields {
                    desc(&mut out, &f.desc, "  ");
                    let _ = write!(out, "  {}", f.name);
                    if !f.args.is_empty() {
                        out.push('(');
                        for (i, a) in f.args.iter().enumerate() {
                            if i > 0 {
                                out.push_str(", ");
                            }
                            if let Some(d) = &a.desc {
                                out.push_str(&quote(d));
                                out.push(' ');
                            }
                            value(&mut out, a);
                        }
                        out.push(')');
                        let _ = write!(out, ": {}", f.ty.text());
                        dirs(&mut out, &f.dirs);
                    } else {
                        let _ = write!(out, ": {}", f.ty.text());
                        if let Some(d) = &f.default {
                            let _ = write!(out, " = {}", d.text());
                        }
                        dirs(&mut out, &f.dirs);
                    }
                    out.push('\n');
                }
                out.push('}');
            }
            out.push_str("\n\n");
        }
        out
    }
}

fn value(out: &mut String, a: &Fld) {
    let _ = write!(out, "{}: {}", a.name, a.ty.text());
    if let Some(d) = &a.default {
        let _ = write!(out, " = {}", d.text());
    }
    dirs(out, &a.dirs);
}

fn desc(out: &mut String, d: &Option<String>, indent: &str) {
    if let Some(d) = d {
        let _ = writeln!(out, "{indent}{}", quote(d));
    }
}

fn dirs(out: &mut String, ds: &[Dir]) {
    for d in ds {
        let _ = write!(out, " {}", d.text());
    }
}

// ---- parsing ----

pub fn parse(text: &str) -> Result<Doc, String> {
    let doc = cynic_parser::parse_type_system_document(text).map_err(|e| e.to_report(text).to_string())?;
    let mut out = Doc::default();
    for d in doc.definitions() {
        match d {
            ts::Definition::Type(t) => out.defs.push(def(t, false)),
            ts::Definition::TypeExtension(t) => out.defs.push(def(t, true)),
            ts::Definition::Schema(s) | ts::Definition::SchemaExtension(s) => {
                out.on_schema.extend(directives(s.directives()));
                for (i, r) in [s.query_type(), s.mutation_type(), s.subscription_type()].into_iter().enumerate() {
                    if let Some(r) = r {
                        out.roots[i] = Some(r.named_type().to_string());
                    }
                }
            }
            ts::Definition::Directive(d) if d.name().starts_with("note") => {
                // Neither is kept by composition.
                out.directives.push(DirDef { desc: None, repeatable: false, ..dirdef(d) });
            }
            ts::Definition::Directive(_) => {}
        }
    }
    Ok(out)
}

pub fn dirdef(d: ts::DirectiveDefinition<'_>) -> DirDef {
    DirDef {
        name: d.name().to_string(),
        desc: description(d.description()),
        repeatable: d.is_repeatable(),
        args: d.arguments().map(input).collect(),
        locations: d.locations().map(|l| l.as_str().to_string()).collect(),
    }
}

pub fn description(d: Option<ts::Description<'_>>) -> Option<String> {
    d.map(|d| d.to_cow().into_owned())
}

pub fn def(t: ts::TypeDefinition<'_>, extend: bool) -> Def {
    let kind = match t {
        ts::TypeDefinition::Scalar(_) => Kind::Scalar,
        ts::TypeDefinition::Object(_) => Kind::Object,
        ts::TypeDefinition::Interface(_) => Kind::Interface,
        ts::TypeDefinition::Union(_) => Kind::Union,
        ts::TypeDefinition::Enum(_) => Kind::Enum,
        ts::TypeDefinition::InputObject(_) => Kind::Input,
    };
    let mut d = Def::new(kind, t.name());
    d.extend = extend;
    d.desc = description(t.description());
    d.dirs = directives(t.directives());
    match t {
        ts::TypeDefinition::Object(o) => {
            d.implements = o.implements_interfaces().map(str::to_string).collect();
            d.fields = o.fields().map(field).collect();
        }
        ts::TypeDefinition::Interface(o) => {
            d.implements = o.implements_interfaces().map(str::to_string).collect();
            d.fields = o.fields().map(field).collect();
        }
        ts::TypeDefinition::Union(u) => d.members = u.members().map(|m| m.name().to_string()).collect(),
        ts::TypeDefinition::Enum(e) => {
            d.values = e
                .values()
                .map(|v| EVal { name: v.value().to_string(), desc: description(v.description()), dirs: directives(v.directives()) })
                .collect()
        }
        ts::TypeDefinition::InputObject(i) => d.fields = i.fields().map(input).collect(),
        ts::TypeDefinition::Scalar(_) => {}
    }
    d
}

fn field(f: ts::FieldDefinition<'_>) -> Fld {
    Fld {
        name: f.name().to_string(),
        desc: description(f.description()),
        args: f.arguments().map(input).collect(),
        ty: ty(f.ty()),
        default: None,
        dirs: directives(f.directives()),
    }
}

fn input(f: ts::InputValueDefinition<'_>) -> Fld {
    Fld {
        name: f.name().to_string(),
        desc: description(f.description()),
        args: vec![],
        ty: ty(f.ty()),
        default: f.default_value().map(val),
        dirs: directives(f.directives()),
    }
}

fn ty(t: ts::Type<'_>) -> Ty {
    parse_ty(&t.to_string())
}

pub fn parse_ty(text: impl AsRef<str>) -> Ty {
    let text = text.as_ref();
    let (body, nn) = match text.strip_suffix('!') {
        Some(b) => (b, true),
        None => (text, false),
    };
    match body.strip_prefix('[').and_then(|b| b.strip_suffix(']')) {
        Some(inside) => {
            let mut t = parse_ty(inside);
            t.lists.push(nn);
            t
        }
        None => Ty { base: body.to_string(), inner: nn, lists: vec![] },
    }
}

pub fn directives<'a>(ds: impl Iterator<Item = ts::Directive<'a>>) -> Vec<Dir> {
    ds.map(|d| Dir { name: d.name().to_string(), args: d.arguments().map(|a| (a.name().to_string(), val(a.value()))).collect() }).collect()
}

fn val(v: cynic_parser::ConstValue<'_>) -> Val {
    use cynic_parser::ConstValue as C;
    match v {
        C::Null(_) => Val::Null,
        C::Int(i) => Val::Int(i.as_i64()),
        C::Float(f) => Val::Float(f.as_f64()),
        C::String(s) => Val::Str(s.as_str().to_string()),
        C::Boolean(b) => Val::Bool(b.value()),
        C::Enum(e) => Val::Enum(e.name().to_string()),
        C::List(l) => Val::List(l.items().map(val).collect()),
        C::Object(o) => Val::Obj(o.fields().map(|f| (f.name().to_string(), val(f.value()))).collect()),
    }
}

// ---- facts ----

/// Every statement of a document, each with how often it is made; order of definitions, fields and directives
/// carries no meaning.
pub fn facts(doc: &Doc) -> BTreeMap<String, usize> {
    let mut out = BTreeMap::new();
    let mut say = |f: String| *out.entry(f).or_default() += 1;
    for (i, r) in doc.roots.iter().enumerate() {
        if let Some(r) = r {
            say(format!("root {i} is {r}"));
        }
    }
    for d in &doc.on_schema {
        if d.str("url").is_some_and(|u| u.starts_with("https://specs.apollo.dev/") || u.starts_with("https://specs.grafbase.com/")) {
            continue;
        }
        let mut d = d.clone();
        if let Some((_, Val::List(l))) = d.args.iter_mut().find(|(n, _)| n == "import") {
            l.sort_by_key(Val::text);
        }
        say(format!("schema {}", norm(&d)));
    }
    for d in &doc.directives {
        say(format!("@{}", d.name));
        for l in &d.locations {
            say(format!("@{} on {l}", d.name));
        }
        for a in &d.args {
            fact(&mut say, &format!("@{}({}:)", d.name, a.name), a);
        }
    }
    for d in &doc.defs {
        if d.name == "join__FieldSet" || d.name == "composite__FieldSelectionMap" || d.name.starts_with("link__") {
            continue;
        }
        let n = &d.name;
        say(format!("{:?} {n}", d.kind));
        if let Some(x) = &d.desc {
            say(format!("{n} described {:?}", plain(x)));
        }
        for i in &d.implements {
            say(format!("{n} implements {i}"));
        }
        for x in &d.dirs {
            say(format!("{n} {}", norm(x)));
        }
        for m in &d.members {
            say(format!("{n} has member {m}"));
        }
        for v in &d.values {
            say(format!("{n}.{} is a value", v.name));
            if let Some(x) = &v.desc {
                say(format!("{n}.{} described {:?}", v.name, plain(x)));
            }
            for x in &v.dirs {
                say(format!("{n}.{} {}", v.name, norm(x)));
            }
        }
        for f in &d.fields {
            fact(&mut say, &format!("{n}.{}", f.name), f);
            for a in &f.args {
                fact(&mut say, &format!("{n}.{}({}:)", f.name, a.name), a);
            }
        }
    }
    out
}

fn fact(say: &mut impl FnMut(String), at: &str, f: &Fld) {
    say(format!("{at}: {}", f.ty.text()));
    if let Some(x) = &f.desc {
        say(format!("{at} described {:?}", plain(x)));
    }
    if let Some(x) = &f.default {
        say(format!("{at} = {}", x.text()));
    }
    for x in &f.dirs {
        say(format!("{at} {}", norm(x)));
    }
}

/// Descriptions are set as block strings, which leaves no indentation.
fn plain(x: &str) -> String {
    x.trim().lines().map(str::trim).collect::<Vec<_>>().join("\n")
}

fn norm(d: &Dir) -> String {
    let mut d = d.clone();
    for (n, v) in &mut d.args {
        match (n.as_str(), &mut *v) {
            ("requires" | "provides" | "key", Val::Str(s)) => *s = norm_set(s),
            ("scopes" | "policies", Val::List(l)) => {
                let mut items: Vec<String> = l.iter().map(Val::text).collect();
                items.sort();
                items.dedup();
                *v = Val::List(items.into_iter().map(Val::Enum).collect());
            }
            _ => {}
        }
    }
    d.args.retain(|(n, v)| !(n == "resolvable" && *v == Val::Bool(true)) && !(n == "isInterfaceObject" && *v == Val::Bool(false)));
    d.args.sort_by(|a, b| a.0.cmp(&b.0));
    d.text()
}

/// A field set with siblings in alphabetical order.
pub fn norm_set(text: &str) -> String {
    let (sel, _) = selection(&tokens(text), 0);
    show(&sel)
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Sel {
    pub name: String,
    pub sub: Vec<Sel>,
}

fn tokens(text: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut cur = String::new();
    let mut depth = 0;
    let mut string = false;
    for c in text.chars() {
        if string {
            cur.push(c);
            string = c != '"';
            continue;
        }
        match c {
            '"' => {
                cur.push(c);
                string = true
            }
            '(' => {
                // The arguments belong to the name before them.
                if cur.is_empty() {
                    cur = out.pop().unwrap_or_default();
                }
                cur.push(c);
                depth += 1;
            }
            ')' => {
                cur.push(c);
                depth -= 1;
            }
            _ if depth > 0 => {
                if !c.is_whitespace() && c != ',' {
                    cur.push(c)
                } else if !cur.ends_with(' ') {
                    cur.push(' ')
                }
            }
            '{' | '}' => {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
                out.push(c.to_string());
            }
            c if c.is_whitespace() || c == ',' => {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

fn selection(t: &[String], mut i: usize) -> (Vec<Sel>, usize) {
    let mut out: Vec<Sel> = vec![];
    while i < t.len() {
        match t[i].as_str() {
            "{" => {
                let (sub, next) = selection(t, i + 1);
                if let Some(last) = out.last_mut() {
                    last.sub = sub;
                }
                i = next;
            }
            "}" => return (out, i + 1),
            "..." => {
                out.push(Sel { name: format!("... on {}", t.get(i + 2).cloned().unwrap_or_default()), sub: vec![] });
                i += 3;
            }
            name => {
                out.push(Sel { name: name.to_string(), sub: vec![] });
                i += 1;
            }
        }
    }
    (out, i)
}

fn show(sel: &[Sel]) -> String {
    let mut items: Vec<String> = sel.iter().map(|s| if s.sub.is_empty() { s.name.clone() } else { format!("{} {{ {} }}", s.name, show(&s.sub)) }).collect();
    items.sort();
    items.join(" ")
}

pub fn parse_set(text: &str) -> Vec<Sel> {
    selection(&tokens(text), 0).0
}
