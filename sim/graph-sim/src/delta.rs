//! A registry sending schema deltas to gateways that keep the schema they have on disk: what a delta says, and what
//! applying it makes of the schema.
use crate::registry::process;
use crate::sdl::{self, *};
use crate::{expect, supply};
use cynic_parser::type_system as ts;
use graphql_schema_diff as gsd;
use simkit::Sim;
use simkit::runner::{Prop, Scenario};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Block {
    pub desc: Option<String>,
    pub dirs: Vec<Dir>,
    pub roots: [Option<String>; 3],
}

/// A document with its schema definition and at most one schema extension. `doc.roots` is not used.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Schema {
    pub doc: Doc,
    pub block: Option<Block>,
    pub ext: Option<Block>,
}

const OPS: [&str; 3] = ["query", "mutation", "subscription"];

impl Schema {
    pub fn plain(&self) -> String {
        let mut out = String::new();
        for (b, ext) in [(&self.block, false), (&self.ext, true)] {
            let Some(b) = b else { continue };
            if let Some(d) = &b.desc {
                let _ = writeln!(out, "{}", quote(d));
            }
            out.push_str(if ext { "extend schema" } else { "schema" });
            for d in &b.dirs {
                let _ = write!(out, " {}", d.text());
            }
            if b.roots.iter().any(Option::is_some) {
                out.push_str(" {");
                for (i, r) in b.roots.iter().enumerate() {
                    if let Some(r) = r {
                        let _ = write!(out, "\n  {}: {r}", OPS[i]);
                    }
                }
                out.push_str("\n}");
            }
            out.push_str("\n\n");
        }
        out + &self.doc.render()
    }

    /// Independent of the order of everything but directives, which are only ever copied.
    fn sorted(&self) -> Schema {
        let mut s = self.clone();
        s.doc.directives.sort_by(|a, b| a.name.cmp(&b.name));
        for d in &mut s.doc.directives {
            d.args.sort_by(|a, b| a.name.cmp(&b.name));
            d.locations.sort();
        }
        s.doc.defs.sort_by(|a, b| a.name.cmp(&b.name));
        for d in &mut s.doc.defs {
            d.implements.sort();
            d.members.sort();
            d.values.sort_by(|a, b| a.name.cmp(&b.name));
            d.fields.sort_by(|a, b| a.name.cmp(&b.name));
            for f in &mut d.fields {
                f.args.sort_by(|a, b| a.name.cmp(&b.name));
            }
        }
        s
    }

    fn is_empty(&self) -> bool {
        self.doc.defs.is_empty() && self.doc.directives.is_empty() && self.block.is_none() && self.ext.is_none()
    }
}

pub fn read(text: &str) -> Result<Schema, String> {
    if text.trim().is_empty() {
        return Ok(Schema::default());
    }
    let parsed = cynic_parser::parse_type_system_document(text).map_err(|e| e.to_report(text).to_string())?;
    let mut out = Schema::default();
    let block = |s: ts::SchemaDefinition<'_>| {
        let mut b = Block { desc: description(s.description()), dirs: directives(s.directives()), roots: Default::default() };
        for r in s.root_operations() {
            let i = match r.operation_type() {
                cynic_parser::common::OperationType::Query => 0,
                cynic_parser::common::OperationType::Mutation => 1,
                _ => 2,
            };
            if b.roots[i].is_some() {
                return Err(format!("two {} types", OPS[i]));
            }
            b.roots[i] = Some(r.named_type().to_string());
        }
        Ok(b)
    };
    for d in parsed.definitions() {
        match d {
            ts::Definition::Type(t) => out.doc.defs.push(sdl::def(t, false)),
            ts::Definition::TypeExtension(t) => out.doc.defs.push(sdl::def(t, true)),
            ts::Definition::Schema(s) => {
                if out.block.replace(block(s)?).is_some() {
                    return Err("two schema definitions".into());
                }
            }
            ts::Definition::SchemaExtension(s) => {
                if out.ext.replace(block(s)?).is_some() {
                    return Err("two schema extensions".into());
                }
            }
            ts::Definition::Directive(d) => out.doc.directives.push(sdl::dirdef(d)),
        }
    }
    Ok(out)
}

// ---- how a schema is written down ----

/// Cuts a document into tokens and sets them anew: other white space, comments, commas, block strings.
/// `tight`: nothing between the tokens of a type, which not all parsers can take.
pub fn written(sim: &Sim, s: &Schema, tight: bool) -> String {
    let plain = s.plain();
    if s.is_empty() {
        return String::new();
    }
    if sim.chance(500) {
        return plain;
    }
    let mut tokens: Vec<String> = vec![];
    let chars: Vec<char> = plain.chars().collect();
    let mut i = 0;
    while i < chars.len() {
        let c = chars[i];
        let from = i;
        if c.is_whitespace() || c == ',' {
            i += 1;
            continue;
        } else if c == '"' {
            i += 1;
            while chars[i] != '"' {
                i += if chars[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
        } else if c.is_alphanumeric() || matches!(c, '_' | '-' | '+' | '.') {
            while i < chars.len() && (chars[i].is_alphanumeric() || matches!(chars[i], '_' | '-' | '+' | '.')) {
                i += 1;
            }
        } else {
            i += 1;
        }
        tokens.push(chars[from..i].iter().collect());
    }
    let odd = *sim.pick(&[50, 200, 500]);
    let mut out = String::new();
    let word = |t: &str| t.chars().next().is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '-');
    for (i, t) in tokens.iter().enumerate() {
        if i > 0 {
            let last = &tokens[i - 1];
            // A comment may not swallow what follows, and words need something between them.
            if !(tight && (matches!(t.as_str(), "!" | "]") || last == "[")) && sim.chance(odd) {
                match sim.choose(6) {
                    0 => out.push_str("\n"),
                    1 => out.push_str(", "),
                    2 => out.push_str(" # {note} \"\n"),
                    3 => out.push_str("\t \r\n"),
                    4 if !(word(last) && word(t)) && !(last.starts_with('"') && t.starts_with('"')) => {}
                    _ => out.push_str(" ,\n# ) é\n  "),
                }
            } else if matches!(t.as_str(), ":" | ")" | "(" | "!" | "]") || matches!(last.as_str(), "(" | "[" | "@") {
            } else {
                out.push_str(if matches!(t.as_str(), "}") || matches!(last.as_str(), "{" | "}") { "\n" } else { " " });
            }
        }
        match t.strip_prefix('"').and_then(|t| t.strip_suffix('"')) {
            Some(inside) if block_able(inside) && sim.chance(300) => {
                let _ = write!(out, "\"\"\"{inside}\"\"\"");
            }
            _ => out.push_str(t),
        }
        if t == "=" && i >= 1 && sim.chance(200) && i >= 2 && tokens[i - 2] == "union" {
            out.push_str(" |");
        }
        if t == "implements" && i > 2 && matches!(tokens[i - 2].as_str(), "type" | "interface") && sim.chance(200) {
            out.push_str(" &");
        }
    }
    out.push('\n');
    out
}

fn block_able(s: &str) -> bool {
    !s.is_empty() && !s.contains(['\\', '"']) && s.trim() == s && !s.contains('\n')
}

// ---- what may change ----

const TYPES: [&str; 12] = ["Node", "Zed", "a", "B", "name", "Thing_1", "_Hid", "User", "Users", "Query", "Mutation", "auth"];
const FIELDS: [&str; 12] = ["id", "Node", "name", "Zed", "zz", "_x", "A", "ab", "a", "B", "User", "user1"];
const VALUES: [&str; 6] = ["RED", "GREEN", "_B", "lower", "Zed", "A1"];

fn some_ty(sim: &Sim) -> Ty {
    let mut t = Ty::named(sim.pick::<&str>(&["String", "Int", "Node", "User", "Zed", "ID"]));
    t.inner = sim.chance(300);
    for _ in 0..if sim.chance(300) { 1 + sim.choose(2) } else { 0 } {
        t.lists.push(sim.chance(300));
    }
    t
}

fn some_desc(sim: &Sim) -> Option<String> {
    sim.chance(250).then(|| sim.pick(&["What it is", "a \"quoted\" one", "two\nlines", "with # and } in it", "é → ü", "type Query { a: Int }"]).to_string())
}

fn some_dirs(sim: &Sim) -> Vec<Dir> {
    let mut out = vec![];
    while out.len() < 2 && sim.chance(150) {
        out.push(match sim.choose(4) {
            0 => Dir::new("deprecated", &[]),
            1 => Dir::new("deprecated", &[("reason", s("no, not (this)"))]),
            2 => Dir::new("auth", &[("roles", Val::List(vec![s("a"), Val::Enum("B".into())])), ("level", Val::Int(3))]),
            _ => Dir::new("tag", &[("name", s("x")), ("opt", Val::Obj(vec![("a".into(), Val::Null), ("b".into(), Val::Bool(true))]))]),
        });
    }
    out
}

fn some_val(sim: &Sim) -> Val {
    match sim.choose(9) {
        0 => Val::Null,
        1 => Val::Int(sim.choose(3) as i64 - 1),
        2 => Val::Float(1.5 * sim.choose(3) as f64),
        3 => s(sim.pick(&["", "x", ") = \"y\"", "x\ny"])),
        4 => Val::Bool(sim.chance(500)),
        5 => Val::Enum(sim.pick(&VALUES).to_string()),
        6 => Val::List((0..sim.choose(3)).map(|_| Val::Int(sim.choose(2) as i64)).collect()),
        7 => Val::List(vec![Val::Obj(vec![("a".into(), Val::Int(1))]), Val::Null]),
        _ => Val::Obj((0..sim.choose(3)).map(|i| (["a", "b", "c"][i as usize].to_string(), Val::Int(sim.choose(2) as i64))).collect()),
    }
}

fn some_input(sim: &Sim, name: &str) -> Fld {
    let mut f = Fld::new(name, some_ty(sim));
    f.desc = some_desc(sim);
    f.dirs = some_dirs(sim);
    f.default = sim.chance(350).then(|| some_val(sim));
    f
}

fn fresh<'a>(sim: &Sim, pool: &[&'a str], taken: impl Fn(&str) -> bool) -> Option<&'a str> {
    let free: Vec<_> = pool.iter().filter(|n| !taken(n)).collect();
    (!free.is_empty()).then(|| **sim.pick(&free))
}

fn some_field(sim: &Sim, name: &str) -> Fld {
    let mut f = Fld::new(name, some_ty(sim));
    f.desc = some_desc(sim);
    f.dirs = some_dirs(sim);
    for _ in 0..if sim.chance(400) { 1 + sim.choose(3) } else { 0 } {
        if let Some(n) = fresh(sim, &FIELDS, |n| f.arg(n).is_some()) {
            f.args.push(some_input(sim, n));
        }
    }
    f
}

fn some_def(sim: &Sim, name: &str) -> Def {
    let kind = *sim.pick(&[Kind::Object, Kind::Object, Kind::Interface, Kind::Input, Kind::Enum, Kind::Union, Kind::Scalar]);
    let mut d = Def::new(kind, name);
    d.desc = some_desc(sim);
    d.dirs = some_dirs(sim);
    for _ in 0..1 + sim.choose(4) {
        match kind {
            Kind::Object | Kind::Interface => {
                if let Some(n) = fresh(sim, &FIELDS, |n| d.field(n).is_some()) {
                    d.fields.push(some_field(sim, n));
                }
                if sim.chance(300) {
                    let i = sim.pick(&TYPES).to_string();
                    if !d.implements.contains(&i) {
                        d.implements.push(i);
                    }
                }
            }
            Kind::Input => {
                if let Some(n) = fresh(sim, &FIELDS, |n| d.field(n).is_some()) {
                    d.fields.push(some_input(sim, n));
                }
            }
            Kind::Enum => {
                if let Some(n) = fresh(sim, &VALUES, |n| d.values.iter().any(|v| v.name == n)) {
                    d.values.push(EVal { name: n.into(), desc: some_desc(sim), dirs: some_dirs(sim) });
                }
            }
            Kind::Union => {
                if let Some(n) = fresh(sim, &TYPES, |n| d.members.iter().any(|v| v == n)) {
                    d.members.push(n.into());
                }
            }
            Kind::Scalar => {}
        }
    }
    d
}

fn some_dirdef(sim: &Sim, name: &str) -> DirDef {
    let mut d = DirDef { name: name.into(), desc: some_desc(sim), repeatable: sim.chance(300), ..DirDef::default() };
    for i in 0..sim.choose(3) {
        d.args.push(some_input(sim, ["name", "roles", "opt"][i as usize]));
    }
    for l in ["OBJECT", "FIELD_DEFINITION", "QUERY", "ENUM_VALUE", "INLINE_FRAGMENT"] {
        if sim.chance(400) {
            d.locations.push(l.into());
        }
    }
    if d.locations.is_empty() {
        d.locations.push("SCHEMA".into());
    }
    d
}

fn some_block(sim: &Sim, ext: bool) -> Block {
    let mut b = Block { desc: if ext { None } else { some_desc(sim) }, dirs: some_dirs(sim), roots: Default::default() };
    for r in &mut b.roots {
        if sim.chance(if ext { 150 } else { 500 }) {
            *r = Some(sim.pick(&TYPES).to_string());
        }
    }
    if !ext && b.roots.iter().all(Option::is_none) {
        b.roots[0] = Some("Query".into());
    }
    b
}

/// One change to a schema.
fn mutate(sim: &Sim, s: &mut Schema) {
    let n = s.doc.defs.len() as u32;
    let some = |sim: &Sim| if n == 0 { None } else { Some(sim.choose(n) as usize) };
    match sim.choose(20) {
        0 | 1 => {
            if let Some(name) = fresh(sim, &TYPES, |n| s.doc.def(n).is_some()) {
                let at = sim.choose(n + 1) as usize;
                s.doc.defs.insert(at, some_def(sim, name));
            }
        }
        2 => {
            if let Some(i) = some(sim) {
                s.doc.defs.remove(i);
            }
        }
        3 => {
            if let Some(i) = some(sim) {
                // Often keeping what both kinds can have.
                let was = s.doc.defs[i].clone();
                let mut now = some_def(sim, &was.name);
                if now.kind == was.kind {
                    now.kind = match was.kind {
                        Kind::Object => Kind::Interface,
                        Kind::Interface => Kind::Object,
                        _ => was.kind,
                    };
                }
                if matches!((was.kind, now.kind), (Kind::Object, Kind::Interface) | (Kind::Interface, Kind::Object)) && sim.chance(700) {
                    now.fields = was.fields;
                    if sim.chance(500) {
                        now.implements = was.implements;
                    }
                }
                s.doc.defs[i] = now;
            }
        }
        4 => match (&mut s.block, sim.choose(3)) {
            (b @ Some(_), 0) => *b = None,
            (Some(b), _) => {
                let i = sim.choose(3) as usize;
                b.roots[i] = sim.chance(700).then(|| sim.pick(&TYPES).to_string());
                if b.roots.iter().all(Option::is_none) {
                    b.roots[i] = Some("Users".into());
                }
            }
            (b, _) => *b = Some(some_block(sim, false)),
        },
        5 => match (&mut s.ext, sim.choose(3)) {
            (e @ Some(_), 0) => *e = None,
            (Some(e), _) => e.dirs = some_dirs(sim),
            (e, _) => {
                let mut b = some_block(sim, true);
                if b.dirs.is_empty() && b.roots.iter().all(Option::is_none) {
                    b.dirs.push(Dir::new("link", &[("url", sdl::s("https://x.test/{y}"))]));
                }
                *e = Some(b);
            }
        },
        6 => {
            if !s.doc.directives.is_empty() && sim.chance(500) {
                let i = sim.choose(s.doc.directives.len() as u32) as usize;
                s.doc.directives.remove(i);
            } else if let Some(name) = fresh(sim, &["auth", "tag", "Zed", "User"], |n| s.doc.directives.iter().any(|d| d.name == n)) {
                s.doc.directives.push(some_dirdef(sim, name));
            }
        }
        7 => {
            // What isn't tracked.
            if let Some(i) = some(sim) {
                let d = &mut s.doc.defs[i];
                match sim.choose(4) {
                    0 => d.desc = some_desc(sim),
                    1 => d.dirs = some_dirs(sim),
                    2 => {
                        for f in &mut d.fields {
                            f.desc = some_desc(sim);
                            f.dirs = some_dirs(sim);
                        }
                    }
                    _ => {
                        sim.shuffle(&mut d.fields);
                        sim.shuffle(&mut d.values);
                        sim.shuffle(&mut d.members);
                        sim.shuffle(&mut d.implements);
                    }
                }
            }
            if sim.chance(200) {
                sim.shuffle(&mut s.doc.defs);
            }
        }
        _ => {
            let Some(i) = some(sim) else { return };
            let d = &mut s.doc.defs[i];
            match d.kind {
                Kind::Object | Kind::Interface => match sim.choose(10) {
                    0 | 1 => {
                        if let Some(n) = fresh(sim, &FIELDS, |n| d.field(n).is_some()) {
                            let at = sim.choose(d.fields.len() as u32 + 1) as usize;
                            d.fields.insert(at, some_field(sim, n));
                        }
                    }
                    2 => {
                        if d.fields.len() > 1 {
                            let k = sim.choose(d.fields.len() as u32) as usize;
                            d.fields.remove(k);
                        }
                    }
                    3 => {
                        if sim.chance(500) && !d.implements.is_empty() {
                            let k = sim.choose(d.implements.len() as u32) as usize;
                            d.implements.remove(k);
                        } else if let Some(n) = fresh(sim, &TYPES, |n| d.implements.iter().any(|x| x == n)) {
                            d.implements.push(n.into());
                        }
                    }
                    4 => sim.pick_mut(&mut d.fields).ty = some_ty(sim),
                    _ => {
                        let f = sim.pick_mut(&mut d.fields);
                        arguments(sim, f);
                    }
                },
                Kind::Input => match sim.choose(4) {
                    0 => {
                        if let Some(n) = fresh(sim, &FIELDS, |n| d.field(n).is_some()) {
                            d.fields.push(some_input(sim, n));
                        }
                    }
                    1 => {
                        if d.fields.len() > 1 {
                            let k = sim.choose(d.fields.len() as u32) as usize;
                            d.fields.remove(k);
                        }
                    }
                    2 => sim.pick_mut(&mut d.fields).ty = some_ty(sim),
                    _ => sim.pick_mut(&mut d.fields).default = sim.chance(600).then(|| some_val(sim)),
                },
                Kind::Enum => {
                    if d.values.len() > 1 && sim.chance(500) {
                        let k = sim.choose(d.values.len() as u32) as usize;
                        d.values.remove(k);
                    } else if let Some(n) = fresh(sim, &VALUES, |n| d.values.iter().any(|v| v.name == n)) {
                        let at = sim.choose(d.values.len() as u32 + 1) as usize;
                        d.values.insert(at, EVal { name: n.into(), desc: some_desc(sim), dirs: some_dirs(sim) });
                    }
                }
                Kind::Union => {
                    if d.members.len() > 1 && sim.chance(500) {
                        let k = sim.choose(d.members.len() as u32) as usize;
                        d.members.remove(k);
                    } else if let Some(n) = fresh(sim, &TYPES, |n| d.members.iter().any(|v| v == n)) {
                        d.members.push(n.into());
                    }
                }
                Kind::Scalar => d.dirs = some_dirs(sim),
            }
        }
    }
}

fn arguments(sim: &Sim, f: &mut Fld) {
    let k = f.args.len() as u32;
    match sim.choose(6) {
        0 | 1 => {
            if let Some(n) = fresh(sim, &FIELDS, |n| f.arg(n).is_some()) {
                let at = sim.choose(k + 1) as usize;
                f.args.insert(at, some_input(sim, n));
            }
        }
        2 if k > 0 => {
            f.args.remove(sim.choose(k) as usize);
        }
        3 if k > 0 => f.args[sim.choose(k) as usize].ty = some_ty(sim),
        4 if k > 0 => f.args[sim.choose(k) as usize].default = sim.chance(650).then(|| some_val(sim)),
        _ => {
            for a in &mut f.args {
                if sim.chance(300) {
                    a.desc = some_desc(sim);
                    a.dirs = some_dirs(sim);
                }
            }
        }
    }
}

fn base(sim: &Sim) -> Schema {
    let mut s = Schema::default();
    if sim.chance(150) {
        let subs = supply::release(sim);
        let full = expect::compose(&subs);
        s.doc = if sim.chance(500) { full } else { expect::api(&full, false) };
        let roots = std::mem::take(&mut s.doc.roots);
        s.block = (roots.iter().any(Option::is_some) && sim.chance(500)).then(|| Block { roots, ..Block::default() });
    }
    grown(sim, s)
}

pub fn grown(sim: &Sim, mut s: Schema) -> Schema {
    let n = if sim.chance(60) { 0 } else { 1 + sim.choose(7) };
    for _ in 0..n {
        if let Some(name) = fresh(sim, &TYPES, |n| s.doc.def(n).is_some()) {
            s.doc.defs.push(some_def(sim, name));
        }
    }
    if n > 0 {
        if sim.chance(400) {
            s.block = Some(some_block(sim, false));
        }
        if sim.chance(300) {
            s.doc.directives.push(some_dirdef(sim, sim.pick::<&str>(&["auth", "tag", "Zed"])));
        }
    }
    s
}

// ---- what a delta says, and what applying it does ----

/// path and kind of every change
pub fn changes(from: &Schema, to: &Schema) -> Vec<(String, &'static str)> {
    let mut out: Vec<(String, &'static str)> = vec![];
    let mut say = |p: String, k| out.push((p, k));
    match (&from.block, &to.block) {
        (None, Some(_)) => say(":schema".into(), "AddSchemaDefinition"),
        (Some(_), None) => say(":schema".into(), "RemoveSchemaDefinition"),
        (Some(a), Some(b)) => {
            for (i, k) in ["ChangeQueryType", "ChangeMutationType", "ChangeSubscriptionType"].into_iter().enumerate() {
                if a.roots[i] != b.roots[i] {
                    say(":schema".into(), k);
                }
            }
        }
        (None, None) => {}
    }
    match (&from.ext, &to.ext) {
        (None, Some(_)) => say(":schema[0]".into(), "AddSchemaExtension"),
        (Some(_), None) => say(":schema[0]".into(), "RemoveSchemaExtension"),
        _ => {}
    }
    let directive = |s: &Schema, n: &str| s.doc.directives.iter().any(|d| d.name == n);
    for d in &from.doc.directives {
        if !directive(to, &d.name) {
            say(d.name.clone(), "RemoveDirectiveDefinition");
        }
    }
    for d in &to.doc.directives {
        if !directive(from, &d.name) {
            say(d.name.clone(), "AddDirectiveDefinition");
        }
    }
    let add = |k: Kind| match k {
        Kind::Scalar => ["AddScalar", "RemoveScalar"],
        Kind::Object => ["AddObjectType", "RemoveObjectType"],
        Kind::Interface => ["AddInterface", "RemoveInterface"],
        Kind::Union => ["AddUnion", "RemoveUnion"],
        Kind::Enum => ["AddEnum", "RemoveEnum"],
        Kind::Input => ["AddInputObject", "RemoveInputObject"],
    };
    for a in &from.doc.defs {
        if to.doc.def(&a.name).is_none_or(|b| b.kind != a.kind) {
            say(a.name.clone(), add(a.kind)[1]);
        }
    }
    for b in &to.doc.defs {
        let Some(a) = from.doc.def(&b.name).filter(|a| a.kind == b.kind) else {
            say(b.name.clone(), add(b.kind)[0]);
            continue;
        };
        let n = &b.name;
        let both = |x: &[String], y: &[String]| -> [Vec<String>; 2] {
            [y.iter().filter(|m| !x.contains(m)).cloned().collect(), x.iter().filter(|m| !y.contains(m)).cloned().collect()]
        };
        let [added, removed] = both(&a.implements, &b.implements);
        added.iter().for_each(|m| say(format!("{n}.&{m}"), "AddInterfaceImplementation"));
        removed.iter().for_each(|m| say(format!("{n}.&{m}"), "RemoveInterfaceImplementation"));
        let [added, removed] = both(&a.members, &b.members);
        added.iter().for_each(|m| say(format!("{n}.{m}"), "AddUnionMember"));
        removed.iter().for_each(|m| say(format!("{n}.{m}"), "RemoveUnionMember"));
        let names = |d: &Def| d.values.iter().map(|v| v.name.clone()).collect::<Vec<_>>();
        let [added, removed] = both(&names(a), &names(b));
        added.iter().for_each(|m| say(format!("{n}.{m}"), "AddEnumValue"));
        removed.iter().for_each(|m| say(format!("{n}.{m}"), "RemoveEnumValue"));
        for f in a.fields.iter().filter(|f| b.field(&f.name).is_none()) {
            say(format!("{n}.{}", f.name), "RemoveField");
        }
        for g in &b.fields {
            let p = format!("{n}.{}", g.name);
            let Some(f) = a.field(&g.name) else {
                say(p, "AddField");
                continue;
            };
            if f.ty != g.ty {
                say(p.clone(), "ChangeFieldType");
            }
            for x in f.args.iter().filter(|x| g.arg(&x.name).is_none()) {
                say(format!("{p}.{}", x.name), "RemoveFieldArgument");
            }
            for y in &g.args {
                let p = format!("{p}.{}", y.name);
                let Some(x) = f.arg(&y.name) else {
                    say(p, "AddFieldArgument");
                    continue;
                };
                if x.ty != y.ty {
                    say(p.clone(), "ChangeFieldArgumentType");
                }
                match (&x.default, &y.default) {
                    (None, Some(_)) => say(p, "AddFieldArgumentDefault"),
                    (Some(_), None) => say(p, "RemoveFieldArgumentDefault"),
                    (Some(x), Some(y)) if x != y => say(p, "ChangeFieldArgumentDefault"),
                    _ => {}
                }
            }
        }
    }
    out.sort();
    out
}

/// `to`, where descriptions, directives and whatever else deltas don't carry stay as they were in `from`.
fn applied(from: &Schema, to: &Schema) -> Schema {
    let mut out = to.clone();
    if let (Some(a), Some(b)) = (&from.block, &mut out.block) {
        (b.desc, b.dirs) = (a.desc.clone(), a.dirs.clone());
    }
    if let (Some(a), Some(b)) = (&from.ext, &mut out.ext) {
        *b = a.clone();
    }
    for d in &mut out.doc.directives {
        if let Some(a) = from.doc.directives.iter().find(|a| a.name == d.name) {
            *d = a.clone();
        }
    }
    for d in &mut out.doc.defs {
        let Some(a) = from.doc.def(&d.name).filter(|a| a.kind == d.kind) else { continue };
        (d.desc, d.dirs) = (a.desc.clone(), a.dirs.clone());
        for v in &mut d.values {
            if let Some(w) = a.values.iter().find(|w| w.name == v.name) {
                *v = w.clone();
            }
        }
        for f in &mut d.fields {
            let Some(g) = a.field(&f.name) else { continue };
            (f.desc, f.dirs) = (g.desc.clone(), g.dirs.clone());
            f.default = g.default.clone();
            for x in &mut f.args {
                if let Some(y) = g.arg(&x.name) {
                    (x.desc, x.dirs) = (y.desc.clone(), y.dirs.clone());
                }
            }
        }
    }
    out
}

// ---- the simulation ----

#[derive(Clone)]
struct Delta {
    json: String,
    spans: Vec<String>,
}

fn diff(sim: &Sim, from: &str, to: &str) -> Option<Result<Delta, String>> {
    let (a, b) = (from.to_string(), to.to_string());
    process(sim, move || {
        let d = gsd::diff(&a, &b).map_err(|e| e.to_string())?;
        let spans = gsd::resolve_spans(&a, &b, &d).map(str::to_string).collect();
        Ok(Delta { json: serde_json::to_string(&d).unwrap(), spans })
    })
}

fn patch(sim: &Sim, from: &str, d: &Delta) -> Option<Result<String, String>> {
    let (a, d) = (from.to_string(), d.clone());
    process(sim, move || {
        let list: Vec<gsd::Change> = serde_json::from_str(&d.json).map_err(|e| format!("delta can't be read: {e}"))?;
        gsd::patch(&a, &list, &d.spans).map(|p| p.into_schema()).map_err(|e| e.to_string())
    })
}

/// What a delta has to say of these two versions.
fn judge(sim: &Sim, from: &Schema, to: &Schema, texts: [&str; 2], d: &Delta) -> bool {
    let show = || format!("--- from\n{}\n--- to\n{}", texts[0], texts[1]);
    let list: Vec<gsd::Change> = serde_json::from_str(&d.json).unwrap();
    let mut got: Vec<(String, &str)> = list.iter().map(|c| (c.path.clone(), c.kind.as_str())).collect();
    got.sort();
    let want = changes(from, to);
    if got != want {
        let (g, w): (BTreeSet<_>, BTreeSet<_>) = (got.iter().collect(), want.iter().collect());
        let missing: Vec<_> = w.difference(&g).collect();
        let extra: Vec<_> = g.difference(&w).collect();
        sim.violate("delta-differs", format!("missing {missing:?}, extra {extra:?}{}\n{}", if missing.is_empty() && extra.is_empty() { ", repeated" } else { "" }, show()));
        return false;
    }
    for (c, span) in list.iter().zip(&d.spans) {
        match gsd::path::Path::parse(&c.path) {
            Ok(p) if p.to_string() == c.path => {}
            Ok(p) => sim.violate("path-changed", format!("{} became {p}", c.path)),
            Err(_) => sim.violate("path-unreadable", c.path.clone()),
        }
        sim.check(c.kind.as_str().parse() == Ok(c.kind), "kind-unreadable", || c.kind.as_str().to_string());
        let ok = match c.kind {
            gsd::ChangeKind::ChangeFieldType => {
                let (t, f) = c.path.split_once('.').unwrap();
                let want = &to.doc.def(t).and_then(|d| d.field(f)).unwrap().ty;
                bare(span) == want.text()
            }
            gsd::ChangeKind::ChangeFieldArgumentType => {
                let p: Vec<_> = c.path.split('.').collect();
                let want = &to.doc.def(p[0]).and_then(|d| d.field(p[1])).and_then(|f| f.arg(p[2])).unwrap().ty;
                bare(span) == want.text()
            }
            gsd::ChangeKind::RemoveField | gsd::ChangeKind::RemoveFieldArgument | gsd::ChangeKind::RemoveInterfaceImplementation => span.is_empty(),
            _ => true,
        };
        sim.check(ok, "span-differs", || format!("{} {}: {span:?}\n{}", c.kind.as_str(), c.path, show()));
    }
    for c in &list {
        sim.count(c.kind.as_str());
    }
    true
}

/// Without white space and comments.
fn bare(s: &str) -> String {
    s.lines().map(|l| l.split('#').next().unwrap()).collect::<String>().chars().filter(|c| !c.is_whitespace() && *c != ',').collect()
}

pub fn compare(want: &Schema, got: &Schema) -> Option<String> {
    let (want, got) = (want.sorted(), got.sorted());
    if want == got {
        return None;
    }
    let (w, g) = (want.plain(), got.plain());
    let (w, g): (Vec<&str>, Vec<&str>) = (w.lines().collect(), g.lines().collect());
    for i in 0..w.len().max(g.len()) {
        if w.get(i) != g.get(i) {
            return Some(format!("wanted {:?}, is {:?}", w.get(i).unwrap_or(&"nothing"), g.get(i).unwrap_or(&"nothing")));
        }
    }
    Some("they differ".into())
}

enum Msg {
    Delta { from: usize, to: usize },
    Full(usize),
    /// A gateway asks for the current version.
    Ask,
}

struct Gateway {
    version: usize,
    disk: String,
    model: Schema,
    up: bool,
}

fn run(sim: &Sim) {
    let mut versions = vec![base(sim)];
    for _ in 0..1 + sim.choose(3) {
        let next = if versions.len() > 1 && sim.chance(150) {
            sim.count("rolled back");
            versions[sim.choose(versions.len() as u32) as usize].clone()
        } else {
            let mut next = versions.last().unwrap().clone();
            for _ in 0..if sim.chance(60) { 0 } else { sim.log_range(1, 12) } {
                mutate(sim, &mut next);
            }
            if sim.chance(20) {
                next = Schema::default();
            }
            next
        };
        versions.push(next);
    }
    let texts: Vec<String> = versions.iter().map(|v| written(sim, v, false)).collect();
    if std::env::var_os("SIM_LOG").is_some() {
        for (i, t) in texts.iter().enumerate() {
            eprintln!("=== {i}\n{t}");
        }
    }
    for (v, t) in versions.iter().zip(&texts) {
        match read(t) {
            Ok(back) => {
                if let Some(d) = compare(v, &back) {
                    panic!("generated text means something else: {d}\n{t}");
                }
            }
            Err(e) => panic!("generated text can't be read: {e}\n{t}"),
        }
    }
    // Deltas, as the registry makes them on publication; a second registry node has to make the same.
    let mut deltas: BTreeMap<(usize, usize), Delta> = BTreeMap::new();
    for i in 1..versions.len() {
        let from = if i > 1 && sim.chance(200) { i - 2 } else { i - 1 };
        let mut made = vec![];
        for _ in 0..2 {
            match diff(sim, &texts[from], &texts[i]) {
                None => return,
                Some(Err(e)) => return sim.violate("delta-refused", format!("{e}\n{}\n---\n{}", texts[from], texts[i])),
                Some(Ok(d)) => made.push(d),
            }
        }
        sim.check(made[0].json == made[1].json && made[0].spans == made[1].spans, "deltas-diverge", || format!("{} / {}", made[0].json, made[1].json));
        if !judge(sim, &versions[from], &versions[i], [&texts[from], &texts[i]], &made[0]) || sim.violated() {
            return;
        }
        if sim.chance(300) {
            // The same version, written down again, is no change.
            let again = written(sim, &versions[i], false);
            match diff(sim, &texts[i], &again) {
                None => return,
                Some(Ok(d)) => {
                    if !judge(sim, &versions[i], &versions[i], [&texts[i], &again], &d) {
                        return;
                    }
                }
                Some(Err(e)) => return sim.violate("delta-refused", e),
            }
        }
        sim.event(&made[0].json);
        deltas.insert((from, i), made.swap_remove(0));
    }
    let n = 1 + sim.choose(2) as usize;
    let mut gateways: Vec<Gateway> = (0..n).map(|_| Gateway { version: 0, disk: texts[0].clone(), model: versions[0].clone(), up: true }).collect();
    let mut queue: Vec<(u64, u64, usize, Msg)> = vec![];
    let mut seq = 0;
    let mut send = |queue: &mut Vec<_>, at: u64, g: usize, m: Msg| {
        seq += 1;
        queue.push((at, seq, g, m));
    };
    let lossy = sim.chance(500);
    let mut at = 0;
    for (&(from, to), _) in &deltas {
        at += sim.log_range(1, 10_000_000_000);
        for g in 0..n {
            if lossy && sim.chance(150) {
                sim.fault("message lost");
                continue;
            }
            send(&mut queue, at + sim.log_range(1, 20_000_000_000), g, Msg::Delta { from, to });
            if lossy && sim.chance(150) {
                sim.fault("message duplicated");
                send(&mut queue, at + sim.log_range(1, 60_000_000_000), g, Msg::Delta { from, to });
            }
        }
    }
    let last = versions.len() - 1;
    let crashed: Option<(usize, u64, u64)> = sim.chance(250).then(|| {
        let t = sim.range(0, at + 20_000_000_000);
        (sim.choose(n as u32) as usize, t, t + sim.log_range(1, 20_000_000_000))
    });
    for g in 0..n {
        send(&mut queue, at + 100_000_000_000, g, Msg::Ask);
    }
    while !queue.is_empty() {
        let i = (0..queue.len()).min_by_key(|i| (queue[*i].0, queue[*i].1)).unwrap();
        let (t, _, g, m) = queue.swap_remove(i);
        if t > sim.now_ns() {
            sim.advance_ns(t - sim.now_ns());
        }
        let gw = &mut gateways[g];
        if let Some((c, from, to)) = crashed {
            let up = !(c == g && from <= t && t < to);
            if up && !gw.up {
                // Reads what it has on disk.
                match read(&gw.disk) {
                    Ok(s) => {
                        if let Some(d) = compare(&gw.model, &s) {
                            sim.violate("patched-schema-differs", d);
                        }
                    }
                    Err(e) => sim.violate("patched-schema-unreadable", e),
                }
            }
            gw.up = up;
        }
        if !gw.up {
            sim.fault("message to a gateway that is down");
            continue;
        }
        match m {
            Msg::Ask if gw.version < last => {
                sim.count("full schema sent");
                send(&mut queue, t + sim.log_range(1, 1_000_000_000), g, Msg::Full(last));
            }
            Msg::Ask => {}
            Msg::Full(v) => {
                if v > gw.version {
                    sim.event_with(g as u64, || format!("{g} takes {v}"));
                    (gw.version, gw.disk, gw.model) = (v, texts[v].clone(), versions[v].clone());
                }
            }
            Msg::Delta { from, to } if gw.version == from => {
                sim.event_with(g as u64 + 7, || format!("{g} applies {from} → {to}"));
                let d = &deltas[&(from, to)];
                let was = gw.disk.clone();
                let show = |now: &str| format!("--- had\n{was}\n--- target\n{}\n--- {}\n--- became\n{now}", texts[to], d.json);
                let now = match patch(sim, &was, d) {
                    None => {
                        sim.event(show("?"));
                        return;
                    }
                    Some(Err(e)) => return sim.violate("patch-refused", format!("{e}\n{}", show(""))),
                    Some(Ok(s)) => s,
                };
                sim.nontrivial();
                sim.count("patched");
                let want = applied(&gw.model, &versions[to]);
                match read(&now) {
                    Err(e) => return sim.violate("patched-schema-unreadable", format!("{e}\n{}", show(&now))),
                    Ok(got) => {
                        if let Some(diff) = compare(&want, &got) {
                            return sim.violate("patched-schema-differs", format!("{diff}\n{}", show(&now)));
                        }
                    }
                }
                // Nothing is left to be said between the two.
                match diff(sim, &now, &texts[to]) {
                    None => return,
                    Some(Ok(d)) if d.json == "[]" => {}
                    Some(Ok(d)) => return sim.violate("patch-incomplete", format!("{}\n{}", d.json, show(&now))),
                    Some(Err(e)) => return sim.violate("delta-refused", format!("{e}\n{}", show(&now))),
                }
                (gw.version, gw.disk, gw.model) = (to, now, want);
            }
            Msg::Delta { from, .. } if gw.version < from => {
                sim.fault("delta for a version it doesn't have");
                send(&mut queue, t + sim.log_range(1, 1_000_000_000), g, Msg::Full(last));
            }
            Msg::Delta { .. } => sim.count("stale delta"),
        }
        if sim.violated() {
            return;
        }
    }
    for g in &gateways {
        if g.version != last {
            panic!("gateway left behind");
        }
    }
}

pub fn deltas() -> Prop {
    Prop {
        id: "D01",
        scenarios: vec![Scenario { name: "deltas", weight: 1, run }],
        rule: "a run counts if a gateway applied a delta",
        real: &["graphql-schema-diff: diff, resolve_spans, patch, Path, serde form", "cynic-parser"],
        stub: &["registry, gateways and their network", "hash seeds come from the simulator"],
        assumptions: &["schemas are without type extensions and have at most one schema extension; no braces are empty"],
        quick: (30, 100_000),
        thorough: (600, 10_000_000),
    }
}
