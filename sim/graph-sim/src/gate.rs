//! Releases going through operation checks: clients use the schema, collectors record what they use, and a new version
//! is deployed only if the checks have nothing against it.
use crate::delta::{self, Block, Schema};
use crate::registry::process;
use crate::sdl::*;
use operation_checks as oc;
use simkit::Sim;
use simkit::runner::{Prop, Scenario};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

// ---- schemas ----

const OBJECTS: [&str; 5] = ["User", "Post", "Zebra", "a_b", "Use"];
const INTERFACES: [&str; 3] = ["Node", "Media", "aNode"];
const UNIONS: [&str; 2] = ["Search", "Any"];
const ENUMS: [&str; 2] = ["Color", "Status"];
const INPUTS: [&str; 3] = ["Filter", "UserInput", "Deep"];
const ROOTS: [&str; 3] = ["Query", "Mutation", "Subscription"];
const FIELDS: [&str; 10] = ["id", "name", "posts", "author", "Zed", "_x", "a", "ab", "media", "color"];
const ARGS: [&str; 6] = ["first", "filter", "color", "a", "Zz", "ids"];
const VALUES: [&str; 5] = ["RED", "GREEN", "blue", "_B", "A1"];
const LEAVES: [&str; 5] = ["String", "Int", "ID", "Boolean", "Float"];

fn names(doc: &Doc, kinds: &[Kind]) -> Vec<String> {
    doc.defs.iter().filter(|d| kinds.contains(&d.kind) && !ROOTS.contains(&d.name.as_str())).map(|d| d.name.clone()).collect()
}

fn wrap(sim: &Sim, base: String) -> Ty {
    let mut t = Ty::named(&base);
    t.inner = sim.chance(350);
    for _ in 0..if sim.chance(350) { 1 + sim.choose(2) } else { 0 } {
        t.lists.push(sim.chance(350));
    }
    t
}

fn leaf(sim: &Sim, doc: &Doc) -> String {
    let own = names(doc, &[Kind::Enum, Kind::Scalar]);
    if !own.is_empty() && sim.chance(400) { sim.pick(&own).clone() } else { sim.pick(&LEAVES).to_string() }
}

fn out_ty(sim: &Sim, doc: &Doc, composite: u32) -> Ty {
    let own = names(doc, &[Kind::Object, Kind::Interface, Kind::Union]);
    let base = if !own.is_empty() && sim.chance(composite) { sim.pick(&own).clone() } else { leaf(sim, doc) };
    wrap(sim, base)
}

fn in_ty(sim: &Sim, doc: &Doc) -> Ty {
    let own = names(doc, &[Kind::Input]);
    let enums = names(doc, &[Kind::Enum]);
    let base = if !own.is_empty() && sim.chance(350) {
        sim.pick(&own).clone()
    } else if !enums.is_empty() && sim.chance(400) {
        sim.pick(&enums).clone()
    } else {
        leaf(sim, doc)
    };
    wrap(sim, base)
}

fn new_arg(sim: &Sim, doc: &Doc, name: &str) -> Fld {
    let mut a = Fld::new(name, in_ty(sim, doc));
    if sim.chance(300) {
        a.default = lit(sim, doc, &a.ty, 0);
    }
    a
}

fn new_field(sim: &Sim, doc: &Doc, name: &str, composite: u32) -> Fld {
    let mut f = Fld::new(name, out_ty(sim, doc, composite));
    for _ in 0..if sim.chance(450) { 1 + sim.choose(3) } else { 0 } {
        if let Some(n) = fresh(sim, &ARGS, |n| f.arg(n).is_some()) {
            f.args.push(new_arg(sim, doc, n));
        }
    }
    f
}

fn new_input_field(sim: &Sim, doc: &Doc, name: &str) -> Fld {
    let mut f = Fld::new(name, in_ty(sim, doc));
    if doc.def(&f.ty.base).is_some_and(|d| d.kind == Kind::Input) {
        // No value would be finite otherwise.
        f.ty.set_outer(false);
        f.ty.inner = false;
    }
    if sim.chance(250) && doc.def(&f.ty.base).is_none_or(|d| d.kind != Kind::Input) {
        f.default = lit(sim, doc, &f.ty, 0);
    }
    f
}

fn fresh<'a>(sim: &Sim, pool: &[&'a str], taken: impl Fn(&str) -> bool) -> Option<&'a str> {
    let free: Vec<_> = pool.iter().filter(|n| !taken(n)).collect();
    (!free.is_empty()).then(|| **sim.pick(&free))
}

fn first_schema(sim: &Sim) -> Doc {
    let mut doc = Doc::default();
    for (pool, kind, least) in [(&ENUMS[..], Kind::Enum, 1), (&INPUTS, Kind::Input, 1), (&INTERFACES, Kind::Interface, 0), (&OBJECTS, Kind::Object, 1), (&UNIONS, Kind::Union, 0)] {
        let mut pool = pool.to_vec();
        sim.shuffle(&mut pool);
        for n in pool.iter().take(least + sim.choose((pool.len() - least) as u32 + 1) as usize) {
            doc.defs.push(Def::new(kind, n));
        }
    }
    if sim.chance(500) {
        doc.defs.push(Def::new(Kind::Scalar, "Date"));
    }
    for i in 0..3 {
        if i == 0 || sim.chance(350) {
            doc.defs.push(Def::new(Kind::Object, ROOTS[i]));
        }
    }
    for i in 0..doc.defs.len() {
        if doc.defs[i].kind == Kind::Enum {
            for v in VALUES.iter().take(2 + sim.choose(3) as usize) {
                doc.defs[i].values.push(EVal { name: v.to_string(), desc: None, dirs: vec![] });
            }
        }
    }
    for i in 0..doc.defs.len() {
        let kind = doc.defs[i].kind;
        let root = ROOTS.contains(&doc.defs[i].name.as_str());
        match kind {
            Kind::Input => {
                for _ in 0..1 + sim.choose(4) {
                    if let Some(n) = fresh(sim, &FIELDS, |n| doc.defs[i].field(n).is_some()) {
                        let f = new_input_field(sim, &doc, n);
                        doc.defs[i].fields.push(f);
                    }
                }
            }
            Kind::Object | Kind::Interface => {
                for _ in 0..1 + sim.choose(4) {
                    if let Some(n) = fresh(sim, &FIELDS, |n| doc.defs[i].field(n).is_some()) {
                        let f = new_field(sim, &doc, n, if root { 750 } else { 350 });
                        doc.defs[i].fields.push(f);
                    }
                }
            }
            Kind::Union => {
                let objects = names(&doc, &[Kind::Object]);
                for o in objects {
                    if doc.defs[i].members.is_empty() || sim.chance(500) {
                        doc.defs[i].members.push(o);
                    }
                }
            }
            _ => {}
        }
    }
    for name in names(&doc, &[Kind::Object]) {
        for i in names(&doc, &[Kind::Interface]) {
            if sim.chance(400) {
                implement(&mut doc, &name, &i);
            }
        }
    }
    doc
}

fn implement(doc: &mut Doc, name: &str, interface: &str) {
    let fields = doc.def(interface).unwrap().fields.clone();
    let d = doc.def_mut(name).unwrap();
    if !d.implements.iter().any(|x| x == interface) {
        d.implements.push(interface.into());
        for f in fields {
            if d.field(&f.name).is_none() {
                d.fields.push(f);
            }
        }
    }
}

/// A value of the type, without null.
fn lit(sim: &Sim, doc: &Doc, ty: &Ty, depth: u32) -> Option<Val> {
    if let Some((_, rest)) = ty.lists.split_last() {
        let inner = Ty { base: ty.base.clone(), inner: ty.inner, lists: rest.to_vec() };
        return Some(Val::List((0..sim.choose(3)).map(|_| lit(sim, doc, &inner, depth)).collect::<Option<_>>()?));
    }
    Some(match ty.base.as_str() {
        "String" => s(sim.pick(&["", "RED", "x"])),
        "Int" => Val::Int(sim.choose(3) as i64),
        "Float" => Val::Float(0.5),
        "Boolean" => Val::Bool(sim.chance(500)),
        "ID" => s("1"),
        n => {
            let d = doc.def(n)?;
            match d.kind {
                Kind::Scalar => s("2020"),
                Kind::Enum if d.values.is_empty() => return None,
                Kind::Enum => Val::Enum(sim.pick(&d.values).name.clone()),
                Kind::Input => {
                    let mut out = vec![];
                    for f in &d.fields {
                        let required = f.ty.outer() && f.default.is_none();
                        if required || depth < 3 && sim.chance(500) {
                            if depth > 6 {
                                return None;
                            }
                            out.push((f.name.clone(), lit(sim, doc, &f.ty, depth + 1)?));
                        }
                    }
                    Val::Obj(out)
                }
                _ => return None,
            }
        }
    })
}

/// One change as a release may bring.
fn mutate(sim: &Sim, doc: &mut Doc) {
    let some = |sim: &Sim, kinds: &[Kind], doc: &Doc| {
        let at: Vec<usize> = (0..doc.defs.len()).filter(|i| kinds.contains(&doc.defs[*i].kind)).collect();
        (!at.is_empty()).then(|| *sim.pick(&at))
    };
    let snapshot = doc.clone();
    match sim.choose(16) {
        0..=4 => {
            let Some(i) = some(sim, &[Kind::Object, Kind::Interface], doc) else { return };
            let d = &mut doc.defs[i];
            match sim.choose(4) {
                0 => {
                    if let Some(n) = fresh(sim, &FIELDS, |n| d.field(n).is_some()) {
                        d.fields.push(new_field(sim, &snapshot, n, 400));
                    }
                }
                1 if d.fields.len() > 1 => {
                    let k = sim.choose(d.fields.len() as u32) as usize;
                    d.fields.remove(k);
                }
                2 => retype(sim, &mut sim.pick_mut(&mut d.fields).ty, || out_ty(sim, &snapshot, 400)),
                _ => {}
            }
        }
        5..=8 => {
            let with: Vec<(usize, usize)> = doc.defs.iter().enumerate().flat_map(|(i, d)| (0..d.fields.len()).map(move |k| (i, k))).filter(|(i, k)| doc.defs[*i].kind != Kind::Input && !doc.defs[*i].fields[*k].args.is_empty()).collect();
            let anywhere: Vec<(usize, usize)> = doc.defs.iter().enumerate().filter(|(_, d)| d.kind != Kind::Input).flat_map(|(i, d)| (0..d.fields.len()).map(move |k| (i, k))).collect();
            let pool = if with.is_empty() || sim.chance(200) { anywhere } else { with };
            if pool.is_empty() {
                return;
            }
            let (i, k) = *sim.pick(&pool);
            let f = &mut doc.defs[i].fields[k];
            let n = f.args.len() as u32;
            match sim.choose(6) {
                0 | 1 => {
                    if let Some(name) = fresh(sim, &ARGS, |n| f.arg(n).is_some()) {
                        f.args.push(new_arg(sim, &snapshot, name));
                    }
                }
                2 if n > 0 => {
                    f.args.remove(sim.choose(n) as usize);
                }
                3 | 4 if n > 0 => {
                    let a = sim.pick_mut(&mut f.args);
                    retype(sim, &mut a.ty, || in_ty(sim, &snapshot));
                    if a.default.is_some() && (sim.chance(300) || !fits(&snapshot, &a.ty, a.default.as_ref().unwrap())) {
                        a.default = if sim.chance(500) { lit(sim, &snapshot, &a.ty, 0) } else { None };
                    }
                }
                5 if n > 0 => {
                    let a = sim.pick_mut(&mut f.args);
                    a.default = if a.default.is_some() && sim.chance(600) { None } else { lit(sim, &snapshot, &a.ty, 0) };
                }
                _ => {}
            }
        }
        9 => {
            let Some(i) = some(sim, &[Kind::Enum], doc) else { return };
            let d = &mut doc.defs[i];
            if d.values.len() > 1 && sim.chance(700) {
                let k = sim.choose(d.values.len() as u32) as usize;
                let gone = d.values.remove(k).name;
                let name = d.name.clone();
                // Defaults have to stay valid.
                let after = doc.clone();
                for d in &mut doc.defs {
                    for f in &mut d.fields {
                        for a in f.args.iter_mut().chain([]) {
                            if a.ty.base == name || after.def(&a.ty.base).is_some_and(|d| d.kind == Kind::Input) {
                                if a.default.as_ref().is_some_and(|v| v.text().contains(&gone)) {
                                    a.default = None;
                                }
                            }
                        }
                        if f.default.as_ref().is_some_and(|v| v.text().contains(&gone)) {
                            f.default = None;
                        }
                    }
                }
            } else if let Some(n) = fresh(sim, &VALUES, |n| d.values.iter().any(|v| v.name == n)) {
                d.values.push(EVal { name: n.into(), desc: None, dirs: vec![] });
            }
        }
        10 | 11 => {
            let Some(i) = some(sim, &[Kind::Input], doc) else { return };
            let d = &mut doc.defs[i];
            match sim.choose(4) {
                0 => {
                    if let Some(n) = fresh(sim, &FIELDS, |n| d.field(n).is_some()) {
                        d.fields.push(new_input_field(sim, &snapshot, n));
                    }
                }
                1 if d.fields.len() > 1 => {
                    let k = sim.choose(d.fields.len() as u32) as usize;
                    d.fields.remove(k);
                }
                _ if d.fields.is_empty() => {}
                2 => {
                    let f = sim.pick_mut(&mut d.fields);
                    let ty = new_input_field(sim, &snapshot, "x").ty;
                    retype(sim, &mut f.ty, || ty);
                    if f.default.as_ref().is_some_and(|v| !fits(&snapshot, &f.ty, v)) {
                        f.default = None;
                    }
                }
                _ => {
                    let f = sim.pick_mut(&mut d.fields);
                    f.default = if f.default.is_some() { None } else { lit(sim, &snapshot, &f.ty, 2) };
                }
            }
        }
        12 => {
            let Some(i) = some(sim, &[Kind::Union], doc) else { return };
            let objects = names(&snapshot, &[Kind::Object]);
            let d = &mut doc.defs[i];
            if d.members.len() > 1 && sim.chance(700) {
                let k = sim.choose(d.members.len() as u32) as usize;
                d.members.remove(k);
            } else if let Some(o) = objects.iter().find(|o| !d.members.contains(o)) {
                d.members.push(o.clone());
            }
        }
        13 => {
            let Some(i) = some(sim, &[Kind::Object], doc) else { return };
            let d = &mut doc.defs[i];
            if !d.implements.is_empty() && sim.chance(700) {
                let k = sim.choose(d.implements.len() as u32) as usize;
                d.implements.remove(k);
            } else if !ROOTS.contains(&d.name.as_str()) {
                let (name, all) = (d.name.clone(), names(&snapshot, &[Kind::Interface]));
                if !all.is_empty() {
                    implement(doc, &name, sim.pick::<String>(&all));
                }
            }
        }
        14 => {
            // A type goes, and with it whatever was of that type.
            let Some(i) = some(sim, &[Kind::Object, Kind::Interface, Kind::Union, Kind::Enum, Kind::Input, Kind::Scalar], doc) else { return };
            let name = doc.defs[i].name.clone();
            if name == "Query" {
                return;
            }
            remove(sim, doc, &name);
        }
        _ => {
            // A type becomes one of another kind.
            let Some(i) = some(sim, &[Kind::Object, Kind::Interface, Kind::Enum, Kind::Union, Kind::Scalar, Kind::Input], doc) else { return };
            let name = doc.defs[i].name.clone();
            if ROOTS.contains(&name.as_str()) {
                return;
            }
            let was = doc.defs[i].kind;
            let to = match was {
                Kind::Object => *sim.pick(&[Kind::Interface, Kind::Union]),
                Kind::Interface => *sim.pick(&[Kind::Object, Kind::Union]),
                Kind::Union => *sim.pick(&[Kind::Interface, Kind::Object]),
                Kind::Enum => Kind::Scalar,
                Kind::Scalar => Kind::Enum,
                Kind::Input => Kind::Scalar,
            };
            let mut d = Def::new(to, &name);
            let objects: Vec<_> = names(doc, &[Kind::Object]).into_iter().filter(|n| *n != name).collect();
            match to {
                Kind::Union if objects.is_empty() => return,
                Kind::Union => d.members.push(sim.pick(&objects).clone()),
                Kind::Enum => d.values.push(EVal { name: "RED".into(), desc: None, dirs: vec![] }),
                Kind::Object | Kind::Interface if was != Kind::Union => d.fields = doc.defs[i].fields.clone(),
                Kind::Object | Kind::Interface => d.fields.push(Fld::new("id", Ty::named("ID"))),
                _ => {}
            }
            doc.defs[i] = d;
            for d in &mut doc.defs {
                if was == Kind::Object {
                    d.members.retain(|m| *m != name);
                }
                if was == Kind::Interface {
                    d.implements.retain(|m| *m != name);
                }
            }
            let empty: Vec<String> = doc.defs.iter().filter(|d| d.kind == Kind::Union && d.members.is_empty()).map(|d| d.name.clone()).collect();
            for u in empty {
                remove(sim, doc, &u);
            }
            // Defaults of the type have lost their meaning.
            for d in &mut doc.defs {
                for f in &mut d.fields {
                    for a in f.args.iter_mut() {
                        if a.ty.base == name || matches!(a.default, Some(Val::Obj(_) | Val::List(_))) {
                            a.default = None;
                        }
                    }
                    if f.ty.base == name || matches!(f.default, Some(Val::Obj(_) | Val::List(_))) {
                        f.default = None;
                    }
                }
            }
        }
    }
}

fn remove(sim: &Sim, doc: &mut Doc, name: &str) {
    let Some(kind) = doc.def(name).map(|d| d.kind) else { return };
    doc.defs.retain(|d| d.name != name);
    let snapshot = doc.clone();
    let input = kind == Kind::Input;
    for d in &mut doc.defs {
        d.members.retain(|m| m != name);
        d.implements.retain(|m| m != name);
        for f in &mut d.fields {
            f.args.retain_mut(|a| {
                if a.ty.base != name {
                    // Values of input types may have held it.
                    if kind == Kind::Enum && matches!(a.default, Some(Val::Obj(_) | Val::List(_))) {
                        a.default = None;
                    }
                    return true;
                }
                a.default = None;
                a.ty.base = "Int".into();
                input || sim.chance(500)
            });
        }
        let d_input = d.kind == Kind::Input;
        let mut left = d.fields.len();
        d.fields.retain_mut(|f| {
            if f.ty.base != name {
                return true;
            }
            f.default = None;
            if left > 1 && sim.chance(600) {
                left -= 1;
                return false;
            }
            f.ty.base = if d_input { "Int".into() } else { leaf(sim, &snapshot) };
            true
        });
    }
    let empty: Vec<String> = doc.defs.iter().filter(|d| d.kind == Kind::Union && d.members.is_empty()).map(|d| d.name.clone()).collect();
    for u in empty {
        remove(sim, doc, &u);
    }
}

fn retype(sim: &Sim, ty: &mut Ty, other: impl FnOnce() -> Ty) {
    match sim.choose(5) {
        0 => *ty = other(),
        1 if !ty.lists.is_empty() => {
            let i = sim.choose(ty.lists.len() as u32) as usize;
            ty.lists[i] = !ty.lists[i];
        }
        2 => {
            if ty.lists.is_empty() {
                ty.lists.push(sim.chance(500));
            } else {
                ty.lists.pop();
            }
        }
        _ => ty.inner = !ty.inner,
    }
}

// ---- operations ----

#[derive(Clone, Debug)]
enum Arg {
    Lit(Val),
    Var(String),
}

#[derive(Clone, Debug)]
enum Sel {
    Field { alias: Option<String>, name: String, args: Vec<(String, Arg)>, sub: Vec<Sel> },
    Inline { on: Option<String>, sub: Vec<Sel> },
    Spread(usize),
}

#[derive(Clone, Debug)]
struct Var {
    name: String,
    ty: Ty,
    default: Option<Val>,
}

#[derive(Clone, Debug)]
struct Op {
    root: usize,
    vars: Vec<Var>,
    sel: Vec<Sel>,
    frags: Vec<(String, Vec<Sel>)>,
}

fn new_op(sim: &Sim, doc: &Doc) -> Op {
    let roots: Vec<usize> = (0..3).filter(|i| doc.def(ROOTS[*i]).is_some()).collect();
    let mut op = Op { root: *sim.pick(&roots), vars: vec![], sel: vec![], frags: vec![] };
    let root = ROOTS[op.root];
    op.sel = selection(sim, doc, &mut op, root, 0);
    op
}

fn selection(sim: &Sim, doc: &Doc, op: &mut Op, parent: &str, depth: u32) -> Vec<Sel> {
    let d = doc.def(parent).unwrap();
    let mut out = vec![];
    for _ in 0..1 + sim.choose(3) {
        if depth > 0 && sim.chance(if d.kind == Kind::Object { 120 } else { 450 }) && depth < 5 {
            let on: Vec<String> = names(doc, &[Kind::Object, Kind::Interface, Kind::Union]).into_iter().filter(|t| overlap(doc, parent, t)).collect();
            // Conditions between abstract types are rare.
            let concrete: Vec<String> = on.iter().filter(|t| doc.def(t).unwrap().kind == Kind::Object || d.kind == Kind::Object).cloned().collect();
            let pool = if concrete.is_empty() || sim.chance(100) { on } else { concrete };
            if !pool.is_empty() {
                let on = sim.pick(&pool).clone();
                match sim.choose(3) {
                    0 => {
                        let sub = selection(sim, doc, op, &on, depth + 1);
                        op.frags.push((on, sub));
                        out.push(Sel::Spread(op.frags.len() - 1));
                    }
                    1 => {
                        let known = op.frags.iter().position(|(t, _)| *t == on);
                        if let Some(f) = known {
                            out.push(Sel::Spread(f));
                        }
                    }
                    _ => {
                        let sub = selection(sim, doc, op, &on, depth + 1);
                        out.push(Sel::Inline { on: Some(on), sub });
                    }
                }
                continue;
            }
        }
        if depth < 5 && sim.chance(60) {
            let sub = selection(sim, doc, op, parent, depth + 1);
            out.push(Sel::Inline { on: None, sub });
            continue;
        }
        if d.fields.is_empty() {
            continue;
        }
        let f = sim.pick(&d.fields);
        let composite = doc.def(&f.ty.base).is_some_and(Def::is_composite);
        if composite && depth >= 4 {
            continue;
        }
        let mut args = vec![];
        let mut ok = true;
        for a in &f.args {
            let required = a.ty.outer() && a.default.is_none();
            if !required && sim.chance(500) {
                continue;
            }
            if sim.chance(450) {
                let mut ty = a.ty.clone();
                let mut default = None;
                if ty.outer() && a.default.is_some() && sim.chance(400) {
                    ty.set_outer(false);
                } else if sim.chance(250) {
                    ty.set_outer(true);
                } else if sim.chance(300) {
                    default = lit(sim, doc, &a.ty, 0);
                    if default.is_some() && sim.chance(500) {
                        ty.set_outer(false);
                    }
                }
                let name = format!("v{}", op.vars.len());
                op.vars.push(Var { name: name.clone(), ty, default });
                args.push((a.name.clone(), Arg::Var(name)));
            } else {
                match lit(sim, doc, &a.ty, 0) {
                    Some(v) => args.push((a.name.clone(), Arg::Lit(v))),
                    None if required => ok = false,
                    None => {}
                }
            }
        }
        if !ok {
            continue;
        }
        let sub = if composite { selection(sim, doc, op, &f.ty.base, depth + 1) } else { vec![] };
        out.push(Sel::Field { alias: sim.chance(300).then(|| format!("x{}", out.len())), name: f.name.clone(), args, sub });
    }
    if out.is_empty() {
        out.push(Sel::Field { alias: None, name: "__typename".into(), args: vec![], sub: vec![] });
    }
    out
}

impl Op {
    fn text(&self) -> String {
        let mut out = format!("{} Op", ["query", "mutation", "subscription"][self.root]);
        for (i, v) in self.vars.iter().enumerate() {
            let _ = write!(out, "{}${}: {}", if i == 0 { "(" } else { ", " }, v.name, v.ty.text());
            if let Some(d) = &v.default {
                let _ = write!(out, " = {}", d.text());
            }
        }
        if !self.vars.is_empty() {
            out.push(')');
        }
        sels(&mut out, &self.sel);
        for (i, (on, sub)) in self.frags.iter().enumerate() {
            let _ = write!(out, "\nfragment F{i} on {on}");
            sels(&mut out, sub);
        }
        out
    }
}

fn sels(out: &mut String, sel: &[Sel]) {
    out.push_str(" {");
    for s in sel {
        out.push(' ');
        match s {
            Sel::Field { alias, name, args, sub } => {
                if let Some(a) = alias {
                    let _ = write!(out, "{a}: ");
                }
                out.push_str(name);
                for (i, (n, v)) in args.iter().enumerate() {
                    let _ = write!(out, "{}{n}: ", if i == 0 { "(" } else { ", " });
                    match v {
                        Arg::Lit(v) => out.push_str(&v.text()),
                        Arg::Var(v) => {
                            let _ = write!(out, "${v}");
                        }
                    }
                }
                if !args.is_empty() {
                    out.push(')');
                }
                if !sub.is_empty() {
                    sels(out, sub);
                }
            }
            Sel::Inline { on, sub } => {
                out.push_str("...");
                if let Some(on) = on {
                    let _ = write!(out, " on {on}");
                }
                sels(out, sub);
            }
            Sel::Spread(i) => {
                let _ = write!(out, "...F{i}");
            }
        }
    }
    out.push_str(" }");
}

// ---- what a client's operation needs ----

fn possible(doc: &Doc, t: &str) -> BTreeSet<String> {
    match doc.def(t) {
        Some(d) if d.kind == Kind::Object => [t.to_string()].into(),
        Some(d) if d.kind == Kind::Union => d.members.iter().cloned().collect(),
        Some(d) if d.kind == Kind::Interface => doc.defs.iter().filter(|o| o.kind == Kind::Object && o.implements.iter().any(|i| i == t)).map(|o| o.name.clone()).collect(),
        _ => BTreeSet::new(),
    }
}

fn overlap(doc: &Doc, a: &str, b: &str) -> bool {
    !possible(doc, a).is_disjoint(&possible(doc, b))
}

fn fits(doc: &Doc, ty: &Ty, v: &Val) -> bool {
    if let Some((_, rest)) = ty.lists.split_last() {
        let inner = Ty { base: ty.base.clone(), inner: ty.inner, lists: rest.to_vec() };
        return matches!(v, Val::List(l) if l.iter().all(|v| fits(doc, &inner, v)));
    }
    match (ty.base.as_str(), v) {
        ("String", Val::Str(_)) | ("Int", Val::Int(_)) | ("Float", Val::Float(_) | Val::Int(_)) | ("Boolean", Val::Bool(_)) | ("ID", Val::Str(_) | Val::Int(_)) => true,
        (n, v) => match doc.def(n) {
            Some(d) if d.kind == Kind::Scalar => true,
            Some(d) if d.kind == Kind::Enum => matches!(v, Val::Enum(e) if d.values.iter().any(|v| v.name == *e)),
            Some(d) if d.kind == Kind::Input => match v {
                Val::Obj(o) => {
                    o.iter().all(|(n, v)| d.field(n).is_some_and(|f| fits(doc, &f.ty, v)))
                        && d.fields.iter().all(|f| !f.ty.outer() || f.default.is_some() || o.iter().any(|(n, _)| *n == f.name))
                }
                _ => false,
            },
            _ => false,
        },
    }
}

/// Whether whatever a client may put into a variable of the type keeps being accepted. Values of enums aren't known.
fn accepts(old: &Doc, new: &Doc, name: &str, seen: &mut BTreeSet<String>) -> Result<(), String> {
    if LEAVES.contains(&name) || !seen.insert(name.to_string()) {
        return Ok(());
    }
    let (Some(a), Some(b)) = (old.def(name), new.def(name)) else { return Err(format!("type {name} is gone")) };
    if a.kind != b.kind {
        return Err(format!("{name} is of another kind"));
    }
    for f in &a.fields {
        let Some(g) = b.field(&f.name) else { return Err(format!("{name}.{} is gone", f.name)) };
        if f.ty.base != g.ty.base || !takes(&f.ty, &g.ty) && !(g.default.is_some() && takes(&with_outer(&f.ty, true), &g.ty)) {
            return Err(format!("{name}.{} no longer takes {}", f.name, f.ty.text()));
        }
        accepts(old, new, &f.ty.base, seen)?;
    }
    for g in &b.fields {
        if a.field(&g.name).is_none() && g.ty.outer() && g.default.is_none() {
            return Err(format!("{name}.{} is required now", g.name));
        }
    }
    Ok(())
}

fn with_outer(t: &Ty, nn: bool) -> Ty {
    let mut t = t.clone();
    t.set_outer(nn);
    t
}

/// A place of type `to` takes values of type `from`.
fn takes(from: &Ty, to: &Ty) -> bool {
    from.base == to.base && from.lists.len() == to.lists.len() && (from.inner || !to.inner) && from.lists.iter().zip(&to.lists).all(|(f, t)| *f || !t)
}

struct Breaks<'a> {
    op: &'a Op,
    old: &'a Doc,
    new: &'a Doc,
    why: Vec<String>,
    /// Conditions between abstract types that no longer have a type in common, or on an abstract type that is gone.
    abstracts: Vec<String>,
}

fn breaks<'a>(op: &'a Op, old: &'a Doc, new: &'a Doc) -> Breaks<'a> {
    let mut b = Breaks { op, old, new, why: vec![], abstracts: vec![] };
    for v in &op.vars {
        if let Err(e) = accepts(old, new, &v.ty.base, &mut BTreeSet::new()) {
            b.why.push(format!("${}: {e}", v.name));
        } else if v.default.as_ref().is_some_and(|d| !fits(new, &v.ty, d)) {
            b.why.push(format!("${}: the default is no {}", v.name, v.ty.text()));
        }
    }
    let root = ROOTS[op.root];
    if new.def(root).is_none() {
        b.why.push(format!("no {root}"));
    } else {
        b.walk(&op.sel, root);
    }
    b
}

impl Breaks<'_> {
    fn walk(&mut self, sel: &[Sel], parent: &str) {
        let Some(d) = self.new.def(parent).filter(|d| d.is_composite()) else {
            self.why.push(format!("{parent} has no fields"));
            return;
        };
        for s in sel {
            let (on, sub) = match s {
                Sel::Spread(i) => (Some(&self.op.frags[*i].0), &self.op.frags[*i].1),
                Sel::Inline { on, sub } => (on.as_ref(), sub),
                Sel::Field { name, .. } if name == "__typename" => continue,
                Sel::Field { name, args, sub, .. } => {
                    let at = format!("{parent}.{name}");
                    let Some(f) = d.field(name) else {
                        self.why.push(format!("no {at}"));
                        continue;
                    };
                    for a in &f.args {
                        if a.ty.outer() && a.default.is_none() && !args.iter().any(|(n, _)| *n == a.name) {
                            self.why.push(format!("{at}({}:) is missing", a.name));
                        }
                    }
                    for (n, v) in args {
                        let Some(a) = f.arg(n) else {
                            self.why.push(format!("no {at}({n}:)"));
                            continue;
                        };
                        let ok = match v {
                            Arg::Lit(v) => fits(self.new, &a.ty, v),
                            Arg::Var(v) => {
                                let v = self.op.vars.iter().find(|x| x.name == *v).unwrap();
                                takes(&v.ty, &a.ty) || (a.default.is_some() || v.default.is_some()) && takes(&with_outer(&v.ty, true), &a.ty)
                            }
                        };
                        if !ok {
                            self.why.push(format!("{at}({n}:) no longer takes that"));
                        }
                    }
                    let now = self.new.def(&f.ty.base).is_some_and(Def::is_composite);
                    if now == sub.is_empty() {
                        self.why.push(format!("{at} has {} fields now", if now { "got" } else { "no" }));
                        continue;
                    }
                    if let Some(was) = self.old.def(parent).and_then(|d| d.field(name)) {
                        if was.ty.lists.len() != f.ty.lists.len() || was.ty.lists.iter().zip(&f.ty.lists).any(|(w, n)| *w && !n) || was.ty.inner && !f.ty.inner {
                            self.why.push(format!("{at} is {} now, it was {}", f.ty.text(), was.ty.text()));
                        } else if !now && was.ty.base != f.ty.base {
                            self.why.push(format!("{at} is {} now", f.ty.base));
                        }
                    }
                    if now {
                        self.walk(sub, &f.ty.base.clone());
                    }
                    continue;
                }
            };
            let on = on.map_or(parent, |x| x.as_str());
            if on != parent && !overlap(self.new, parent, on) {
                let is_abstract = |t: &str| self.old.def(t).is_some_and(|d| d.kind != Kind::Object);
                let union_gone = |t: &str| self.old.def(t).is_some_and(|d| d.kind == Kind::Union) && self.new.def(t).is_none_or(|d| d.kind != Kind::Union);
                let msg = format!("... on {on} can't apply in {parent}");
                if is_abstract(on) && is_abstract(parent) || union_gone(on) {
                    self.abstracts.push(msg);
                } else {
                    self.why.push(msg);
                }
                continue;
            }
            self.walk(sub, on);
        }
    }
}

/// The new version as the checks see it, who know nothing of default values of input fields that were removed.
fn with_input_defaults(old: &Doc, new: &Doc) -> Doc {
    let mut kept = new.clone();
    for d in kept.defs.iter_mut().filter(|d| d.kind == Kind::Input) {
        for f in &mut d.fields {
            let was = old.def(&d.name).filter(|d| d.kind == Kind::Input).and_then(|d| d.field(&f.name));
            if let (None, Some(v)) = (&f.default, was.and_then(|w| w.default.as_ref())) {
                f.default = Some(v.clone());
            }
        }
    }
    kept
}

// ---- what is used, and what the checks have to say ----

#[derive(Default, Clone)]
struct Usage {
    fields: BTreeMap<(String, String), u64>,
    args: BTreeMap<(String, String, String), u64>,
    left_out: BTreeMap<(String, String, String), u64>,
    values: BTreeMap<(String, String), u64>,
    conditions: BTreeMap<(String, String), u64>,
}

impl Usage {
    fn record(&mut self, op: &Op, doc: &Doc, n: u64) {
        for v in &op.vars {
            if let Some(d) = &v.default {
                self.value(doc, &v.ty.base, d, n);
            }
        }
        self.walk(op, doc, &op.sel, ROOTS[op.root], n);
    }

    fn value(&mut self, doc: &Doc, base: &str, v: &Val, n: u64) {
        match v {
            Val::Enum(e) => *self.values.entry((base.into(), e.clone())).or_default() += n,
            Val::List(l) => l.iter().for_each(|v| self.value(doc, base, v, n)),
            Val::Obj(o) => {
                for (name, v) in o {
                    if let Some(f) = doc.def(base).and_then(|d| d.field(name)) {
                        self.value(doc, &f.ty.base, v, n);
                    }
                }
            }
            _ => {}
        }
    }

    fn walk(&mut self, op: &Op, doc: &Doc, sel: &[Sel], parent: &str, n: u64) {
        for s in sel {
            let (on, sub) = match s {
                Sel::Spread(i) => (Some(&op.frags[*i].0), &op.frags[*i].1),
                Sel::Inline { on, sub } => (on.as_ref(), sub),
                Sel::Field { name, args, sub, .. } => {
                    let Some(f) = doc.def(parent).and_then(|d| d.field(name)) else { continue };
                    *self.fields.entry((parent.into(), name.clone())).or_default() += n;
                    for a in &f.args {
                        let key = (parent.to_string(), name.clone(), a.name.clone());
                        let given = args.iter().find(|(x, _)| *x == a.name).map(|(_, v)| v);
                        if given.is_some() {
                            *self.args.entry(key.clone()).or_default() += n;
                        }
                        if let Some(Arg::Lit(v)) = given {
                            self.value(doc, &a.ty.base, v, n);
                        }
                        let may_be_absent = match given {
                            None => true,
                            Some(Arg::Var(v)) => op.vars.iter().any(|x| x.name == *v && !x.ty.outer() && x.default.is_none()),
                            Some(Arg::Lit(_)) => false,
                        };
                        if may_be_absent && a.ty.outer() && a.default.is_some() {
                            *self.left_out.entry(key).or_default() += n;
                        }
                    }
                    self.walk(op, doc, sub, &f.ty.base, n);
                    continue;
                }
            };
            if let Some(on) = on {
                *self.conditions.entry((parent.into(), on.clone())).or_default() += n;
            }
            self.walk(op, doc, sub, on.map_or(parent, |x| x.as_str()), n);
        }
    }

    fn threshold(&mut self, n: u64) {
        self.fields.retain(|_, c| *c >= n);
        self.args.retain(|_, c| *c >= n);
        self.left_out.retain(|_, c| *c >= n);
        self.values.retain(|_, c| *c >= n);
        self.conditions.retain(|_, c| *c >= n);
    }

    fn inputs(&self, doc: &Doc) -> BTreeSet<String> {
        fn add(doc: &Doc, name: &str, out: &mut BTreeSet<String>) {
            if let Some(d) = doc.def(name) {
                if out.insert(name.into()) && d.kind == Kind::Input {
                    d.fields.iter().for_each(|f| add(doc, &f.ty.base, out));
                }
            }
        }
        let mut out = BTreeSet::new();
        for (t, f, a) in self.args.keys() {
            if let Some(a) = doc.def(t).and_then(|d| d.field(f)).and_then(|f| f.arg(a)) {
                add(doc, &a.ty.base, &mut out);
            }
        }
        out
    }
}

#[derive(PartialEq, Clone, Copy)]
enum Wrapping {
    Same,
    Added,
    Removed,
    Other,
}

fn wrapping(a: &Ty, b: &Ty) -> Wrapping {
    if a.lists.len() != b.lists.len() {
        return Wrapping::Other;
    }
    let pairs: Vec<(bool, bool)> = a.lists.iter().copied().zip(b.lists.iter().copied()).chain([(a.inner, b.inner)]).collect();
    match (pairs.iter().any(|p| *p == (false, true)), pairs.iter().any(|p| *p == (true, false))) {
        (false, false) => Wrapping::Same,
        (true, false) => Wrapping::Added,
        (false, true) => Wrapping::Removed,
        (true, true) => Wrapping::Other,
    }
}

/// (path, kind, whether it is an error) of everything to be reported.
fn expected(from: &Schema, to: &Schema, u: &Usage) -> Vec<(String, String, bool)> {
    let (old, new) = (&from.doc, &to.doc);
    let inputs = u.inputs(old);
    let mut out = vec![];
    let changes = delta::changes(from, to);
    let condition = |a: &str, b: &str| u.conditions.contains_key(&(a.into(), b.into())) || u.conditions.contains_key(&(b.into(), a.into()));
    for (path, kind) in &changes {
        let p: Vec<String> = path.split('.').map(|s| s.trim_start_matches('&').to_string()).collect();
        let field = |d: &Doc| d.def(&p[0]).and_then(|d| d.field(p.get(1)?)).cloned();
        let arg = |d: &Doc| field(d).and_then(|f| f.arg(p.get(2)?).cloned());
        let used = || u.fields.contains_key(&(p[0].clone(), p[1].clone()));
        let arg_used = || u.args.contains_key(&(p[0].clone(), p[1].clone(), p[2].clone()));
        let is_input = old.def(&p[0]).is_some_and(|d| d.kind == Kind::Input);
        let error = match *kind {
            "AddFieldArgument" => (used() && arg(new).is_some_and(|a| a.ty.outer() && a.default.is_none())).then_some(true),
            "AddField" => (is_input && inputs.contains(&p[0]) && field(new).is_some_and(|f| f.ty.outer() && f.default.is_none())).then_some(true),
            "RemoveField" if is_input => inputs.contains(&p[0]).then(|| field(old).unwrap().ty.outer()),
            "RemoveField" => used().then_some(true),
            "RemoveFieldArgument" => arg_used().then_some(true),
            "ChangeFieldArgumentType" => {
                let (a, b) = (arg(old).unwrap(), arg(new).unwrap());
                let now_required = b.ty.outer() && b.default.is_none() && !a.ty.outer();
                let w = wrapping(&a.ty, &b.ty);
                let bad = if a.ty.base == b.ty.base && w == Wrapping::Removed {
                    false
                } else if a.ty.base == b.ty.base && w == Wrapping::Added {
                    let only_outer = with_outer(&a.ty, true) == b.ty;
                    used() && (!a.ty.outer() && b.ty.outer() && b.default.is_none() || !(only_outer && b.default.is_some()) && arg_used())
                } else {
                    used() && (arg_used() || now_required)
                };
                bad.then_some(true)
            }
            "ChangeFieldType" => {
                let (a, b) = (field(old).unwrap(), field(new).unwrap());
                let w = wrapping(&a.ty, &b.ty);
                let used = if is_input { inputs.contains(&p[0]) } else { used() };
                match () {
                    _ if !used => None,
                    _ if a.ty.base != b.ty.base || w == Wrapping::Other => Some(true),
                    _ if is_input && w == Wrapping::Added => Some(false),
                    _ if !is_input && w == Wrapping::Removed => Some(true),
                    _ => None,
                }
            }
            "RemoveInterfaceImplementation" | "RemoveUnionMember" => condition(&p[0], &p[1]).then_some(true),
            "RemoveEnumValue" => u.values.contains_key(&(p[0].clone(), p[1].clone())).then_some(true),
            "RemoveFieldArgumentDefault" => {
                (u.left_out.contains_key(&(p[0].clone(), p[1].clone(), p[2].clone())) && arg(new).is_some_and(|a| a.ty.outer())).then_some(true)
            }
            k if k.starts_with("Remove") && p.len() == 1 && p[0] != ":schema" => {
                let replaced = new.def(&p[0]).is_some();
                let of_type = old.defs.iter().any(|d| {
                    d.fields.iter().any(|f| {
                        let f_used = if d.kind == Kind::Input { inputs.contains(&d.name) } else { u.fields.contains_key(&(d.name.clone(), f.name.clone())) };
                        f_used && (f.ty.base == p[0] || d.kind != Kind::Input && d.name == p[0]) || f.args.iter().any(|a| a.ty.base == p[0] && u.args.contains_key(&(d.name.clone(), f.name.clone(), a.name.clone())))
                    })
                });
                let d = old.def(&p[0]).unwrap();
                let bad = d.implements.iter().any(|i| condition(i, &p[0]))
                    || ROOTS.contains(&p[0].as_str()) && u.fields.keys().any(|(t, _)| *t == p[0])
                    || replaced && of_type;
                bad.then_some(true)
            }
            _ => None,
        };
        if let Some(e) = error {
            out.push((path.clone(), kind.to_string(), e));
        }
    }
    out.sort();
    out
}

// ---- the simulation ----

/// How often an operation was executed, as far as the log says.
type Log = Vec<(String, u64)>;

fn check(sim: &Sim, old: &str, new: &str, log: &Log, threshold: u64) -> Option<Result<Vec<(String, String, bool)>, String>> {
    let (old, new, log) = (old.to_string(), new.to_string(), log.clone());
    process(sim, move || {
        let read = |t: &str| async_graphql_parser::parse_schema(t).map(oc::Schema::from).map_err(|e| format!("{e}\n{t}"));
        let (source, target) = (read(&old)?, read(&new)?);
        let diff = graphql_schema_diff::diff(&old, &new).map_err(|e| e.to_string())?;
        let mut usage = oc::FieldUsage::default();
        for (op, n) in &log {
            let op = oc::Operation::from(async_graphql_parser::parse_query(op).map_err(|e| format!("{e}\n{op}"))?);
            usage.set_increment(*n);
            oc::aggregate_field_usage(&op, &source, &mut usage);
        }
        usage.apply_request_count_threshold(threshold);
        let found = oc::check(&oc::CheckParams { source: &source, target: &target, diff: &diff, field_usage: &usage });
        let mut found: Vec<_> = found.iter().map(|d| (d.path.clone(), d.change_kind.as_str().to_string(), matches!(d.severity, oc::Severity::Error))).collect();
        found.sort();
        Ok(found)
    })
}

fn schema(doc: &Doc) -> Schema {
    Schema { doc: doc.clone(), block: None::<Block>, ext: None }
}

fn run(sim: &Sim) {
    let mut current = first_schema(sim);
    let mut clients: Vec<Op> = vec![];
    let versions = 1 + sim.choose(4);
    for v in 0..versions {
        let text = delta::written(sim, &schema(&current), true);
        for _ in 0..1 + sim.choose(3) {
            clients.push(new_op(sim, &current));
        }
        for op in &clients {
            let b = breaks(op, &current, &current);
            if !b.why.is_empty() || !b.abstracts.is_empty() {
                panic!("client with an invalid operation: {:?} {:?}\n{}\n{text}", b.why, b.abstracts, op.text());
            }
        }
        // What clients do reaches the log in batches, some of which get lost or are recorded twice.
        let mut log: Vec<(usize, u64)> = vec![];
        for i in 0..clients.len() {
            for _ in 0..1 + sim.choose(2) {
                let n = sim.log_range(1, 200);
                if sim.chance(60) {
                    sim.fault("usage batch lost");
                    continue;
                }
                log.push((i, n));
                if sim.chance(60) {
                    sim.fault("usage batch recorded twice");
                    log.push((i, n));
                }
            }
        }
        sim.shuffle(&mut log);
        let threshold = if sim.chance(500) { 0 } else { sim.log_range(1, 300) };
        let mut next = current.clone();
        for _ in 0..sim.log_range(1, 5) {
            mutate(sim, &mut next);
        }
        let next_text = delta::written(sim, &schema(&next), true);
        let mut u = Usage::default();
        for (i, n) in &log {
            u.record(&clients[*i], &current, *n);
        }
        u.threshold(threshold);
        let entries: Log = log.iter().map(|(i, n)| (clients[*i].text(), *n)).collect();
        let show = || {
            format!(
                "threshold {threshold}\n{}\n--- from\n{text}\n--- to\n{next_text}",
                entries.iter().map(|(o, n)| format!("{n} × {o}")).collect::<Vec<_>>().join("\n")
            )
        };
        let mut verdicts = vec![];
        for _ in 0..2 {
            let mut entries = entries.clone();
            sim.shuffle(&mut entries);
            match check(sim, &text, &next_text, &entries, threshold) {
                None => {
                    sim.event(show());
                    return;
                }
                Some(Err(e)) => panic!("{e}"),
                Some(Ok(r)) => verdicts.push(r),
            }
            if v > 0 {
                break;
            }
        }
        if verdicts.len() > 1 && verdicts[0] != verdicts[1] {
            return sim.violate("verdicts-diverge", format!("{verdicts:?}\n{}", show()));
        }
        let got = &verdicts[0];
        let want = expected(&schema(&current), &schema(&next), &u);
        sim.event(format!("{v}: {got:?}"));
        for g in got {
            sim.count(match g.1.as_str() {
                "RemoveObjectType" => "RemoveObjectType",
                "RemoveInterfaceImplementation" => "RemoveInterfaceImplementation",
                "RemoveUnionMember" => "RemoveUnionMember",
                "RemoveEnumValue" => "RemoveEnumValue",
                "RemoveField" => "RemoveField",
                "AddField" => "AddField",
                "AddFieldArgument" => "AddFieldArgument",
                "RemoveFieldArgument" => "RemoveFieldArgument",
                "ChangeFieldArgumentType" => "ChangeFieldArgumentType",
                "ChangeFieldType" => "ChangeFieldType",
                "RemoveFieldArgumentDefault" => "RemoveFieldArgumentDefault",
                _ => "another kind",
            });
        }
        let recorded: Vec<&Op> = (0..clients.len())
            .filter(|i| {
                let n: u64 = log.iter().filter(|(k, _)| k == i).map(|(_, n)| n).sum();
                n > 0 && n >= threshold
            })
            .map(|i| &clients[i])
            .collect();
        if got.is_empty() {
            for op in &recorded {
                let kept = with_input_defaults(&current, &next);
                let b = breaks(op, &current, &kept);
                if b.why.is_empty() && *got == want {
                    let b = breaks(op, &current, &next);
                    if !b.why.is_empty() {
                        return sim.violate("unsafe-release-passed-input-default", format!("{:?}\n{}\n{}", b.why, op.text(), show()));
                    }
                }
                if !b.why.is_empty() {
                    return sim.violate("unsafe-release-passed", format!("{:?}\n{}\n{}", b.why, op.text(), show()));
                }
                if !b.abstracts.is_empty() && *got == want {
                    return sim.violate("unsafe-release-passed-abstract-condition", format!("{:?}\n{}\n{}", b.abstracts, op.text(), show()));
                }
            }
        }
        if *got != want {
            let missing: Vec<_> = want.iter().filter(|w| !got.contains(w)).collect();
            let extra: Vec<_> = got.iter().filter(|w| !want.contains(w)).collect();
            return sim.violate(if missing.is_empty() { "safe-change-reported" } else { "breaking-change-missed" }, format!("missing {missing:?}, extra {extra:?}\n{}", show()));
        }
        sim.nontrivial();
        if got.is_empty() {
            sim.count("deployed");
            // Those the log had too little of have to adapt.
            clients.retain(|op| breaks(op, &next, &next).why.is_empty() && breaks(op, &next, &next).abstracts.is_empty());
            current = next;
        } else {
            sim.count("refused");
        }
    }
}

pub fn gate() -> Prop {
    Prop {
        id: "O01",
        scenarios: vec![Scenario { name: "releases", weight: 1, run }],
        rule: "a run counts if a release was checked against recorded operations",
        real: &["operation-checks: usage aggregation, thresholds, rules", "graphql-schema-diff", "async-graphql-parser"],
        stub: &["clients, usage log and deployment", "hash seeds come from the simulator"],
        assumptions: &["schemas are without type extensions; root types keep their names", "clients don't write null literals for arguments"],
        quick: (30, 100_000),
        thorough: (600, 10_000_000),
    }
}
