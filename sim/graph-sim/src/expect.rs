//! What a federated graph has to say, derived from its subgraphs alone. Subgraphs come in ingestion order.
use crate::sdl::*;
use crate::supply::{Sub, enum_use, extensions, own_key_fields_of, s_};
use std::collections::{BTreeMap, BTreeSet};

const ROOTS: [&str; 3] = ["Query", "Mutation", "Subscription"];

pub fn graph_enum(name: &str) -> String {
    name.chars().flat_map(|c| if matches!(c, '-' | '_' | ' ') { vec!['_'] } else { c.to_uppercase().collect() }).collect()
}

fn graph(sub: &Sub) -> (String, Val) {
    ("graph".to_string(), Val::Enum(graph_enum(&sub.name)))
}

/// Directives that several declarations of one thing leave on it.
fn merged(sites: &[&[Dir]]) -> Vec<Dir> {
    let mut out = vec![];
    let all = || sites.iter().flat_map(|s| s.iter());
    for flag in ["inaccessible", "authenticated", "oneOf"] {
        if all().any(|d| d.name == flag) {
            out.push(Dir::new(flag, &[]));
        }
    }
    for first in ["deprecated", "cost"] {
        if let Some(d) = all().find(|d| d.name == first) {
            out.push(d.clone());
        }
    }
    for (list, arg) in [("requiresScopes", "scopes"), ("policy", "policies")] {
        let mut items: Vec<Val> = vec![];
        for d in all().filter(|d| d.name == list) {
            if let Some(Val::List(l)) = d.arg(arg) {
                for i in l {
                    if !items.contains(i) {
                        items.push(i.clone());
                    }
                }
            }
        }
        if !items.is_empty() {
            out.push(Dir::new(list, &[(arg, Val::List(items))]));
        }
    }
    for d in all().filter(|d| (d.name.starts_with("mark") && !d.name.ends_with('~')) || d.name == "extension__directive") {
        if !out.contains(d) {
            out.push(d.clone());
        }
    }
    let tags: BTreeSet<&str> = all().filter(|d| d.name == "tag").filter_map(|d| d.str("name")).collect();
    out.extend(tags.into_iter().map(|t| Dir::new("tag", &[("name", s_(t))])));
    out
}

fn list_size(sites: &[&[Dir]]) -> Option<Dir> {
    let all: Vec<&Dir> = sites.iter().flat_map(|s| s.iter()).filter(|d| d.name == "listSize").collect();
    if all.is_empty() {
        return None;
    }
    let mut out = Dir::new("listSize", &[]);
    if let Some(n) = all.iter().filter_map(|d| if let Some(Val::Int(n)) = d.arg("assumedSize") { Some(*n) } else { None }).max() {
        out.args.push(("assumedSize".into(), Val::Int(n)));
    }
    let slicing: Vec<Val> = all.iter().filter_map(|d| if let Some(Val::List(l)) = d.arg("slicingArguments") { Some(l.clone()) } else { None }).flatten().collect();
    if !slicing.is_empty() {
        out.args.push(("slicingArguments".into(), Val::List(slicing)));
    }
    if all.iter().all(|d| d.arg("requireOneSlicingArgument") == Some(&Val::Bool(false))) {
        out.args.push(("requireOneSlicingArgument".into(), Val::Bool(false)));
    }
    Some(out)
}

fn first_desc<'a>(mut it: impl Iterator<Item = &'a Option<String>>) -> Option<String> {
    it.find_map(|d| d.clone())
}

fn least(types: &[&Ty]) -> Ty {
    let mut t = types[0].clone();
    t.set_outer(types.iter().all(|t| t.outer()));
    t
}

fn most(types: &[&Ty]) -> Ty {
    let mut t = types[0].clone();
    t.set_outer(types.iter().any(|t| t.outer()));
    t
}

fn in_order<'a>(names: impl Iterator<Item = &'a str>) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for n in names {
        if !out.iter().any(|x| x == n) {
            out.push(n.to_string());
        }
    }
    out
}

type Decl<'a, T> = (&'a Sub, &'a T);

fn args(decls: &[Decl<'_, Fld>]) -> Vec<Fld> {
    let names = in_order(decls.iter().flat_map(|(_, f)| f.args.iter().map(|a| a.name.as_str())));
    let mut out = vec![];
    for n in names {
        let all: Vec<&Fld> = decls.iter().filter_map(|(_, f)| f.arg(&n)).collect();
        if all.len() != decls.len() {
            continue;
        }
        let mut a = Fld::new(&n, most(&all.iter().map(|a| &a.ty).collect::<Vec<_>>()));
        a.desc = first_desc(all.iter().map(|a| &a.desc));
        a.default = all.iter().find_map(|a| a.default.clone());
        a.dirs = merged(&all.iter().map(|a| a.dirs.as_slice()).collect::<Vec<_>>());
        out.push(a);
    }
    out
}

/// One field of an object or interface; `join_types` are the subgraphs its type is joined to, if it's no root.
fn field(decls: &[Decl<'_, Fld>], ty_name: &str, join_types: Option<&BTreeSet<String>>) -> Fld {
    let mut f = Fld::new(&decls[0].1.name, least(&decls.iter().map(|(_, f)| &f.ty).collect::<Vec<_>>()));
    f.desc = first_desc(decls.iter().map(|(_, f)| &f.desc));
    f.args = args(decls);
    let sites: Vec<&[Dir]> = decls.iter().map(|(_, f)| f.dirs.as_slice()).collect();
    f.dirs = merged(&sites);
    if let Some(mut l) = list_size(&sites) {
        // Only arguments the federated field has.
        for (n, v) in &mut l.args {
            if let (true, Val::List(l)) = (n == "slicingArguments", v) {
                l.retain(|x| matches!(x, Val::Str(x) if f.args.iter().any(|a| a.name == *x)));
            }
        }
        l.args.retain(|(_, v)| *v != Val::List(vec![]));
        f.dirs.push(l);
    }
    let mut joins = vec![];
    let mut replaced = BTreeSet::new();
    for (sub, x) in decls {
        let mut j = Dir { name: "join__field".into(), args: vec![graph(sub)] };
        let external = has(&x.dirs, "external") && !own_key_fields_of(&sub.doc).contains(&(ty_name.to_string(), x.name.clone()));
        if external {
            j.args.push(("external".into(), Val::Bool(true)));
        }
        for d in ["requires", "provides"] {
            if let Some(d) = dir(&x.dirs, d) {
                j.args.push((d.name.clone(), s_(d.str("fields").unwrap())));
            }
        }
        if x.ty != f.ty {
            j.args.push(("type".into(), Val::Str(x.ty.text())));
        }
        if let Some(o) = dir(&x.dirs, "override") {
            let from = o.str("from").unwrap();
            j.args.push(("override".into(), s_(from)));
            let label = o.str("label");
            if let Some(l) = label {
                j.args.push(("overrideLabel".into(), s_(l)));
            }
            if matches!(label, None | Some("percent(100)")) {
                replaced.insert(from.to_string());
            }
        }
        joins.push((sub.name.clone(), j));
    }
    let plain = joins.iter().all(|(_, j)| j.args.len() == 1);
    let here: BTreeSet<String> = joins.iter().map(|j| j.0.clone()).collect();
    if !(plain && join_types == Some(&here)) {
        f.dirs.extend(joins.into_iter().filter(|(s, _)| !replaced.contains(s)).map(|(_, j)| j));
    }
    f
}

fn fields(decls: &[Decl<'_, Def>], ty_name: &str, join_types: Option<&BTreeSet<String>>) -> Vec<Fld> {
    let names = in_order(decls.iter().flat_map(|(_, d)| d.fields.iter().map(|f| f.name.as_str())));
    names
        .iter()
        .map(|n| {
            let f: Vec<Decl<'_, Fld>> = decls.iter().filter_map(|(s, d)| Some((*s, d.field(n)?))).collect();
            field(&f, ty_name, join_types)
        })
        .collect()
}

fn implements(out: &mut Def, decls: &[Decl<'_, Def>]) {
    out.implements = in_order(decls.iter().flat_map(|(_, d)| d.implements.iter().map(String::as_str)));
    for (s, d) in decls {
        for i in &d.implements {
            out.dirs.push(Dir { name: "join__implements".into(), args: vec![graph(s), ("interface".into(), s_(i))] });
        }
    }
}

fn join_type(sub: &Sub, key: Option<&Dir>, interface_object: bool) -> Dir {
    let mut j = Dir { name: "join__type".into(), args: vec![graph(sub)] };
    if let Some(k) = key {
        j.args.push(("key".into(), s_(k.str("fields").unwrap())));
        if k.arg("resolvable") == Some(&Val::Bool(false)) {
            j.args.push(("resolvable".into(), Val::Bool(false)));
        }
    }
    if interface_object {
        j.args.push(("isInterfaceObject".into(), Val::Bool(true)));
    }
    j
}

/// Directives of linked schemas as the federated graph spells them.
fn resolve(subs: &[Sub]) -> Vec<Sub> {
    let names = extensions(subs);
    subs.iter()
        .map(|x| {
            let mut x = x.clone();
            let (g, composes) = (graph(&x), x.composes.clone());
            let to = |d: &mut Dir| {
                let Some((url, name)) = d.name.split_once('|') else { return };
                *d = match names.get(url) {
                    Some(e) => Dir {
                        name: "extension__directive".into(),
                        args: vec![g.clone(), ("extension".into(), Val::Enum(format!("{e}@{url}"))), ("name".into(), s_(name)), ("arguments".into(), Val::Obj(d.args.clone()))],
                    },
                    None => Dir { name: if composes.contains(&d.name) { name.to_string() } else { format!("{name}~") }, args: d.args.clone() },
                };
            };
            crate::publish::each_dir(&mut x.doc, &mut |d| to(d));
            x.on_schema.iter_mut().for_each(to);
            x
        })
        .collect()
}

fn link_enum(out: &mut Doc, subs: &[Sub]) {
    let names = extensions(subs);
    let mut used = BTreeSet::new();
    crate::publish::each_dir(out, &mut |d| {
        if let (true, Some(Val::Enum(e))) = (d.name == "extension__directive", d.arg("extension")) {
            used.insert(e.clone());
        }
    });
    let mut e = Def::new(Kind::Enum, "extension__Link");
    for (url, name) in names {
        let (label, name) = (name.clone(), format!("{name}@{url}"));
        let mut on = vec![];
        for x in subs {
            for d in &x.on_schema {
                if let ("extension__directive", true) = (d.name.as_str(), d.arg("extension") == Some(&Val::Enum(name.clone()))) {
                    on.push(Val::Obj(d.args.iter().filter(|(n, _)| n != "extension").cloned().collect()));
                }
            }
        }
        if on.is_empty() && !used.contains(&name) {
            continue;
        }
        let mut d = Dir::new("extension__link", &[("url", s_(&url))]);
        if !on.is_empty() {
            d.args.push(("schemaDirectives".into(), Val::List(on)));
        }
        e.values.push(EVal { name: label, desc: None, dirs: vec![d] });
    }
    crate::publish::each_dir(out, &mut |d| {
        for (n, v) in &mut d.args {
            if let ("extension", Val::Enum(e)) = (n.as_str(), v) {
                e.truncate(e.find('@').unwrap());
            }
        }
    });
    if !e.values.is_empty() {
        out.defs.push(e);
    }
}

pub fn compose(subs: &[Sub]) -> Doc {
    let resolved = resolve(subs);
    let mut out = compose_resolved(&resolved);
    link_enum(&mut out, &resolved);
    for x in &resolved {
        out.on_schema.extend(x.on_schema.iter().filter(|d| d.name.starts_with("mark") && !d.name.ends_with('~')).cloned());
    }
    let mut composed: BTreeMap<&str, BTreeSet<String>> = BTreeMap::new();
    let mut seen = BTreeSet::new();
    crate::publish::each_dir(&mut out, &mut |d| {
        seen.insert(d.name.clone());
    });
    for x in subs {
        for c in &x.composes {
            if let Some((url, d)) = c.split_once('|') {
                if seen.contains(d) {
                    composed.entry(url).or_default().insert(format!("@{d}"));
                }
            }
        }
    }
    for (url, dirs) in composed {
        out.on_schema.push(Dir::new("link", &[("url", s_(url)), ("import", Val::List(dirs.into_iter().map(s_).collect()))]));
    }
    out
}

fn compose_resolved(subs: &[Sub]) -> Doc {
    let mut out = Doc::default();
    let mut by_name: BTreeMap<&str, Vec<Decl<'_, Def>>> = BTreeMap::new();
    for s in subs {
        for d in &s.doc.defs {
            by_name.entry(d.name.as_str()).or_default().push((s, d));
        }
    }
    let mut extra: Vec<(String, Fld)> = vec![];
    for (name, decls) in &by_name {
        let mut o = Def::new(decls[0].1.kind, name);
        o.desc = first_desc(decls.iter().map(|(_, d)| &d.desc));
        o.dirs = merged(&decls.iter().map(|(_, d)| d.dirs.as_slice()).collect::<Vec<_>>());
        if let Some(i) = ROOTS.iter().position(|r| r == name) {
            out.roots[i] = Some(name.to_string());
            o.desc = None;
            o.fields = fields(decls, name, None);
            implements(&mut o, decls);
            out.defs.push(o);
            continue;
        }
        let face = decls.iter().find(|(s, d)| s.v2 && d.kind == Kind::Interface && has(&d.dirs, "key"));
        if let Some((home, face)) = face {
            o.kind = Kind::Interface;
            o.desc = face.desc.clone();
            o.dirs.push(join_type(home, dir(&face.dirs, "key"), false));
            let mut subs_of: BTreeSet<String> = [home.name.clone()].into();
            for (s, d) in decls.iter().filter(|(_, d)| d.kind == Kind::Object) {
                for k in d.dirs.iter().filter(|k| k.name == "key" && k.arg("resolvable") != Some(&Val::Bool(false))) {
                    o.dirs.push(join_type(s, Some(k), true));
                    subs_of.insert(s.name.clone());
                }
            }
            o.fields = fields(decls, name, Some(&subs_of));
            implements(&mut o, decls);
            for imp in home.doc.defs.iter().filter(|d| d.implements.iter().any(|i| i == name)) {
                for f in &o.fields {
                    if imp.field(&f.name).is_none() {
                        let mut f = f.clone();
                        f.dirs.retain(|d| d.name != "join__field");
                        f.dirs.push(Dir::new("join__field", &[]));
                        extra.push((imp.name.clone(), f));
                    }
                }
            }
            out.defs.push(o);
            continue;
        }
        let mut joined: BTreeSet<String> = BTreeSet::new();
        match o.kind {
            Kind::Object if decls.iter().any(|(_, d)| has(&d.dirs, "key")) => {
                for (s, d) in decls {
                    for k in d.dirs.iter().filter(|k| k.name == "key") {
                        o.dirs.push(join_type(s, Some(k), false));
                        joined.insert(s.name.clone());
                    }
                }
            }
            Kind::Object | Kind::Interface | Kind::Input | Kind::Enum => {
                for (s, _) in decls {
                    o.dirs.push(join_type(s, None, false));
                    joined.insert(s.name.clone());
                }
            }
            Kind::Scalar | Kind::Union => {}
        }
        match o.kind {
            Kind::Object | Kind::Interface => {
                o.fields = fields(decls, name, Some(&joined));
                implements(&mut o, decls);
            }
            Kind::Input => input(&mut o, decls, &joined),
            Kind::Enum => values(&mut o, decls, subs),
            Kind::Union => {
                o.members = in_order(decls.iter().flat_map(|(_, d)| d.members.iter().map(String::as_str)));
                for (s, d) in decls {
                    for m in &d.members {
                        o.dirs.push(Dir { name: "join__unionMember".into(), args: vec![graph(s), ("member".into(), s_(m))] });
                    }
                }
            }
            Kind::Scalar => {}
        }
        out.defs.push(o);
    }
    for (ty, f) in extra {
        out.def_mut(&ty).unwrap().fields.push(f);
    }
    let mut g = Def::new(Kind::Enum, "join__Graph");
    for s in subs {
        let mut d = Dir::new("join__graph", &[("name", s_(&s.name))]);
        if let Some(u) = &s.url {
            d.args.push(("url".into(), s_(u)));
        }
        g.values.push(EVal { name: graph_enum(&s.name), desc: None, dirs: vec![d] });
    }
    out.defs.push(g);
    for s in subs {
        for d in s.doc.directives.iter().filter(|d| s.composes.contains(&d.name)) {
            match out.directives.iter_mut().find(|o| o.name == d.name) {
                None => out.directives.push(d.clone()),
                Some(o) => {
                    for a in &d.args {
                        if !o.args.iter().any(|x| x.name == a.name) {
                            o.args.push(a.clone());
                        }
                    }
                    for l in &d.locations {
                        if !o.locations.contains(l) {
                            o.locations.push(l.clone());
                        }
                    }
                }
            }
        }
    }
    out
}

fn input(o: &mut Def, decls: &[Decl<'_, Def>], joined: &BTreeSet<String>) {
    for n in in_order(decls.iter().flat_map(|(_, d)| d.fields.iter().map(|f| f.name.as_str()))) {
        let all: Vec<Decl<'_, Fld>> = decls.iter().filter_map(|(s, d)| Some((*s, d.field(&n)?))).collect();
        if all.len() != decls.len() {
            continue;
        }
        let mut f = Fld::new(&n, most(&all.iter().map(|(_, f)| &f.ty).collect::<Vec<_>>()));
        f.desc = first_desc(all.iter().map(|(_, f)| &f.desc));
        f.default = all.iter().find_map(|(_, f)| f.default.clone());
        f.dirs = merged(&all.iter().map(|(_, f)| f.dirs.as_slice()).collect::<Vec<_>>());
        let joins: Vec<Dir> = all
            .iter()
            .map(|(s, x)| {
                let mut j = Dir { name: "join__field".into(), args: vec![graph(s)] };
                if x.ty != f.ty {
                    j.args.push(("type".into(), Val::Str(x.ty.text())));
                }
                j
            })
            .collect();
        if joins.iter().any(|j| j.args.len() > 1) || joined.len() != joins.len() {
            f.dirs.extend(joins);
        }
        o.fields.push(f);
    }
}

fn values(o: &mut Def, decls: &[Decl<'_, Def>], subs: &[Sub]) {
    let (as_input, _) = enum_use(subs, &o.name);
    for n in in_order(decls.iter().flat_map(|(_, d)| d.values.iter().map(|v| v.name.as_str()))) {
        let all: Vec<Decl<'_, EVal>> = decls.iter().filter_map(|(s, d)| Some((*s, d.values.iter().find(|v| v.name == n)?))).collect();
        if as_input && all.len() != decls.len() {
            continue;
        }
        let mut dirs = merged(&all.iter().map(|(_, v)| v.dirs.as_slice()).collect::<Vec<_>>());
        for (s, _) in &all {
            dirs.push(Dir { name: "join__enumValue".into(), args: vec![graph(s)] });
        }
        o.values.push(EVal { name: n.clone(), desc: first_desc(all.iter().map(|(_, v)| &v.desc)), dirs });
    }
}

/// What clients may see of a federated graph.
/// The API schema; `arguments` says whether @inaccessible ones are left in.
pub fn api(full: &Doc, arguments: bool) -> Doc {
    let hidden = |dirs: &[Dir]| has(dirs, "inaccessible");
    let public = |dirs: &mut Vec<Dir>| dirs.retain(|d| d.name == "deprecated");
    let mut out = Doc::default();
    let mut defs: Vec<Def> = full.defs.iter().filter(|d| !d.name.starts_with("join__") && !d.name.starts_with("extension__") && !hidden(&d.dirs)).cloned().collect();
    let gone: BTreeSet<String> = full.defs.iter().filter(|d| hidden(&d.dirs)).map(|d| d.name.clone()).collect();
    for d in &mut defs {
        public(&mut d.dirs);
        // The API schema doesn't state which interfaces types implement.
        d.implements.clear();
        d.members.retain(|m| !gone.contains(m));
        d.fields.retain(|f| !hidden(&f.dirs));
        d.values.retain(|v| !hidden(&v.dirs));
        for v in &mut d.values {
            public(&mut v.dirs);
        }
        for f in &mut d.fields {
            public(&mut f.dirs);
            f.args.retain(|a| arguments || !hidden(&a.dirs));
            for a in &mut f.args {
                public(&mut a.dirs);
            }
        }
    }
    out.defs = defs;
    out.directives = full.directives.clone();
    out
}
