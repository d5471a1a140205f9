//! How a subgraph's owner writes its schema down.
use crate::sdl::*;
use crate::supply::{Sub, directives_at, s_};
use simkit::Sim;
use std::collections::BTreeMap;
use std::fmt::Write;

const BUILTIN: [&str; 4] = ["deprecated", "oneOf", "cost", "listSize"];

pub fn text(sim: &Sim, sub: &Sub) -> String {
    let mut doc = sub.doc.clone();
    let mut out = String::new();
    let mut names: Vec<String> = vec![];
    each_dir(&mut doc, &mut |d| {
        if let Some(n) = d.name.strip_suffix('~') {
            d.name = n.to_string();
        }
        if !BUILTIN.contains(&d.name.as_str()) && !d.name.starts_with("mark") && !d.name.contains('|') && !names.contains(&d.name) {
            names.push(d.name.clone());
        }
    });
    if !sub.composes.is_empty() {
        names.push("composeDirective".into());
    }
    names.sort();
    let mut schema: Vec<String> = vec![];
    let linked = links(sim, sub, &mut schema);
    each_dir(&mut doc, &mut |d| {
        if let Some(n) = linked.get(&d.name) {
            d.name = n.clone();
        }
    });
    for d in &sub.on_schema {
        let mut d = d.clone();
        d.name = linked[&d.name].clone();
        let text = d.text();
        match schema.last_mut() {
            Some(l) if sim.chance(500) => *l = format!("{l} {text}"),
            _ => schema.push(text),
        }
    }
    let mut link = None;
    if sub.v2 {
        let alias = sim.chance(200).then_some("fed");
        let mut import = vec![];
        let mut spelled = vec![];
        for n in &names {
            match sim.choose(8) {
                0 => spelled.push((n.clone(), format!("{}__{n}", alias.unwrap_or("federation")))),
                1 => {
                    import.push(Val::Obj(vec![("name".into(), s_(&format!("@{n}"))), ("as".into(), s_(&format!("@my_{n}")))]));
                    spelled.push((n.clone(), format!("my_{n}")));
                }
                _ => {
                    import.push(s_(&format!("@{n}")));
                    spelled.push((n.clone(), n.clone()));
                }
            }
        }
        each_dir(&mut doc, &mut |d| {
            if let Some((_, as_)) = spelled.iter().find(|(n, _)| *n == d.name) {
                d.name = as_.clone();
            }
        });
        // Directives of the same names that aren't imported are the subgraph's own and mean nothing here.
        if sim.chance(150) {
            let own = sim.pick(&["inaccessible", "authenticated", "external", "shareable", "interfaceObject"]).to_string();
            if !spelled.iter().any(|(_, as_)| *as_ == own) {
                let objects: Vec<usize> = (0..doc.defs.len()).filter(|i| doc.defs[*i].kind == Kind::Object).collect();
                if !objects.is_empty() {
                    let d = &mut doc.defs[*sim.pick(&objects)];
                    match sim.choose(2) {
                        0 => d.dirs.push(Dir::new(&own, &[])),
                        _ => d.fields.iter_mut().for_each(|f| f.dirs.push(Dir::new(&own, &[]))),
                    }
                }
            }
        }
        let mut l = Dir::new("link", &[("url", s_(sim.pick(&["https://specs.apollo.dev/federation/v2.3", "https://specs.apollo.dev/federation/v2.9"])))]);
        if let Some(a) = alias {
            l.args.push(("as".into(), s_(a)));
        }
        if !import.is_empty() {
            l.args.push(("import".into(), Val::List(import)));
        }
        let mut on_schema = l.text();
        for n in &sub.composes {
            let (_, as_) = spelled.iter().find(|(n, _)| n == "composeDirective").unwrap();
            let _ = match n.strip_prefix('!') {
                Some(n) => write!(on_schema, " @{as_}(name: \"{n}\")"),
                None => write!(on_schema, " @{as_}(name: \"@{}\")", linked.get(n).unwrap_or(n)),
            };
        }
        link = Some(on_schema);
    }
    // Root types may go by another name.
    let mut renamed = vec![];
    for (i, op) in ["query", "mutation", "subscription"].iter().enumerate() {
        if let Some(r) = doc.roots[i].clone() {
            let to = if sim.chance(120) { format!("My{r}{}", sub.name.len()) } else { r.clone() };
            doc.def_mut(&r).unwrap().name = to.clone();
            renamed.push((*op, r, to));
        }
    }
    let spell_roots = renamed.iter().any(|(_, a, b)| a != b) || sim.chance(200);
    let roots: Vec<String> = renamed.iter().map(|(op, _, to)| format!("{op}: {to}")).collect();
    if spell_roots {
        let on_schema = link.is_some() && sim.chance(500);
        let l = if on_schema { format!(" {}", link.take().unwrap()) } else { String::new() };
        let _ = writeln!(out, "schema{l} {{ {} }}\n", roots.join(" "));
    }
    if let Some(l) = link {
        schema.insert(sim.choose(schema.len() as u32 + 1) as usize, l);
    }
    for l in schema {
        let _ = writeln!(out, "extend schema {}\n", l);
    }
    // What the server itself adds.
    if sim.chance(80) {
        if let Some((_, _, q)) = renamed.iter().find(|(op, ..)| *op == "query") {
            let q = doc.def_mut(&q.clone()).unwrap();
            q.fields.push(Fld::new("_service", parse_ty("_Service!")));
            let mut sv = Def::new(Kind::Object, "_Service");
            sv.fields.push(Fld::new("sdl", parse_ty("String!")));
            doc.defs.push(sv);
        }
    }
    // Types may be declared in pieces.
    let mut pieces = vec![];
    for mut d in std::mem::take(&mut doc.defs) {
        if sim.chance(150) {
            let mut e = Def::new(d.kind, &d.name);
            e.extend = true;
            e.fields = tail(sim, &mut d.fields);
            e.values = tail(sim, &mut d.values);
            e.members = tail(sim, &mut d.members);
            if d.kind != Kind::Interface && d.dirs.len() > 1 && sim.chance(400) {
                e.dirs = d.dirs.split_off(1);
            }
            if sim.chance(400) {
                e.implements = std::mem::take(&mut d.implements);
            }
            if !e.fields.is_empty() || !e.values.is_empty() || !e.members.is_empty() {
                pieces.push(e);
            } else {
                d.dirs.extend(e.dirs);
                d.implements.extend(e.implements);
            }
        }
        pieces.push(d);
    }
    // An extension comes after what it extends.
    sim.shuffle(&mut pieces);
    pieces.sort_by_key(|p| p.extend);
    let k = sim.choose(3);
    if k > 0 {
        // …though not necessarily last.
        let (mut a, b): (Vec<Def>, Vec<Def>) = pieces.into_iter().partition(|p| !p.extend);
        for e in b {
            let at = a.iter().position(|x| x.name == e.name).unwrap() + 1;
            let at = if k == 1 { at } else { at + sim.choose((a.len() - at + 1) as u32) as usize };
            a.insert(at, e);
        }
        pieces = a;
    }
    out.push_str(&Doc { defs: pieces, directives: doc.directives, roots: [None, None, None], ..Doc::default() }.render());
    out
}

/// The `@link`s, and how the linked schemas' directives are spelled.
fn links(sim: &Sim, sub: &Sub, schema: &mut Vec<String>) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    for (i, l) in sub.links.iter().enumerate() {
        let mut d = Dir::new("link", &[]);
        if !l.url.is_empty() {
            d.args.push(("url".into(), s_(&l.url)));
        }
        if let Some(a) = &l.as_ {
            d.args.push(("as".into(), s_(a)));
        }
        let mut import = l.also.clone();
        for n in directives_at(&l.url) {
            let spelled = match (&l.namespace, sim.choose(3)) {
                (Some(ns), 0) => format!("{ns}__{n}"),
                (_, 1) if i == 0 => {
                    import.push(s_(format!("@{n}")));
                    n.to_string()
                }
                _ => {
                    let as_ = format!("mark{i}{n}");
                    import.push(Val::Obj(vec![("name".into(), s_(format!("@{n}"))), ("as".into(), s_(format!("@{as_}")))]));
                    as_
                }
            };
            out.insert(format!("{}|{n}", l.url), spelled);
        }
        sim.shuffle(&mut import);
        if !import.is_empty() {
            d.args.push(("import".into(), Val::List(import)));
        }
        match schema.last_mut() {
            Some(x) if sim.chance(500) => *x = format!("{x} {}", d.text()),
            _ => schema.push(d.text()),
        }
    }
    out
}

fn tail<T>(sim: &Sim, items: &mut Vec<T>) -> Vec<T> {
    if items.len() < 2 {
        return vec![];
    }
    let at = 1 + sim.choose(items.len() as u32 - 1) as usize;
    items.split_off(at)
}

pub fn each_dir(doc: &mut Doc, f: &mut impl FnMut(&mut Dir)) {
    for d in &mut doc.defs {
        d.dirs.iter_mut().for_each(&mut *f);
        for v in &mut d.values {
            v.dirs.iter_mut().for_each(&mut *f);
        }
        for x in &mut d.fields {
            x.dirs.iter_mut().for_each(&mut *f);
            for a in &mut x.args {
                a.dirs.iter_mut().for_each(&mut *f);
            }
        }
    }
}
