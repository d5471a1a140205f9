//! Releases that contradict themselves.
use crate::sdl::*;
use crate::supply::{Link, Sub, extension_name, counted, enum_use, key_fields, s_, shared_fields};
use simkit::Sim;

type Attempt = fn(&Sim, &mut Vec<Sub>) -> Option<()>;

const ALL: &[(&str, Attempt)] = &[
    ("output types with different bases", |sim, s| output_type(sim, s, 0)),
    ("output lists with different item nullability", |sim, s| output_type(sim, s, 1)),
    ("output types of different list depth", |sim, s| output_type(sim, s, 2)),
    ("argument types with different bases", |sim, s| argument_type(sim, s, 0)),
    ("argument lists with different item nullability", |sim, s| argument_type(sim, s, 1)),
    ("argument types of different list depth", |sim, s| argument_type(sim, s, 2)),
    ("input field types with different bases", |sim, s| input_type(sim, s, 0)),
    ("input field lists with different item nullability", |sim, s| input_type(sim, s, 1)),
    ("input field types of different list depth", |sim, s| input_type(sim, s, 2)),
    ("shared field that nobody calls shareable", unshared),
    ("required argument that others don't take", required_argument),
    ("different argument defaults", argument_defaults),
    ("required input field that others don't know", required_input_field),
    ("enum for input and output with different values", enum_mismatch),
    ("input enums without a common value", enum_empty),
    ("types of different kinds", kinds),
    ("entity here, value there", entity),
    ("shareable interface field", shareable_interface),
    ("interface field that isn't implemented", unimplemented),
    ("override from itself", override_self),
    ("two overrides of one source", override_twice),
    ("hidden type on visible field", hidden_type),
    ("hidden type on visible argument", hidden_argument_type),
    ("key of unknown field", unknown_key),
    ("requires unknown field", unknown_requires),
    ("provides unknown field", unknown_provides),
    ("external field with requires", |sim, s| external_with(sim, s, "requires")),
    ("external field with provides", |sim, s| external_with(sim, s, "provides")),
    ("shareable object without a field others have", shareable_object),
    ("subgraph names that differ in case", names_case),
    ("subgraph name", names_bad),
    ("join__Graph", reserved),
    ("hidden Query", hidden_query),
    ("shareable subscription field", shareable_subscription),
    ("nothing to query", rootless),
    ("two extensions of one name", extension_twice),
    ("composed directive of an extension", extension_composed),
    ("directive imported as something else", import_sigil),
    ("composed directive without its @", compose_sigil),
    ("link without a url", link_url),
    ("field of a type nobody defines", |sim, s| undefined(sim, s, false)),
    ("argument of a type nobody defines", |sim, s| undefined(sim, s, true)),
];

pub fn inject(sim: &Sim, subs: &mut Vec<Sub>) -> Option<&'static str> {
    for _ in 0..6 {
        let (why, f) = sim.pick(ALL);
        let keep = subs.clone();
        if f(sim, subs).is_some() {
            return Some(why);
        }
        *subs = keep;
    }
    None
}

fn pick<T>(sim: &Sim, items: Vec<T>) -> Option<T> {
    if items.is_empty() {
        return None;
    }
    let i = sim.choose(items.len() as u32) as usize;
    items.into_iter().nth(i)
}

fn spoil(sim: &Sim, t: &mut Ty, how: u32) -> Option<()> {
    match how {
        0 => {
            if !matches!(t.base.as_str(), "String" | "Int" | "ID" | "Boolean" | "Float") {
                return None;
            }
            let others: Vec<&str> = ["String", "Int", "ID", "Boolean", "Float"].into_iter().filter(|b| *b != t.base).collect();
            t.base = pick(sim, others)?.to_string();
        }
        1 => {
            if t.lists.is_empty() {
                return None;
            }
            if t.lists.len() > 1 && sim.chance(500) {
                t.lists[0] = !t.lists[0];
            } else {
                t.inner = !t.inner;
            }
        }
        _ => {
            if !t.lists.is_empty() && sim.chance(500) {
                t.lists.pop();
            } else {
                t.lists.push(sim.chance(500));
            }
        }
    }
    Some(())
}

/// Type names of which every definition is of this kind.
fn only(subs: &[Sub], kind: Kind) -> Vec<String> {
    let mut out: Vec<String> = subs.iter().flat_map(|s| s.doc.defs.iter()).filter(|d| d.kind == kind).map(|d| d.name.clone()).collect();
    out.sort();
    out.dedup();
    out.retain(|n| subs.iter().filter_map(|s| s.doc.def(n)).all(|d| d.kind == kind) && n != "Thing");
    out
}

fn owners(subs: &[Sub], ty: &str) -> Vec<usize> {
    (0..subs.len()).filter(|i| subs[*i].doc.def(ty).is_some()).collect()
}

fn owners_of_field(subs: &[Sub], ty: &str, f: &str) -> Vec<usize> {
    (0..subs.len()).filter(|i| subs[*i].doc.def(ty).is_some_and(|d| d.field(f).is_some())).collect()
}

fn get<'a>(subs: &'a [Sub], i: usize, ty: &str, f: &str) -> &'a Fld {
    subs[i].doc.def(ty).unwrap().field(f).unwrap()
}

fn get_mut<'a>(subs: &'a mut [Sub], i: usize, ty: &str, f: &str) -> &'a mut Fld {
    subs[i].doc.def_mut(ty).unwrap().field_mut(f).unwrap()
}

/// Fields of objects and interfaces in several subgraphs, none of which overrides it or leaves it to others.
fn shared(subs: &[Sub]) -> Vec<(String, String, Vec<usize>)> {
    let mut out = vec![];
    for kind in [Kind::Object, Kind::Interface] {
        for t in only(subs, kind) {
            let mut fields: Vec<String> = subs.iter().filter_map(|s| s.doc.def(&t)).flat_map(|d| d.fields.iter().map(|f| f.name.clone())).collect();
            fields.sort();
            fields.dedup();
            for f in fields {
                let o = owners_of_field(subs, &t, &f);
                if o.len() > 1 && o.iter().all(|i| !has(&get(subs, *i, &t, &f).dirs, "override") && !has(&get(subs, *i, &t, &f).dirs, "external")) {
                    out.push((t.clone(), f, o));
                }
            }
        }
    }
    out
}

fn output_type(sim: &Sim, subs: &mut Vec<Sub>, how: u32) -> Option<()> {
    let (t, f, o) = pick(sim, shared(subs))?;
    let i = *sim.pick(&o);
    spoil(sim, &mut get_mut(subs, i, &t, &f).ty, how)
}

fn argument_type(sim: &Sim, subs: &mut Vec<Sub>, how: u32) -> Option<()> {
    let (t, f, o) = pick(sim, shared(subs))?;
    let common: Vec<String> = get(subs, o[0], &t, &f).args.iter().map(|a| a.name.clone()).filter(|a| o.iter().all(|i| get(subs, *i, &t, &f).arg(a).is_some())).collect();
    let i = *sim.pick(&o);
    let a = match pick(sim, common) {
        Some(a) => a,
        None => {
            let mut a = Fld::new("given", Ty { base: "Int".into(), inner: sim.chance(500), lists: vec![sim.chance(500)] });
            a.ty.set_outer(false);
            for i in o {
                get_mut(subs, i, &t, &f).args.push(a.clone());
            }
            a.name
        }
    };
    let arg = get_mut(subs, i, &t, &f).args.iter_mut().find(|x| x.name == a).unwrap();
    arg.default = None;
    spoil(sim, &mut arg.ty, how)
}

fn input_type(sim: &Sim, subs: &mut Vec<Sub>, how: u32) -> Option<()> {
    let t = pick(sim, only(subs, Kind::Input))?;
    let o = owners(subs, &t);
    if o.len() < 2 {
        return None;
    }
    let fields: Vec<String> =
        subs[o[0]].doc.def(&t)?.fields.iter().map(|f| f.name.clone()).filter(|f| owners_of_field(subs, &t, f).len() == o.len()).collect();
    let f = pick(sim, fields)?;
    let i = *sim.pick(&o);
    let f = get_mut(subs, i, &t, &f);
    f.default = None;
    spoil(sim, &mut f.ty, how)
}

fn unshared(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let keyed = key_fields(subs);
    let cands: Vec<_> = shared_fields(subs)
        .into_iter()
        .filter(|(t, f, o)| {
            !keyed.contains(&(t.clone(), f.clone()))
                && o.iter().filter(|i| counted(&subs[**i], t, f)).count() > 1
                && subs.iter().filter_map(|s| s.doc.def(t)).all(|d| d.kind == Kind::Object)
        })
        .collect();
    let (t, f, o) = pick(sim, cands)?;
    for s in subs.iter_mut() {
        if let Some(d) = s.doc.def_mut(&t) {
            d.dirs.retain(|d| d.name != "shareable");
        }
    }
    for i in o {
        get_mut(subs, i, &t, &f).dirs.retain(|d| d.name != "shareable");
    }
    Some(())
}

fn required_argument(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let (t, f, o) = pick(sim, shared(subs))?;
    let n = 1 + sim.choose(o.len() as u32 - 1) as usize;
    let mut o = o;
    sim.shuffle(&mut o);
    for (k, i) in o[..n].iter().enumerate() {
        get_mut(subs, *i, &t, &f).args.push(Fld::new("must", parse_ty(if k == 0 { "Int!" } else { "Int" })));
    }
    Some(())
}

fn argument_defaults(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let (t, f, mut o) = pick(sim, shared(subs))?;
    sim.shuffle(&mut o);
    for (k, i) in o.iter().enumerate() {
        let mut a = Fld::new("lim", parse_ty("Int"));
        a.default = match k {
            0 => Some(Val::Int(1)),
            1 => Some(Val::Int(2)),
            _ => None,
        };
        get_mut(subs, *i, &t, &f).args.push(a);
    }
    Some(())
}

fn required_input_field(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let t = pick(sim, only(subs, Kind::Input))?;
    let mut o = owners(subs, &t);
    if o.len() < 2 || has(&subs[o[0]].doc.def(&t)?.dirs, "oneOf") {
        return None;
    }
    sim.shuffle(&mut o);
    let n = 1 + sim.choose(o.len() as u32 - 1) as usize;
    for (k, i) in o[..n].iter().enumerate() {
        subs[*i].doc.def_mut(&t)?.fields.push(Fld::new("must", parse_ty(if k == 0 { "Int!" } else { "Int" })));
    }
    Some(())
}

fn query(subs: &mut [Sub], i: usize) -> Option<&mut Def> {
    subs[i].doc.def_mut("Query")
}

fn with_query(sim: &Sim, subs: &[Sub], o: &[usize]) -> Option<usize> {
    pick(sim, o.iter().copied().filter(|i| subs[*i].doc.def("Query").is_some()).collect())
}

fn ask(subs: &mut [Sub], i: usize, arg: &str, out: &str) -> Option<()> {
    let mut f = Fld::new("asking", Ty::named(out));
    f.args.push(Fld::new("with", Ty::named(arg)));
    query(subs, i)?.fields.push(f);
    Some(())
}

fn enum_mismatch(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let t = pick(sim, only(subs, Kind::Enum))?;
    let o = owners(subs, &t);
    if o.len() < 2 {
        return None;
    }
    let (input, output) = enum_use(subs, &t);
    if !(input && output) {
        let q = with_query(sim, subs, &o)?;
        ask(subs, q, &t, &t)?;
    }
    let i = *sim.pick(&o);
    subs[i].doc.def_mut(&t)?.values.push(EVal { name: "ODD_ONE".into(), desc: None, dirs: vec![] });
    Some(())
}

fn enum_empty(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let t = pick(sim, only(subs, Kind::Enum))?;
    let o = owners(subs, &t);
    if o.len() < 2 || enum_use(subs, &t).1 {
        return None;
    }
    let q = with_query(sim, subs, &o)?;
    ask(subs, q, &t, "Int")?;
    let i = *sim.pick(&o);
    // Defaults would name values that are gone.
    subs[i].doc.def_mut(&t)?.values = vec![EVal { name: "ODD_ONE".into(), desc: None, dirs: vec![] }];
    Some(())
}

fn kinds(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    if subs.len() < 2 {
        return None;
    }
    let mut o: Vec<usize> = (0..subs.len()).collect();
    sim.shuffle(&mut o);
    o.truncate(sim.range(2, o.len() as u64) as usize);
    let mut kinds = vec![Kind::Scalar, Kind::Object, Kind::Interface, Kind::Enum, Kind::Input, Kind::Union];
    sim.shuffle(&mut kinds);
    for (k, i) in o.into_iter().enumerate() {
        // Two kinds at least.
        let kind = if k < 2 { kinds[k] } else { *sim.pick(&kinds[..2]) };
        let mut d = Def::new(kind, "Clash");
        match kind {
            Kind::Object | Kind::Interface | Kind::Input => d.fields.push(Fld::new("x", parse_ty("Int"))),
            Kind::Enum => d.values.push(EVal { name: "X".into(), desc: None, dirs: vec![] }),
            Kind::Union => {
                let mut m = Def::new(Kind::Object, &format!("ClashMember{i}"));
                m.fields.push(Fld::new("x", parse_ty("Int")));
                subs[i].doc.defs.push(m);
                d.members.push(format!("ClashMember{i}"));
            }
            Kind::Scalar => {}
        }
        if kind == Kind::Object && subs[i].v2 {
            d.dirs.push(Dir::new("shareable", &[]));
        }
        subs[i].doc.defs.push(d);
    }
    Some(())
}

fn entity(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let cands: Vec<String> = only(subs, Kind::Object)
        .into_iter()
        .filter(|t| !t.starts_with("Thing") && owners(subs, t).iter().filter(|i| has(&subs[**i].doc.def(t).unwrap().dirs, "key")).count() > 1)
        .filter(|t| owners(subs, t).iter().any(|i| subs[*i].v2))
        .collect();
    let t = pick(sim, cands)?;
    let v2: Vec<usize> = owners(subs, &t).into_iter().filter(|i| subs[*i].v2).collect();
    let i = *sim.pick(&v2);
    subs[i].doc.def_mut(&t)?.dirs.retain(|d| d.name != "key");
    Some(())
}

fn shareable_interface(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let t = pick(sim, only(subs, Kind::Interface))?;
    let i = pick(sim, owners(subs, &t).into_iter().filter(|i| subs[*i].v2).collect())?;
    let d = subs[i].doc.def_mut(&t)?;
    let k = sim.choose(d.fields.len() as u32) as usize;
    d.fields[k].dirs.push(Dir::new("shareable", &[]));
    Some(())
}

fn unimplemented(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let cands: Vec<String> =
        only(subs, Kind::Interface).into_iter().filter(|t| subs.iter().any(|s| s.doc.defs.iter().any(|d| d.kind == Kind::Object && d.implements.contains(t)))).collect();
    let t = pick(sim, cands)?;
    let i = *sim.pick(&owners(subs, &t));
    subs[i].doc.def_mut(&t)?.fields.push(Fld::new("nowhere", parse_ty("Int")));
    Some(())
}

fn override_self(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let i = pick(sim, (0..subs.len()).filter(|i| subs[*i].v2).collect())?;
    let name = subs[i].name.clone();
    let cands: Vec<(String, String)> = subs[i]
        .doc
        .defs
        .iter()
        .filter(|d| d.kind == Kind::Object)
        .flat_map(|d| d.fields.iter().filter(|f| !has(&f.dirs, "override") && !has(&f.dirs, "external")).map(|f| (d.name.clone(), f.name.clone())))
        .collect();
    let (t, f) = pick(sim, cands)?;
    let mut d = Dir::new("override", &[("from", s_(name))]);
    if sim.chance(300) {
        d.args.push(("label".into(), s_("percent(5)")));
    }
    get_mut(subs, i, &t, &f).dirs.push(d);
    Some(())
}

fn override_twice(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let cands: Vec<_> = shared(subs)
        .into_iter()
        .filter(|(t, _, _)| only(subs, Kind::Object).contains(t))
        .map(|(t, f, o)| (t, f, o.into_iter().filter(|i| subs[*i].v2).collect::<Vec<_>>()))
        .filter(|(_, _, o)| o.len() > 1)
        .collect();
    let (t, f, mut o) = pick(sim, cands)?;
    sim.shuffle(&mut o);
    let from = match subs.iter().enumerate().find(|(i, _)| *i != o[0] && *i != o[1]) {
        Some((_, s)) if sim.chance(500) => s.name.clone(),
        _ => "retired".to_string(),
    };
    for i in &o[..2] {
        let mut d = Dir::new("override", &[("from", s_(&from))]);
        if sim.chance(300) {
            d.args.push(("label".into(), s_("percent(5)")));
        }
        get_mut(subs, *i, &t, &f).dirs.push(d);
    }
    Some(())
}

/// A type with a user whose subgraph doesn't hide the use.
fn hide(sim: &Sim, subs: &mut [Sub], arguments: bool) -> Option<()> {
    let i = pick(sim, (0..subs.len()).filter(|i| subs[*i].v2).collect())?;
    let doc = &subs[i].doc;
    let mut used: Vec<String> = vec![];
    for d in doc.defs.iter().filter(|d| d.kind == Kind::Object) {
        for f in &d.fields {
            if arguments {
                used.extend(f.args.iter().filter(|a| !has(&a.dirs, "inaccessible")).map(|a| a.ty.base.clone()));
            } else if !has(&f.dirs, "inaccessible") {
                used.push(f.ty.base.clone());
            }
        }
    }
    used.retain(|t| doc.def(t).is_some_and(|d| !has(&d.dirs, "inaccessible")));
    let t = pick(sim, used)?;
    // Arguments have to survive for their types to matter.
    if arguments {
        for d in doc.defs.clone() {
            for f in &d.fields {
                for a in f.args.iter().filter(|a| a.ty.base == t) {
                    if subs.iter().filter_map(|s| s.doc.def(&d.name)?.field(&f.name)).any(|f| f.arg(&a.name).is_none_or(|x| has(&x.dirs, "inaccessible"))) {
                        return None;
                    }
                }
            }
        }
    }
    subs[i].doc.def_mut(&t)?.dirs.push(Dir::new("inaccessible", &[]));
    Some(())
}

fn hidden_type(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    hide(sim, subs, false)
}

fn hidden_argument_type(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    hide(sim, subs, true)
}

fn unknown_key(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let mut cands = vec![];
    for (i, s) in subs.iter().enumerate() {
        for (j, d) in s.doc.defs.iter().enumerate() {
            for (k, x) in d.dirs.iter().enumerate() {
                if x.name == "key" && d.kind == Kind::Object && !d.name.starts_with("Thing") {
                    cands.push((i, j, k));
                }
            }
        }
    }
    let (i, j, k) = pick(sim, cands)?;
    let key = &mut subs[i].doc.defs[j].dirs[k];
    let old = key.str("fields")?.to_string();
    let new = match old.find('{') {
        Some(at) if sim.chance(500) => format!("{} nowhere {}", &old[..=at], &old[at + 1..]),
        _ => format!("{old} nowhere"),
    };
    key.args[0].1 = s_(new);
    Some(())
}

fn unknown_requires(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let i = pick(sim, (0..subs.len()).collect())?;
    let cands: Vec<(String, String)> = subs[i]
        .doc
        .defs
        .iter()
        .filter(|d| has(&d.dirs, "key") && d.kind == Kind::Object)
        .flat_map(|d| d.fields.iter().filter(|f| !has(&f.dirs, "external") && !has(&f.dirs, "requires")).map(|f| (d.name.clone(), f.name.clone())))
        .collect();
    let (t, f) = pick(sim, cands)?;
    get_mut(subs, i, &t, &f).dirs.push(Dir::new("requires", &[("fields", s_("nowhere"))]));
    Some(())
}

fn unknown_provides(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let i = pick(sim, (0..subs.len()).collect())?;
    let doc = &subs[i].doc;
    let cands: Vec<(String, String)> = doc
        .defs
        .iter()
        .filter(|d| d.kind == Kind::Object)
        .flat_map(|d| {
            d.fields
                .iter()
                .filter(|f| !has(&f.dirs, "external") && !has(&f.dirs, "provides") && doc.def(&f.ty.base).is_some_and(|t| t.kind == Kind::Object))
                .map(|f| (d.name.clone(), f.name.clone()))
        })
        .collect();
    let (t, f) = pick(sim, cands)?;
    get_mut(subs, i, &t, &f).dirs.push(Dir::new("provides", &[("fields", s_("nowhere"))]));
    Some(())
}

fn external_with(sim: &Sim, subs: &mut Vec<Sub>, what: &str) -> Option<()> {
    let i = pick(sim, (0..subs.len()).filter(|i| subs[*i].v2).collect())?;
    let d = pick(sim, subs[i].doc.defs.iter().filter(|d| d.kind == Kind::Object && d.name != "Thing" && has(&d.dirs, "key")).cloned().collect())?;
    let mut f = Fld::new("foreign", Ty::named(if what == "provides" { &d.name } else { "Int" }));
    f.dirs.push(Dir::new("external", &[]));
    f.dirs.push(Dir::new(what, &[("fields", s_(&d.fields[0].name))]));
    if !d.fields[0].args.is_empty() || subs[i].doc.def(&d.fields[0].ty.base).is_some_and(|t| matches!(t.kind, Kind::Object | Kind::Interface | Kind::Union)) {
        return None;
    }
    subs[i].doc.def_mut(&d.name)?.fields.push(f);
    Some(())
}

fn shareable_object(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let cands: Vec<String> =
        only(subs, Kind::Object).into_iter().filter(|t| !["Query", "Mutation", "Subscription"].contains(&t.as_str()) && owners(subs, t).len() > 1).collect();
    let t = pick(sim, cands)?;
    let o = owners(subs, &t);
    let v2 = pick(sim, o.iter().copied().filter(|i| subs[*i].v2).collect())?;
    let d = subs[v2].doc.def_mut(&t)?;
    if !has(&d.dirs, "shareable") {
        d.dirs.push(Dir::new("shareable", &[]));
    }
    let i = *sim.pick(&o);
    subs[i].doc.def_mut(&t)?.fields.push(Fld::new("more", parse_ty("Int")));
    Some(())
}

fn names_case(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    if subs.len() < 2 {
        return None;
    }
    let a = sim.choose(subs.len() as u32) as usize;
    let b = (a + 1) % subs.len();
    let name = subs[a].name.to_uppercase();
    if name == subs[a].name {
        return None;
    }
    subs[b].name = name;
    Some(())
}

fn names_bad(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let i = sim.choose(subs.len() as u32) as usize;
    subs[i].name = sim.pick(&["", "1st", "-dash", "under_score", "dot.ted", "two words", "slash/ed", "qu\"ote", "-", "_lead", "semi;colon", "trailing ", "a.b", "Ünder_score"]).to_string();
    Some(())
}

fn linked(sim: &Sim, subs: &mut [Sub], url: &str, as_: Option<&str>) {
    let i = sim.choose(subs.len() as u32) as usize;
    let namespace = as_.map(String::from);
    subs[i].links.push(Link { url: url.into(), as_: namespace.clone(), namespace, also: vec![] });
}

fn extension_twice(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let a = pick(sim, vec![("https://grafbase.com/extensions/dup", None), ("https://extensions.grafbase.com/dup/v1.0", None), ("https://grafbase.com/extensions/x/v2", Some("dup"))])?;
    let b = pick(sim, vec![("file:///opt/dup", None), ("file:///opt/Dup/build", None), ("file:///opt/y", Some("DUP")), ("file:///opt/dup/v1.2", None)])?;
    linked(sim, subs, a.0, a.1);
    linked(sim, subs, b.0, b.1);
    Some(())
}

fn extension_composed(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let mut cands = vec![];
    for (i, x) in subs.iter().enumerate().filter(|(_, x)| x.v2) {
        let mut doc = x.doc.clone();
        doc.defs.retain(|d| d.kind == Kind::Object && !matches!(d.name.as_str(), "Query" | "Mutation" | "Subscription" | "Thing"));
        for d in &doc.defs {
            for a in &d.dirs {
                if a.name.split_once('|').is_some_and(|(url, _)| extension_name(url).is_some()) {
                    cands.push((i, a.name.clone()));
                }
            }
        }
    }
    let (i, name) = pick(sim, cands)?;
    subs[i].composes.push(name);
    Some(())
}

fn import_sigil(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let i = sim.choose(subs.len() as u32) as usize;
    let (name, as_) = if sim.chance(500) { ("@thing", "thing") } else { ("Thing", "@thing") };
    let bad = Val::Obj(vec![("name".into(), s_(name)), ("as".into(), s_(as_))]);
    subs[i].links.push(Link { url: pick(sim, vec!["https://grafbase.com/extensions/sigil", "https://example.org/sigil/v1.0"])?.into(), as_: None, namespace: None, also: vec![bad] });
    Some(())
}

fn compose_sigil(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let i = pick(sim, (0..subs.len()).filter(|i| subs[*i].v2).collect())?;
    subs[i].composes.push("!nosigil".into());
    Some(())
}

fn link_url(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let i = sim.choose(subs.len() as u32) as usize;
    subs[i].links.push(Link { url: String::new(), as_: Some("nowhere".into()), namespace: None, also: vec![] });
    Some(())
}

fn reserved(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let i = sim.choose(subs.len() as u32) as usize;
    let mut d = Def::new(Kind::Enum, "join__Graph");
    d.values.push(EVal { name: "X".into(), desc: None, dirs: vec![] });
    subs[i].doc.defs.push(d);
    Some(())
}

fn hidden_query(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let i = pick(sim, (0..subs.len()).filter(|i| subs[*i].v2 && subs[*i].doc.def("Query").is_some()).collect())?;
    query(subs, i)?.dirs.push(Dir::new("inaccessible", &[]));
    Some(())
}

fn shareable_subscription(sim: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    let i = pick(sim, (0..subs.len()).filter(|i| subs[*i].v2 && subs[*i].doc.def("Subscription").is_some()).collect())?;
    let d = subs[i].doc.def_mut("Subscription")?;
    if sim.chance(400) {
        d.dirs.push(Dir::new("shareable", &[]));
    } else {
        let k = sim.choose(d.fields.len() as u32) as usize;
        d.fields[k].dirs.push(Dir::new("shareable", &[]));
    }
    Some(())
}

fn rootless(_: &Sim, subs: &mut Vec<Sub>) -> Option<()> {
    for s in subs.iter_mut() {
        s.doc.defs.retain(|d| !["Query", "Mutation", "Subscription"].contains(&d.name.as_str()));
        s.doc.roots = [None, None, None];
        if s.doc.defs.is_empty() {
            s.doc.defs.push(Def::new(Kind::Scalar, "Lonely"));
        }
    }
    Some(())
}

fn undefined(sim: &Sim, subs: &mut Vec<Sub>, argument: bool) -> Option<()> {
    let i = sim.choose(subs.len() as u32) as usize;
    let cands: Vec<&mut Def> =
        subs[i].doc.defs.iter_mut().filter(|d| if argument { d.kind == Kind::Object } else { !d.fields.is_empty() }).filter(|d| !d.fields.is_empty()).collect();
    let d = pick(sim, cands)?;
    let f = Fld::new("lost", parse_ty(if argument { "Int" } else { "[Nowhere]" }));
    d.fields.push(f);
    if argument {
        d.fields.last_mut()?.args.push(Fld::new("lost", parse_ty("Nowhere")));
    }
    Some(())
}
