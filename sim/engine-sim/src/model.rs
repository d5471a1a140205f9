//! Generated federated graphs: a model of who owns what, the subgraph SDLs, and the data as a pure function.
use crate::gql::{J, Val, print_val};
use simkit::{Sim, mix};
use std::fmt::Write;

pub type Sub = usize;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Base {
    Int,
    Float,
    Str,
    Bool,
    Id,
    Enum,
    Json,
    Obj(usize),
    Iface(usize),
    Union(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Named(Base, bool),
    List(Box<Ty>, bool),
}

impl Ty {
    pub fn base(&self) -> Base {
        match self {
            Ty::Named(b, _) => *b,
            Ty::List(t, _) => t.base(),
        }
    }
    pub fn nn(&self) -> bool {
        match self {
            Ty::Named(_, n) | Ty::List(_, n) => *n,
        }
    }
    pub fn is_list(&self) -> bool {
        matches!(self, Ty::List(..))
    }
}

#[derive(Clone, Debug)]
pub enum InTy {
    Int(bool),
    Str(bool),
    Bool(bool),
    Id(bool),
    Enum(bool),
    Input(bool),
    List(Box<InTy>, bool),
}

#[derive(Clone, Debug)]
pub struct Arg {
    pub name: String,
    pub ty: InTy,
    pub default: Option<Val>,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub args: Vec<Arg>,
    pub owners: Vec<Sub>,
    pub requires: Option<String>,
    /// In permille of the objects, the resolver of this field fails.
    pub sick: u64,
    /// Root field: looks an entity of its type up by the id argument.
    pub lookup: bool,
    /// Key field: its value is the id, not hashed data.
    pub key: bool,
    pub inaccessible: bool,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub name: String,
    pub entity: bool,
    pub subs: Vec<Sub>,
    /// Per subgraph in `subs`: which of the keys (id, sku) it resolves.
    pub keys: Vec<(bool, bool)>,
    /// Per subgraph in `subs`: false if the keys are not resolvable there.
    pub resolvable: Vec<bool>,
    pub sku: bool,
    pub bridges: Bridges,
    pub fields: Vec<Field>,
    pub ifaces: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Iface {
    pub name: String,
    pub subs: Vec<Sub>,
    pub fields: Vec<Field>,
    pub members: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Union {
    pub name: String,
    pub subs: Vec<Sub>,
    pub members: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub gen_cfg: Gen,
    pub seed: u64,
    pub subs: Vec<String>,
    pub objs: Vec<Obj>,
    pub ifaces: Vec<Iface>,
    pub unions: Vec<Union>,
    pub query: Vec<Field>,
    pub mutation: Vec<Field>,
    pub subscription: Vec<Field>,
}

pub const ENUM: [&str; 3] = ["RED", "GREEN", "BLUE"];
pub const IDS: u64 = 4;

/// What the generated graphs may contain.
/// Which subgraphs know both keys of an entity that has two.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bridges {
    One,
    All,
    Free,
}

#[derive(Clone, Copy, Debug)]
pub struct Gen {
    pub free_keys: bool,
    pub loose_ifaces: bool,
    pub void: bool,
    pub twins: bool,
    pub max_subs: u64,
    pub sick: bool,
    pub mutations: bool,
    pub subscriptions: bool,
    pub inaccessible: bool,
    pub abstract_types: bool,
}

impl Default for Gen {
    fn default() -> Self {
        Gen { max_subs: 4, sick: false, mutations: false, subscriptions: false, inaccessible: false, abstract_types: true, free_keys: false, loose_ifaces: false, void: false, twins: false }
    }
}

fn subset(sim: &Sim, n: usize) -> Vec<Sub> {
    let mut v: Vec<Sub> = (0..n).filter(|_| sim.chance(450)).collect();
    if v.is_empty() {
        v.push(sim.choose(n as u32) as usize);
    }
    v
}

impl Obj {
    pub fn at(&self, s: Sub) -> Option<usize> {
        self.subs.iter().position(|x| *x == s)
    }
    pub fn field(&self, name: &str) -> Option<&Field> {
        self.fields.iter().find(|f| f.name == name)
    }
}

fn ensure(sim: &Sim, o: &mut Obj, s: Sub) {
    if o.at(s).is_some() {
        return;
    }
    let keys = if !o.entity {
        (false, false)
    } else if !o.sku {
        (true, false)
    } else if o.bridges == Bridges::All || !o.keys.contains(&(true, true)) {
        (true, true)
    } else if o.bridges == Bridges::One {
        *sim.pick(&[(true, false), (false, true)])
    } else {
        *sim.pick(&[(true, false), (false, true), (true, true)])
    };
    o.subs.push(s);
    o.keys.push(keys);
    o.resolvable.push(true);
}

fn gen_args(sim: &Sim) -> Vec<Arg> {
    let mut args = Vec::new();
    if !sim.chance(350) {
        return args;
    }
    for i in 0..sim.range(1, 3) {
        let nn = sim.chance(300);
        let (ty, default) = match sim.choose(7) {
            0 => (InTy::Int(nn), sim.chance(300).then_some(Val::Int(7))),
            1 => (InTy::Str(nn), sim.chance(300).then(|| Val::Str("d\"é".into()))),
            2 => (InTy::Bool(nn), None),
            3 => (InTy::Id(nn), None),
            4 => (InTy::Enum(nn), sim.chance(300).then(|| Val::Enum("BLUE".into()))),
            5 => (InTy::Input(nn), sim.chance(200).then(|| Val::Obj(vec![("a".into(), Val::Int(3))]))),
            _ => (
                InTy::List(Box::new(InTy::Int(sim.chance(500))), nn),
                sim.chance(200).then(|| Val::List(vec![Val::Int(1), Val::Int(2)])),
            ),
        };
        args.push(Arg { name: format!("a{i}"), ty, default });
    }
    args
}

fn gen_ty(sim: &Sim, base: Base) -> Ty {
    let nn = sim.chance(300);
    match sim.choose(5) {
        0..=2 => Ty::Named(base, nn),
        3 => Ty::List(Box::new(Ty::Named(base, nn)), sim.chance(400)),
        _ => {
            let inner = Ty::List(Box::new(Ty::Named(base, nn)), sim.chance(400));
            if sim.chance(300) { Ty::List(Box::new(inner), sim.chance(400)) } else { inner }
        }
    }
}

fn scalar(sim: &Sim) -> Base {
    *sim.pick(&[Base::Str, Base::Int, Base::Bool, Base::Float, Base::Enum, Base::Id, Base::Json])
}

impl Model {
    pub fn generate(sim: &Sim, g: Gen) -> Model {
        let n = sim.range(1, g.max_subs) as usize;
        let mut m = Model {
            gen_cfg: g,
            seed: mix(sim.choose(1 << 16) as u64 + 1),
            subs: (0..n).map(|i| format!("sub{}", (b'a' + i as u8) as char)).collect(),
            objs: vec![],
            ifaces: vec![],
            unions: vec![],
            query: vec![],
            mutation: vec![],
            subscription: vec![],
        };
        let n_ent = sim.range(1, 4) as usize;
        let n_val = sim.range(0, 2) as usize;
        for i in 0..n_ent {
            let mut o = Obj {
                name: format!("E{i}"),
                entity: true,
                subs: vec![],
                keys: vec![],
                resolvable: vec![],
                sku: g.free_keys && sim.chance(500),
                bridges: if g.free_keys { Bridges::Free } else { Bridges::One },
                fields: vec![],
                ifaces: vec![],
            };
            for s in subset(sim, n) {
                ensure(sim, &mut o, s);
            }
            m.objs.push(o);
        }
        for i in 0..n_val {
            m.objs.push(Obj {
                name: format!("V{i}"),
                entity: false,
                subs: vec![],
                keys: vec![],
                resolvable: vec![],
                sku: false,
                bridges: Bridges::One,
                fields: vec![],
                ifaces: vec![],
            });
        }
        if g.abstract_types {
            for i in 0..sim.range(0, 2) as usize {
                let s = sim.choose(n as u32) as usize;
                let mut members = Vec::new();
                for o in 0..m.objs.len() {
                    if sim.chance(600) {
                        members.push(o);
                    }
                }
                if members.is_empty() {
                    members.push(0);
                }
                let mut fields = Vec::new();
                for k in 0..sim.range(1, 2) {
                    fields.push(Field {
                        name: format!("i{i}x{k}"),
                        ty: gen_ty(sim, scalar(sim)),
                        args: vec![],
                        owners: vec![s],
                        requires: None,
                        sick: if g.sick && sim.chance(200) { 300 } else { 0 },
                        lookup: false,
                        key: false,
                        inaccessible: false,
                    });
                }
                for &o in &members {
                    ensure(sim, &mut m.objs[o], s);
                    m.objs[o].ifaces.push(i);
                    m.objs[o].fields.extend(fields.iter().cloned());
                }
                m.ifaces.push(Iface { name: format!("I{i}"), subs: vec![s], fields, members });
            }
            if sim.chance(400) {
                let s = sim.choose(n as u32) as usize;
                let members: Vec<usize> = (0..m.objs.len()).filter(|_| sim.chance(600)).collect();
                if !members.is_empty() {
                    for &o in &members {
                        ensure(sim, &mut m.objs[o], s);
                    }
                    m.unions.push(Union { name: "U0".into(), subs: vec![s], members });
                }
            }
        }
        // Fields of the objects.
        for o in 0..m.objs.len() {
            let entity = m.objs[o].entity;
            let lo = if entity { 0 } else { 1 };
            for k in 0..sim.range(lo, if entity { 5 } else { 3 }) {
                let owners = if entity {
                    let from = m.objs[o].subs.clone();
                    let mut w = vec![*sim.pick(&from)];
                    if sim.chance(200) {
                        let x = *sim.pick(&from);
                        // The planner mixes up the keys of such entities (see the scenario `free keys`).
                        let avoid = m.objs[o].sku && !g.free_keys;
                        if !w.contains(&x) && !avoid {
                            w.push(x);
                        }
                    }
                    w
                } else {
                    vec![]
                };
                let base = m.gen_base(sim, &owners, entity);
                let ty = gen_ty(sim, base);
                let sick = if g.sick && sim.chance(300) { *sim.pick(&[200, 1000]) } else { 0 };
                let inaccessible = g.inaccessible && entity && sim.chance(250);
                let name = format!("{}f{k}", m.objs[o].name.to_lowercase());
                for &s in &owners {
                    m.ensure_base(sim, base, s);
                }
                m.objs[o].fields.push(Field {
                    name,
                    ty,
                    args: gen_args(sim),
                    owners,
                    requires: None,
                    sick,
                    lookup: false,
                    key: false,
                    inaccessible,
                });
            }
        }
        // Root fields.
        let n_q = sim.range(1, 4);
        for k in 0..n_q {
            let s = sim.choose(n as u32) as usize;
            let mut owners = vec![s];
            if sim.chance(150) && n > 1 {
                let x = sim.choose(n as u32) as usize;
                if x != s {
                    owners.push(x);
                }
            }
            let e = sim.choose(n_ent as u32) as usize;
            let (base, lookup) = if sim.chance(300) {
                (Base::Obj(e), true)
            } else if sim.chance(700) {
                (m.gen_base(sim, &owners, true), false)
            } else {
                (Base::Obj(e), false)
            };
            for &s in &owners {
                m.ensure_base(sim, base, s);
            }
            let ty = if lookup { Ty::Named(base, false) } else { gen_ty(sim, base) };
            let args =
                if lookup { vec![Arg { name: "id".into(), ty: InTy::Id(true), default: None }] } else { gen_args(sim) };
            m.query.push(Field {
                name: format!("q{k}"),
                ty,
                args,
                owners,
                requires: None,
                sick: if g.sick && sim.chance(100) { 1000 } else { 0 },
                lookup,
                key: false,
                inaccessible: false,
            });
        }
        if g.mutations {
            for k in 0..sim.range(1, 4) {
                let s = sim.choose(n as u32) as usize;
                let base = if sim.chance(500) { Base::Int } else { Base::Obj(sim.choose(n_ent as u32) as usize) };
                m.ensure_base(sim, base, s);
                m.mutation.push(Field {
                    name: format!("m{k}"),
                    ty: Ty::Named(base, sim.chance(300)),
                    args: gen_args(sim),
                    owners: vec![s],
                    requires: None,
                    sick: if g.sick && sim.chance(150) { 1000 } else { 0 },
                    lookup: false,
                    key: false,
                    inaccessible: false,
                });
            }
        }
        if g.subscriptions {
            for k in 0..sim.range(1, 2) {
                let s = sim.choose(n as u32) as usize;
                let base = Base::Obj(sim.choose(n_ent as u32) as usize);
                m.ensure_base(sim, base, s);
                m.subscription.push(Field {
                    name: format!("s{k}"),
                    ty: Ty::Named(base, sim.chance(300)),
                    args: gen_args(sim),
                    owners: vec![s],
                    requires: None,
                    sick: 0,
                    lookup: false,
                    key: false,
                    inaccessible: false,
                });
            }
        }
        // Value types live wherever they are referenced; what they reference must too.
        loop {
            let mut changed = false;
            for o in 0..m.objs.len() {
                if m.objs[o].entity {
                    continue;
                }
                for s in m.objs[o].subs.clone() {
                    for b in m.objs[o].fields.iter().map(|f| f.ty.base()).collect::<Vec<_>>() {
                        changed |= m.ensure_base(sim, b, s);
                    }
                }
            }
            if !changed {
                break;
            }
        }
        for o in &mut m.objs {
            if !o.entity {
                for f in &mut o.fields {
                    f.owners = o.subs.clone();
                }
            }
        }
        // Fields computed from another subgraph's field.
        for o in 0..n_ent {
            if m.objs[o].subs.len() < 2 || !sim.chance(400) || m.objs[o].sku && !g.free_keys {
                continue;
            }
            let cands: Vec<(Sub, String)> = {
                let ob = &m.objs[o];
                let mut c = Vec::new();
                for f in &ob.fields {
                    let simple = matches!(f.ty.base(), Base::Str | Base::Int | Base::Bool | Base::Enum | Base::Id);
                    if simple && f.args.is_empty() && f.sick == 0 && f.requires.is_none() && !f.inaccessible {
                        for &s in &ob.subs {
                            if !f.owners.contains(&s) {
                                c.push((s, f.name.clone()));
                            }
                        }
                    }
                }
                c
            };
            if cands.is_empty() {
                continue;
            }
            let (s, x) = sim.pick(&cands).clone();
            let base = *sim.pick(&[Base::Str, Base::Int]);
            let name = format!("{}r", m.objs[o].name.to_lowercase());
            m.objs[o].fields.push(Field {
                name,
                ty: gen_ty(sim, base),
                args: gen_args(sim),
                owners: vec![s],
                requires: Some(x),
                sick: 0,
                lookup: false,
                key: false,
                inaccessible: false,
            });
        }
        // Key fields.
        for o in &mut m.objs {
            if !o.entity {
                continue;
            }
            let with = |sku: bool| -> Vec<Sub> {
                o.subs.iter().zip(&o.keys).filter(|(_, k)| if sku { k.1 } else { k.0 }).map(|(s, _)| *s).collect()
            };
            let key = |name: &str, base: Base, owners: Vec<Sub>| Field {
                name: name.into(),
                ty: Ty::Named(base, true),
                args: vec![],
                owners,
                requires: None,
                sick: 0,
                lookup: false,
                key: true,
                inaccessible: false,
            };
            let id = key("id", Base::Id, with(false));
            let sku = key("sku", Base::Str, with(true));
            o.fields.insert(0, id);
            if o.sku {
                o.fields.insert(1, sku);
            }
            // A subgraph that only references an entity need not resolve it.
            for (i, s) in o.subs.iter().enumerate() {
                let owns = o.fields.iter().any(|f| !f.key && f.owners.contains(s));
                if !owns && !o.sku && o.ifaces.is_empty() && sim.chance(300) {
                    o.resolvable[i] = false;
                }
            }
        }
        m
    }

    fn gen_base(&self, sim: &Sim, owners: &[Sub], refs: bool) -> Base {
        if !refs || sim.chance(400) {
            return scalar(sim);
        }
        let mut c = vec![];
        for (i, o) in self.objs.iter().enumerate() {
            c.push(Base::Obj(i));
            if o.entity {
                c.push(Base::Obj(i));
            }
        }
        for (i, x) in self.ifaces.iter().enumerate() {
            if owners.iter().all(|s| x.subs.contains(s)) {
                c.push(Base::Iface(i));
                c.push(Base::Iface(i));
            }
        }
        for (i, x) in self.unions.iter().enumerate() {
            if owners.iter().all(|s| x.subs.contains(s)) {
                c.push(Base::Union(i));
                c.push(Base::Union(i));
            }
        }
        *sim.pick(&c)
    }

    fn ensure_base(&mut self, sim: &Sim, b: Base, s: Sub) -> bool {
        match b {
            Base::Obj(i) if self.objs[i].at(s).is_none() => {
                ensure(sim, &mut self.objs[i], s);
                true
            }
            _ => false,
        }
    }

    pub fn base_name(&self, b: Base) -> &str {
        match b {
            Base::Int => "Int",
            Base::Float => "Float",
            Base::Str => "String",
            Base::Bool => "Boolean",
            Base::Id => "ID",
            Base::Enum => "Color",
            Base::Json => "JSON",
            Base::Obj(i) => &self.objs[i].name,
            Base::Iface(i) => &self.ifaces[i].name,
            Base::Union(i) => &self.unions[i].name,
        }
    }

    pub fn ty_text(&self, t: &Ty) -> String {
        let mut s = match t {
            Ty::Named(b, _) => self.base_name(*b).to_string(),
            Ty::List(i, _) => format!("[{}]", self.ty_text(i)),
        };
        if t.nn() {
            s.push('!');
        }
        s
    }

    pub fn in_text(t: &InTy) -> String {
        let (mut s, nn) = match t {
            InTy::Int(n) => ("Int".to_string(), *n),
            InTy::Str(n) => ("String".into(), *n),
            InTy::Bool(n) => ("Boolean".into(), *n),
            InTy::Id(n) => ("ID".into(), *n),
            InTy::Enum(n) => ("Color".into(), *n),
            InTy::Input(n) => ("In".into(), *n),
            InTy::List(i, n) => (format!("[{}]", Self::in_text(i)), *n),
        };
        if nn {
            s.push('!');
        }
        s
    }

    fn field_text(&self, f: &Field, s: Sub, value: bool, out: &mut String) {
        write!(out, "  {}", f.name).unwrap();
        if !f.args.is_empty() {
            out.push('(');
            for (i, a) in f.args.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                write!(out, "{}: {}", a.name, Self::in_text(&a.ty)).unwrap();
                if let Some(d) = &a.default {
                    out.push_str(" = ");
                    print_val(d, out);
                }
            }
            out.push(')');
        }
        write!(out, ": {}", self.ty_text(&f.ty)).unwrap();
        if f.owners.len() > 1 && !f.key && !value {
            out.push_str(" @shareable");
        }
        if f.inaccessible {
            out.push_str(" @inaccessible");
        }
        if let Some(x) = &f.requires {
            write!(out, " @requires(fields: \"{x}\")").unwrap();
        }
        let _ = s;
        out.push('\n');
    }

    pub fn sdl(&self, s: Sub) -> String {
        let mut out = String::from(
            "extend schema @link(url: \"https://specs.apollo.dev/federation/v2.3\", import: [\"@key\", \"@shareable\", \"@external\", \"@requires\", \"@provides\", \"@inaccessible\", \"@override\"])\n",
        );
        out.push_str("scalar JSON\nenum Color { RED GREEN BLUE }\ninput In { a: Int!, b: String = \"dé\", c: [In!], e: Color }\n");
        for (name, fields) in [("Query", &self.query), ("Mutation", &self.mutation), ("Subscription", &self.subscription)] {
            if fields.iter().any(|f| f.owners.contains(&s)) {
                writeln!(out, "type {name} {{").unwrap();
                for f in fields.iter().filter(|f| f.owners.contains(&s)) {
                    self.field_text(f, s, false, &mut out);
                }
                out.push_str("}\n");
            }
        }
        for x in self.ifaces.iter().filter(|x| x.subs.contains(&s)) {
            writeln!(out, "interface {} {{", x.name).unwrap();
            for f in &x.fields {
                let f = Field { owners: vec![s], ..f.clone() };
                self.field_text(&f, s, true, &mut out);
            }
            out.push_str("}\n");
        }
        for u in self.unions.iter().filter(|u| u.subs.contains(&s)) {
            let names: Vec<_> = u.members.iter().map(|m| self.objs[*m].name.as_str()).collect();
            writeln!(out, "union {} = {}", u.name, names.join(" | ")).unwrap();
        }
        for o in &self.objs {
            let Some(at) = o.at(s) else { continue };
            write!(out, "type {}", o.name).unwrap();
            let impls: Vec<_> =
                o.ifaces.iter().filter(|i| self.ifaces[**i].subs.contains(&s)).map(|i| self.ifaces[*i].name.as_str()).collect();
            if !impls.is_empty() {
                write!(out, " implements {}", impls.join(" & ")).unwrap();
            }
            if o.entity {
                let r = if o.resolvable[at] { "" } else { ", resolvable: false" };
                if o.keys[at].0 {
                    write!(out, " @key(fields: \"id\"{r})").unwrap();
                }
                if o.keys[at].1 {
                    write!(out, " @key(fields: \"sku\"{r})").unwrap();
                }
            } else {
                out.push_str(" @shareable");
            }
            out.push_str(" {\n");
            for f in o.fields.iter().filter(|f| f.owners.contains(&s)) {
                self.field_text(f, s, !o.entity, &mut out);
            }
            let externals: Vec<&str> =
                o.fields.iter().filter(|f| f.owners.contains(&s)).filter_map(|f| f.requires.as_deref()).collect();
            for x in externals {
                let f = o.field(x).unwrap();
                writeln!(out, "  {}: {} @external", f.name, self.ty_text(&f.ty)).unwrap();
            }
            out.push_str("}\n");
        }
        out
    }

    pub fn id_text(&self, obj: usize, id: u64) -> String {
        format!("{}:{id}", self.objs[obj].name)
    }

    pub fn parse_id(&self, obj: usize, text: &str) -> Option<u64> {
        let (n, id) = text.split_once(':')?;
        let id: u64 = id.parse().ok()?;
        (n == self.objs[obj].name && id < IDS).then_some(id)
    }

    /// JSON value of a custom scalar.
    pub fn json(&self, h: u64) -> J {
        match h % 5 {
            0 => J::Obj(vec![("k".into(), J::Int((h % 97) as i64)), ("n".into(), J::Arr(vec![J::Null, J::Bool(true)]))]),
            1 => J::Arr(vec![J::s("x\ny"), J::Float(1.5), J::Obj(vec![])]),
            2 => J::s(format!("j{:x}", h % 4096)),
            3 => J::Int(9_007_199_254_740_993),
            _ => J::Bool(false),
        }
    }

    pub fn str(&self, h: u64) -> String {
        match h % 9 {
            0 => String::new(),
            1 => format!("é日🦀{}", h % 100),
            2 => format!("a\"b\\c\n{}", h % 100),
            _ => format!("s{:x}", h % 65536),
        }
    }
}
