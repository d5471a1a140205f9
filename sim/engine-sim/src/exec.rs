//! A small GraphQL executor over the model. With `sub: None` it is the reference: one server owning everything.
//! With `sub: Some(s)` it is subgraph `s`, and it is strict about what it is asked.
use crate::gql::{J, Kind, Op, Sel, Val};
use crate::model::{Arg, Base, ENUM, Field, IDS, InTy, Model, Sub, Ty};
use simkit::{hash_str, mix};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Seg {
    Key(String),
    Index(usize),
}

#[derive(Clone, Debug)]
pub struct Node {
    /// Index into `objs`, or None for the root.
    pub obj: Option<usize>,
    pub id: u64,
    /// Values of required fields handed over with a representation.
    pub rep: Option<J>,
}

#[derive(Clone, Debug)]
pub struct GErr {
    pub path: Vec<Seg>,
    pub message: String,
}

/// State shared by all servers of a world: what mutations change.
#[derive(Default, Clone, Debug)]
pub struct Db {
    pub seq: i64,
    /// Whom the server is talking to: everybody has their own values.
    pub salt: u64,
    /// (mutation field, canonical arguments) in the order of execution.
    pub log: Vec<String>,
}

pub struct Exec<'a> {
    pub m: &'a Model,
    pub sub: Option<Sub>,
    pub op: &'a Op,
    pub vars: &'a J,
    pub db: &'a mut Db,
    pub errors: Vec<GErr>,
    /// Ways in which the request isn't valid for this server.
    pub bad: Vec<String>,
    /// Event number of a subscription: changes the data under the subscription root.
    pub event: u64,
    /// Positions of an `_entities` reply that are null (a fault).
    pub entities_null: Vec<usize>,
    /// What is known of the field at each path of the response, if asked for.
    pub notes: Option<BTreeMap<String, &'a Field>>,
}

pub fn path_text(path: &[Seg]) -> String {
    let mut out = String::new();
    for s in path {
        match s {
            Seg::Key(k) => out.push_str(&format!("/{k}")),
            Seg::Index(i) => out.push_str(&format!("/{i}")),
        }
    }
    out
}

/// Null that travels up to the closest nullable position.
pub struct Up;

impl<'a> Exec<'a> {
    pub fn new(m: &'a Model, sub: Option<Sub>, op: &'a Op, vars: &'a J, db: &'a mut Db) -> Self {
        Exec { m, sub, op, vars, db, errors: vec![], bad: vec![], event: 0, entities_null: vec![], notes: None }
    }

    pub fn run(&mut self) -> J {
        let root = Node { obj: None, id: self.event, rep: None };
        let mut path = Vec::new();
        let op = self.op;
        match self.object(&root, &[&op.sel], &mut path) {
            Ok(v) => v,
            Err(Up) => J::Null,
        }
    }

    fn bad(&mut self, msg: String) {
        self.bad.push(msg);
    }

    fn type_name(&self, n: &Node) -> &'a str {
        match n.obj {
            Some(o) => &self.m.objs[o].name,
            None => self.op.kind.root(),
        }
    }

    fn roots(&self) -> &'a [Field] {
        match self.op.kind {
            Kind::Query => &self.m.query,
            Kind::Mutation => &self.m.mutation,
            Kind::Subscription => &self.m.subscription,
        }
    }

    fn field(&mut self, n: &Node, name: &str) -> Option<&'a Field> {
        let m = self.m;
        let f = match n.obj {
            Some(o) => m.objs[o].fields.iter().find(|f| f.name == name),
            None => self.roots().iter().find(|f| f.name == name),
        };
        let Some(f) = f else {
            self.bad(format!("unknown field {}.{name}", self.type_name(n)));
            return None;
        };
        if let Some(s) = self.sub {
            if !f.owners.contains(&s) {
                let ok = n.obj.is_some_and(|o| {
                    m.objs[o].fields.iter().any(|r| r.owners.contains(&s) && r.requires.as_deref() == Some(name))
                });
                if ok {
                    self.bad(format!("{}.{name} is external in this subgraph", self.type_name(n)));
                } else {
                    self.bad(format!("field {}.{name} does not exist in this subgraph", self.type_name(n)));
                }
                return None;
            }
        }
        Some(f)
    }

    fn matches(&mut self, n: &Node, on: &str) -> bool {
        let m = self.m;
        let Some(o) = n.obj else { return on == self.op.kind.root() };
        let visible = |subs: &[Sub]| self.sub.is_none_or(|s| subs.contains(&s));
        if let Some(t) = m.objs.iter().position(|x| x.name == on) {
            if !visible(&m.objs[t].subs) {
                self.bad(format!("type {on} does not exist in this subgraph"));
            }
            return t == o;
        }
        if let Some(i) = m.ifaces.iter().position(|x| x.name == on) {
            if !visible(&m.ifaces[i].subs) {
                self.bad(format!("interface {on} does not exist in this subgraph"));
            }
            return m.ifaces[i].members.contains(&o);
        }
        if let Some(u) = m.unions.iter().find(|x| x.name == on) {
            if !visible(&u.subs) {
                self.bad(format!("union {on} does not exist in this subgraph"));
            }
            return u.members.contains(&o);
        }
        self.bad(format!("unknown type {on}"));
        false
    }

    fn var(&mut self, name: &str) -> Option<J> {
        let Some(def) = self.op.vars.iter().find(|v| v.name == name) else {
            self.bad(format!("variable ${name} is not declared"));
            return None;
        };
        match self.vars.get(name) {
            Some(v) => Some(v.clone()),
            None => match &def.default {
                Some(d) => Some(plain(d)),
                None => {
                    if def.ty.ends_with('!') {
                        self.bad(format!("required variable ${name} is missing"));
                    }
                    None
                }
            },
        }
    }

    fn skipped(&mut self, dirs: &[crate::gql::Dir]) -> bool {
        for d in dirs {
            let v = match d.args.first() {
                Some((_, Val::Bool(b))) => *b,
                Some((_, Val::Var(n))) => matches!(self.var(n), Some(J::Bool(true))),
                _ => {
                    self.bad(format!("directive @{} without a condition", d.name));
                    false
                }
            };
            match d.name.as_str() {
                "skip" if v => return true,
                "include" if !v => return true,
                "skip" | "include" => {}
                o => self.bad(format!("unknown directive @{o}")),
            }
        }
        false
    }

    fn collect<'s>(&mut self, n: &Node, sels: &'s [Sel], out: &mut Vec<(String, Vec<&'s Sel>)>)
    where
        'a: 's,
    {
        for sel in sels {
            match sel {
                Sel::Field { alias, name, dirs, .. } => {
                    if self.skipped(dirs) {
                        continue;
                    }
                    let key = alias.as_ref().unwrap_or(name);
                    match out.iter_mut().find(|(k, _)| k == key) {
                        Some((_, v)) => v.push(sel),
                        None => out.push((key.clone(), vec![sel])),
                    }
                }
                Sel::Inline { on, dirs, sub } => {
                    if self.skipped(dirs) {
                        continue;
                    }
                    if on.as_ref().is_none_or(|on| self.matches(n, on)) {
                        self.collect(n, sub, out);
                    }
                }
                Sel::Spread { name, dirs } => {
                    if self.skipped(dirs) {
                        continue;
                    }
                    let op = self.op;
                    let Some((on, sub)) = op.frags.get(name) else {
                        self.bad(format!("unknown fragment {name}"));
                        continue;
                    };
                    if self.matches(n, on) {
                        self.collect(n, sub, out);
                    }
                }
            }
        }
    }

    fn object(&mut self, n: &Node, sels: &[&'a [Sel]], path: &mut Vec<Seg>) -> Result<J, Up> {
        let mut groups: Vec<(String, Vec<&'a Sel>)> = Vec::new();
        for s in sels {
            self.collect(n, s, &mut groups);
        }
        let mut out = Vec::new();
        let mut up = false;
        for (key, fields) in groups {
            let (name, args) = match fields[0] {
                Sel::Field { name, args, .. } => (name, args),
                _ => unreachable!(),
            };
            for f in &fields[1..] {
                if let Sel::Field { name: n2, args: a2, .. } = f {
                    if n2 != name || a2 != args {
                        self.bad(format!("response key {key} stands for different fields"));
                    }
                }
            }
            let subs: Vec<&'a [Sel]> = fields
                .iter()
                .map(|f| match f {
                    Sel::Field { sub, .. } => sub.as_slice(),
                    _ => unreachable!(),
                })
                .filter(|s| !s.is_empty())
                .collect();
            path.push(Seg::Key(key.clone()));
            let r = if name == "__typename" {
                Ok(J::s(self.type_name(n)))
            } else if name == "_entities" && n.obj.is_none() && self.sub.is_some() {
                self.entities(args, &subs, path)
            } else {
                self.one(n, name, args, &subs, path)
            };
            path.pop();
            match r {
                Ok(v) => out.push((key, v)),
                Err(Up) => up = true,
            }
            // Fields of a mutation run one after another, the others may be cancelled; keep going for the
            // errors' sake, as servers do.
        }
        if up { Err(Up) } else { Ok(J::Obj(out)) }
    }

    fn entities(&mut self, args: &[(String, Val)], subs: &[&'a [Sel]], path: &mut Vec<Seg>) -> Result<J, Up> {
        let reps = match args.first() {
            Some((n, Val::Var(v))) if n == "representations" => self.var(v).unwrap_or(J::Null),
            Some((n, v)) if n == "representations" => plain(v),
            _ => J::Null,
        };
        let J::Arr(reps) = reps else {
            self.bad("no representations".into());
            return Ok(J::Null);
        };
        let s = self.sub.unwrap();
        let m = self.m;
        let mut out = Vec::new();
        for (i, rep) in reps.into_iter().enumerate() {
            path.push(Seg::Index(i));
            let node = (|| {
                let t = rep.get("__typename")?.str()?;
                let o = m.objs.iter().position(|x| x.entity && x.name == t)?;
                let at = m.objs[o].at(s)?;
                if !m.objs[o].resolvable[at] {
                    return None;
                }
                let (by_id, by_sku) = m.objs[o].keys[at];
                let id = match (rep.get("id"), rep.get("sku")) {
                    (Some(J::Str(id)), _) if by_id => m.parse_id(o, id)?,
                    (_, Some(J::Str(sku))) if by_sku => m.parse_id(o, sku.strip_prefix("k-")?)?,
                    _ => return None,
                };
                Some(Node { obj: Some(o), id, rep: Some(rep.clone()) })
            })();
            let v = match node {
                None => {
                    self.bad(format!("bad representation {}", rep.text()));
                    J::Null
                }
                Some(_) if self.entities_null.contains(&i) => J::Null,
                Some(n) => self.object(&n, subs, path).unwrap_or(J::Null),
            };
            path.pop();
            out.push(v);
        }
        Ok(J::Arr(out))
    }

    fn one(&mut self, n: &Node, name: &str, args: &[(String, Val)], subs: &[&'a [Sel]], path: &mut Vec<Seg>) -> Result<J, Up> {
        let Some(f) = self.field(n, name) else { return Ok(J::Null) };
        if let Some(notes) = &mut self.notes {
            notes.insert(path_text(path), f);
        }
        let args = self.coerce_args(f, args);
        let text = J::Obj(args.clone()).text();
        let mut h = mix(self.m.seed ^ hash_str(7, self.type_name(n)) ^ n.id.wrapping_mul(0x9e37_79b9));
        h = hash_str(h, &f.name);
        h = hash_str(h, &text) ^ self.db.salt;
        if n.obj.is_none() && self.op.kind == Kind::Mutation {
            self.db.log.push(format!("{}{text}", f.name));
            self.db.seq += 1;
        }
        if let Some(x) = &f.requires {
            let v = match self.sub {
                None => self.required(n, x),
                Some(_) => match n.rep.as_ref().and_then(|r| r.get(x)) {
                    Some(v) => v.clone(),
                    None => {
                        self.bad(format!("{}.{name} needs {x}, which the representation lacks", self.type_name(n)));
                        J::Null
                    }
                },
            };
            h = hash_str(h, &v.text());
        }
        if f.sick > 0 && mix(h ^ 0xbad) % 1000 < f.sick {
            self.errors.push(GErr { path: path.clone(), message: format!("sick {name}") });
            return if f.ty.nn() { Err(Up) } else { Ok(J::Null) };
        }
        if f.key {
            let o = n.obj.unwrap();
            let id = self.m.id_text(o, n.id);
            return Ok(J::s(if f.name == "sku" { format!("k-{id}") } else { id }));
        }
        if f.lookup {
            let Base::Obj(o) = f.ty.base() else { unreachable!() };
            let id = args.iter().find(|a| a.0 == "id").and_then(|a| a.1.str().map(str::to_string)).unwrap_or_default();
            return match self.m.parse_id(o, &id) {
                Some(id) => match self.named(f.ty.base(), h, Some(id), subs, path) {
                    Err(Up) if !f.ty.nn() => Ok(J::Null),
                    r => r,
                },
                None => Ok(J::Null),
            };
        }
        if n.obj.is_none() && self.op.kind == Kind::Mutation && f.ty.base() == Base::Int {
            return Ok(J::Int(self.db.seq));
        }
        self.value(&f.ty, h, subs, path)
    }

    /// The value of a required sibling, as its owner would serve it.
    fn required(&mut self, n: &Node, x: &str) -> J {
        let f = self.field(n, x).unwrap();
        let mut h = mix(self.m.seed ^ hash_str(7, self.type_name(n)) ^ n.id.wrapping_mul(0x9e37_79b9));
        h = hash_str(h, &f.name);
        h = hash_str(h, "{}") ^ self.db.salt;
        self.value(&f.ty, h, &[], &mut vec![]).unwrap_or(J::Null)
    }

    fn value(&mut self, t: &Ty, h: u64, subs: &[&'a [Sel]], path: &mut Vec<Seg>) -> Result<J, Up> {
        let h = mix(h);
        if !t.nn() && h % 8 == 0 {
            return Ok(J::Null);
        }
        match t {
            Ty::List(inner, nn) => {
                let mut out = Vec::new();
                for i in 0..(h >> 8) % 4 {
                    path.push(Seg::Index(i as usize));
                    let v = self.value(inner, h.wrapping_add(i * 0x1234_5678_9abc), subs, path);
                    path.pop();
                    match v {
                        Ok(v) => out.push(v),
                        Err(Up) if *nn => return Err(Up),
                        Err(Up) => return Ok(J::Null),
                    }
                }
                Ok(J::Arr(out))
            }
            Ty::Named(b, nn) => match self.named(*b, h, None, subs, path) {
                Err(Up) if !*nn => Ok(J::Null),
                r => r,
            },
        }
    }

    fn named(&mut self, b: Base, h: u64, id: Option<u64>, subs: &[&'a [Sel]], path: &mut Vec<Seg>) -> Result<J, Up> {
        let v = mix(h ^ 77);
        let obj = match b {
            Base::Obj(o) => Some(o),
            Base::Iface(i) => {
                let c = &self.m.ifaces[i].members;
                Some(c[v as usize % c.len()])
            }
            Base::Union(u) => {
                let c = &self.m.unions[u].members;
                Some(c[v as usize % c.len()])
            }
            _ => None,
        };
        if let Some(o) = obj {
            if subs.is_empty() {
                self.bad(format!("no selection on {}", self.m.base_name(b)));
            }
            let id = id.unwrap_or(if self.m.objs[o].entity { mix(v) % IDS } else { v });
            let n = Node { obj: Some(o), id, rep: None };
            return self.object(&n, subs, path);
        }
        if !subs.is_empty() {
            self.bad(format!("selection on {}", self.m.base_name(b)));
        }
        Ok(match b {
            Base::Int => J::Int((v % 2001) as i64 - 1000),
            Base::Float => J::Float(((v % 8001) as f64 - 4000.0) / 8.0),
            Base::Str => J::Str(self.m.str(v)),
            Base::Bool => J::Bool(v % 2 == 0),
            Base::Id => J::Str(format!("id{}", v % 1000)),
            Base::Enum => J::s(ENUM[v as usize % 3]),
            Base::Json => self.m.json(v),
            _ => unreachable!(),
        })
    }

    fn coerce_args(&mut self, f: &Field, given: &[(String, Val)]) -> Vec<(String, J)> {
        for (n, _) in given {
            if !f.args.iter().any(|a| a.name == *n) {
                self.bad(format!("unknown argument {}.{n}", f.name));
            }
        }
        let mut out = Vec::new();
        for Arg { name, ty, default } in &f.args {
            let v = match given.iter().find(|(n, _)| n == name) {
                Some((_, Val::Var(v))) => self.var(v),
                Some((_, v)) => self.resolve(v),
                None => None,
            };
            let v = match v {
                Some(v) => Some(v),
                None => default.as_ref().map(plain),
            };
            match v {
                Some(v) => {
                    let v = self.coerce(ty, v, &f.name);
                    out.push((name.clone(), v));
                }
                None if nn(ty) => self.bad(format!("argument {}.{name} is missing", f.name)),
                None => {}
            }
        }
        out
    }

    /// Literal with variables inside.
    fn resolve(&mut self, v: &Val) -> Option<J> {
        Some(match v {
            Val::Var(n) => return self.var(n),
            Val::List(l) => J::Arr(l.iter().map(|x| self.resolve(x).unwrap_or(J::Null)).collect()),
            Val::Obj(o) => J::Obj(o.iter().filter_map(|(k, x)| self.resolve(x).map(|x| (k.clone(), x))).collect()),
            o => plain(o),
        })
    }

    fn coerce(&mut self, t: &InTy, v: J, at: &str) -> J {
        if v.is_null() {
            if nn(t) {
                self.bad(format!("null for a non-null argument of {at}"));
            }
            return J::Null;
        }
        match (t, v) {
            (InTy::Int(_), v @ J::Int(_)) | (InTy::Bool(_), v @ J::Bool(_)) => v,
            (InTy::Str(_) | InTy::Id(_), v @ J::Str(_)) => v,
            (InTy::Enum(_), J::Str(s)) if ENUM.contains(&s.as_str()) => J::Str(s),
            (InTy::List(i, _), J::Arr(a)) => J::Arr(a.into_iter().map(|x| self.coerce(i, x, at)).collect()),
            (InTy::List(i, _), v) => J::Arr(vec![self.coerce(i, v, at)]),
            (InTy::Input(_), J::Obj(o)) => {
                // input In { a: Int!, b: String = "dé", c: [In!], e: Color }
                for (k, _) in &o {
                    if !["a", "b", "c", "e"].contains(&k.as_str()) {
                        self.bad(format!("unknown input field {k}"));
                    }
                }
                let get = |k: &str| o.iter().find(|x| x.0 == k).map(|x| x.1.clone());
                let mut r = Vec::new();
                match get("a") {
                    Some(v) => r.push(("a".to_string(), self.coerce(&InTy::Int(true), v, at))),
                    None => self.bad("input field a is missing".into()),
                }
                let b = get("b").unwrap_or(J::s("dé"));
                r.push(("b".into(), self.coerce(&InTy::Str(false), b, at)));
                if let Some(c) = get("c") {
                    let t = InTy::List(Box::new(InTy::Input(true)), false);
                    r.push(("c".into(), self.coerce(&t, c, at)));
                }
                if let Some(e) = get("e") {
                    r.push(("e".into(), self.coerce(&InTy::Enum(false), e, at)));
                }
                J::Obj(r)
            }
            (t, v) => {
                self.bad(format!("{} is no {} in an argument of {at}", v.text(), Model::in_text(t)));
                J::Null
            }
        }
    }
}

pub fn nn(t: &InTy) -> bool {
    match t {
        InTy::Int(n) | InTy::Str(n) | InTy::Bool(n) | InTy::Id(n) | InTy::Enum(n) | InTy::Input(n) | InTy::List(_, n) => *n,
    }
}

/// A literal without variables.
pub fn plain(v: &Val) -> J {
    match v {
        Val::Var(_) | Val::Null => J::Null,
        Val::Bool(b) => J::Bool(*b),
        Val::Int(i) => J::Int(*i),
        Val::Float(f) => J::Float(*f),
        Val::Str(s) | Val::Enum(s) => J::Str(s.clone()),
        Val::List(l) => J::Arr(l.iter().map(plain).collect()),
        Val::Obj(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), plain(v))).collect()),
    }
}
