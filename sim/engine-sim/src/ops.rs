//! Random valid operations over a generated graph.
use crate::gql::{Dir, J, Kind, Op, Sel, Val, VarDef};
use crate::model::{Base, ENUM, Field, InTy, Model};
use simkit::Sim;
use std::collections::BTreeMap;

#[derive(Clone, Copy)]
enum Scope {
    Root,
    Obj(usize),
    Iface(usize),
    Union(usize),
}

pub struct OpGen<'a> {
    sim: &'a Sim,
    m: &'a Model,
    kind: Kind,
    vars: Vec<VarDef>,
    values: Vec<(String, J)>,
    frags: BTreeMap<String, (String, Vec<Sel>)>,
    aliases: u32,
    /// Inside something conditional: response keys are unique (see the scenario `conditional twin`).
    unique: u32,
    private: Vec<String>,
    /// Fields with a selection already used under their own name (see the scenario `twins`).
    plain: std::collections::BTreeSet<String>,
    budget: u32,
    /// What the object being selected from can be: selections that never apply are not generated, the
    /// gateway leaves out a field whose whole selection can't apply (see the scenario `void selection`).
    possible: Vec<usize>,
    /// Directly inside a type condition.
    nested: bool,
}

/// An operation, and the variables to send with it.
pub fn generate(sim: &Sim, m: &Model, kind: Kind, name: Option<String>) -> (Op, J) {
    let mut g = OpGen { sim, m, kind, vars: vec![], values: vec![], frags: BTreeMap::new(), aliases: 0, unique: 0, private: vec![], plain: Default::default(), budget: 40, possible: vec![], nested: false };
    let depth = sim.range(1, 4) as u32;
    let sel = g.selection(Scope::Root, depth);
    (Op { kind, name, vars: g.vars, sel, frags: g.frags }, J::Obj(g.values))
}

fn contains_composite(sel: &[Sel]) -> bool {
    sel.iter().any(|s| match s {
        Sel::Field { sub, .. } => !sub.is_empty(),
        Sel::Inline { sub, .. } => contains_composite(sub),
        Sel::Spread { .. } => true,
    })
}

fn contains_guard(sel: &[Sel]) -> bool {
    sel.iter().any(|s| match s {
        Sel::Field { dirs, sub, .. } | Sel::Inline { dirs, sub, .. } => !dirs.is_empty() || contains_guard(sub),
        Sel::Spread { .. } => true,
    })
}

impl<'a> OpGen<'a> {
    fn fields(&self, s: Scope) -> &'a [Field] {
        match s {
            Scope::Root => match self.kind {
                Kind::Query => &self.m.query,
                Kind::Mutation => &self.m.mutation,
                Kind::Subscription => &self.m.subscription,
            },
            Scope::Obj(o) => &self.m.objs[o].fields,
            Scope::Iface(i) => &self.m.ifaces[i].fields,
            Scope::Union(_) => &[],
        }
    }

    fn scope(b: Base) -> Option<Scope> {
        match b {
            Base::Obj(o) => Some(Scope::Obj(o)),
            Base::Iface(i) => Some(Scope::Iface(i)),
            Base::Union(u) => Some(Scope::Union(u)),
            _ => None,
        }
    }

    fn members(&self, s: Scope) -> Vec<usize> {
        match s {
            Scope::Root => vec![],
            Scope::Obj(o) => vec![o],
            Scope::Iface(i) => self.m.ifaces[i].members.clone(),
            Scope::Union(u) => self.m.unions[u].members.clone(),
        }
    }

    fn within(&mut self, s: Scope, field: bool, depth: u32) -> Vec<Sel> {
        let mut inner = self.members(s);
        if !field {
            inner.retain(|o| self.possible.contains(o));
        }
        let outer = std::mem::replace(&mut self.possible, inner);
        let nested = std::mem::replace(&mut self.nested, !field);
        let r = self.selection(s, depth);
        self.nested = nested;
        self.possible = outer;
        r
    }

    /// Type conditions that can apply inside a scope.
    fn conditions(&self, s: Scope) -> Vec<(String, Scope)> {
        let m = self.m;
        let mut members = self.members(s);
        if !m.gen_cfg.void {
            members.retain(|o| self.possible.contains(o));
        }
        let mut out: Vec<(String, Scope)> = members.iter().map(|o| (m.objs[*o].name.clone(), Scope::Obj(*o))).collect();
        // Nested conditions on interfaces can be widened; that shows when what is asked too much fails (see the
        // case `nested type conditions widened`).
        if self.nested && m.gen_cfg.sick {
            return out;
        }
        for (i, x) in m.ifaces.iter().enumerate() {
            // The planner refuses a condition on an interface that the subgraph it asks does not declare for
            // the object (see the scenario `interface elsewhere`).
            let declared = |o: &usize| m.objs[*o].subs.iter().all(|s| x.subs.contains(s));
            let common: Vec<usize> = members.iter().filter(|o| x.members.contains(o)).copied().collect();
            let own = matches!(s, Scope::Iface(k) if k == i);
            if !common.is_empty() && (own || m.gen_cfg.loose_ifaces || common.iter().all(declared)) {
                out.push((x.name.clone(), Scope::Iface(i)));
            }
        }
        out
    }

    fn selection(&mut self, s: Scope, depth: u32) -> Vec<Sel> {
        let sim = self.sim;
        let single = matches!(s, Scope::Root) && self.kind == Kind::Subscription;
        let n = if single { 1 } else { sim.range(1, 4) };
        let mut out = Vec::new();
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            let conds = self.conditions(s);
            let c = if single { 0 } else { sim.choose(20) };
            match c {
                16 if !matches!(s, Scope::Root) || self.kind == Kind::Query => out.push(self.typename()),
                17 | 18 if !conds.is_empty() && depth > 0 => {
                    let (on, inner) = sim.pick(&conds).clone();
                    let dirs = self.dirs();
                    let sub = self.guarded(&dirs, |g| g.within(inner, false, depth - 1));
                    out.push(Sel::Inline { on: Some(on), dirs, sub });
                }
                19 if !conds.is_empty() && depth > 0 => {
                    let dirs = self.dirs();
                    let known: Vec<String> =
                        self.frags.iter().filter(|(n, (on, sel))| !sel.is_empty() && sel.iter().all(|s| matches!(s, Sel::Field { .. })) && !self.private.contains(n) && conds.iter().any(|c| c.0 == *on)).map(|(n, _)| n.clone()).collect();
                    let name = if !known.is_empty() && dirs.is_empty() && self.unique == 0 && sim.chance(500) {
                        sim.pick(&known).clone()
                    } else {
                        let (on, inner) = sim.pick(&conds).clone();
                        let name = format!("F{}", self.frags.len());
                        self.frags.insert(name.clone(), (on.clone(), vec![]));
                        let sub = self.guarded(&dirs, |g| g.within(inner, false, depth - 1));
                        if self.unique > 0 || !dirs.is_empty() || contains_guard(&sub) || !self.m.gen_cfg.twins && contains_composite(&sub) {
                            self.private.push(name.clone());
                        }
                        self.frags.insert(name.clone(), (on, sub));
                        name
                    };
                    out.push(Sel::Spread { name, dirs });
                }
                _ if matches!(s, Scope::Union(_)) => {
                    if depth == 0 {
                        out.push(self.typename());
                    } else {
                        let (on, inner) = sim.pick(&conds).clone();
                        let sub = self.within(inner, false, depth - 1);
                        out.push(Sel::Inline { on: Some(on), dirs: vec![], sub });
                    }
                }
                _ => {
                    let cands: Vec<&'a Field> = self
                        .fields(s)
                        .iter()
                        .filter(|f| !f.inaccessible && (depth > 0 || Self::scope(f.ty.base()).is_none()))
                        .collect();
                    if cands.is_empty() {
                        out.push(self.typename());
                        continue;
                    }
                    let f = *sim.pick(&cands);
                    let x = self.field(f, depth);
                    out.push(x);
                }
            }
        }
        if out.is_empty() {
            out.push(self.typename());
        }
        out
    }

    fn guarded<T>(&mut self, dirs: &[Dir], f: impl FnOnce(&mut Self) -> T) -> T {
        self.unique += !dirs.is_empty() as u32;
        let r = f(self);
        self.unique -= !dirs.is_empty() as u32;
        r
    }

    fn alias(&mut self) -> String {
        self.aliases += 1;
        format!("x{}", self.aliases)
    }

    fn typename(&mut self) -> Sel {
        let alias = (self.unique > 0).then(|| self.alias());
        Sel::Field { alias, name: "__typename".into(), args: vec![], dirs: vec![], sub: vec![] }
    }

    fn dirs(&mut self) -> Vec<Dir> {
        let sim = self.sim;
        if self.kind == Kind::Subscription || !sim.chance(80) {
            return vec![];
        }
        let name = sim.pick(&["include", "skip"]).to_string();
        let b = sim.chance(500);
        let v = if sim.chance(500) { Val::Bool(b) } else { self.variable("Boolean!".into(), Some(J::Bool(b)), None) };
        vec![Dir { name, args: vec![("if".into(), v)] }]
    }

    fn field(&mut self, f: &Field, depth: u32) -> Sel {
        let sim = self.sim;
        let mut args = Vec::new();
        for a in &f.args {
            let required = crate::exec::nn(&a.ty) && a.default.is_none();
            if f.lookup {
                let Base::Obj(o) = f.ty.base() else { unreachable!() };
                let id = self.m.id_text(o, sim.choose(5) as u64);
                let v = if sim.chance(300) { self.variable("ID!".into(), Some(J::Str(id)), None) } else { Val::Str(id) };
                args.push((a.name.clone(), v));
            } else if required || sim.chance(700) {
                let v = self.value(&a.ty, a.default.is_some(), 2);
                args.push((a.name.clone(), v));
            }
        }
        let dirs = self.dirs();
        let multi =
            matches!(self.kind, Kind::Mutation) || !f.args.is_empty() || self.unique > 0 || !dirs.is_empty() || sim.chance(120);
        let twin = Self::scope(f.ty.base()).is_some() && !multi && !self.plain.insert(f.name.clone());
        let alias = (multi || twin && !self.m.gen_cfg.twins).then(|| self.alias());
        let sub = match Self::scope(f.ty.base()) {
            Some(s) => self.guarded(&dirs, |g| g.within(s, true, depth.saturating_sub(1))),
            None => vec![],
        };
        Sel::Field { alias, name: f.name.clone(), args, dirs, sub }
    }

    fn variable(&mut self, ty: String, v: Option<J>, default: Option<Val>) -> Val {
        let name = format!("v{}", self.vars.len());
        if let Some(v) = v {
            self.values.push((name.clone(), v));
        }
        self.vars.push(VarDef { name: name.clone(), ty, default });
        Val::Var(name)
    }

    fn literal(&mut self, t: &InTy, depth: u32) -> Val {
        let sim = self.sim;
        if !crate::exec::nn(t) && sim.chance(100) {
            return Val::Null;
        }
        match t {
            InTy::Int(_) => Val::Int(*sim.pick(&[0, 1, -5, 2_147_483_647])),
            InTy::Str(_) => Val::Str(sim.pick(&["x", "", "é\"\\\n日"]).to_string()),
            InTy::Bool(_) => Val::Bool(sim.chance(500)),
            InTy::Id(_) => Val::Str(sim.pick(&["i1", "i2"]).to_string()),
            InTy::Enum(_) => Val::Enum(sim.pick(&ENUM).to_string()),
            InTy::List(i, _) => {
                let n = sim.range(0, 3);
                Val::List((0..n).map(|_| self.literal(i, depth)).collect())
            }
            InTy::Input(_) => {
                let mut o = vec![("a".to_string(), Val::Int(sim.choose(5) as i64))];
                if sim.chance(400) {
                    let v = self.literal(&InTy::Str(false), 0);
                    o.push(("b".into(), v));
                }
                if depth > 0 && sim.chance(300) {
                    let v = self.literal(&InTy::List(Box::new(InTy::Input(true)), false), depth - 1);
                    o.push(("c".into(), v));
                }
                if sim.chance(300) {
                    let v = self.literal(&InTy::Enum(false), 0);
                    o.push(("e".into(), v));
                }
                Val::Obj(o)
            }
        }
    }

    fn value(&mut self, t: &InTy, has_default: bool, depth: u32) -> Val {
        let sim = self.sim;
        match sim.choose(6) {
            // A variable in the place of the whole value.
            0 | 1 => {
                let ty = Model::in_text(t);
                let nn = crate::exec::nn(t);
                if !nn && sim.chance(200) {
                    // Not provided, with or without a default.
                    let d = if sim.chance(500) { Some(self.literal(t, depth)) } else { None };
                    return self.variable(ty, None, d);
                }
                let _ = has_default;
                let v = crate::exec::plain(&self.literal(t, depth));
                self.variable(ty, Some(v), None)
            }
            // Variables inside.
            2 => match t {
                InTy::Input(_) => {
                    let a = self.variable("Int!".into(), Some(J::Int(sim.choose(9) as i64)), None);
                    let mut o = vec![("a".to_string(), a)];
                    if sim.chance(500) {
                        let b = if sim.chance(500) { Some(J::s("vb")) } else { None };
                        let b = self.variable("String".into(), b, None);
                        o.push(("b".into(), b));
                    }
                    Val::Obj(o)
                }
                InTy::List(i, _) => {
                    let v = crate::exec::plain(&self.literal(i, depth));
                    let x = self.variable(Model::in_text(i), Some(v), None);
                    let y = self.literal(i, depth);
                    Val::List(vec![x, y])
                }
                t => self.literal(t, depth),
            },
            _ => self.literal(t, depth),
        }
    }
}
