//! Random consistent releases of a set of federated subgraphs.
use crate::sdl::*;
use simkit::Sim;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Sub {
    pub name: String,
    pub url: Option<String>,
    /// Links the federation 2 spec.
    pub v2: bool,
    /// Directives it asks to have composed.
    pub composes: Vec<String>,
    pub links: Vec<Link>,
    /// Applied to the schema itself.
    pub on_schema: Vec<Dir>,
    /// Directives under their federation names, one definition per type, default root names.
    pub doc: Doc,
}

/// A schema other than the federation spec; its directives go by `url|name` in the documents.
#[derive(Clone, Debug)]
pub struct Link {
    pub url: String,
    pub as_: Option<String>,
    /// What one may prefix its directives with.
    pub namespace: Option<String>,
    /// Imports nobody uses.
    pub also: Vec<Val>,
}

pub type Release = Vec<Sub>;

/// url, the namespace it gives, the name of the extension it is
const SCHEMAS: [(&str, Option<&str>, Option<&str>); 14] = [
    ("https://grafbase.com/extensions/rest", Some("rest"), Some("rest")),
    ("https://grafbase.com/extensions/kafka/v1.0.0", Some("kafka"), Some("kafka")),
    ("https://grafbase.com/extensions/snow/0.2.0", None, Some("snow")),
    ("https://extensions.grafbase.com/nats/v2", Some("nats"), Some("nats")),
    ("https://extensions.grafbase.com/Open-Api.x/v1.2", None, Some("Open-Api.x")),
    ("https://grafbase.com/extensions/vault", Some("vault"), Some("vault")),
    ("file:///opt/extensions/oracle/build", Some("oracle"), Some("oracle")),
    ("file:///opt/selection-set-015-1.0.0", None, Some("selection-set-015-1.0.0")),
    ("file:///opt/bubbles", Some("bubbles"), Some("bubbles")),
    ("https://directives.example/audit/v1.0", Some("audit"), None),
    ("https://example.com/schema.graphql", None, None),
    ("http://grafbase.com/extensions/plain", Some("plain"), None),
    ("https://grafbase.com/specs/odd", Some("odd"), None),
    ("https://grafbase.com.example/extensions/far", Some("far"), None),
];

/// Subgraphs link extensions and other schemas, and apply their directives.
pub fn link(sim: &Sim, subs: &mut Release) {
    if !sim.chance(450) {
        return;
    }
    let mut all: Vec<usize> = (0..SCHEMAS.len()).collect();
    sim.shuffle(&mut all);
    all.truncate(sim.range(1, 3) as usize);
    for (nth, i) in all.into_iter().enumerate() {
        let (url, namespace, extension) = SCHEMAS[i];
        let versions = sim.chance(100);
        for x in subs.iter_mut() {
            if !sim.chance(600) {
                continue;
            }
            // Not everyone has to be up to date.
            let url = if versions && sim.chance(500) { url.replace("v1.0.0", "v1.1.0") } else { url.to_string() };
            let as_ = sim.chance(300).then(|| format!("my{}{nth}", ["queue", "Store"][sim.choose(2) as usize]));
            let namespace = as_.clone().or(namespace.map(String::from));
            let mut also = vec![];
            if sim.chance(200) {
                also.push(s("Unused"));
            }
            if sim.chance(200) {
                also.push(Val::Obj(vec![("name".into(), s("@spare")), ("as".into(), s(format!("@spare{nth}")))]));
            }
            x.links.push(Link { url: url.clone(), as_, namespace, also });
            let mut names = vec![];
            for d in directives_of(i) {
                let name = format!("{url}|{d}");
                if extension.is_none() {
                    if x.v2 && sim.chance(500) {
                        x.composes.push(name.clone());
                    }
                }
                names.push(name);
            }
            apply(sim, &names, x);
        }
    }
}

/// The names of a linked schema's directives. Several extensions may use the same ones; what `@composeDirective`
/// names is known by its unqualified name throughout a subgraph.
fn directives_of(i: usize) -> [String; 2] {
    if SCHEMAS[i].2.is_some() { ["markCall".into(), "markPost".into()] } else { [format!("markNote{i}"), format!("markLog{i}")] }
}

pub fn directives_at(url: &str) -> [String; 2] {
    directives_of(SCHEMAS.iter().position(|x| x.0 == url.replace("v1.1.0", "v1.0.0")).unwrap_or(0))
}

fn apply(sim: &Sim, names: &[String], x: &mut Sub) {
    let use_ = |dirs: &mut Vec<Dir>, permille: u32| {
        if sim.chance(permille) {
            for _ in 0..1 + sim.choose(2) {
                let mut d = Dir::new(&names[sim.choose(names.len() as u32) as usize], &[]);
                for n in ["topic", "by"] {
                    let v = match sim.choose(8) {
                        0 => s(sim.pick(&["x", "y \"q\"", "{ not } a $field", ""])),
                        1 => Val::List(vec![Val::Int(1), Val::Enum("GET".into())]),
                        2 => Val::Obj(vec![("p".into(), Val::Float(0.5)), ("q".into(), Val::List(vec![])), ("r".into(), Val::Obj(vec![]))]),
                        3 => Val::Bool(sim.chance(500)),
                        4 => Val::Null,
                        5 => Val::Int(-7),
                        _ => continue,
                    };
                    d.args.push((n.into(), v));
                }
                if !dirs.contains(&d) {
                    dirs.push(d);
                }
            }
        }
    };
    use_(&mut x.on_schema, 250);
    for d in &mut x.doc.defs {
        use_(&mut d.dirs, 150);
        for v in &mut d.values {
            use_(&mut v.dirs, 80);
        }
        for f in &mut d.fields {
            if has(&f.dirs, "external") {
                continue;
            }
            use_(&mut f.dirs, 100);
            for a in &mut f.args {
                use_(&mut a.dirs, 60);
            }
        }
    }
}

/// The name by which an extension's url is known if nobody says otherwise.
pub fn extension_name(url: &str) -> Option<String> {
    if let Some((_, _, name)) = SCHEMAS.iter().find(|x| x.0 == url.replace("v1.1.0", "v1.0.0")) {
        return name.map(String::from);
    }
    url.starts_with("file:").then(|| url.rsplit_once('/').unwrap().1.to_string())
}

/// url → the name its extension has in the federated graph.
pub fn extensions(subs: &[Sub]) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    for l in subs.iter().flat_map(|x| &x.links) {
        if let Some(n) = extension_name(&l.url) {
            let n = l.as_.clone().unwrap_or(n);
            out.insert(l.url.clone(), n.replace(['-', '.'], "_").to_uppercase());
        }
    }
    out
}

const BUILTIN: [&str; 5] = ["String", "Int", "ID", "Boolean", "Float"];

struct Ty0 {
    name: String,
    kind: Kind,
    avail: Vec<bool>,
}

struct Gen<'a> {
    sim: &'a Sim,
    subs: Release,
    types: Vec<Ty0>,
    n: usize,
    /// Enum positions: enums with an odd index are for input only, the others for output only, those divisible
    /// by three for both.
    uid: usize,
}

pub fn release(sim: &Sim) -> Release {
    let n = 1 + sim.choose(4) as usize;
    let mut subs = vec![];
    for i in 0..n {
        let v2 = !sim.chance(120);
        let name = match sim.choose(3) {
            0 => format!("sub{i}"),
            1 => format!("{}-svc", ["accounts", "inventory", "Pricing", "reviews"][i]),
            _ => format!("{}", ["alpha", "beta", "gamma", "deltaX"][i]),
        };
        let url = (!v2 || !sim.chance(100)).then(|| format!("http://{}.test/graphql", name.to_lowercase()));
        subs.push(Sub { name, url, v2, composes: vec![], links: vec![], on_schema: vec![], doc: Doc::default() });
    }
    let mut g = Gen { sim, subs, types: vec![], n, uid: 0 };
    g.plan();
    g.scalars();
    g.enums();
    g.inputs();
    g.interfaces();
    g.objects();
    g.implementing();
    g.unions();
    g.roots();
    g.entity_interface();
    g.external();
    g.sharing();
    g.overriding();
    g.whole_type_shareable();
    for s in 0..g.n {
        if g.subs[s].doc.defs.is_empty() {
            g.put(s, Def::new(Kind::Scalar, &format!("Lone{s}")));
        }
    }
    g.enum_values();
    g.decorate();
    g.hide();
    g.custom();
    g.subs
}

fn all(mask: &[bool], of: &[bool]) -> bool {
    mask.iter().zip(of).all(|(a, o)| !o || *a)
}

impl Gen<'_> {
    fn mask(&self, permille: u32) -> Vec<bool> {
        let mut m: Vec<bool> = (0..self.n).map(|_| self.sim.chance(permille)).collect();
        if !m.iter().any(|x| *x) {
            let i = self.sim.choose(self.n as u32) as usize;
            m[i] = true;
        }
        m
    }

    fn within(&self, of: &[bool], permille: u32) -> Vec<bool> {
        let mut m: Vec<bool> = of.iter().map(|o| *o && self.sim.chance(permille)).collect();
        if !m.iter().any(|x| *x) {
            let cands: Vec<usize> = (0..self.n).filter(|i| of[*i]).collect();
            m[*self.sim.pick(&cands)] = true;
        }
        m
    }

    fn plan(&mut self) {
        let add = |g: &mut Self, kind, prefix: &str, max: u32, permille| {
            for i in 0..g.sim.choose(max + 1) {
                let avail = g.mask(permille);
                g.types.push(Ty0 { name: format!("{prefix}{i}"), kind, avail });
            }
        };
        add(self, Kind::Scalar, "Scal", 1, 600);
        add(self, Kind::Enum, "En", 3, 600);
        add(self, Kind::Input, "In", 2, 600);
        add(self, Kind::Interface, "Face", 2, 500);
        add(self, Kind::Object, "Obj", 4, 550);
        add(self, Kind::Union, "Uni", 1, 600);
    }

    fn names(&self, kind: Kind) -> Vec<(String, Vec<bool>)> {
        self.types.iter().filter(|t| t.kind == kind).map(|t| (t.name.clone(), t.avail.clone())).collect()
    }

    fn put(&mut self, s: usize, d: Def) {
        self.subs[s].doc.defs.push(d);
    }

    fn scalars(&mut self) {
        for (name, avail) in self.names(Kind::Scalar) {
            for s in 0..self.n {
                if avail[s] {
                    self.put(s, Def::new(Kind::Scalar, &name));
                }
            }
        }
    }

    fn enums(&mut self) {
        for (name, avail) in self.names(Kind::Enum) {
            for s in 0..self.n {
                if avail[s] {
                    self.put(s, Def::new(Kind::Enum, &name));
                }
            }
        }
    }

    /// Values are chosen once it is known where each enum is used.
    fn enum_values(&mut self) {
        for (name, avail) in self.names(Kind::Enum) {
            let (input, output) = enum_use(&self.subs, &name);
            let values: Vec<String> = (0..self.sim.range(1, 5)).map(|i| format!("{}_{i}", name.to_uppercase())).collect();
            let shared = self.sim.choose(values.len() as u32) as usize;
            for s in 0..self.n {
                if !avail[s] {
                    continue;
                }
                let mut mine: Vec<EVal> = vec![];
                for (i, v) in values.iter().enumerate() {
                    let must = (input && output) || i == shared;
                    if must || self.sim.chance(600) {
                        mine.push(EVal { name: v.clone(), desc: None, dirs: vec![] });
                    }
                }
                self.sim.shuffle(&mut mine);
                self.subs[s].doc.def_mut(&name).unwrap().values = mine;
            }
        }
    }

    fn wrap(&self, base: &str) -> Ty {
        let mut t = Ty::named(base);
        t.inner = self.sim.chance(400);
        for _ in 0..*self.sim.pick(&[0, 0, 0, 1, 1, 2]) {
            t.lists.push(self.sim.chance(400));
        }
        t
    }

    fn leaf(&self, owners: &[bool], input: bool) -> String {
        let mut pool: Vec<String> = BUILTIN.iter().map(|b| b.to_string()).collect();
        for t in &self.types {
            let i: usize = t.name.trim_start_matches(char::is_alphabetic).parse().unwrap();
            let fits = match t.kind {
                Kind::Scalar => true,
                Kind::Enum => i == 2 || (i == 1) == input,
                _ => false,
            };
            if fits && all(&t.avail, owners) {
                pool.push(t.name.clone());
                pool.push(t.name.clone());
            }
        }
        self.sim.pick(&pool).clone()
    }

    fn output(&self, owners: &[bool]) -> Ty {
        let comp: Vec<&Ty0> = self.types.iter().filter(|t| matches!(t.kind, Kind::Object | Kind::Interface | Kind::Union) && all(&t.avail, owners)).collect();
        let base = if !comp.is_empty() && self.sim.chance(400) { self.sim.pick(&comp).name.clone() } else { self.leaf(owners, false) };
        self.wrap(&base)
    }

    fn input_ty(&self, owners: &[bool]) -> Ty {
        let comp: Vec<&Ty0> = self.types.iter().filter(|t| t.kind == Kind::Input && all(&t.avail, owners)).collect();
        let base = if !comp.is_empty() && self.sim.chance(250) { self.sim.pick(&comp).name.clone() } else { self.leaf(owners, true) };
        self.wrap(&base)
    }

    fn default_for(&mut self, t: &Ty) -> Option<Val> {
        let one = match t.base.as_str() {
            "String" => s(self.sim.pick(&["", "plain", "with \"quotes\"", "back\\slash", "line\nbreak", "ünïcode ✓", "tab\there", "{ not } a (field)", "\u{7f}"])),
            "ID" => s("id-1"),
            "Int" => Val::Int(*self.sim.pick(&[0, -1, 42, 2147483647, -2147483648])),
            "Float" => Val::Float(*self.sim.pick(&[0.5, -1.25, 1e20, 3.0])),
            "Boolean" => Val::Bool(self.sim.chance(500)),
            _ => return None,
        };
        if !t.outer() && self.sim.chance(100) {
            return Some(Val::Null);
        }
        let mut v = one;
        for _ in &t.lists {
            v = match self.sim.choose(3) {
                0 => Val::List(vec![]),
                1 => Val::List(vec![v]),
                _ => Val::List(vec![v.clone(), v]),
            };
        }
        Some(v)
    }

    /// The same argument or field type, with an outermost nullability per subgraph.
    fn vary(&self, t: &Ty) -> Ty {
        let mut t = t.clone();
        if self.sim.chance(150) {
            t.set_outer(self.sim.chance(500));
        }
        t
    }

    fn inputs(&mut self) {
        for (name, avail) in self.names(Kind::Input) {
            let one_of = self.sim.chance(120);
            let mut defs: Vec<Def> = (0..self.n).map(|_| Def::new(Kind::Input, &name)).collect();
            for i in 0..self.sim.range(1, 4) {
                // The first is everywhere, so that something is left.
                let own = if i == 0 { avail.clone() } else { self.within(&avail, 750) };
                // A type of input that hasn't been planned before this one might refer back; only leaves and
                // nullable inputs here.
                let mut ty = self.input_ty(&own);
                if self.types.iter().any(|t| t.name == ty.base && t.kind == Kind::Input) {
                    ty = Ty::named(&ty.base);
                }
                let everywhere = own == avail;
                let default = if self.sim.chance(250) && !one_of { self.default_for(&ty) } else { None };
                for s in 0..self.n {
                    if own[s] {
                        let mut f = Fld::new(&format!("in{i}"), self.vary(&ty));
                        if !everywhere || one_of {
                            f.ty.set_outer(false);
                        }
                        f.default = default.clone();
                        if f.default == Some(Val::Null) && f.ty.outer() {
                            f.default = None;
                        }
                        defs[s].fields.push(f);
                    }
                }
            }
            for (s, mut d) in defs.into_iter().enumerate() {
                if avail[s] {
                    if one_of {
                        d.dirs.push(Dir::new("oneOf", &[]));
                    }
                    self.put(s, d);
                }
            }
        }
    }

    /// A field for each owner.
    fn field(&mut self, name: &str, own: &[bool], ty: &Ty, vary: bool) -> Vec<Option<Fld>> {
        let mut out: Vec<Option<Fld>> = own.iter().map(|o| o.then(|| Fld::new(name, if vary { self.vary(ty) } else { ty.clone() }))).collect();
        if self.sim.chance(300) {
            for i in 0..self.sim.range(1, 2) {
                let arg_own = if self.sim.chance(800) { own.to_vec() } else { self.within(own, 500) };
                let everywhere = arg_own == own;
                let aty = self.input_ty(&arg_own);
                let default = if self.sim.chance(300) { self.default_for(&aty) } else { None };
                for s in 0..self.n {
                    if arg_own[s] {
                        let mut a = Fld::new(&format!("arg{i}"), self.vary(&aty));
                        if !everywhere {
                            a.ty.set_outer(false);
                        }
                        if self.sim.chance(700) && !(default == Some(Val::Null) && a.ty.outer()) {
                            a.default = default.clone();
                        }
                        out[s].as_mut().unwrap().args.push(a);
                    }
                }
            }
        }
        out
    }

    fn add_fields(&mut self, ty: &str, fields: Vec<Option<Fld>>) {
        for (sub, f) in self.subs.iter_mut().zip(fields) {
            if let Some(f) = f {
                sub.doc.def_mut(ty).unwrap().fields.push(f);
            }
        }
    }

    fn interfaces(&mut self) {
        for (name, avail) in self.names(Kind::Interface) {
            for s in 0..self.n {
                if avail[s] {
                    self.put(s, Def::new(Kind::Interface, &name));
                }
            }
            for i in 0..self.sim.range(1, 3) {
                let own = if i == 0 { avail.clone() } else { self.within(&avail, 700) };
                let base = self.leaf(&avail, false);
                let ty = self.wrap(&base);
                let f = self.field(&format!("{}_{i}", name.to_lowercase()), &own, &ty, false);
                self.add_fields(&name, f);
            }
        }
    }

    fn objects(&mut self) {
        for (name, avail) in self.names(Kind::Object) {
            for s in 0..self.n {
                if avail[s] {
                    self.put(s, Def::new(Kind::Object, &name));
                }
            }
            let entity = self.sim.chance(550);
            if entity {
                let ty = parse_ty("ID!");
                let f = self.plain("id", &avail, &ty);
                self.add_fields(&name, f);
                let code = self.sim.chance(500).then(|| self.within(&avail, 700));
                if let Some(own) = &code {
                    let ty = parse_ty(self.sim.pick(&["String!", "Int!", "ID"]));
                    let f = self.plain("code", own, &ty);
                    self.add_fields(&name, f);
                }
                let nested = self.sim.chance(250).then(|| self.within(&avail, 700));
                if let Some(own) = &nested {
                    let part = format!("{name}Ref");
                    for s in 0..self.n {
                        if own[s] {
                            let mut d = Def::new(Kind::Object, &part);
                            d.fields.push(Fld::new("zone", parse_ty("String!")));
                            d.fields.push(Fld::new("area", parse_ty("Int!")));
                            if self.sim.chance(500) {
                                d.fields.reverse();
                            }
                            self.put(s, d);
                        }
                    }
                    let f = self.plain("ref", own, &parse_ty(&format!("{part}!")));
                    self.add_fields(&name, f);
                }
                for s in 0..self.n {
                    if !avail[s] {
                        continue;
                    }
                    let mut keys = vec!["id".to_string()];
                    if code.as_ref().is_some_and(|c| c[s]) {
                        keys.push("code".into());
                        keys.push("id code".into());
                    }
                    if nested.as_ref().is_some_and(|c| c[s]) {
                        keys.push(format!("ref {{ {} }}", self.sim.pick(&["zone", "zone area", "area"])));
                        keys.push("id ref { area }".into());
                    }
                    self.sim.shuffle(&mut keys);
                    let count = self.sim.range(1, keys.len().min(3) as u64) as usize;
                    for k in &keys[..count] {
                        let mut d = Dir::new("key", &[("fields", s_(k))]);
                        if self.sim.chance(100) && self.subs[s].v2 {
                            d.args.push(("resolvable".into(), Val::Bool(self.sim.chance(300))));
                        }
                        self.subs[s].doc.def_mut(&name).unwrap().dirs.push(d);
                    }
                }
            }
            let lone: Vec<usize> = (0..self.n).filter(|i| avail[*i]).collect();
            for i in 0..self.sim.range(1, 4) {
                let own = if self.sim.chance(700) {
                    let mut m = vec![false; self.n];
                    m[*self.sim.pick(&lone)] = true;
                    m
                } else {
                    self.within(&avail, 600)
                };
                let ty = self.output(&own);
                let f = self.field(&format!("f{i}"), &own, &ty, true);
                self.add_fields(&name, f);
            }
            for s in 0..self.n {
                if avail[s] && self.subs[s].doc.def(&name).unwrap().fields.is_empty() {
                    self.uid += 1;
                    let f = Fld::new(&format!("own{s}"), parse_ty("String"));
                    self.subs[s].doc.def_mut(&name).unwrap().fields.push(f);
                }
            }
        }
    }

    fn plain(&self, name: &str, own: &[bool], ty: &Ty) -> Vec<Option<Fld>> {
        own.iter().map(|o| o.then(|| Fld::new(name, ty.clone()))).collect()
    }

    fn implementing(&mut self) {
        let faces = self.names(Kind::Interface);
        // An interface may implement another one.
        for i in 1..faces.len() {
            if self.sim.chance(300) {
                for s in 0..self.n {
                    if faces[0].1[s] && faces[i].1[s] {
                        self.implement(&faces[i].0, &faces[0], s);
                    }
                }
            }
        }
        for (obj, avail) in self.names(Kind::Object) {
            for face in &faces {
                if !self.sim.chance(450) {
                    continue;
                }
                for s in 0..self.n {
                    if avail[s] && face.1[s] && self.sim.chance(750) {
                        for above in self.subs[s].doc.def(&face.0).unwrap().implements.clone() {
                            let above = faces.iter().find(|f| f.0 == above).unwrap();
                            self.implement(&obj, above, s);
                        }
                        self.implement(&obj, face, s);
                    }
                }
            }
        }
    }

    fn implement(&mut self, who: &str, face: &(String, Vec<bool>), s: usize) {
        if self.subs[s].doc.def(who).unwrap().implements.contains(&face.0) {
            return;
        }
        // Every field of the merged interface: one declared here or else as declared elsewhere.
        let mut fields: Vec<Fld> = vec![];
        let mut order: Vec<usize> = vec![s];
        order.extend((0..self.n).filter(|i| *i != s));
        for i in order {
            if let Some(d) = self.subs[i].doc.def(&face.0) {
                for f in &d.fields {
                    if !fields.iter().any(|x| x.name == f.name) {
                        let mut f = f.clone();
                        if i != s {
                            // Argument types may not exist here.
                            f.args.clear();
                        }
                        fields.push(f);
                    }
                }
            }
        }
        let args: BTreeMap<String, Vec<Fld>> = self
            .subs
            .iter()
            .filter_map(|x| x.doc.def(who))
            .flat_map(|d| d.fields.iter().map(|f| (f.name.clone(), f.args.clone())))
            .collect();
        let elsewhere: BTreeSet<String> = args.keys().cloned().collect();
        let d = self.subs[s].doc.def_mut(who).unwrap();
        d.implements.push(face.0.clone());
        for f in fields {
            if d.field(&f.name).is_none() {
                d.fields.push(f);
            }
        }
        let _ = elsewhere;
        self.agree_on_args(who);
    }

    /// Arguments added by implementing an interface in one subgraph must not be required where others leave
    /// them out.
    fn agree_on_args(&mut self, who: &str) {
        let mut seen: BTreeMap<(String, String), usize> = BTreeMap::new();
        let mut owners: BTreeMap<String, usize> = BTreeMap::new();
        for d in self.subs.iter().filter_map(|x| x.doc.def(who)) {
            for f in &d.fields {
                *owners.entry(f.name.clone()).or_default() += 1;
                for a in &f.args {
                    *seen.entry((f.name.clone(), a.name.clone())).or_default() += 1;
                }
            }
        }
        for d in self.subs.iter_mut().filter_map(|x| x.doc.def_mut(who)) {
            for f in &mut d.fields {
                let n = owners[&f.name];
                let name = f.name.clone();
                f.args.retain(|a| !a.ty.outer() || seen[&(name.clone(), a.name.clone())] == n);
            }
        }
    }

    fn unions(&mut self) {
        let objs = self.names(Kind::Object);
        for (name, avail) in self.names(Kind::Union) {
            let members: Vec<Vec<String>> = (0..self.n)
                .map(|s| {
                    if !avail[s] {
                        return vec![];
                    }
                    let mut m: Vec<String> = objs.iter().filter(|o| o.1[s]).map(|o| o.0.clone()).collect();
                    self.sim.shuffle(&mut m);
                    m.truncate(self.sim.range(1, 3) as usize);
                    m
                })
                .collect();
            for s in 0..self.n {
                if !avail[s] {
                    continue;
                }
                let mut d = Def::new(Kind::Union, &name);
                d.members = members[s].clone();
                if d.members.is_empty() {
                    let lone = format!("{name}Only{s}");
                    let mut o = Def::new(Kind::Object, &lone);
                    o.fields.push(Fld::new("only", parse_ty("String")));
                    self.put(s, o);
                    d.members.push(lone);
                }
                self.put(s, d);
            }
        }
    }

    fn roots(&mut self) {
        let first = self.sim.choose(self.n as u32) as usize;
        for (root, permille, max) in [("Query", 850, 3), ("Mutation", 300, 2), ("Subscription", 200, 1)] {
            for s in 0..self.n {
                if !(self.sim.chance(permille) || (root == "Query" && s == first)) {
                    continue;
                }
                self.put(s, Def::new(Kind::Object, root));
                for i in 0..self.sim.range(1, max) {
                    let mut own = vec![false; self.n];
                    own[s] = true;
                    let ty = self.output(&own);
                    let f = self.field(&format!("{}{s}x{i}", root.to_lowercase()), &own, &ty, false);
                    self.add_fields(root, f);
                }
                self.subs[s].doc.roots[["Query", "Mutation", "Subscription"].iter().position(|r| *r == root).unwrap()] = Some(root.into());
            }
        }
        // Something every subgraph with a Query answers.
        if self.sim.chance(250) {
            let own: Vec<bool> = self.subs.iter().map(|x| x.doc.def("Query").is_some()).collect();
            let base = self.leaf(&own, false);
            let ty = self.wrap(&base);
            let f = self.field("common", &own, &ty, true);
            self.add_fields("Query", f);
        }
    }

    fn entity_interface(&mut self) {
        if self.n < 2 || !self.sim.chance(120) {
            return;
        }
        let v2: Vec<usize> = (0..self.n).filter(|s| self.subs[*s].v2 && self.subs[*s].url.is_some()).collect();
        if v2.len() < 2 {
            return;
        }
        let home = *self.sim.pick(&v2);
        let key = || Dir::new("key", &[("fields", s_("id"))]);
        let mut face = Def::new(Kind::Interface, "Thing");
        face.dirs.push(key());
        face.fields.push(Fld::new("id", parse_ty("ID!")));
        if self.sim.chance(500) {
            face.fields.push(Fld::new("label", parse_ty("String")));
        }
        let extra = face.fields.clone();
        self.put(home, face);
        for i in 0..self.sim.range(1, 2) {
            let mut o = Def::new(Kind::Object, &format!("Thing{i}"));
            o.dirs.push(key());
            o.implements.push("Thing".into());
            o.fields = extra.clone();
            o.fields.push(Fld::new(&format!("special{i}"), parse_ty("Int")));
            self.put(home, o);
        }
        for s in v2 {
            if s == home || self.sim.chance(300) {
                continue;
            }
            let mut o = Def::new(Kind::Object, "Thing");
            o.dirs.push(key());
            o.dirs.push(Dir::new("interfaceObject", &[]));
            o.fields.push(Fld::new("id", parse_ty("ID!")));
            self.put(s, o);
            let mut own = vec![false; self.n];
            own[s] = true;
            for i in 0..self.sim.range(1, 2) {
                let ty = self.output(&own);
                let f = self.field(&format!("more{s}x{i}"), &own, &ty, false);
                self.add_fields("Thing", f);
            }
        }
    }

    /// `@external` fields with the `@requires` and `@provides` that use them.
    fn external(&mut self) {
        for (name, avail) in self.names(Kind::Object) {
            let keyed = self.subs.iter().any(|x| x.doc.def(&name).is_some_and(|d| has(&d.dirs, "key")));
            for s in 0..self.n {
                if !avail[s] || !keyed || !self.sim.chance(300) {
                    continue;
                }
                // A leaf field another subgraph resolves, without arguments, whose type is known here.
                let mut cands: Vec<Fld> = vec![];
                for o in 0..self.n {
                    if o == s {
                        continue;
                    }
                    if let Some(d) = self.subs[o].doc.def(&name) {
                        for f in &d.fields {
                            let leaf = BUILTIN.contains(&f.ty.base.as_str()) || self.subs[s].doc.def(&f.ty.base).is_some_and(|t| matches!(t.kind, Kind::Scalar | Kind::Enum));
                            let required = self.subs.iter().filter_map(|x| x.doc.def(&name)?.field(&f.name)).any(|f| !f.args.is_empty());
                            if leaf && !required && !has(&f.dirs, "external") && !has(&f.dirs, "requires") && self.subs[s].doc.def(&name).unwrap().field(&f.name).is_none() {
                                cands.push(f.clone());
                            }
                        }
                    }
                }
                if cands.is_empty() {
                    continue;
                }
                let mut ext = self.sim.pick(&cands).clone();
                ext.dirs = vec![Dir::new("external", &[])];
                let ext_name = ext.name.clone();
                self.subs[s].doc.def_mut(&name).unwrap().fields.push(ext);
                if self.sim.chance(700) {
                    let mut own = vec![false; self.n];
                    own[s] = true;
                    let ty = self.output(&own);
                    let mut f = self.field(&format!("derived{s}"), &own, &ty, false);
                    f[s].as_mut().unwrap().dirs.push(Dir::new("requires", &[("fields", s_(&ext_name))]));
                    self.add_fields(&name, f);
                }
                // Whoever returns this type here may provide the field.
                let doc = &mut self.subs[s].doc;
                for d in doc.defs.iter_mut().filter(|d| d.kind == Kind::Object) {
                    for f in d.fields.iter_mut() {
                        if f.ty.base == name && !has(&f.dirs, "external") && self.sim.chance(400) {
                            f.dirs.push(Dir::new("provides", &[("fields", s_(&ext_name))]));
                        }
                    }
                }
            }
        }
    }

    /// Fields more than one federation 2 subgraph resolves are shareable in some of them.
    fn sharing(&mut self) {
        let keyed = own_key_fields(&self.subs);
        for (name, field, subs) in shared_fields(&self.subs) {
            if name == "Subscription" {
                continue;
            }
            let exempt = keyed.iter().any(|(n, f)| *n == name && *f == field);
            let counted: Vec<usize> = subs.iter().copied().filter(|s| self.counts(*s, &name, &field)).collect();
            let must = counted.len() > 1 && !exempt;
            if !must && !self.sim.chance(80) {
                continue;
            }
            let v2: Vec<usize> = subs.iter().copied().filter(|s| self.subs[*s].v2 && !has(&self.subs[*s].doc.def(&name).unwrap().field(&field).unwrap().dirs, "external")).collect();
            if v2.is_empty() || self.subs.iter().any(|x| x.doc.def(&name).is_some_and(|d| d.kind != Kind::Object)) {
                continue;
            }
            let must_one = *self.sim.pick(&v2);
            for s in v2 {
                if s == must_one || self.sim.chance(500) {
                    self.subs[s].doc.def_mut(&name).unwrap().field_mut(&field).unwrap().dirs.push(Dir::new("shareable", &[]));
                }
            }
        }
    }

    fn counts(&self, s: usize, ty: &str, field: &str) -> bool {
        counted(&self.subs[s], ty, field)
    }

    fn overriding(&mut self) {
        let keyed = key_fields(&self.subs);
        for (name, field, subs) in shared_fields(&self.subs) {
            if keyed.iter().any(|(n, f)| *n == name && *f == field) || !self.sim.chance(200) || name == "Subscription" {
                continue;
            }
            let plain: Vec<usize> = subs
                .iter()
                .copied()
                .filter(|s| {
                    let f = self.subs[*s].doc.def(&name).unwrap().field(&field).unwrap();
                    self.subs[*s].v2 && !has(&f.dirs, "external") && !has(&f.dirs, "requires") && !has(&f.dirs, "provides")
                })
                .collect();
            let from: Vec<usize> = subs.iter().copied().filter(|s| !has(&self.subs[*s].doc.def(&name).unwrap().field(&field).unwrap().dirs, "external")).collect();
            if plain.is_empty() || from.is_empty() {
                continue;
            }
            let to = *self.sim.pick(&plain);
            let from = *self.sim.pick(&from);
            let from_name = if from == to { "retired".to_string() } else { self.subs[from].name.clone() };
            let mut d = Dir::new("override", &[("from", s_(&from_name))]);
            if self.sim.chance(300) {
                d.args.push(("label".into(), s_(self.sim.pick(&["percent(0)", "percent(1)", "percent(50)", "percent(99)", "percent(100)", "canary", "percent(101)"]))));
            }
            self.subs[to].doc.def_mut(&name).unwrap().field_mut(&field).unwrap().dirs.push(d);
        }
        // And fields that nobody else has any more.
        for s in 0..self.n {
            if !self.subs[s].v2 || !self.sim.chance(100) {
                continue;
            }
            let lone: Vec<(String, String)> = self.subs[s]
                .doc
                .defs
                .iter()
                .filter(|d| d.kind == Kind::Object && d.name != "Subscription" && d.name != "Thing")
                .flat_map(|d| d.fields.iter().filter(|f| f.dirs.is_empty()).map(|f| (d.name.clone(), f.name.clone())))
                .filter(|(n, f)| self.subs.iter().filter(|x| x.doc.def(n).is_some_and(|d| d.field(f).is_some())).count() == 1)
                .filter(|(n, f)| !keyed.iter().any(|(a, b)| a == n && b == f))
                .collect();
            if !lone.is_empty() {
                let (n, f) = self.sim.pick(&lone).clone();
                self.subs[s].doc.def_mut(&n).unwrap().field_mut(&f).unwrap().dirs.push(Dir::new("override", &[("from", s_("retired"))]));
            }
        }
    }

    fn whole_type_shareable(&mut self) {
        for (name, _) in self.names(Kind::Object) {
            let defs: Vec<usize> = (0..self.n).filter(|s| self.subs[*s].doc.def(&name).is_some()).collect();
            let sets: BTreeSet<BTreeSet<String>> = defs.iter().map(|s| self.subs[*s].doc.def(&name).unwrap().fields.iter().map(|f| f.name.clone()).collect()).collect();
            if sets.len() == 1 && self.sim.chance(300) {
                for s in defs {
                    if self.subs[s].v2 && self.sim.chance(600) {
                        self.subs[s].doc.def_mut(&name).unwrap().dirs.push(Dir::new("shareable", &[]));
                    }
                }
            }
        }
    }

    fn text(&mut self) -> String {
        let t = *self.sim.pick(&[
            "Short.",
            "Says \"hello\"",
            "Two\nlines",
            "A \\ backslash",
            "ünï ✓ code",
            "ends with quote\"",
            "three \"\"\" quotes",
            "percent {braces} and #hash",
            "  padded  ",
            "tab\tin it",
        ]);
        self.uid += 1;
        if self.sim.chance(500) { format!("{} {t}", self.uid) } else { t.to_string() }
    }

    /// Directives of the users' own: `mark` ones are applied, `note` ones defined; a mark that its subgraph doesn't ask
    /// to have composed ends with `~`.
    fn custom(&mut self) {
        if !self.sim.chance(350) {
            return;
        }
        for k in 0..1 + self.sim.choose(2) {
            let name = format!("mark{k}");
            for s in 0..self.n {
                let composed = self.subs[s].v2 && self.sim.chance(700);
                if composed {
                    self.subs[s].composes.push(name.clone());
                }
                let spelled = if composed { name.clone() } else { format!("{name}~") };
                let mut defs = std::mem::take(&mut self.subs[s].doc.defs);
                for d in &mut defs {
                    if matches!(d.kind, Kind::Object | Kind::Interface) && !self.mark(&spelled, &mut d.dirs, 120) {
                        for f in &mut d.fields {
                            if !has(&f.dirs, "external") {
                                self.mark(&spelled, &mut f.dirs, 60);
                            }
                        }
                    }
                    for v in &mut d.values {
                        self.mark(&spelled, &mut v.dirs, 60);
                    }
                }
                self.subs[s].doc.defs = defs;
            }
        }
        for k in 0..self.sim.choose(3) {
            let name = format!("note{k}");
            let mut args = vec![];
            for (i, (ty, default)) in [
                ("Int", Val::Int(-3)),
                ("[String!]", Val::List(vec![Val::Str("a b".into()), Val::Str("c".into())])),
                ("[[Int]]", Val::List(vec![Val::List(vec![Val::Int(1), Val::Int(2)]), Val::Null])),
                ("Boolean!", Val::Bool(true)),
                ("Float", Val::Float(0.5)),
            ]
            .into_iter()
            .enumerate()
            {
                if self.sim.chance(400) {
                    let mut a = Fld::new(&format!("a{i}"), parse_ty(ty));
                    a.default = self.sim.chance(600).then_some(default);
                    args.push(a);
                }
            }
            for s in 0..self.n {
                if !self.sim.chance(600) {
                    continue;
                }
                let mut args = args.clone();
                // Arguments one may leave out needn't be known everywhere.
                args.retain(|a| a.ty.outer() || self.sim.chance(800));
                let mut locations: Vec<String> = vec![];
                for l in ["OBJECT", "FIELD_DEFINITION", "ENUM_VALUE", "SCALAR"] {
                    if self.sim.chance(400) {
                        locations.push(l.into());
                    }
                }
                if locations.is_empty() {
                    locations.push("OBJECT".into());
                }
                self.subs[s].doc.directives.push(DirDef { name: name.clone(), args, locations, ..DirDef::default() });
                if self.subs[s].v2 && self.sim.chance(700) {
                    self.subs[s].composes.push(name.clone());
                }
            }
        }
    }

    fn mark(&mut self, name: &str, dirs: &mut Vec<Dir>, permille: u32) -> bool {
        if !self.sim.chance(permille) {
            return false;
        }
        for _ in 0..1 + self.sim.choose(2) {
            let mut d = Dir::new(name, &[]);
            match self.sim.choose(4) {
                0 => {}
                1 => d.args.push(("by".into(), s_(self.sim.pick(&["x", "y \"q\""])))),
                2 => d.args.push(("by".into(), Val::List(vec![Val::Int(1), Val::Enum("E".into())]))),
                _ => d.args.push(("by".into(), Val::Obj(vec![("p".into(), Val::Float(1.0)), ("q".into(), Val::List(vec![]))]))),
            }
            if !dirs.contains(&d) {
                dirs.push(d);
            }
        }
        true
    }

    fn decorate(&mut self) {
        let all_v2 = self.subs.iter().all(|x| x.v2);
        for s in 0..self.n {
            let v2 = self.subs[s].v2;
            let mut defs = std::mem::take(&mut self.subs[s].doc.defs);
            for d in &mut defs {
                let root = matches!(d.name.as_str(), "Query" | "Mutation" | "Subscription");
                if self.sim.chance(150) && !root {
                    d.desc = Some(self.text());
                }
                if self.sim.chance(80) && v2 {
                    self.tags(&mut d.dirs);
                }
                if self.sim.chance(60) && v2 && matches!(d.kind, Kind::Object | Kind::Interface | Kind::Scalar | Kind::Enum) && !root {
                    self.access(&mut d.dirs);
                }
                if self.sim.chance(50) && matches!(d.kind, Kind::Object | Kind::Scalar | Kind::Enum) {
                    self.cost(&mut d.dirs);
                }
                for v in &mut d.values {
                    if self.sim.chance(120) {
                        v.desc = Some(self.text());
                    }
                    if self.sim.chance(80) {
                        self.deprecate(&mut v.dirs);
                    }
                    if self.sim.chance(50) && v2 {
                        self.tags(&mut v.dirs);
                    }
                }
                let kind = d.kind;
                for f in &mut d.fields {
                    let external = has(&f.dirs, "external");
                    if self.sim.chance(120) {
                        f.desc = Some(self.text());
                    }
                    if external {
                        continue;
                    }
                    if self.sim.chance(80) && v2 {
                        self.tags(&mut f.dirs);
                    }
                    if self.sim.chance(80) && !(kind == Kind::Input && f.ty.outer()) {
                        self.deprecate(&mut f.dirs);
                    }
                    if self.sim.chance(60) {
                        self.cost(&mut f.dirs);
                    }
                    if kind != Kind::Input {
                        if self.sim.chance(60) && v2 {
                            self.access(&mut f.dirs);
                        }
                        for a in &mut f.args {
                            if self.sim.chance(120) {
                                a.desc = Some(self.text());
                            }
                            if self.sim.chance(60) && v2 {
                                self.tags(&mut a.dirs);
                            }
                            if self.sim.chance(60) {
                                self.cost(&mut a.dirs);
                            }
                            if self.sim.chance(60) && !a.ty.outer() {
                                self.deprecate(&mut a.dirs);
                            }
                        }
                        if self.sim.chance(60) && !f.ty.lists.is_empty() && all_v2 {
                            let mut l = Dir::new("listSize", &[]);
                            if self.sim.chance(600) {
                                l.args.push(("assumedSize".into(), Val::Int(self.sim.range(1, 50) as i64)));
                            }
                            let ints: Vec<String> = f.args.iter().filter(|a| a.ty.text().trim_end_matches('!') == "Int").map(|a| a.name.clone()).collect();
                            if !ints.is_empty() && self.sim.chance(700) {
                                l.args.push(("slicingArguments".into(), Val::List(vec![s_(self.sim.pick(&ints))])));
                            }
                            if self.sim.chance(300) {
                                l.args.push(("requireOneSlicingArgument".into(), Val::Bool(self.sim.chance(500))));
                            }
                            f.dirs.push(l);
                        }
                    }
                }
            }
            self.subs[s].doc.defs = defs;
        }
    }

    fn tags(&self, dirs: &mut Vec<Dir>) {
        for _ in 0..self.sim.range(1, 2) {
            let d = Dir::new("tag", &[("name", s_(self.sim.pick(&["red", "green", "blue", "with \"quote\""])))]);
            if !dirs.contains(&d) {
                dirs.push(d);
            }
        }
    }

    fn access(&self, dirs: &mut Vec<Dir>) {
        match self.sim.choose(3) {
            0 => dirs.push(Dir::new("authenticated", &[])),
            n => {
                let lists = (0..self.sim.range(1, 2))
                    .map(|_| Val::List((0..self.sim.range(1, 2)).map(|_| s_(self.sim.pick(&["read", "write", "admin:all"]))).collect()))
                    .collect();
                let (name, arg) = if n == 1 { ("requiresScopes", "scopes") } else { ("policy", "policies") };
                dirs.push(Dir::new(name, &[(arg, Val::List(lists))]));
            }
        }
    }

    fn cost(&self, dirs: &mut Vec<Dir>) {
        dirs.push(Dir::new("cost", &[("weight", Val::Int(*self.sim.pick(&[0, 1, 7, -3, 1000])))]));
    }

    fn deprecate(&mut self, dirs: &mut Vec<Dir>) {
        let mut d = Dir::new("deprecated", &[]);
        if self.sim.chance(700) {
            d.args.push(("reason".into(), s(&self.text())));
        }
        dirs.push(d);
    }

    /// `@inaccessible` elements: everything that would have to show a hidden type is hidden too, and something
    /// stays visible in every type.
    fn hide(&mut self) {
        for _ in 0..self.sim.choose(4) {
            let keep = self.subs.clone();
            if self.hide_one().is_none() || !self.presentable() {
                self.subs = keep;
            }
        }
    }

    fn hide_one(&mut self) -> Option<()> {
        let mark = |dirs: &mut Vec<Dir>| {
            if !has(dirs, "inaccessible") {
                dirs.push(Dir::new("inaccessible", &[]))
            }
        };
        let v2: Vec<usize> = (0..self.n).filter(|s| self.subs[*s].v2).collect();
        if v2.is_empty() {
            return None;
        }
        let s = *self.sim.pick(&v2);
        let defs: Vec<usize> = (0..self.subs[s].doc.defs.len()).collect();
        let di = *self.sim.pick(&defs);
        let d = &self.subs[s].doc.defs[di];
        let root = matches!(d.name.as_str(), "Query" | "Mutation" | "Subscription");
        if !d.values.is_empty() && self.sim.chance(600) {
            let i = self.sim.choose(d.values.len() as u32) as usize;
            mark(&mut self.subs[s].doc.defs[di].values[i].dirs);
            return Some(());
        }
        if !d.fields.is_empty() && (root || self.sim.chance(600)) {
            let i = self.sim.choose(d.fields.len() as u32) as usize;
            let args = d.fields[i].args.len();
            let kind = d.kind;
            let f = &mut self.subs[s].doc.defs[di].fields[i];
            if args > 0 && self.sim.chance(500) {
                let a = self.sim.choose(args as u32) as usize;
                if f.args[a].ty.outer() {
                    return None;
                }
                mark(&mut f.args[a].dirs);
            } else {
                if kind == Kind::Input && f.ty.outer() {
                    return None;
                }
                mark(&mut f.dirs);
            }
            return Some(());
        }
        if root || d.name.starts_with("Thing") {
            return None;
        }
        let name = d.name.clone();
        mark(&mut self.subs[s].doc.defs[di].dirs);
        for x in &mut self.subs {
            for d in &mut x.doc.defs {
                for f in &mut d.fields {
                    let hidden = f.ty.base == name;
                    for a in &mut f.args {
                        if a.ty.base == name {
                            if a.ty.outer() || !x.v2 {
                                return None;
                            }
                            mark(&mut a.dirs);
                        }
                    }
                    if hidden {
                        if !x.v2 || (d.kind == Kind::Input && f.ty.outer()) {
                            return None;
                        }
                        mark(&mut f.dirs);
                    }
                }
            }
        }
        Some(())
    }

    fn presentable(&self) -> bool {
        let doc = crate::expect::compose(&self.subs);
        let hidden = |dirs: &[Dir]| has(dirs, "inaccessible");
        for d in &doc.defs {
            if hidden(&d.dirs) {
                continue;
            }
            let ok = match d.kind {
                Kind::Object | Kind::Interface | Kind::Input => d.fields.iter().any(|f| !hidden(&f.dirs)),
                Kind::Enum => d.values.iter().any(|v| !hidden(&v.dirs)),
                Kind::Union => d.members.iter().any(|m| doc.def(m).is_some_and(|m| !hidden(&m.dirs))),
                Kind::Scalar => true,
            };
            if !ok {
                return false;
            }
        }
        true
    }
}

pub fn s_(x: impl AsRef<str>) -> Val {
    s(x)
}

/// Whether a subgraph is a source of truth for a field, as far as sharing is concerned.
pub fn counted(sub: &Sub, ty: &str, field: &str) -> bool {
    let Some(d) = sub.doc.def(ty) else { return false };
    let Some(f) = d.field(field) else { return false };
    sub.v2 && !has(&f.dirs, "external") && !has(&f.dirs, "override") && !has(&d.dirs, "external")
}

/// Object fields that several subgraphs declare.
pub fn shared_fields(subs: &[Sub]) -> Vec<(String, String, Vec<usize>)> {
    let mut out: BTreeMap<(String, String), Vec<usize>> = BTreeMap::new();
    for (s, x) in subs.iter().enumerate() {
        for d in x.doc.defs.iter().filter(|d| d.kind == Kind::Object) {
            for f in &d.fields {
                out.entry((d.name.clone(), f.name.clone())).or_default().push(s);
            }
        }
    }
    out.into_iter().filter(|(_, s)| s.len() > 1).map(|((a, b), c)| (a, b, c)).collect()
}

/// (type, field) of the types' own keys, in some subgraph.
pub fn own_key_fields(subs: &[Sub]) -> BTreeSet<(String, String)> {
    subs.iter().flat_map(|x| own_key_fields_of(&x.doc)).collect()
}

pub fn own_key_fields_of(doc: &Doc) -> BTreeSet<(String, String)> {
    let mut out = BTreeSet::new();
    for d in &doc.defs {
        for k in d.dirs.iter().filter(|k| k.name == "key") {
            out.extend(parse_set(k.str("fields").unwrap()).iter().map(|x| (d.name.clone(), x.name.clone())));
        }
    }
    out
}

/// (type, field) that belong to some key of some subgraph, at any depth.
pub fn key_fields(subs: &[Sub]) -> BTreeSet<(String, String)> {
    let mut out = BTreeSet::new();
    for x in subs {
        out.extend(key_fields_of(&x.doc));
    }
    out
}

pub fn key_fields_of(doc: &Doc) -> BTreeSet<(String, String)> {
    fn walk(doc: &Doc, ty: &str, sel: &[Sel], out: &mut BTreeSet<(String, String)>) {
        let Some(d) = doc.def(ty) else { return };
        for x in sel {
            if let Some(f) = d.field(&x.name) {
                out.insert((ty.to_string(), x.name.clone()));
                walk(doc, &f.ty.base, &x.sub, out);
            }
        }
    }
    let mut out = BTreeSet::new();
    for d in &doc.defs {
        for k in d.dirs.iter().filter(|k| k.name == "key") {
            walk(doc, &d.name, &parse_set(k.str("fields").unwrap()), &mut out);
        }
    }
    out
}

/// (used as input, used as output) anywhere.
pub fn enum_use(subs: &[Sub], name: &str) -> (bool, bool) {
    let (mut input, mut output) = (false, false);
    for d in subs.iter().flat_map(|x| &x.doc.defs) {
        for f in &d.fields {
            match d.kind {
                Kind::Input => input |= f.ty.base == name,
                _ => output |= f.ty.base == name,
            }
            input |= f.args.iter().any(|a| a.ty.base == name);
        }
    }
    (input, output)
}
