//! Q06: what a gateway may execute does not depend on who asked before.
use crate::answers::{check_bad, op_mode, reference, same};
use crate::exec::{Db, GErr};
use crate::gateway::{self, Gateway, Reply};
use crate::gql::{J, Kind, Op, Sel};
use crate::model::{Base, Field, Gen, Model};
use crate::ops;
use crate::retries::of;
use crate::runtime::{OpCacheMode, TrustedDocs, World, world};
use bytes::Bytes;
use futures_util::future::join_all;
use runtime::trusted_documents_client::{Client, TrustedDocumentsEnforcementMode as Mode};
use sha2::Digest;
use simkit::Sim;
use simkit::runner::{Prop, Scenario};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

/// What an operation asks for, in the terms of the limits.
#[derive(Clone, Copy, Default, Debug)]
struct Size {
    depth: u64,
    aliases: u64,
    roots: u64,
    fields: u64,
    /// Different fields; None if the operation isn't simple enough to tell.
    height: Option<u64>,
    cost: Option<u64>,
}

struct Doc {
    text: String,
    hash: String,
    ops: Vec<DocOp>,
}

struct DocOp {
    op: Op,
    vars: J,
    /// The answer to an introspection query.
    fixed: Option<J>,
    size: Size,
}

fn walk(op: &Op, sel: &[Sel], level: u64, size: &mut Size) {
    for s in sel {
        match s {
            Sel::Field { alias, sub, .. } => {
                size.roots += (level == 0) as u64;
                size.fields += 1;
                size.aliases += alias.is_some() as u64;
                size.depth = size.depth.max(level + 1);
                walk(op, sub, level + 1, size);
            }
            Sel::Inline { sub, .. } => walk(op, sub, level, size),
            Sel::Spread { name, .. } => walk(op, &op.frags[name].1, level, size),
        }
    }
}

/// The cost of a selection without fragments and without fields selected twice; arguments must be free.
fn cost(m: &Model, fields: &[Field], parent: &str, sel: &[Sel], list: u64, seen: &mut BTreeSet<String>) -> Option<u64> {
    let mut keys = BTreeSet::new();
    let mut total = 0u64;
    for s in sel {
        let Sel::Field { alias, name, sub, args, .. } = s else { return None };
        if !keys.insert(alias.as_ref().unwrap_or(name)) {
            return None;
        }
        if name == "__typename" {
            total += 1;
            continue;
        }
        let f = fields.iter().find(|f| f.name == *name)?;
        if f.args.iter().any(|a| Model::in_text(&a.ty).contains("In") && !Model::in_text(&a.ty).contains("Int")) && (!args.is_empty() || f.args.iter().any(|a| a.default.is_some())) {
            return None;
        }
        seen.insert(format!("{parent}.{name}"));
        let mut one = 0;
        let inner: Option<(&[Field], &str)> = match f.ty.base() {
            Base::Obj(o) => Some((&m.objs[o].fields, &m.objs[o].name)),
            Base::Iface(i) => Some((&m.ifaces[i].fields, &m.ifaces[i].name)),
            Base::Union(u) => Some((&[], &m.unions[u].name)),
            _ => None,
        };
        if let Some((fields, parent)) = inner {
            one += 1 + cost(m, fields, parent, sub, list, seen)?;
        }
        total += one * if f.ty.is_list() { list } else { 1 };
    }
    Some(total)
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Want {
    /// Executed.
    Run,
    Refuse(&'static str, Option<u16>),
}

const LIMITED: Want = Want::Refuse("OPERATION_VALIDATION_ERROR", None);
const UNTRUSTED: Want = Want::Refuse("TRUSTED_DOCUMENT_ERROR", None);

#[derive(Default, Debug)]
struct Policy {
    toml: String,
    depth: Option<u64>,
    height: Option<u64>,
    aliases: Option<u64>,
    roots: Option<u64>,
    fields: Option<u64>,
    cost: Option<u64>,
    list: u64,
    bytes: u64,
    introspection: bool,
    apq: bool,
    /// None: batches are refused.
    batch: Option<Option<u64>>,
}

impl Policy {
    fn generate(sim: &Sim) -> Policy {
        let mut p = Policy { apq: true, bytes: 32 * 1024, list: 10, ..Policy::default() };
        let mut t = "[[headers]]\nrule = \"forward\"\nname = \"x-sim-request\"\n".to_string();
        let mut limits = String::new();
        if sim.chance(500) {
            let mut limit = |name: &str, rate: u32, max: u64| {
                let v = sim.chance(rate).then(|| sim.range(1, max));
                if let Some(v) = v {
                    limits += &format!("{name} = {v}\n");
                }
                v
            };
            p.depth = limit("depth", 300, 5);
            p.height = limit("height", 300, 12);
            p.aliases = limit("aliases", 300, 8);
            p.roots = limit("root_fields", 300, 4);
            p.fields = limit("complexity", 300, 20);
        }
        if !limits.is_empty() {
            t += &format!("[operation_limits]\n{limits}");
        }
        if sim.chance(300) {
            let enforce = sim.chance(700);
            t += &format!("[complexity_control]\nmode = \"{}\"\n", if enforce { "enforce" } else { "measure" });
            if sim.chance(800) {
                let n = sim.log_range(1, 2000);
                t += &format!("limit = {n}\n");
                p.cost = enforce.then_some(n);
            }
            if sim.chance(500) {
                p.list = sim.range(1, 20);
                t += &format!("list_size = {}\n", p.list);
            }
        }
        if sim.chance(300) {
            p.introspection = sim.chance(600);
            t += &format!("[graph]\nintrospection = {}\n", p.introspection);
        }
        if sim.chance(400) {
            p.apq = sim.chance(500);
            t += &format!("[apq]\nenabled = {}\n", p.apq);
        }
        if sim.chance(500) {
            p.batch = Some(sim.chance(500).then(|| sim.range(1, 4)));
            t += "[gateway.batching]\nenabled = true\n";
            if let Some(Some(n)) = p.batch {
                t += &format!("limit = {n}\n");
            }
        }
        if sim.chance(300) {
            p.bytes = sim.range(20, 400);
            t = format!("executable_document_limit = \"{}B\"\n{t}", p.bytes);
        }
        p.toml = t;
        p
    }
}

/// One GraphQL request.
#[derive(Clone, Debug)]
struct Ask {
    query: Option<String>,
    name: Option<String>,
    vars: J,
    /// The variables are not those the operation needs.
    spoilt: bool,
    doc_id: Option<String>,
    /// Hash in hex, and version.
    apq: Option<(String, i64)>,
}

/// One HTTP request.
#[derive(Clone, Debug)]
struct Call {
    id: u64,
    asks: Vec<Ask>,
    batch: bool,
    get: bool,
    client: Option<&'static str>,
    bypass: Option<&'static str>,
    strict: bool,
}

const CLIENTS: [&str; 3] = ["a", "ab", "web app"];
const IDS: [&str; 4] = ["c", "bc", "bd", "b\u{e9}"];
const BYPASS: (&str, &str) = ("x-bypass", "open sesame");

struct Case<'a> {
    sim: &'a Sim,
    p: Policy,
    docs: Vec<Doc>,
    mode: Mode,
    store: BTreeMap<String, String>,
    fail: bool,
    bypass: bool,
    cache: OpCacheMode,
    /// Operations that can be run by their hash alone.
    registered: Keys,
    /// Those that got too far to be sure they can't.
    maybe: Keys,
    /// How operations were judged that are too complicated for the model: (document, name, variables).
    judged: BTreeMap<(String, Option<String>, String), bool>,
}

/// The ways a request may go, and what becomes of it if it is executed.
struct Expected<'a> {
    wants: BTreeSet<Want>,
    target: Option<(&'a Doc, &'a DocOp)>,
    /// It has passed everything that comes before execution.
    prepared: bool,
    unsure: bool,
}

impl<'a> Expected<'a> {
    fn refuse(code: &'static str, status: Option<u16>) -> Expected<'a> {
        Expected { wants: [Want::Refuse(code, status)].into(), target: None, prepared: false, unsure: false }
    }
}

fn hash(text: &str) -> String {
    hex::encode(sha2::Sha256::digest(text.as_bytes()))
}

impl Case<'_> {
    /// Documents and what is known about them.
    fn run(&self, text: &str, ask: &Ask, get: bool) -> Expected<'_> {
        let p = &self.p;
        if text.len() as u64 >= p.bytes {
            return Expected::refuse("OPERATION_VALIDATION_ERROR", None);
        }
        let parsing = || Expected::refuse("OPERATION_PARSING_ERROR", None);
        let Some(doc) = self.docs.iter().find(|d| d.text == text) else { return parsing() };
        let op = match &ask.name {
            None if doc.ops.len() > 1 => return parsing(),
            None => &doc.ops[0],
            Some(n) => match doc.ops.iter().find(|o| o.op.name.as_ref() == Some(n)) {
                Some(o) => o,
                None => return parsing(),
            },
        };
        let over = |v: u64, limit: Option<u64>| limit.is_some_and(|l| v > l);
        let s = &op.size;
        if over(s.depth, p.depth) || over(s.aliases, p.aliases) || over(s.roots, p.roots) || over(s.fields, p.fields) {
            return Expected::refuse("OPERATION_VALIDATION_ERROR", None);
        }
        if op.fixed.is_some() && !p.introspection {
            return Expected::refuse("OPERATION_VALIDATION_ERROR", None);
        }
        let mut unsure = false;
        match s.height {
            Some(h) if over(h, p.height) => return Expected::refuse("OPERATION_VALIDATION_ERROR", None),
            None => unsure |= p.height.is_some(),
            _ => {}
        }
        let mut e = Expected { wants: BTreeSet::new(), target: Some((doc, op)), prepared: false, unsure: false };
        if op.op.kind == Kind::Mutation && get {
            e.wants.insert(Want::Refuse("BAD_REQUEST", Some(405)));
            if unsure {
                e.wants.insert(LIMITED);
            }
            return e;
        }
        if ask.spoilt {
            e.wants.insert(Want::Refuse("VARIABLE_ERROR", None));
            if unsure {
                e.wants.insert(LIMITED);
            }
            return e;
        }
        match s.cost {
            Some(c) if over(c, p.cost) => return Expected::refuse("OPERATION_VALIDATION_ERROR", None),
            None => unsure |= p.cost.is_some(),
            _ => {}
        }
        if unsure {
            match self.judged.get(&(doc.text.clone(), ask.name.clone(), ask.vars.text())) {
                Some(false) => return Expected::refuse("OPERATION_VALIDATION_ERROR", None),
                Some(true) => {}
                None => {
                    e.unsure = true;
                    e.wants.insert(LIMITED);
                }
            }
        }
        e.prepared = true;
        e.wants.insert(if op.op.kind == Kind::Subscription { Want::Refuse("BAD_REQUEST", None) } else { Want::Run });
        e
    }

    fn stored(&self, client: &str, id: &str) -> Result<(String, Option<Want>), Want> {
        let text = self.store.get(&format!("{client}/{id}")).ok_or(UNTRUSTED)?;
        Ok((text.clone(), self.fail.then_some(UNTRUSTED)))
    }

    /// The document that a request asks for, and how else it may end.
    fn resolve(&self, c: &Call, ask: &Ask, soon: &Keys) -> Result<(String, Option<Want>), Want> {
        let query = ask.query.as_deref();
        let inline = query.filter(|q| !q.is_empty());
        const ANONYMOUS: Want = Want::Refuse("TRUSTED_DOCUMENT_ERROR", Some(400));
        let plain = || query.map(|q| (q.to_string(), None)).ok_or(Want::Refuse("BAD_REQUEST", Some(400)));
        let id = ask.apq.as_ref().map(|a| &a.0);
        match (self.mode, &ask.apq, &ask.doc_id) {
            (Mode::Enforce, None, None) => {
                if self.bypass && c.bypass == Some(BYPASS.1) {
                    return plain();
                }
                self.stored(c.client.ok_or(ANONYMOUS)?, &hash(inline.ok_or(ANONYMOUS)?))
            }
            (Mode::Enforce, _, d) => self.stored(c.client.ok_or(ANONYMOUS)?, id.or(d.as_ref()).unwrap()),
            (Mode::Allow, _, Some(d)) => {
                let client = c.client.ok_or(ANONYMOUS)?;
                if inline.is_some() { plain() } else { self.stored(client, d) }
            }
            (Mode::Allow, Some((h, _)), None) if !self.p.apq => {
                let client = c.client.ok_or(ANONYMOUS)?;
                if inline.is_some() { plain() } else { self.stored(client, h) }
            }
            (_, Some((h, version)), _) => {
                let wrong = Want::Refuse("PERSISTED_QUERY_ERROR", None);
                let lost = Want::Refuse("PERSISTED_QUERY_NOT_FOUND", None);
                if !self.p.apq {
                    return Err(Want::Refuse("PERSISTED_QUERY_NOT_FOUND", Some(400)));
                }
                if *version != 1 {
                    return Err(wrong);
                }
                if let Some(q) = inline {
                    return if hash(q) == *h { plain() } else { Err(wrong) };
                }
                let key = (ask.name.clone(), h.clone());
                let known = self.registered.contains(&key);
                if !known && !soon.contains(&key) && !self.maybe.contains(&key) || self.cache == OpCacheMode::Off {
                    return Err(lost);
                }
                let doc = self.docs.iter().find(|d| d.hash == *h).unwrap();
                Ok((doc.text.clone(), (!known || self.cache == OpCacheMode::Lossy).then_some(lost)))
            }
            _ => plain(),
        }
    }

    fn expected(&self, c: &Call, ask: &Ask, soon: &Keys) -> Expected<'_> {
        match self.resolve(c, ask, soon) {
            Err(Want::Refuse(code, status)) => Expected::refuse(code, status),
            Err(Want::Run) => unreachable!(),
            Ok((text, alt)) => {
                let mut e = self.run(&text, ask, c.get);
                e.wants.extend(alt);
                e
            }
        }
    }

    fn op(&self, text: &str, name: &Option<String>) -> Option<&DocOp> {
        let doc = self.docs.iter().find(|d| d.text == text)?;
        match name {
            None => doc.ops.first().filter(|_| doc.ops.len() == 1),
            n => doc.ops.iter().find(|o| o.op.name == *n),
        }
    }

    /// Gives a request the variables of the operation it is going to run, or fewer.
    fn fit(&self, c: &Call, ask: &mut Ask, soon: &Keys) {
        let Ok((text, _)) = self.resolve(c, ask, soon) else { return };
        let Some(op) = self.op(&text, &ask.name) else { return };
        ask.vars = op.vars.clone();
        let needed = op.op.vars.iter().find(|v| v.ty.ends_with('!') && v.default.is_none());
        if let (Some(v), J::Obj(o), true) = (needed, &mut ask.vars, self.sim.chance(80)) {
            o.retain(|(k, _)| *k != v.name);
            ask.spoilt = true;
        }
    }
}

/// Name and hash of an operation.
type Key = (Option<String>, String);
type Keys = BTreeSet<Key>;

async fn send(g: &Gateway, c: &Call) -> Reply {
    let json = |a: &Ask| {
        let mut o = vec![];
        let mut put = |k: &str, v: J| o.push((k.to_string(), v));
        if let Some(q) = &a.query {
            put("query", J::s(q));
        }
        if let Some(n) = &a.name {
            put("operationName", J::s(n));
        }
        if let Some(d) = &a.doc_id {
            put("doc_id", J::s(d));
        }
        put("variables", a.vars.clone());
        if let Some((h, v)) = &a.apq {
            let q = J::Obj(vec![("version".into(), J::Int(*v)), ("sha256Hash".into(), J::s(h))]);
            put("extensions", J::Obj(vec![("persistedQuery".into(), q)]));
        }
        o
    };
    let mut b = http::Request::builder().header("accept", if c.strict { "application/graphql-response+json" } else { "application/json" });
    b = b.header("x-sim-request", c.id.to_string());
    if let Some(n) = c.client {
        b = b.header("x-grafbase-client-name", n);
    }
    if let Some(v) = c.bypass {
        b = b.header(BYPASS.0, v);
    }
    let req = if c.get {
        let mut ser = url::form_urlencoded::Serializer::new(String::new());
        for (k, v) in json(&c.asks[0]) {
            ser.append_pair(&k, &v.str().map_or_else(|| v.text(), str::to_string));
        }
        b.method("GET").uri(format!("http://gateway.test/graphql?{}", ser.finish())).body(Bytes::new())
    } else {
        let mut items: Vec<J> = c.asks.iter().map(|a| J::Obj(json(a))).collect();
        let body = if c.batch { J::Arr(items) } else { items.remove(0) };
        b = b.header("content-type", "application/json");
        b.method("POST").uri("http://gateway.test/graphql").body(Bytes::from(body.text()))
    };
    g.reply(g.send(req.unwrap()).await).await
}

fn documents(sim: &Sim, m: &Model, list: u64) -> Vec<Doc> {
    let mut docs = vec![];
    for d in 0..sim.range(1, 4) {
        let n = if sim.chance(300) { 2 } else { 1 };
        let mut ops = vec![];
        let mut text = String::new();
        for i in 0..n {
            let name = (n > 1 || sim.chance(400)).then(|| format!("Op{}", if n > 1 { i } else { sim.choose(2) as u64 }));
            if sim.chance(150) {
                let query = *sim.pick(&["__schema{queryType{name}}", "__typename __schema{queryType{name}}", "...{__schema{queryType{name}}}", "t:__type(name:\"Query\"){name}"]);
                let head = name.as_ref().map(|n| format!("query {n} ")).unwrap_or_default();
                text += &format!("{head}{{{query}}}\n");
                let q = J::Obj(vec![("name".into(), J::s("Query"))]);
                let schema = ("__schema".to_string(), J::Obj(vec![("queryType".into(), q.clone())]));
                let data = match query.as_bytes()[0] {
                    b't' => vec![("t".into(), q)],
                    _ if query.contains("typename") => vec![("__typename".into(), J::s("Query")), schema],
                    _ => vec![schema],
                };
                let op = Op { kind: Kind::Query, name, vars: vec![], sel: vec![], frags: BTreeMap::new() };
                let schema = query.contains("__schema");
                let with_name = query.contains("typename");
                let size = Size {
                    depth: if schema { 3 } else { 2 },
                    aliases: !schema as u64,
                    roots: 1 + with_name as u64,
                    fields: if schema { 3 } else { 2 } + with_name as u64,
                    ..Size::default()
                };
                ops.push(DocOp { op, vars: J::Obj(vec![]), fixed: Some(J::Obj(data)), size });
                continue;
            }
            let kind = *sim.pick(&[Kind::Query, Kind::Query, Kind::Query, Kind::Mutation, Kind::Subscription]);
            let fields = match kind {
                Kind::Query => &m.query,
                Kind::Mutation => &m.mutation,
                Kind::Subscription => &m.subscription,
            };
            let (op, vars) = if n > 1 {
                // Fragments are shared by the whole document, and would have the same names.
                let mut r = ops::generate(sim, m, kind, name.clone());
                for _ in 0..5 {
                    if r.0.frags.is_empty() {
                        break;
                    }
                    r = ops::generate(sim, m, kind, name.clone());
                }
                if !r.0.frags.is_empty() {
                    let sel = vec![Sel::Field { alias: None, name: "__typename".into(), args: vec![], dirs: vec![], sub: vec![] }];
                    r = (Op { kind: Kind::Query, name, vars: vec![], sel, frags: BTreeMap::new() }, J::Obj(vec![]));
                }
                r
            } else {
                ops::generate(sim, m, kind, name)
            };
            text += &op.print();
            text.push('\n');
            let mut size = Size::default();
            walk(&op, &op.sel, 0, &mut size);
            let mut seen = BTreeSet::new();
            let root = if op.kind == kind { fields.as_slice() } else { &[] };
            size.cost = cost(m, root, "root", &op.sel, list, &mut seen).map(|c| c + if op.kind == Kind::Mutation { 10 } else { 0 });
            size.height = size.cost.map(|_| seen.len() as u64);
            ops.push(DocOp { op, vars, fixed: None, size });
        }
        if sim.chance(200) {
            text += &format!("# {d}");
        }
        if docs.iter().any(|d: &Doc| d.text == text) {
            continue;
        }
        docs.push(Doc { hash: hash(&text), text, ops });
    }
    docs
}

fn ask(c: &Case) -> Ask {
    let sim = c.sim;
    let d = sim.pick(&c.docs);
    let op = sim.pick(&d.ops);
    let mut a = Ask { query: Some(d.text.clone()), name: op.op.name.clone(), vars: J::Obj(vec![]), spoilt: false, doc_id: None, apq: None };
    if sim.chance(200) {
        a.name = sim.pick(&[None, Some("Op1".to_string()), Some(String::new())]).clone();
    }
    let by_id = |sim: &Sim| if sim.chance(500) { d.hash.clone() } else { sim.pick(&IDS).to_string() };
    match sim.choose(5) {
        0 | 1 => {}
        2 | 3 => {
            let h = if sim.chance(100) { sim.pick(&c.docs).hash.clone() } else { d.hash.clone() };
            a.apq = Some((h, if sim.chance(80) { *sim.pick(&[0, 2]) } else { 1 }));
            if sim.chance(600) {
                a.query = None;
            }
            if sim.chance(50) {
                a.doc_id = Some(by_id(sim));
            }
        }
        _ => {
            a.doc_id = Some(by_id(sim));
            if sim.chance(700) {
                a.query = None;
            }
        }
    }
    if sim.chance(30) {
        a.query = sim.pick(&[None, Some(String::new()), Some("{".to_string())]).clone();
    }
    a
}

/// Whether the call may write, and so has to be alone.
fn writes(c: &Case, call: &Call, soon: &Keys) -> bool {
    call.asks.iter().any(|a| match c.expected(call, a, soon) {
        e => e.wants.contains(&Want::Run) && e.target.is_some_and(|t| t.1.op.kind == Kind::Mutation),
    })
}

fn scenario(sim: &Sim) {
    let m = Model::generate(sim, Gen { mutations: true, subscriptions: true, max_subs: 3, ..Gen::default() });
    let w = world(sim, m);
    let p = Policy::generate(sim);
    let cache = op_mode(sim);
    let mode = *sim.pick(&[Mode::Ignore, Mode::Allow, Mode::Enforce]);
    let docs = documents(sim, &w.m, p.list);
    let mut store = BTreeMap::new();
    if mode != Mode::Ignore {
        for client in CLIENTS {
            for d in &docs {
                if sim.chance(500) {
                    store.insert(format!("{client}/{}", d.hash), d.text.clone());
                }
            }
            for id in IDS {
                if sim.chance(500) {
                    store.insert(format!("{client}/{id}"), sim.pick(&docs).text.clone());
                }
            }
        }
    }
    let fail = if mode != Mode::Ignore && sim.chance(300) { *sim.pick(&[100, 500]) } else { 0 };
    let bypass = sim.chance(500);
    let mut c = Case { sim, p, docs, mode, store, fail: fail > 0, bypass, cache, registered: Keys::new(), maybe: Keys::new(), judged: BTreeMap::new() };
    *w.latency.lock().unwrap() = (100, *sim.pick(&[1000, 100_000]));
    sim.event_with(mode as u64, || format!("trusted documents {mode:?}: {:?}, operation cache {cache:?}", c.store));
    gateway::run(sim, Duration::from_secs(100_000), async {
        let Some(sdl) = gateway::compose(&w) else { return };
        let trusted = TrustedDocs {
            world: w.clone(),
            mode,
            docs: c.store.clone(),
            bypass: bypass.then(|| (BYPASS.0.to_string(), BYPASS.1.to_string())),
            fail,
        };
        let Some(g) = gateway::build(&w, &sdl, &c.p.toml, cache, |rt| rt.trusted = Client::new(trusted)).await else { return };
        let mut db = Db::default();
        let mut id = 0;
        for _ in 0..sim.range(2, 9) {
            // What becomes known while the round lasts.
            let mut soon: Keys = c.docs.iter().flat_map(|d| d.ops.iter().map(|o| (o.op.name.clone(), d.hash.clone()))).collect();
            soon.extend(c.docs.iter().map(|d| (None, d.hash.clone())));
            let several = sim.chance(400);
            if !several {
                soon.clear();
            }
            let mut calls: Vec<Call> = vec![];
            for _ in 0..if several { sim.range(2, 4) } else { 1 } {
                id += 1;
                let batch = sim.chance(100);
                let get = !batch && sim.chance(200);
                let mut call = Call {
                    id,
                    asks: (0..if batch { sim.range(1, 4) } else { 1 }).map(|_| ask(&c)).collect(),
                    batch,
                    get,
                    client: sim.chance(800).then(|| *sim.pick(&CLIENTS)),
                    bypass: sim.chance(300).then(|| *sim.pick(&[BYPASS.1, "open", "OPEN SESAME"])),
                    strict: sim.chance(300),
                };
                if batch {
                    soon.extend(call.asks.iter().filter_map(|a| Some((a.name.clone(), a.apq.clone()?.0))));
                }
                let mut asks = call.asks.clone();
                for a in &mut asks {
                    c.fit(&call, a, &soon);
                }
                call.asks = asks;
                let write = writes(&c, &call, &soon);
                if write && !calls.is_empty() {
                    continue;
                }
                calls.push(call);
                if write {
                    break;
                }
            }
            let replies = join_all(calls.iter().map(|call| send(&g, call))).await;
            check_bad(&w);
            let mut news = vec![];
            for (call, reply) in calls.iter().zip(&replies) {
                sim.event_with(call.id, || format!("{call:?} got {}", reply.text));
                judge(&c, &w, call, reply, &soon, &mut db, &mut news);
            }
            for n in news {
                match n {
                    News::Registered(k) => _ = c.registered.insert(k),
                    News::Maybe(k) => _ = c.maybe.insert(k),
                    News::Judged(k, ok) => {
                        if *c.judged.entry(k.clone()).or_insert(ok) != ok {
                            sim.violate("depends on what is cached", format!("{k:?} was once accepted and once refused"));
                        }
                    }
                }
            }
            if sim.violated() {
                return;
            }
            // Faults and null bubbling may keep later mutations from running.
            db.seq = w.net.lock().unwrap().db.seq;
            tokio::time::sleep(Duration::from_millis(sim.range(10, 1000))).await;
        }
    });
}

enum News {
    Registered(Key),
    Maybe(Key),
    Judged((String, Option<String>, String), bool),
}

fn judge(c: &Case, w: &World, call: &Call, reply: &Reply, soon: &Keys, db: &mut Db, news: &mut Vec<News>) {
    let sim = c.sim;
    let sent = of(&w.net.lock().unwrap().seen, call.id).len();
    let parts: Vec<J> = if call.batch {
        let whole = match c.p.batch {
            None => true,
            Some(limit) => limit.is_some_and(|l| call.asks.len() as u64 > l),
        };
        if whole {
            let want = [Want::Refuse("BAD_REQUEST", None)].into();
            if refused(c, call, reply.status, &reply.json, &want).is_none() || sent > 0 {
                sim.violate("policy broken", format!("batch of {} answered {} {}, {sent} subgraph requests", call.asks.len(), reply.status, reply.text));
            }
            return;
        }
        reply.json.arr().to_vec()
    } else {
        vec![reply.json.clone()]
    };
    if parts.len() != call.asks.len() {
        sim.violate("answers lost", format!("{} requests answered with {}", call.asks.len(), reply.text));
        return;
    }
    let mut ran = false;
    for (a, part) in call.asks.iter().zip(&parts) {
        let e = c.expected(call, a, soon);
        let status = if call.batch { 0 } else { reply.status };
        let how = refused(c, call, status, part, &e.wants);
        if let Some(how) = how {
            sim.count("requests refused as they should be");
            if e.unsure && how == LIMITED {
                let t = e.target.unwrap();
                news.push(News::Judged((t.0.text.clone(), a.name.clone(), a.vars.text()), false));
            }
            if e.prepared && how == Want::Refuse("BAD_REQUEST", None) {
                learn(c, a, News::Maybe, news);
            }
            continue;
        }
        let Some((doc, op)) = e.target.filter(|_| e.wants.contains(&Want::Run)) else {
            let why = if part.get("data").is_some() { "policy broken" } else { "wrong refusal" };
            sim.violate(why, format!("{a:?} of {call:?} under {:?} answered {} {}, expected {:?}", c.p, reply.status, part.text(), e.wants));
            return;
        };
        if part.get("data").is_none() {
            sim.violate("refused", format!("{a:?} of {call:?} under {:?} answered {} {}, expected {:?}", c.p, reply.status, part.text(), e.wants));
            return;
        }
        ran = true;
        sim.count("operations");
        if e.unsure {
            news.push(News::Judged((doc.text.clone(), a.name.clone(), a.vars.text()), true));
        }
        learn(c, a, News::Registered, news);
        if status != 0 && status != 200 {
            sim.violate("wrong status", format!("{} for {}", status, reply.text));
        }
        let (data, errors): (J, Vec<GErr>) = match &op.fixed {
            Some(d) => (d.clone(), vec![]),
            None => reference(w, &op.op, &op.vars, db),
        };
        let part = Reply { status: reply.status, text: part.text(), json: part.clone() };
        same(sim, &op.op.print(), &a.vars, &data, &errors, &part);
    }
    if !ran && sent > 0 {
        sim.violate("subgraphs asked for a refused operation", format!("{call:?} answered {}: {sent} requests", reply.text));
    }
    if !c.registered.is_empty() || call.id > 3 {
        sim.nontrivial();
    }
}

fn learn(c: &Case, a: &Ask, f: fn(Key) -> News, news: &mut Vec<News>) {
    let by_hash = c.mode != Mode::Enforce && c.p.apq && !(c.mode == Mode::Allow && a.doc_id.is_some());
    if let (true, Some((h, 1))) = (by_hash, &a.apq) {
        news.push(f((a.name.clone(), h.clone())));
    }
}

/// How a request was refused, if that is one of the ways it may be.
fn refused(_: &Case, call: &Call, status: u16, part: &J, wants: &BTreeSet<Want>) -> Option<Want> {
    if part.get("data").is_some() {
        return None;
    }
    let code = part.get("errors")?.arr().first()?.get("extensions")?.get("code")?.str()?.to_string();
    wants.iter().copied().find(|w| match w {
        Want::Run => false,
        Want::Refuse(c, s) => {
            let s = s.unwrap_or(if call.strict { 400 } else { 200 });
            *c == code && (status == s || status == 0)
        }
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "Q06",
        scenarios: vec![Scenario { name: "policy", weight: 1, run: scenario }],
        rule: "Random federated graphs behind random policies: trusted documents ignored, allowed or enforced, with a bypass header; persisted queries on or off; limits on depth, height, aliases, root fields, fields, complexity and document size; introspection; batches. Up to nine rounds of up to four concurrent clients send operations as text, by document id, by hash with or without text, in documents of several operations, by POST and GET and in batches, again and again, with wrong hashes, versions, names and variables; the operation cache is absent, remembers everything or forgets at random; the store of trusted documents is slow and may fail. A model of the policies says for every request whether it is executed or how it is refused, whatever was sent before; a refused request reaches no subgraph, an executed one gets the reference's answer. Counted: runs with persisted queries, or of more than three requests.",
        real: &["engine (request parsing, trusted documents, persisted queries, limits, operation cache keys, executor)", "graphql-composition", "gateway-config", "engine-schema"],
        stub: &["subgraph servers and HTTP (reference executor over a generated database)", "trusted document store", "operation cache", "extensions (none installed)", "clock"],
        assumptions: &["height and complexity of operations with fragments or input objects are only required to be judged the same every time"],
        quick: (30, 100_000),
        thorough: (600, 1_000_000),
    }
}
