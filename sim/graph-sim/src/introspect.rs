//! Clients introspecting GraphQL endpoints over a network that fails: what they take for the endpoint's schema.
use crate::delta::{self, Schema};
use crate::sdl::*;
use cynic_parser::executable as ex;
use http::HeaderMap;
use reqwest::hook::{Boxed, Failure, Incoming, Outgoing};
use serde_json::{Map, Value as J, json};
use simkit::Sim;
use simkit::runner::{Prop, Scenario};
use std::cell::{Cell, RefCell};
use std::time::Duration;

struct Endpoint {
    /// What it takes for its own subgraph schema.
    sdl: Option<String>,
    schema: Schema,
    /// Whether it knows the introspection fields that came with the specification of October 2021.
    modern: bool,
    introspectable: bool,
    json: J,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Asks {
    Sdl,
    Types,
    Else,
}

struct Exchange {
    task: usize,
    asks: Asks,
    /// The endpoint's answer arrived, complete and without errors.
    good: bool,
    errors: Vec<String>,
}

struct Task {
    endpoint: usize,
    url: String,
    headers: Vec<(String, String)>,
}

struct World {
    sim: Sim,
    endpoints: Vec<Endpoint>,
    tasks: Vec<Task>,
    log: Vec<Exchange>,
    faulty: u32,
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
    static ORIGIN: Cell<Option<tokio::time::Instant>> = const { Cell::new(None) };
}

fn clock() -> Option<u64> {
    let origin = ORIGIN.try_with(|o| o.get()).ok().flatten()?;
    tokio::runtime::Handle::try_current().ok()?;
    Some((tokio::time::Instant::now() - origin).as_nanos() as u64 + 1_000_000_000)
}

// ---- the endpoints ----

fn kind(s: &Schema, name: &str) -> &'static str {
    match s.doc.def(name).map(|d| d.kind) {
        Some(Kind::Object) => "OBJECT",
        Some(Kind::Interface) => "INTERFACE",
        Some(Kind::Input) => "INPUT_OBJECT",
        Some(Kind::Enum) => "ENUM",
        Some(Kind::Union) => "UNION",
        Some(Kind::Scalar) | None => "SCALAR",
    }
}

fn ty_json(s: &Schema, t: &Ty) -> J {
    let mut j = json!({ "kind": kind(s, &t.base), "name": t.base, "ofType": null });
    let wrap = |j: J, kind: &str| json!({ "kind": kind, "name": null, "ofType": j });
    if t.inner {
        j = wrap(j, "NON_NULL");
    }
    for nn in &t.lists {
        j = wrap(j, "LIST");
        if *nn {
            j = wrap(j, "NON_NULL");
        }
    }
    j
}

fn deprecation(dirs: &[Dir]) -> (bool, J) {
    match dir(dirs, "deprecated") {
        Some(d) => (true, d.str("reason").map_or(J::Null, |r| r.into())),
        None => (false, J::Null),
    }
}

fn input_json(s: &Schema, f: &Fld) -> J {
    json!({
        "name": f.name,
        "description": f.desc,
        "type": ty_json(s, &f.ty),
        "defaultValue": f.default.as_ref().map(|v| v.text()),
    })
}

fn inputs_json(s: &Schema, fs: &[Fld]) -> J {
    fs.iter().map(|f| input_json(s, f)).collect()
}

fn names(ns: &[String]) -> J {
    ns.iter().map(|n| json!({ "name": n })).collect()
}

fn roots(s: &Schema) -> [Option<String>; 3] {
    match &s.block {
        Some(b) => b.roots.clone(),
        None => ["Query", "Mutation", "Subscription"].map(|n| s.doc.def(n).map(|_| n.to_string())),
    }
}

fn schema_json(s: &Schema, modern: bool) -> J {
    let mut types = vec![];
    for d in &s.doc.defs {
        let fields: J = d
            .fields
            .iter()
            .map(|f| {
                let (is, reason) = deprecation(&f.dirs);
                json!({
                    "name": f.name,
                    "description": f.desc,
                    "args": inputs_json(s, &f.args),
                    "type": ty_json(s, &f.ty),
                    "isDeprecated": is,
                    "deprecationReason": reason,
                })
            })
            .collect();
        let values: J = d
            .values
            .iter()
            .map(|v| {
                let (is, reason) = deprecation(&v.dirs);
                json!({ "name": v.name, "description": v.desc, "isDeprecated": is, "deprecationReason": reason })
            })
            .collect();
        let composite = matches!(d.kind, Kind::Object | Kind::Interface);
        let implementers: Vec<String> =
            s.doc.defs.iter().filter(|x| x.kind == Kind::Object && x.implements.contains(&d.name)).map(|x| x.name.clone()).collect();
        types.push(json!({
            "kind": kind(s, &d.name),
            "name": d.name,
            "description": d.desc,
            "fields": if composite { fields } else { J::Null },
            "inputFields": if d.kind == Kind::Input { inputs_json(s, &d.fields) } else { J::Null },
            "interfaces": if composite { names(&d.implements) } else { J::Null },
            "enumValues": if d.kind == Kind::Enum { values } else { J::Null },
            "possibleTypes": match d.kind {
                Kind::Union => names(&d.members),
                Kind::Interface => names(&implementers),
                _ => J::Null,
            },
        }));
    }
    let scalar = |n: &str| json!({ "kind": "SCALAR", "name": n, "ofType": null });
    let string = json!({ "kind": "SCALAR", "name": "String", "ofType": null });
    for n in ["String", "Int", "Boolean"] {
        types.push(scalar(n));
    }
    let field = |n: &str| json!({ "name": n, "description": null, "args": [], "type": string, "isDeprecated": false, "deprecationReason": null });
    types.push(json!({ "kind": "OBJECT", "name": "__Type", "description": "A type.", "fields": [field("name")], "interfaces": [] }));
    for t in &mut types {
        let t = t.as_object_mut().unwrap();
        for k in ["description", "fields", "inputFields", "interfaces", "enumValues", "possibleTypes"] {
            t.entry(k).or_insert(J::Null);
        }
        t.insert("ofType".into(), J::Null);
        if modern {
            t.insert("specifiedByURL".into(), J::Null);
        }
    }
    let mut directives = vec![json!({
        "name": "skip", "description": null, "locations": ["FIELD"],
        "args": [{ "name": "if", "description": null, "defaultValue": null, "type": { "kind": "NON_NULL", "name": null, "ofType": scalar("Boolean") } }],
    })];
    for d in &s.doc.directives {
        directives.push(json!({ "name": d.name, "description": d.desc, "locations": d.locations, "args": inputs_json(s, &d.args) }));
    }
    if modern {
        for d in &mut directives {
            let name = d["name"].as_str().unwrap().to_string();
            let is = s.doc.directives.iter().any(|x| x.name == name && x.repeatable);
            d.as_object_mut().unwrap().insert("isRepeatable".into(), is.into());
        }
    }
    let [q, m, n] = roots(s).map(|r| r.map_or(J::Null, |r| json!({ "name": r, "kind": "OBJECT" })));
    json!({ "queryType": q, "mutationType": m, "subscriptionType": n, "types": types, "directives": directives })
}

fn select<'a>(set: impl Iterator<Item = ex::Selection<'a>>, v: &J, out: &mut Map<String, J>) -> Result<(), String> {
    for s in set {
        match s {
            ex::Selection::InlineFragment(f) => select(f.selection_set(), v, out)?,
            ex::Selection::FragmentSpread(f) => select(f.fragment().ok_or("no such fragment")?.selection_set(), v, out)?,
            ex::Selection::Field(f) => {
                let key = f.alias().unwrap_or(f.name()).to_string();
                let Some(x) = v.get(f.name()) else {
                    return Err(format!("Cannot query field \"{}\".", f.name()));
                };
                let all = f.arguments().any(|a| a.name() == "includeDeprecated" && matches!(a.value(), cynic_parser::Value::Boolean(b) if b.value()));
                let hides = |e: &J| !all && e.get("isDeprecated") == Some(&J::Bool(true));
                let mut one = |e: &J| -> Result<J, String> {
                    if !e.is_object() {
                        return Ok(e.clone());
                    }
                    if f.selection_set().len() == 0 {
                        return Err(format!("Field \"{}\" must have a selection of subfields.", f.name()));
                    }
                    let mut o = Map::new();
                    select(f.selection_set(), e, &mut o)?;
                    Ok(J::Object(o))
                };
                let r = match x {
                    J::Array(es) => J::Array(es.iter().filter(|e| !hides(e)).map(&mut one).collect::<Result<_, _>>()?),
                    e => one(e)?,
                };
                out.insert(key, r);
            }
        }
    }
    Ok(())
}

/// What the endpoint makes of a request.
fn execute(e: &Endpoint, body: &[u8]) -> (Asks, Result<J, String>) {
    let Some(query) = serde_json::from_slice::<J>(body).ok().and_then(|b| Some(b.get("query")?.as_str()?.to_string())) else {
        return (Asks::Else, Err("Must provide query string.".into()));
    };
    let doc = match cynic_parser::parse_executable_document(&query) {
        Ok(d) => d,
        Err(e) => return (Asks::Else, Err(format!("Syntax Error: {e}"))),
    };
    let Some(op) = doc.operations().next() else {
        return (Asks::Else, Err("Unknown operation.".into()));
    };
    let roots: Vec<&str> = op.selection_set().filter_map(|s| if let ex::Selection::Field(f) = s { Some(f.name()) } else { None }).collect();
    let asks = match &roots[..] {
        ["_service"] => Asks::Sdl,
        ["__schema"] => Asks::Types,
        _ => Asks::Else,
    };
    if roots.contains(&"__schema") && !e.introspectable {
        return (asks, Err("GraphQL introspection is not allowed".into()));
    }
    let mut out = Map::new();
    let r = select(op.selection_set(), &e.json, &mut out).map(|()| J::Object(out));
    (asks, r)
}

// ---- the network ----

fn network(out: Outgoing, timeout: Option<Duration>) -> Boxed<Option<Result<Incoming, Failure>>> {
    let plan = WORLD.with(|w| w.borrow_mut().as_mut().and_then(|w| deliver(w, &out)));
    Box::pin(async move {
        let Some((wait, answer, body_wait)) = plan else { return Some(Err(Failure::Refused)) };
        match timeout {
            Some(t) if t < wait => {
                tokio::time::sleep(t).await;
                return None;
            }
            _ => tokio::time::sleep(wait).await,
        }
        Some(answer.map(|(status, body)| Incoming {
            status,
            headers: HeaderMap::new(),
            body: Box::pin(async move {
                tokio::time::sleep(body_wait).await;
                body.map(Into::into)
            }),
        }))
    })
}

type Answer = Result<(u16, Result<String, Failure>), Failure>;

fn deliver(w: &mut World, out: &Outgoing) -> Option<(Duration, Answer, Duration)> {
    let sim = w.sim.clone();
    let Some(task) = w.tasks.iter().position(|t| t.url == out.url) else {
        sim.violate("wrong-address", format!("a request for {}, which nobody asked for", out.url));
        return None;
    };
    let t = &w.tasks[task];
    // Whatever the endpoint, the request has to be one it can take.
    if out.method != http::Method::POST {
        sim.violate("wrong-request", format!("the request is a {}", out.method));
    }
    let has = |k: &str, v: &str| out.headers.get_all(k).iter().any(|x| x.to_str().is_ok_and(|x| x.split([',', ';']).any(|x| x.trim().eq_ignore_ascii_case(v))));
    for (k, v) in [("user-agent", "Grafbase"), ("accept", "application/json"), ("content-type", "application/json")] {
        sim.check(has(k, v), "wrong-request", || format!("no {k}: {v}, but {:?}", out.headers.get(k)));
    }
    for (k, v) in &t.headers {
        let want: Vec<&str> = t.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case(k)).map(|(_, v)| v.as_str()).collect();
        let got: Vec<&str> = out.headers.get_all(k.as_str()).iter().filter_map(|x| std::str::from_utf8(x.as_bytes()).ok()).collect();
        // Those which the client sends anyway may come first.
        let got = &got[got.len().saturating_sub(want.len())..];
        sim.check(got == want, "header-lost", || format!("{k}: {v} has become {got:?} on the way to {}", out.url));
    }
    for k in out.headers.keys() {
        let own = matches!(k.as_str(), "user-agent" | "accept" | "content-type");
        sim.check(own || t.headers.iter().any(|(n, _)| n.eq_ignore_ascii_case(k.as_str())), "header-of-another", || {
            format!("{} receives {k}, which was not configured for it", out.url)
        });
    }
    let e = &w.endpoints[t.endpoint];
    let (asks, result) = execute(e, &out.body);
    sim.check(!matches!(&result, Err(m) if m.starts_with("Syntax") || m.starts_with("Must")), "wrong-request", || {
        format!("{:?} answers {}", String::from_utf8_lossy(&out.body), result.clone().unwrap_err())
    });
    let mut x = Exchange { task, asks, good: false, errors: vec![] };
    let delay = |sim: &Sim| Duration::from_micros(if sim.chance(500) { 0 } else { sim.log_range(1, 8_000_000) });
    let (wait, body_wait) = (delay(&sim), delay(&sim));
    let root = if asks == Asks::Types { "__schema" } else { "_service" };
    let answer: Answer = if sim.chance(w.faulty) {
        let honest = match &result {
            Ok(d) => json!({ "data": d }).to_string(),
            Err(m) => json!({ "errors": [{ "message": m }] }).to_string(),
        };
        let status = *sim.pick(&[200, 200, 400, 401, 403, 404, 429, 500, 502, 503]);
        let whole = |sim: &Sim, status: u16, b: String| {
            sim.fault("answer of another kind");
            Ok((status, Ok(b)))
        };
        match sim.choose(if asks == Asks::Types { 13 } else { 12 }) {
            12 => {
                sim.fault("part of the answer, with errors");
                x.errors = vec!["types withheld".into()];
                let mut d = result.clone().unwrap_or_else(|_| json!({ "__schema": null }));
                if let Some(ts) = d.pointer_mut("/__schema/types").and_then(J::as_array_mut) {
                    ts.truncate(ts.len() / 2);
                }
                Ok((200, Ok(json!({ "data": d, "errors": [{ "message": x.errors[0] }] }).to_string())))
            }
            0 => {
                sim.fault("connection refused");
                Err(Failure::Refused)
            }
            1 => {
                sim.fault("connection lost before the answer");
                Err(Failure::Lost)
            }
            2 => {
                sim.fault("connection lost within the answer");
                Ok((200, Err(Failure::Lost)))
            }
            3 => {
                sim.fault("answer cut short");
                let mut at = sim.choose(honest.len() as u32) as usize;
                while !honest.is_char_boundary(at) {
                    at -= 1;
                }
                Ok((200, Ok(honest[..at].to_string())))
            }
            4 => {
                // With an error status the data of a well-formed answer is no answer.
                sim.fault("error status");
                let status = *sim.pick(&[400, 401, 403, 404, 429, 500, 502, 503]);
                Ok((status, Ok(if asks == Asks::Sdl && sim.chance(500) { honest } else { "<html>no</html>".into() })))
            }
            5 => whole(&sim, status, "<!doctype html><title>hi</title>".into()),
            6 => whole(&sim, status, String::new()),
            7 => whole(&sim, 200, json!({ "data": { root: null } }).to_string()),
            8 => whole(&sim, 200, if asks == Asks::Sdl { json!({ "data": { "_service": { "sdl": null } } }) } else { json!({ "data": null }) }.to_string()),
            9 => whole(&sim, 200, json!({ "data": {} }).to_string()),
            10 => whole(&sim, 200, json!({}).to_string()),
            _ => {
                sim.fault("GraphQL errors");
                let n = 1 + sim.choose(3);
                x.errors = (0..n).map(|i| format!("{} {i}", sim.pick(&["bad \"day\"", "no access", "größer"]))).collect();
                let errors: Vec<J> = x
                    .errors
                    .iter()
                    .map(|m| match sim.choose(3) {
                        0 => json!({ "message": m }),
                        1 => json!({ "message": m, "locations": [{ "line": 1, "column": 2 }], "path": ["a"] }),
                        _ => json!({ "message": m, "extensions": { "code": "FORBIDDEN" } }),
                    })
                    .collect();
                let b = if sim.chance(500) { json!({ "errors": errors }) } else { json!({ "data": null, "errors": errors }) };
                Ok((status, Ok(b.to_string())))
            }
        }
    } else {
        match result {
            Ok(d) => {
                x.good = asks != Asks::Else;
                let mut b = json!({ "data": d });
                match sim.choose(4) {
                    0 => b["extensions"] = json!({ "cost": 1 }),
                    1 if asks == Asks::Types => b["errors"] = J::Null,
                    _ => {}
                }
                let b = if sim.chance(300) { serde_json::to_string_pretty(&b).unwrap() } else { b.to_string() };
                Ok((200, Ok(b)))
            }
            Err(m) => {
                x.errors = vec![m.clone()];
                let b = json!({ "errors": [{ "message": m }] });
                Ok((if sim.chance(500) { 200 } else { 400 }, Ok(b.to_string())))
            }
        }
    };
    sim.event(format!("client {task} asks for {asks:?}: {}", match &answer {
        Ok((s, Ok(b))) => format!("{s} {b}"),
        Ok((s, Err(e))) => format!("{s} {e:?}"),
        Err(e) => format!("{e:?}"),
    }));
    w.log.push(x);
    Some((wait, answer, body_wait))
}

// ---- the clients ----

/// What June 2018's introspection can tell of a schema.
fn told(s: &Schema) -> Schema {
    let mut t = s.clone();
    let desc = |d: &mut Option<String>| {
        if d.as_deref() == Some("") {
            *d = None;
        }
    };
    let only = |ds: &mut Vec<Dir>| {
        ds.retain(|d| d.name == "deprecated");
        ds.truncate(1);
    };
    let input = |f: &mut Fld| {
        f.dirs.clear();
        desc(&mut f.desc);
    };
    for d in &mut t.doc.defs {
        d.dirs.clear();
        desc(&mut d.desc);
        let is_input = d.kind == Kind::Input;
        for f in &mut d.fields {
            if is_input {
                input(f);
            } else {
                only(&mut f.dirs);
                desc(&mut f.desc);
                f.args.iter_mut().for_each(input);
            }
        }
        for v in &mut d.values {
            only(&mut v.dirs);
            desc(&mut v.desc);
        }
    }
    for d in &mut t.doc.directives {
        d.repeatable = false;
        desc(&mut d.desc);
        d.args.iter_mut().for_each(input);
    }
    t.block = Some(delta::Block { roots: roots(s), ..Default::default() });
    t.ext = None;
    t
}

/// cynic-parser prints 3.0 as 3, and cannot read what it prints for 1e20.
fn halves(s: &mut Schema) {
    fn val(v: &mut Val) {
        match v {
            Val::Float(x) if x.fract() == 0.0 => *x = 0.5,
            Val::List(vs) => vs.iter_mut().for_each(val),
            Val::Obj(vs) => vs.iter_mut().for_each(|(_, v)| val(v)),
            _ => {}
        }
    }
    fn all(ds: &mut [Dir]) {
        ds.iter_mut().flat_map(|d| &mut d.args).for_each(|(_, v)| val(v));
    }
    fn field(f: &mut Fld) {
        all(&mut f.dirs);
        f.args.iter_mut().for_each(field);
        f.default.iter_mut().for_each(val);
    }
    for b in s.block.iter_mut().chain(s.ext.iter_mut()) {
        all(&mut b.dirs);
    }
    for d in &mut s.doc.defs {
        all(&mut d.dirs);
        d.fields.iter_mut().for_each(field);
        d.values.iter_mut().for_each(|v| all(&mut v.dirs));
    }
    for d in &mut s.doc.directives {
        d.args.iter_mut().for_each(field);
    }
}

fn some_endpoint(sim: &Sim) -> Endpoint {
    let mut schema = delta::grown(sim, Schema::default());
    halves(&mut schema);
    schema.ext = None;
    if let Some(b) = &mut schema.block {
        *b = delta::Block { roots: b.roots.clone(), ..Default::default() };
    }
    if let Some(b) = &mut schema.block {
        for r in &mut b.roots {
            r.take_if(|r| schema.doc.def(r).is_none());
        }
    }
    if roots(&schema)[0].is_none() {
        let name = if schema.doc.def("Query").is_none() { "Query" } else { "Root" };
        let mut q = Def::new(Kind::Object, name);
        q.fields.push(Fld::new("up", Ty::named("Boolean")));
        schema.doc.defs.push(q);
        if let Some(b) = &mut schema.block {
            b.roots[0] = Some(name.into());
        }
    }
    // Only a schema definition can say that a type of such a name isn't the root.
    if let Some(b) = &mut schema.block {
        for (r, n) in b.roots.iter_mut().zip(["Query", "Mutation", "Subscription"]) {
            if r.is_none() && schema.doc.def(n).is_some() {
                *r = Some(n.into());
            }
        }
    }
    let federated = sim.chance(500);
    let sdl = federated.then(|| {
        if sim.chance(100) {
            // It may say whatever it likes.
            sim.pick(&["type Query {", "not a schema", "type Query {\n  a: Int!\n  b: }\n", "<html>not \"a\" schema</html>", "\u{feff}§"]).to_string()
        } else {
            // In federation it is the subgraph's own schema which counts.
            let mut own = delta::grown(sim, Schema::default());
            if own.doc.defs.is_empty() {
                own.doc.defs.push(Def::new(Kind::Scalar, "Date"));
            }
            halves(&mut own);
            delta::written(sim, &own, false)
        }
    });
    let modern = sim.chance(500);
    let mut json = json!({ "__schema": schema_json(&schema, modern), "__typename": "Query" });
    if let Some(sdl) = &sdl {
        json["_service"] = json!({ "sdl": sdl });
    }
    Endpoint { sdl, schema, modern, introspectable: sim.chance(850), json }
}

fn some_headers(sim: &Sim) -> Vec<(String, String)> {
    let mut out = vec![];
    for _ in 0..sim.choose(4) {
        let k = sim.pick(&["authorization", "X-Api-Key", "x-api-key", "x-empty", "Cookie", "accept-language"]).to_string();
        let v = match sim.choose(5) {
            0 => String::new(),
            1 => format!("Bearer {}", sim.choose(1000)),
            2 => "a=b; c=d".into(),
            3 => "é".into(),
            _ => format!("v{}", sim.choose(1000)),
        };
        out.push((k, v));
    }
    if sim.chance(30) {
        out.push(sim.pick(&[("no name".to_string(), "x".to_string()), ("x-bad".to_string(), "a\nb".to_string())]).clone());
    }
    out
}

fn valid(h: &(String, String)) -> bool {
    http::HeaderName::try_from(h.0.as_str()).is_ok() && http::HeaderValue::try_from(h.1.as_str()).is_ok()
}

fn run(sim: &Sim) {
    reqwest::hook::install(network);
    let endpoints: Vec<Endpoint> = (0..1 + sim.choose(3)).map(|_| some_endpoint(sim)).collect();
    let n = 1 + sim.choose(4) as usize;
    let tasks: Vec<Task> = (0..n)
        .map(|i| Task {
            endpoint: sim.choose(endpoints.len() as u32) as usize,
            url: format!("http{}://client{i}.test{}", if sim.chance(500) { "s" } else { "" }, sim.pick(&["/", "/graphql", ":4000/a/b", "/g?x=1"])),
            headers: some_headers(sim),
        })
        .collect();
    let jobs: Vec<_> = tasks.iter().map(|t| (t.url.clone(), t.headers.clone())).collect();
    let faulty = *sim.pick(&[0, 100, 300, 600]);
    WORLD.with(|w| *w.borrow_mut() = Some(World { sim: sim.clone(), endpoints, tasks, log: vec![], faulty }));
    let seed = sim.entropy();
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()))
        .build()
        .unwrap();
    let local = tokio::task::LocalSet::new();
    let results: Vec<Option<Result<String, String>>> = local.block_on(&rt, async {
        ORIGIN.with(|o| o.set(Some(tokio::time::Instant::now())));
        simkit::hooks::set_clock_source(Some(clock));
        let mut hs = vec![];
        for (url, headers) in jobs {
            let start = Duration::from_micros(if sim.chance(500) { 0 } else { sim.log_range(1, 4_000_000) });
            let cancel = sim.chance(80).then(|| Duration::from_micros(sim.log_range(1, 8_000_000)));
            let h = tokio::task::spawn_local(async move {
                tokio::time::sleep(start).await;
                grafbase_graphql_introspection::introspect(&url, &headers).await
            });
            if let Some(c) = cancel {
                let a = h.abort_handle();
                tokio::task::spawn_local(async move {
                    tokio::time::sleep(c).await;
                    a.abort();
                });
            }
            hs.push(h);
        }
        let mut rs = vec![];
        for h in hs {
            rs.push(match tokio::time::timeout(Duration::from_secs(3600), h).await {
                Err(_) => {
                    sim.violate("stuck", "an introspection whose requests have all been answered doesn't end");
                    None
                }
                Ok(Ok(r)) => Some(r),
                Ok(Err(e)) if e.is_cancelled() => {
                    sim.fault("client gives up");
                    None
                }
                Ok(Err(e)) => {
                    sim.violate("panic", format!("{e}"));
                    None
                }
            });
        }
        simkit::hooks::set_clock_source(None);
        ORIGIN.with(|o| o.set(None));
        rs
    });
    drop(local);
    drop(rt);
    let w = WORLD.with(|w| w.borrow_mut().take()).unwrap();
    for (i, r) in results.into_iter().enumerate() {
        if let Some(r) = r {
            judge(sim, &w, i, r);
        }
    }
}

fn judge(sim: &Sim, w: &World, i: usize, r: Result<String, String>) {
    let t = &w.tasks[i];
    let e = &w.endpoints[t.endpoint];
    let mine: Vec<&Exchange> = w.log.iter().filter(|x| x.task == i).collect();
    let good = |a: Asks| mine.iter().any(|x| x.asks == a && x.good);
    if !t.headers.iter().all(valid) {
        sim.check(r.is_err() && mine.is_empty(), "bad-header-sent", || format!("headers {:?} are no headers, but {r:?}", t.headers));
        return;
    }
    sim.nontrivial();
    match r {
        Err(m) => {
            for a in [Asks::Sdl, Asks::Types] {
                sim.check(mine.iter().any(|x| x.asks == a), "gave-up-early", || format!("never asked for {a:?}, but reports {m:?}"));
                sim.check(!good(a), "answer-ignored", || format!("{a:?} was answered, but introspection fails with {m:?}"));
            }
            sim.check(!m.trim().is_empty(), "silent-failure", || "fails without a word".into());
            if let Some(x) = mine.iter().rev().find(|x| x.asks == Asks::Types) {
                for e in &x.errors {
                    sim.check(m.contains(e.as_str()), "error-swallowed", || format!("the endpoint reports {e:?}, the error says {m:?}"));
                }
            }
            sim.count("failed");
        }
        Ok(text) if good(Asks::Sdl) => {
            let sdl = e.sdl.as_ref().unwrap();
            match delta::read(sdl) {
                Err(_) => {
                    sim.check(text == *sdl, "sdl-altered", || format!("an SDL that cannot be parsed, {sdl:?}, has become {text:?}"));
                    sim.count("SDL no parser takes");
                }
                Ok(want) => match delta::read(&text) {
                    Err(m) => sim.violate("sdl-altered", format!("{sdl:?} has become {text:?}, which is no schema: {m}")),
                    Ok(got) => {
                        if let Some(d) = delta::compare(&want, &got) {
                            sim.violate("sdl-altered", d);
                        }
                        sim.count("SDL");
                    }
                },
            }
        }
        Ok(text) if good(Asks::Types) => {
            let want = told(&e.schema);
            match delta::read(&text) {
                Err(m) => sim.violate("types-altered", format!("{text:?} is no schema: {m}")),
                Ok(got) => {
                    if let Some(d) = delta::compare(&want, &told(&got)) {
                        sim.violate("types-altered", d);
                    }
                    sim.count(if e.modern { "types of a current server" } else { "types of an older server" });
                }
            }
        }
        Ok(text) => sim.violate("made-up", format!("nothing was answered, but the schema is {text:?}")),
    }
}

pub fn introspection() -> Prop {
    Prop {
        id: "I01",
        scenarios: vec![Scenario { name: "introspection", weight: 1, run }],
        rule: "a run counts if an introspection ended",
        real: &["grafbase-graphql-introspection", "cynic, cynic-introspection, cynic-parser", "tokio (timers are virtual)"],
        stub: &["reqwest 0.13 (shims/reqwest013)", "network and endpoints", "hash seeds come from the simulator"],
        assumptions: &["no redirects or compression; TLS is not simulated", "an endpoint that never answers is not simulated: the client has no time limit of its own"],
        quick: (20, 100_000),
        thorough: (600, 10_000_000),
    }
}
