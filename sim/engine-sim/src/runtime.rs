//! The simulated world of one engine: subgraph servers over a faulty network, caches, a clock.
use crate::exec::{Db, Exec, GErr, Seg};
use crate::gql::{self, J, Kind};
use crate::model::{Model, Sub};
use bytes::Bytes;
use engine::{CachedOperation, EngineOperationContext, EngineRequestContext, ErrorResponse, GraphqlError, Schema};
use engine_schema::{DirectiveSite, ExtensionDirective, FieldDefinition, GraphqlSubgraph, Subgraph, VirtualSubgraph};
use event_queue::{EventQueue, SubgraphResponse, SubgraphResponseBuilder};
use extension_catalog::ExtensionId;
use futures_util::future::BoxFuture;
use futures_util::stream::BoxStream;
use futures_util::{FutureExt, Stream, StreamExt};
use grafbase_telemetry::metrics::EngineMetrics;
use runtime::entity_cache::EntityCache;
use runtime::extension::*;
use runtime::fetch::{FetchError, FetchRequest, FetchResult, Fetcher, WebsocketRequest};
use runtime::rate_limiting::{RateLimitKey, RateLimiter, RateLimiterContext, RateLimiterInner};
use runtime::trusted_documents_client as td;
use simkit::{Sim, mix};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// How one subgraph misbehaves.
#[derive(Clone, Debug, Default)]
pub struct Sick {
    /// In permille of the requests.
    pub rate: u32,
    /// Only the first `limit` requests can be hit.
    pub limit: u64,
    pub kinds: Vec<Fault>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fault {
    Refused,
    /// The connection breaks after the server processed the request.
    Reset,
    Status500,
    /// Status 500 with a GraphQL response in it.
    Status503Body,
    Status429,
    Status400,
    Garbage,
    Truncated,
    Empty,
    WrongShape,
    NoData,
    NullData,
    EntitiesNull,
    EntitiesShort,
    /// A value somewhere in the data has another JSON type.
    WrongType,
    /// Fields, entities and extensions nobody asked for. Nothing is missing, so nothing may get lost.
    Extra,
    Hang,
}

pub const ALL_FAULTS: [Fault; 17] = [
    Fault::Refused,
    Fault::Reset,
    Fault::Status500,
    Fault::Status503Body,
    Fault::Status429,
    Fault::Status400,
    Fault::Garbage,
    Fault::Truncated,
    Fault::Empty,
    Fault::WrongShape,
    Fault::NoData,
    Fault::NullData,
    Fault::EntitiesNull,
    Fault::EntitiesShort,
    Fault::WrongType,
    Fault::Extra,
    Fault::Hang,
];

/// Gives the value with number `at` another type.
fn retype(v: &mut J, nodes: &mut u32, at: u32, sim: Option<&Sim>) {
    let me = *nodes;
    *nodes += 1;
    if let (true, Some(sim)) = (me == at, sim) {
        *v = match v {
            J::Obj(_) => sim.pick(&[J::Int(7), J::s("x"), J::Bool(true), J::Arr(vec![]), J::Arr(vec![J::Int(1), J::Null])]).clone(),
            J::Arr(_) => sim.pick(&[J::Int(7), J::s("x"), J::Obj(vec![]), J::Obj(vec![("zz".into(), J::Int(1))])]).clone(),
            J::Null => J::Null,
            _ => sim.pick(&[J::Obj(vec![("zz".into(), J::Int(1))]), J::Arr(vec![]), J::Arr(vec![J::Obj(vec![])])]).clone(),
        };
        return;
    }
    match v {
        J::Arr(a) => a.iter_mut().for_each(|v| retype(v, nodes, at, sim)),
        J::Obj(o) => o.iter_mut().for_each(|v| retype(&mut v.1, nodes, at, sim)),
        _ => {}
    }
}

/// Adds fields and entities.
fn extra(data: &mut J, sim: &Sim) {
    let J::Obj(o) = data else { return };
    let field = |o: &mut Vec<(String, J)>| {
        if sim.chance(600) {
            let at = sim.choose(o.len() as u32 + 1) as usize;
            let v = [J::Null, J::Int(1), J::Arr(vec![J::Obj(vec![("id".into(), J::Null)])]), J::Obj(vec![("id".into(), J::s("x"))])];
            o.insert(at, ("zz".into(), sim.pick(&v).clone()));
        }
    };
    for (k, v) in o.iter_mut() {
        if let (true, J::Arr(a)) = (k.starts_with("_entities"), v) {
            for v in a.iter_mut() {
                if let J::Obj(o) = v {
                    field(o);
                }
            }
            a.push(sim.pick(&[J::Null, J::Obj(vec![])]).clone());
        }
    }
    field(o);
}

impl Fault {
    fn name(self) -> &'static str {
        match self {
            Fault::Refused => "connection refused",
            Fault::Reset => "connection reset after processing",
            Fault::Status500 => "status 500",
            Fault::Status503Body => "status 503 with a body",
            Fault::Status429 => "status 429",
            Fault::Status400 => "status 400",
            Fault::Garbage => "garbage body",
            Fault::Truncated => "truncated body",
            Fault::Empty => "empty body",
            Fault::WrongShape => "body of the wrong shape",
            Fault::NoData => "errors without data",
            Fault::NullData => "data null",
            Fault::EntitiesNull => "entities lost",
            Fault::EntitiesShort => "too few entities",
            Fault::WrongType => "value of the wrong type",
            Fault::Extra => "unrequested data",
            Fault::Hang => "no answer until the timeout",
        }
    }
    /// Faults upon which the engine may send the request again.
    pub fn retryable(self) -> bool {
        matches!(
            self,
            Fault::Refused | Fault::Reset | Fault::Status500 | Fault::Status503Body | Fault::Status429 | Fault::Hang
        )
    }
}

/// One request as a subgraph saw it.
#[derive(Clone, Debug)]
pub struct Seen {
    pub sub: Sub,
    pub mutation: bool,
    /// Client request on whose behalf it was sent (header `x-sim-request`).
    pub client: Option<u64>,
    pub body: String,
    pub sent_ns: u64,
    /// When the engine got its answer; None if it gave up before.
    pub done_ns: Option<u64>,
    pub processed: bool,
    /// The plan's request this is an attempt of.
    pub plan: u64,
    /// No connection, no answer in time, 429 or 5xx.
    pub failed: bool,
    pub fault: Option<Fault>,
    pub timeout: Duration,
    pub headers: Vec<(String, String)>,
    /// How long the answer may be cached.
    pub cacheable: Option<Duration>,
}

#[derive(Default)]
pub struct Net {
    pub seen: Vec<Seen>,
    pub db: Db,
    /// Requests that aren't valid for the subgraph they were sent to.
    pub bad: Vec<String>,
    pub plans: u64,
    pub sub_events: Vec<(Sub, u64)>,
    pub inflight: i64,
    pub ratelimit_hits: u64,
    pub per_sub: BTreeMap<Sub, u64>,
}

pub struct WorldInner {
    pub sim: Sim,
    pub m: Model,
    pub sick: Mutex<BTreeMap<Sub, Sick>>,
    pub net: Mutex<Net>,
    /// Latency in microseconds: (least, most).
    pub latency: Mutex<(u64, u64)>,
    pub cache: Mutex<Cache>,
    pub limit: Mutex<Limit>,
    pub streams: Mutex<Streams>,
    /// Fixed answers instead of the model's: (subgraph, part of the request, answer).
    pub script: Mutex<Vec<(Sub, &'static str, &'static str)>>,
}

/// How the subgraphs run subscriptions.
#[derive(Clone, Default)]
pub struct Streams {
    pub events: u64,
    pub gap_us: (u64, u64),
    pub broken: Option<(u64, Fault)>,
}

#[derive(Default)]
pub struct Limit {
    /// Requests allowed per key; missing: unlimited.
    pub left: BTreeMap<String, u64>,
    pub refused: u64,
}

#[derive(Default)]
pub struct Cache {
    pub enabled: bool,
    pub entries: BTreeMap<String, (Vec<u8>, Option<u64>)>,
    pub fail_get: u32,
    pub fail_put: u32,
    pub drop: u32,
    pub latency_us: u64,
    pub hits: u64,
    /// When the entries expire that were served.
    pub served: Vec<u64>,
    pub puts: Vec<(String, Duration)>,
    /// Cache-Control headers that subgraphs may send; empty: none.
    pub controls: Vec<Control>,
    /// Time to live configured for each subgraph.
    pub ttls: Vec<Option<Duration>>,
    /// Everything that may be cached, and for how long.
    pub allowed: BTreeSet<(String, Duration)>,
}

/// What a subgraph's answer says about caching.
#[derive(Clone, Copy, Debug, Default)]
pub struct Control {
    pub header: Option<&'static str>,
    pub age: Option<u64>,
    pub forbidden: bool,
    pub max_age: Option<u64>,
}

impl Control {
    pub fn ttl(&self, configured: Option<Duration>) -> Option<Duration> {
        let configured = configured?;
        if self.forbidden {
            return None;
        }
        let ttl = match self.max_age {
            Some(s) => Duration::from_secs(s.saturating_sub(self.age.unwrap_or(0))),
            None => configured,
        };
        (!ttl.is_zero()).then_some(ttl)
    }
}

pub type World = Arc<WorldInner>;

pub fn world(sim: &Sim, m: Model) -> World {
    Arc::new(WorldInner {
        sim: sim.clone(),
        m,
        sick: Default::default(),
        net: Default::default(),
        latency: Mutex::new((100, 100_000)),
        cache: Default::default(),
        limit: Default::default(),
        streams: Default::default(),
        script: Default::default(),
    })
}

/// The virtual clock that tokio's timers run on.
pub fn now_ns(sim: &Sim) -> u64 {
    sim.now_ns()
}

impl WorldInner {
    fn delay(&self) -> Duration {
        let (lo, hi) = *self.latency.lock().unwrap();
        Duration::from_micros(if hi <= lo { lo } else { self.sim.log_range(lo, hi) })
    }

    pub fn sub_of(&self, url: &url::Url) -> Sub {
        let host = url.host_str().unwrap_or_default();
        let name = host.strip_suffix(".test").unwrap_or(host);
        self.m.subs.iter().position(|s| s == name).expect("request to an unknown subgraph")
    }

    fn pick_fault(&self, sub: Sub) -> Option<Fault> {
        let n = {
            let mut net = self.net.lock().unwrap();
            let c = net.per_sub.entry(sub).or_default();
            *c += 1;
            *c
        };
        let sick = self.sick.lock().unwrap();
        let s = sick.get(&sub)?;
        if n > s.limit || s.kinds.is_empty() || !self.sim.chance(s.rate) {
            return None;
        }
        let f = *self.sim.pick(&s.kinds);
        self.sim.fault(f.name());
        Some(f)
    }

    /// Runs a request on a subgraph server.
    fn serve(&self, sub: Sub, body: &[u8], fault: Option<Fault>, kind_check: impl Fn(Kind) -> bool, event: u64) -> (J, Vec<GErr>) {
        let name = &self.m.subs[sub];
        let mut bad = Vec::new();
        let out = (|| {
            let body = J::parse(body).map_err(|e| format!("request body: {e}"))?;
            let query = body.get("query").and_then(J::str).ok_or("no query")?;
            let op = gql::parse(query).map_err(|e| format!("query {query}: {e}"))?;
            if !kind_check(op.kind) {
                return Err(format!("operation {query} has the wrong kind"));
            }
            let vars = body.get("variables").cloned().unwrap_or(J::Obj(vec![]));
            let mut net = self.net.lock().unwrap();
            let mut x = Exec::new(&self.m, Some(sub), &op, &vars, &mut net.db);
            x.event = event;
            if fault == Some(Fault::EntitiesNull) {
                let n = vars.get("var0").or(vars.get("representations")).map_or(4, |v| v.arr().len());
                for i in 0..n.max(1) {
                    if self.sim.chance(600) {
                        x.entities_null.push(i);
                    }
                }
            }
            let data = x.run();
            for b in std::mem::take(&mut x.bad) {
                bad.push(format!("{b} in {query} with {}", vars.text()));
            }
            Ok((data, std::mem::take(&mut x.errors)))
        })();
        let r = match out {
            Ok(r) => r,
            Err(e) => {
                bad.push(e);
                (J::Null, vec![])
            }
        };
        if !bad.is_empty() {
            let mut net = self.net.lock().unwrap();
            for b in bad {
                net.bad.push(format!("{name}: {b}"));
            }
        }
        r
    }

    fn errors_json(errors: &[GErr]) -> J {
        J::Arr(
            errors
                .iter()
                .map(|e| {
                    let path = e
                        .path
                        .iter()
                        .map(|s| match s {
                            Seg::Key(k) => J::s(k.clone()),
                            Seg::Index(i) => J::Int(*i as i64),
                        })
                        .collect();
                    J::Obj(vec![("message".into(), J::s(e.message.clone())), ("path".into(), J::Arr(path))])
                })
                .collect(),
        )
    }

    fn respond(&self, sub: Sub, body: &[u8], fault: Option<Fault>, mutation: bool, event: u64) -> (http::StatusCode, Vec<u8>) {
        let sim = &self.sim;
        let ok = http::StatusCode::OK;
        let script = self.script.lock().unwrap();
        if !script.is_empty() {
            let text = String::from_utf8_lossy(body);
            let a = script.iter().find(|(s, part, _)| *s == sub && text.contains(part));
            let a = a.map_or(r#"{"errors":[{"message":"unexpected request"}]}"#, |a| a.2);
            return (ok, a.as_bytes().to_vec());
        }
        drop(script);
        match fault {
            Some(Fault::Status500) => return (http::StatusCode::INTERNAL_SERVER_ERROR, b"oops".to_vec()),
            Some(Fault::Status429) => return (http::StatusCode::TOO_MANY_REQUESTS, b"{}".to_vec()),
            Some(Fault::Status400) => return (http::StatusCode::BAD_REQUEST, b"<html>".to_vec()),
            Some(Fault::Garbage) => {
                return (ok, sim.pick(&["<html>", "{\"data\":", "nope", "{\"data\": {]}", "\u{0}"]).as_bytes().to_vec());
            }
            Some(Fault::Empty) => return (ok, vec![]),
            Some(Fault::WrongShape) => {
                let t = sim.pick(&[
                    "[]",
                    "{}",
                    "null",
                    "1",
                    "{\"data\":[]}",
                    "{\"data\":1}",
                    "{\"data\":{}}",
                    "{\"data\":{\"_entities\":{}}}",
                    "{\"data\":{\"_entities\":null}}",
                    "{\"data\":{\"_entities\":[1,2]}}",
                    "{\"errors\":{}}",
                    "{\"errors\":[]}",
                    "{\"data\":null}",
                    "{\"data\":null,\"errors\":[{\"message\":1}]}",
                    "{\"data\":null,\"errors\":null}",
                ]);
                return (ok, t.as_bytes().to_vec());
            }
            Some(Fault::NoData) => return (ok, b"{\"errors\":[{\"message\":\"no data today\"}]}".to_vec()),
            Some(Fault::NullData) => {
                return (ok, b"{\"data\":null,\"errors\":[{\"message\":\"no data today\",\"path\":[\"zz\",3]}]}".to_vec());
            }
            _ => {}
        }
        let want = if mutation { Kind::Mutation } else { Kind::Query };
        let (mut data, errors) = self.serve(sub, body, fault, |k| k == want, event);
        if fault == Some(Fault::EntitiesShort) {
            if let J::Obj(o) = &mut data {
                for (k, v) in o {
                    if let (true, J::Arr(a)) = (k.starts_with("_entities"), v) {
                        a.pop();
                    }
                }
            }
        }
        if fault == Some(Fault::WrongType) {
            let mut nodes = 0;
            retype(&mut data, &mut nodes, u32::MAX, None);
            let at = sim.choose(nodes.max(1));
            nodes = 0;
            retype(&mut data, &mut nodes, at, Some(sim));
        }
        if fault == Some(Fault::Extra) {
            extra(&mut data, sim);
        }
        let mut fields = vec![("data".to_string(), data)];
        if fault == Some(Fault::Extra) {
            let at = sim.choose(2) as usize;
            fields.insert(at, ("extensions".into(), J::Obj(vec![("data".into(), J::Null)])));
            if sim.chance(500) {
                fields.insert(at, ("errors".into(), J::Arr(vec![])));
            }
        }
        if !errors.is_empty() {
            let at = if sim.chance(500) { 0 } else { 1 };
            fields.insert(at, ("errors".into(), Self::errors_json(&errors)));
        }
        let mut text = J::Obj(fields).text().into_bytes();
        if fault == Some(Fault::Truncated) {
            text.truncate(sim.choose(text.len() as u32) as usize);
        }
        let status = if fault == Some(Fault::Status503Body) { http::StatusCode::SERVICE_UNAVAILABLE } else { ok };
        (status, text)
    }

    /// Decides what the answer says about caching, and notes what may be cached then.
    fn control(&self, at: usize, body: &[u8], failed: bool) -> Control {
        let mut cache = self.cache.lock().unwrap();
        if !cache.enabled {
            return Control::default();
        }
        let c = if cache.controls.is_empty() { Control::default() } else { *self.sim.pick(&cache.controls) };
        let mut net = self.net.lock().unwrap();
        let seen = &mut net.seen[at];
        let ttl = c.ttl(cache.ttls[seen.sub]);
        if let (false, Some(ttl), Ok(j)) = (failed, ttl, J::parse(body)) {
            if j.get("errors").is_none_or(|e| e.arr().is_empty()) {
                seen.cacheable = Some(ttl);
                cache.allowed.insert((String::from_utf8_lossy(body).into_owned(), ttl));
                let entities = j.get("data").and_then(|d| d.get("_entities"));
                for e in entities.map_or(&[][..], J::arr) {
                    cache.allowed.insert((e.text(), ttl));
                }
            }
        }
        c
    }

    async fn fetch(&self, req: FetchRequest<'_>) -> (FetchResult<http::Response<Bytes>>, Option<SubgraphResponseBuilder>) {
        let sim = &self.sim;
        let sub = self.sub_of(&req.url);
        let fault = self.pick_fault(sub);
        let client = req.headers.get("x-sim-request").and_then(|v| v.to_str().ok()?.parse().ok());
        let mut info = SubgraphResponse::builder();
        let at = {
            let mut net = self.net.lock().unwrap();
            net.seen.push(Seen {
                sub,
                mutation: req.is_mutation,
                client,
                body: String::from_utf8_lossy(&req.body).into_owned(),
                sent_ns: now_ns(sim),
                done_ns: None,
                processed: false,
                plan: req.headers.get("x-sim-plan").and_then(|v| v.to_str().ok()?.parse().ok()).unwrap_or(u64::MAX),
                failed: false,
                fault,
                timeout: req.timeout,
                headers: req.headers.iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect(),
                cacheable: None,
            });
            net.inflight += 1;
            net.seen.len() - 1
        };
        sim.event_with(sub as u64 ^ 0xfe7c, || format!("request {at} to {}: {} fault {fault:?}", self.m.subs[sub], String::from_utf8_lossy(&req.body)));
        struct Inflight<'a>(&'a Mutex<Net>);
        impl Drop for Inflight<'_> {
            fn drop(&mut self) {
                self.0.lock().unwrap().inflight -= 1;
            }
        }
        let _inflight = Inflight(&self.net);
        let go = async {
            tokio::time::sleep(self.delay()).await;
            if fault == Some(Fault::Refused) {
                return Err(FetchError::Reqwest("connection refused".into()));
            }
            if fault == Some(Fault::Hang) {
                if sim.chance(500) {
                    self.net.lock().unwrap().seen[at].processed = true;
                    self.respond(sub, &req.body, None, req.is_mutation, 0);
                }
                std::future::pending::<()>().await;
            }
            let salt = req.headers.get("x-tenant").map_or(0, |v| mix(v.as_bytes().iter().map(|b| *b as u64).sum()));
            self.net.lock().unwrap().db.salt = salt;
            let (status, body) = self.respond(sub, &req.body, fault, req.is_mutation, 0);
            let control = self.control(at, &body, fault.is_some_and(|f| !matches!(f, Fault::Extra | Fault::Status503Body)) || req.is_mutation);
            self.net.lock().unwrap().seen[at].processed =
                !matches!(fault, Some(Fault::Status500 | Fault::Status429 | Fault::Status400));
            tokio::time::sleep(self.delay()).await;
            if fault == Some(Fault::Reset) {
                return Err(FetchError::Reqwest("connection reset".into()));
            }
            let mut b = http::Response::builder().status(status).header("content-type", "application/json");
            if let Some(h) = control.header {
                b = b.header("cache-control", h);
            }
            if let Some(a) = control.age {
                b = b.header("age", a);
            }
            Ok(b.body(Bytes::from(body))
                .unwrap())
        };
        let r = tokio::time::timeout(req.timeout, go).await.unwrap_or_else(|_| Err(FetchError::Reqwest("operation timed out".into())));
        info.track_connection();
        info.track_response();
        let ns = now_ns(sim);
        {
            let seen = &mut self.net.lock().unwrap().seen[at];
            seen.done_ns = Some(ns);
            seen.failed = r.as_ref().map_or(true, |r| r.status().is_server_error() || r.status() == http::StatusCode::TOO_MANY_REQUESTS);
        }
        sim.event_with(at as u64, || match &r {
            Ok(r) => format!("answer {at}: {} {}", r.status(), String::from_utf8_lossy(r.body())),
            Err(e) => format!("answer {at}: {e}"),
        });
        (r, Some(info))
    }
}

#[derive(Clone)]
pub struct SimFetcher(pub World);

impl Fetcher for SimFetcher {
    async fn fetch(&self, request: FetchRequest<'_>) -> (FetchResult<http::Response<Bytes>>, Option<SubgraphResponseBuilder>) {
        self.0.fetch(request).await
    }

    async fn graphql_over_sse_stream(
        &self,
        request: WebsocketRequest<'_, Bytes>,
    ) -> FetchResult<impl Stream<Item = FetchResult<Bytes>> + Send + 'static> {
        let s = self.0.subscribe(&request.url, &request.body, request.timeout).await?;
        Ok(s.map(|r| r.map(Bytes::from)))
    }

    async fn graphql_over_websocket_stream<T>(
        &self,
        request: WebsocketRequest<'_, T>,
    ) -> FetchResult<impl Stream<Item = FetchResult<serde_json::Value>> + Send + 'static>
    where
        T: serde::Serialize + Send,
    {
        let body = serde_json::to_vec(&request.body).unwrap();
        let s = self.0.subscribe(&request.url, &body, request.timeout).await?;
        Ok(s.map(|r| {
            r.and_then(|b| serde_json::from_slice(&b).map_err(|e| FetchError::Message(format!("bad message: {e}"))))
        }))
    }
}

impl WorldInner {
    async fn subscribe(self: &World, url: &url::Url, body: &[u8], timeout: Duration) -> FetchResult<BoxStream<'static, FetchResult<Vec<u8>>>> {
        let sub = self.sub_of(url);
        let cfg = self.streams.lock().unwrap().clone();
        let fault = self.pick_fault(sub);
        let sim = self.sim.clone();
        sim.event_with(0x5b5, || format!("subscription at {}: {} fault {fault:?}", self.m.subs[sub], String::from_utf8_lossy(body)));
        let d = self.delay();
        tokio::time::timeout(timeout, tokio::time::sleep(d))
            .await
            .map_err(|_| FetchError::Reqwest("operation timed out".into()))?;
        if fault == Some(Fault::Refused) {
            return Err(FetchError::Reqwest("connection refused".into()));
        }
        let world = self.clone();
        let body = body.to_vec();
        let s = futures_util::stream::unfold((0u64, false), move |(i, over)| {
            let world = world.clone();
            let body = body.clone();
            let cfg = cfg.clone();
            async move {
                if i >= cfg.events || over {
                    return None;
                }
                let gap = world.sim.range(cfg.gap_us.0, cfg.gap_us.1);
                tokio::time::sleep(Duration::from_micros(gap)).await;
                if let Some((_, Fault::Reset)) = cfg.broken.filter(|b| b.0 == i) {
                    world.sim.fault("subscription broken");
                    return Some((Err(FetchError::Reqwest("connection reset".into())), (i + 1, true)));
                }
                let (data, errors) = world.serve(sub, &body, None, |k| k == Kind::Subscription, i);
                world.net.lock().unwrap().sub_events.push((sub, i));
                let mut fields = vec![("data".to_string(), data)];
                if !errors.is_empty() {
                    fields.push(("errors".into(), WorldInner::errors_json(&errors)));
                }
                let text = J::Obj(fields).text().into_bytes();
                world.sim.event_with(0x5b6, || format!("event {i}: {}", String::from_utf8_lossy(&text)));
                Some((Ok(text), (i + 1, false)))
            }
        });
        Ok(s.boxed())
    }
}

/// Operation cache that stores what a shared cache would: bytes.
pub struct OpCache {
    pub sim: Sim,
    pub mode: OpCacheMode,
    pub bytes: Mutex<BTreeMap<String, Vec<u8>>>,
    pub values: Mutex<BTreeMap<String, Arc<CachedOperation>>>,
    pub hits: Mutex<u64>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpCacheMode {
    Off,
    Memory,
    Bytes,
    /// Forgets entries at random, and is slow.
    Lossy,
}

impl runtime::operation_cache::OperationCache<Arc<CachedOperation>> for OpCache {
    async fn insert(&self, key: String, value: Arc<CachedOperation>) {
        match self.mode {
            OpCacheMode::Off => {}
            OpCacheMode::Memory => {
                self.values.lock().unwrap().insert(key, value);
            }
            OpCacheMode::Bytes | OpCacheMode::Lossy => match postcard::to_allocvec(&value) {
                Ok(b) => {
                    self.bytes.lock().unwrap().insert(key, b);
                }
                Err(e) => self.sim.violate("operation not cacheable", format!("{e}")),
            },
        }
    }

    async fn get(&self, key: &String) -> Option<Arc<CachedOperation>> {
        if !key.chars().all(|c| c.is_ascii_alphanumeric() || "-._~".contains(c)) {
            self.sim.violate("operation cache key", format!("key {key:?} is not URL-safe"));
        }
        let r = match self.mode {
            OpCacheMode::Off => None,
            OpCacheMode::Memory => self.values.lock().unwrap().get(key).cloned(),
            OpCacheMode::Bytes | OpCacheMode::Lossy => {
                if self.mode == OpCacheMode::Lossy {
                    tokio::time::sleep(Duration::from_micros(self.sim.range(0, 2000))).await;
                    if self.sim.chance(300) {
                        self.bytes.lock().unwrap().remove(key);
                    }
                }
                let b = self.bytes.lock().unwrap().get(key).cloned();
                b.and_then(|b| match postcard::from_bytes(&b) {
                    Ok(v) => Some(v),
                    Err(e) => {
                        self.sim.violate("operation not cacheable", format!("cannot be read back: {e}"));
                        None
                    }
                })
            }
        };
        if r.is_some() {
            *self.hits.lock().unwrap() += 1;
            self.sim.count("operation cache hits");
        }
        r
    }
}

struct EntCache(World);

impl EntityCache for EntCache {
    fn get<'a>(&'a self, name: &'a str) -> BoxFuture<'a, anyhow::Result<Option<Bytes>>> {
        async move {
            let w = &self.0;
            let (lat, fail, drop) = {
                let c = w.cache.lock().unwrap();
                (c.latency_us, c.fail_get, c.drop)
            };
            if lat > 0 {
                tokio::time::sleep(Duration::from_micros(w.sim.range(0, lat))).await;
            }
            if w.sim.chance(fail) {
                w.sim.fault("entity cache read error");
                anyhow::bail!("cache down");
            }
            let now = now_ns(&w.sim);
            let mut c = w.cache.lock().unwrap();
            if w.sim.chance(drop) {
                w.sim.fault("entity cache eviction");
                c.entries.remove(name);
            }
            let hit = match c.entries.get(name) {
                Some((b, exp)) if exp.is_none_or(|e| e > now) => Some(Bytes::from(b.clone())),
                _ => None,
            };
            if hit.is_some() {
                let until = c.entries[name].1.unwrap_or(u64::MAX);
                c.served.push(until);
                c.hits += 1;
                w.sim.count("entity cache hits");
            }
            Ok(hit)
        }
        .boxed()
    }

    fn put<'a>(&'a self, name: &'a str, bytes: Cow<'a, [u8]>, ttl: Duration) -> BoxFuture<'a, anyhow::Result<()>> {
        async move {
            let w = &self.0;
            let (lat, fail) = {
                let c = w.cache.lock().unwrap();
                (c.latency_us, c.fail_put)
            };
            if lat > 0 {
                tokio::time::sleep(Duration::from_micros(w.sim.range(0, lat))).await;
            }
            if w.sim.chance(fail) {
                w.sim.fault("entity cache write error");
                anyhow::bail!("cache down");
            }
            let now = now_ns(&w.sim);
            let mut c = w.cache.lock().unwrap();
            w.sim.event_with(0xca, || format!("cache put {name} = {} for {ttl:?}", String::from_utf8_lossy(&bytes)));
            let text = String::from_utf8_lossy(&bytes).into_owned();
            if !c.ttls.is_empty() && !ttl.is_zero() && !c.allowed.contains(&(text.clone(), ttl)) {
                w.sim.violate("cached what must not be cached", format!("{text} for {ttl:?}"));
            }
            let exp = now.checked_add(ttl.as_nanos().min(u64::MAX as u128) as u64);
            c.entries.insert(name.to_string(), (bytes.into_owned(), exp));
            c.puts.push((name.to_string(), ttl));
            Ok(())
        }
        .boxed()
    }
}

struct SimLimiter(World);

impl RateLimiterInner for SimLimiter {
    fn limit<'a>(&'a self, context: &'a dyn RateLimiterContext) -> BoxFuture<'a, Result<(), runtime::rate_limiting::Error>> {
        async move {
            let key = match context.key() {
                Some(RateLimitKey::Global) => "global".to_string(),
                Some(RateLimitKey::Subgraph(s)) => s.to_string(),
                None => "none".into(),
            };
            let mut l = self.0.limit.lock().unwrap();
            if let Some(n) = l.left.get_mut(&key) {
                if *n == 0 {
                    l.refused += 1;
                    self.0.sim.event(format!("rate limit {key}"));
                    self.0.sim.fault("rate limit refusal");
                    return Err(runtime::rate_limiting::Error::ExceededCapacity);
                }
                *n -= 1;
            }
            Ok(())
        }
        .boxed()
    }
}

pub struct TrustedDocs {
    pub world: World,
    pub mode: td::TrustedDocumentsEnforcementMode,
    pub docs: BTreeMap<String, String>,
    pub bypass: Option<(String, String)>,
    pub fail: u32,
}

impl td::TrustedDocumentsClient for TrustedDocs {
    fn enforcement_mode(&self) -> td::TrustedDocumentsEnforcementMode {
        self.mode
    }
    fn bypass_header(&self) -> Option<(&str, &str)> {
        self.bypass.as_ref().map(|(a, b)| (a.as_str(), b.as_str()))
    }
    fn fetch<'a, 'b, 'c, 'f>(&'a self, client: &'b str, id: &'c str) -> std::pin::Pin<Box<dyn Future<Output = td::TrustedDocumentsResult<String>> + Send + 'f>>
    where
        'a: 'f,
        'b: 'f,
        'c: 'f,
        Self: 'f,
    {
        async move {
            let w = &self.world;
            tokio::time::sleep(w.delay()).await;
            if w.sim.chance(self.fail) {
                w.sim.fault("trusted document store error");
                return Err(td::TrustedDocumentsError::RetrievalError("store down".into()));
            }
            let key = format!("{client}/{id}");
            self.docs.get(&key).cloned().ok_or(td::TrustedDocumentsError::DocumentNotFound)
        }
        .boxed()
    }
}

pub struct SimRuntime {
    pub world: World,
    pub fetcher: SimFetcher,
    pub trusted: td::Client,
    pub metrics: EngineMetrics,
    pub ops: OpCache,
    pub limiter: RateLimiter,
    pub ents: Box<dyn EntityCache>,
    pub ext: Ext,
}

impl SimRuntime {
    pub fn new(world: &World, mode: OpCacheMode) -> SimRuntime {
        SimRuntime {
            world: world.clone(),
            fetcher: SimFetcher(world.clone()),
            trusted: td::Client::new(()),
            metrics: EngineMetrics::build(&grafbase_telemetry::metrics::meter_from_global_provider(), None),
            ops: OpCache { sim: world.sim.clone(), mode, bytes: Default::default(), values: Default::default(), hits: Default::default() },
            limiter: RateLimiter::new(SimLimiter(world.clone())),
            ents: if world.cache.lock().unwrap().enabled { Box::new(EntCache(world.clone())) } else { Box::new(()) },
            ext: Ext { world: world.clone() },
        }
    }
}

impl engine::Runtime for SimRuntime {
    type Fetcher = SimFetcher;
    type OperationCache = OpCache;
    type Extensions = Ext;

    fn fetcher(&self) -> &SimFetcher {
        &self.fetcher
    }
    fn trusted_documents(&self) -> &td::Client {
        &self.trusted
    }
    fn metrics(&self) -> &EngineMetrics {
        &self.metrics
    }
    fn operation_cache(&self) -> &OpCache {
        &self.ops
    }
    fn rate_limiter(&self) -> &RateLimiter {
        &self.limiter
    }
    async fn sleep(&self, duration: Duration) {
        tokio::time::sleep(duration).await
    }
    fn entity_cache(&self) -> &dyn EntityCache {
        &*self.ents
    }
    fn extensions(&self) -> &Ext {
        &self.ext
    }
    async fn clone_and_adjust_for_contract(&self, _schema: &Arc<Schema>) -> Result<Self, String> {
        Ok(SimRuntime::new(&self.world, self.ops.mode))
    }
}

/// No extension is installed in the simulated gateways.
#[derive(Clone)]
pub struct Ext {
    #[allow(dead_code)]
    pub world: World,
}

impl EngineExtensions<EngineRequestContext, EngineOperationContext> for Ext {}

impl AuthorizationExtension<EngineRequestContext, EngineOperationContext> for Ext {
    #[allow(clippy::manual_async_fn)]
    fn authorize_query<'ctx, 'fut, Extensions, Arguments>(
        &'ctx self,
        _ctx: EngineRequestContext,
        subgraph_headers: http::HeaderMap,
        _extensions: Extensions,
        _directives: impl ExactSizeIterator<Item = (&'ctx str, Range<usize>)>,
        _query_elements: impl ExactSizeIterator<Item = QueryElement<'ctx, Arguments>>,
    ) -> impl Future<Output = Result<AuthorizeQuery, ErrorResponse>> + Send + 'fut
    where
        'ctx: 'fut,
        Extensions: IntoIterator<
                Item = (ExtensionId, Range<usize>, Range<usize>),
                IntoIter: ExactSizeIterator<Item = (ExtensionId, Range<usize>, Range<usize>)>,
            > + Send
            + Clone
            + 'ctx,
        Arguments: Anything<'ctx>,
    {
        async move { Ok(AuthorizeQuery { headers: subgraph_headers, decisions: vec![], context: vec![], state: vec![] }) }
    }

    #[allow(clippy::manual_async_fn)]
    fn authorize_response<'ctx, 'fut>(
        &'ctx self,
        _ctx: EngineOperationContext,
        _extension_id: ExtensionId,
        _directive_name: &'ctx str,
        _directive_site: DirectiveSite<'ctx>,
        _items: impl IntoIterator<Item: Anything<'ctx>>,
    ) -> impl Future<Output = Result<AuthorizationDecisions, GraphqlError>> + Send + 'fut
    where
        'ctx: 'fut,
    {
        async move { Ok(AuthorizationDecisions::GrantAll) }
    }
}

impl FieldResolverExtension for Ext {
    #[allow(clippy::manual_async_fn)]
    fn resolve_field<'ctx, 'resp, 'f>(
        &'ctx self,
        _directive: ExtensionDirective<'ctx>,
        _field_definition: FieldDefinition<'ctx>,
        _subgraph_headers: http::HeaderMap,
        _directive_arguments: impl Anything<'ctx>,
        _inputs: impl Iterator<Item: Anything<'resp>> + Send,
    ) -> impl Future<Output = Result<Vec<Result<Data, GraphqlError>>, GraphqlError>> + Send + 'f
    where
        'ctx: 'f,
    {
        async move { unreachable!("no extension") }
    }

    #[allow(clippy::manual_async_fn)]
    fn resolve_subscription_field<'ctx, 'f>(
        &'ctx self,
        _directive: ExtensionDirective<'ctx>,
        _field_definition: FieldDefinition<'ctx>,
        _subgraph_headers: http::HeaderMap,
        _directive_arguments: impl Anything<'ctx>,
    ) -> impl Future<Output = Result<BoxStream<'f, Result<Data, GraphqlError>>, GraphqlError>> + Send + 'f
    where
        'ctx: 'f,
    {
        async move { unreachable!("no extension") }
    }
}

impl SelectionSetResolverExtension for Ext {
    async fn prepare<'ctx, F: Field<'ctx>>(&'ctx self, _: ExtensionId, _: Subgraph<'ctx>, _: F) -> Result<Vec<u8>, GraphqlError> {
        unreachable!("no extension")
    }

    #[allow(clippy::manual_async_fn)]
    fn resolve<'ctx, 'resp, 'f>(
        &'ctx self,
        _extension_id: ExtensionId,
        _subgraph: Subgraph<'ctx>,
        _prepared_data: &'ctx [u8],
        _subgraph_headers: http::HeaderMap,
        _arguments: impl Iterator<Item = (ArgumentsId, impl Anything<'resp>)> + Send,
    ) -> impl Future<Output = Result<Data, GraphqlError>> + Send + 'f
    where
        'ctx: 'f,
    {
        async move { unreachable!("no extension") }
    }
}

impl ResolverExtension<EngineOperationContext> for Ext {
    async fn prepare<'ctx, F: Field<'ctx>>(
        &'ctx self,
        _event_queue: Arc<EventQueue>,
        _directive: ExtensionDirective<'ctx>,
        _directive_arguments: impl Anything<'ctx>,
        _field: F,
    ) -> Result<Vec<u8>, GraphqlError> {
        unreachable!("no extension")
    }

    type Arguments = ();
    fn prepare_arguments<'resp>(&self, _: impl IntoIterator<Item = (ArgumentsId, impl Anything<'resp>)> + Send) {}

    async fn resolve<'ctx>(
        &'ctx self,
        _ctx: EngineOperationContext,
        _directive: ExtensionDirective<'ctx>,
        _prepared_data: &'ctx [u8],
        _subgraph_headers: http::HeaderMap,
        _arguments: (),
    ) -> Response {
        unreachable!("no extension")
    }

    #[allow(clippy::manual_async_fn)]
    fn resolve_subscription<'ctx, 's>(
        &'ctx self,
        _ctx: EngineOperationContext,
        _directive: ExtensionDirective<'ctx>,
        _prepared_data: &'ctx [u8],
        _subgraph_headers: http::HeaderMap,
        _arguments: (),
    ) -> impl Future<Output = BoxStream<'s, Response>> + Send
    where
        'ctx: 's,
    {
        async move { unreachable!("no extension") }
    }
}

impl ContractsExtension for Ext {
    async fn construct(&self, _key: String, _schema: Schema) -> Option<Schema> {
        None
    }
}

impl EngineHooksExtension<EngineOperationContext> for Ext {
    async fn on_graphql_subgraph_request<'r>(
        &self,
        _context: EngineOperationContext,
        _subgraph: GraphqlSubgraph<'_>,
        mut parts: ReqwestParts<'r>,
    ) -> Result<ReqwestParts<'r>, GraphqlError> {
        // Every attempt of a request carries the same number.
        let n = {
            let mut net = self.world.net.lock().unwrap();
            net.plans += 1;
            net.plans
        };
        parts.headers.insert("x-sim-plan", n.into());
        Ok(parts)
    }

    async fn on_virtual_subgraph_request(
        &self,
        _context: EngineOperationContext,
        _subgraph: VirtualSubgraph<'_>,
        headers: http::HeaderMap,
    ) -> Result<http::HeaderMap, GraphqlError> {
        Ok(headers)
    }
}

pub type Set<T> = BTreeSet<T>;
