//! The gateway event queue under concurrent producers and consumers, on a virtual clock.
use enumflags2::BitFlags;
use event_queue::*;
use grafbase_telemetry::graphql::GraphqlResponseStatus;
use simkit::hooks::guard;
use simkit::runner::{Prop, Scenario};
use simkit::{Sim, threads};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
struct Expected {
    producer: usize,
    id: u64,
    admitted: bool,
    text: String,
    /// (name, shortest, longest) possible durations in ns.
    durations: Vec<(&'static str, u64, u64)>,
    start: u64,
    finish: u64,
}

#[derive(Default)]
struct Log {
    stamp: u64,
    pushed: Vec<Expected>,
    /// (consumer, start, finish, event)
    popped: Vec<(usize, u64, u64, Event)>,
    empty: Vec<(u64, u64)>,
}

type Shared = Arc<Mutex<Log>>;

fn with<R>(l: &Shared, f: impl FnOnce(&mut Log) -> R) -> R {
    guard(|| f(&mut l.lock().unwrap_or_else(|e| e.into_inner())))
}

fn stamp(l: &Shared) -> u64 {
    with(l, |l| {
        l.stamp += 1;
        l.stamp
    })
}

const TYPES: [EventFilterType; 4] =
    [EventFilterType::Operation, EventFilterType::SubgraphRequest, EventFilterType::HttpRequest, EventFilterType::Extension];

fn status(sim: &Sim) -> GraphqlResponseStatus {
    match sim.choose(4) {
        0 => GraphqlResponseStatus::Success,
        1 => GraphqlResponseStatus::FieldError { count: sim.range(1, 9), data_is_null: sim.chance(500) },
        2 => GraphqlResponseStatus::RequestError { count: sim.range(1, 9) },
        _ => GraphqlResponseStatus::RefusedRequest,
    }
}

fn pass_time(sim: &Sim, jumps: bool) {
    match sim.choose(4) {
        0 => {}
        1 => sim.advance_ns(sim.range(1, 5_000_000)),
        2 => sim.advance_ns(sim.range(1, 60) * 1_000_000_000),
        _ if jumps => {
            let ns = sim.range(1, 3_600_000_000_000) as i64;
            sim.fault("wall clock jump");
            sim.jump_wall_ns(if sim.chance(500) { ns } else { -ns });
        }
        _ => sim.advance_ns(1),
    }
}

fn canon(e: &Event) -> String {
    match e {
        Event::Operation(o) => format!(
            "operation name={:?} doc={} cached={} status={:?} type={:?} complexity={:?} deprecated={}",
            o.name, o.document, o.cached_plan, o.status, o.operation_type, o.complexity, o.has_deprecated_fields
        ),
        Event::Subgraph(s) => format!(
            "subgraph {} {} {} execs=[{}] cache={:?} errors={}",
            s.subgraph_name,
            s.method,
            s.url,
            s.executions.iter().map(exec).collect::<Vec<_>>().join(","),
            s.cache_status,
            s.has_errors
        ),
        Event::Http(h) => format!("http {} {} {}", h.method, h.url, h.response_status),
        Event::Extension(x) => format!("extension {} {} {:?}", x.extension_name, x.event_name, x.data),
    }
}

fn exec(e: &RequestExecution) -> String {
    match e {
        RequestExecution::InternalServerError => "5xx".into(),
        RequestExecution::RequestError => "error".into(),
        RequestExecution::RateLimited => "limited".into(),
        RequestExecution::Response(r) => format!("{} {:?}", r.status, r.headers),
    }
}

fn durations(e: &Event) -> Vec<(&'static str, u64)> {
    match e {
        Event::Operation(o) => {
            vec![("preparation", o.prepare_duration.as_nanos() as u64), ("operation", o.duration.as_nanos() as u64)]
        }
        Event::Subgraph(s) => {
            let mut v = vec![("subgraph request", s.total_duration.as_nanos() as u64)];
            for e in &s.executions {
                if let RequestExecution::Response(r) = e {
                    v.push(("connection", r.connection_time.as_nanos() as u64));
                    v.push(("response", r.response_time.as_nanos() as u64));
                }
            }
            v
        }
        _ => vec![],
    }
}

/// Runs `f` and brackets it with clock readings.
fn timed<R>(sim: &Sim, f: impl FnOnce() -> R) -> (R, (u64, u64)) {
    let a = sim.now_ns();
    let r = f();
    (r, (a, sim.now_ns()))
}

fn span(from: (u64, u64), to: (u64, u64)) -> (u64, u64) {
    (to.0.saturating_sub(from.1), to.1.saturating_sub(from.0))
}

fn produce(sim: &Sim, q: &EventQueue, log: &Shared, producer: usize, id: u64, admits: &dyn Fn(usize) -> bool, jumps: bool) {
    let kind = sim.choose(4) as usize;
    let admitted = admits(kind);
    let mut x = Expected { producer, id, admitted, text: String::new(), durations: vec![], start: 0, finish: 0 };
    let maybe_time = |sim: &Sim| pass_time(sim, jumps);
    match kind {
        0 => {
            let ty = *sim.pick(&[OperationType::Query, OperationType::Mutation, OperationType::Subscription]);
            let doc: Arc<str> = format!("query Q{id}").into();
            let name = format!("N{}", sim.choose(5));
            let dflt = sim.chance(300);
            let (mut b, t0) = timed(sim, || if dflt { ExecutedOperation::builder_with_default() } else { ExecutedOperation::builder(ty) });
            let (mut m_name, mut cached, mut st, mut mty, mut cx, mut dep) =
                (None, false, GraphqlResponseStatus::Success, if dflt { OperationType::Query } else { ty }, None, false);
            b.document(&doc);
            let mut prep = (0, 0);
            for _ in 0..sim.choose(6) {
                maybe_time(sim);
                match sim.choose(7) {
                    0 => {
                        b.name(&name);
                        m_name = Some(name.clone());
                    }
                    1 => {
                        cached = sim.chance(500);
                        b.cached_plan(cached);
                    }
                    2 => {
                        st = status(sim);
                        b.status(st);
                    }
                    3 => {
                        mty = *sim.pick(&[OperationType::Query, OperationType::Mutation, OperationType::Subscription]);
                        b.operation_type(mty);
                    }
                    4 => {
                        let c = sim.range(0, 100);
                        cx = Some(c);
                        b.complexity(c);
                    }
                    5 => {
                        dep = sim.chance(500);
                        b.has_deprecated_fields(dep);
                    }
                    _ => {
                        let (d, t) = timed(sim, || b.track_prepare());
                        prep = span(t0, t);
                        let d = d.as_nanos() as u64;
                        if d < prep.0 || d > prep.1 {
                            sim.violate("wrong duration", format!("preparation reported {d} ns, elapsed {prep:?} ns"));
                        }
                    }
                }
            }
            maybe_time(sim);
            x.start = stamp(log);
            let (_, t1) = timed(sim, || q.push_operation(b));
            let total = span(t0, t1);
            x.durations = vec![("preparation", prep.0, prep.1), ("operation", total.0, total.1)];
            x.text = format!(
                "operation name={m_name:?} doc={doc} cached={cached} status={st:?} type={mty:?} complexity={cx:?} deprecated={dep}"
            );
        }
        1 => {
            let url = format!("http://s/{id}");
            let name = format!("sub{}", sim.choose(3));
            let method = sim.pick(&[http::Method::POST, http::Method::GET]).clone();
            let (mut b, t0) = timed(sim, || ExecutedSubgraphRequest::builder(&name, method.clone(), &url));
            let (mut cache, mut errors, mut execs, mut ds) = ("Miss", false, Vec::new(), Vec::new());
            for _ in 0..sim.choose(6) {
                maybe_time(sim);
                match sim.choose(6) {
                    0 => {
                        b.push_execution(RequestExecution::InternalServerError);
                        execs.push("5xx".to_string());
                    }
                    1 => {
                        b.push_execution(RequestExecution::RequestError);
                        execs.push("error".into());
                    }
                    2 => {
                        b.push_execution(RequestExecution::RateLimited);
                        execs.push("limited".into());
                    }
                    3 => {
                        let (mut rb, r0) = timed(sim, SubgraphResponse::builder);
                        let (mut conn, mut resp) = ((0, 0), (0, 0));
                        let mut code = http::StatusCode::OK;
                        let mut headers = http::HeaderMap::new();
                        for _ in 0..sim.choose(5) {
                            maybe_time(sim);
                            match sim.choose(4) {
                                0 => conn = span(r0, timed(sim, || rb.track_connection()).1),
                                1 => resp = span(r0, timed(sim, || rb.track_response()).1),
                                2 => {
                                    code = *sim.pick(&[http::StatusCode::OK, http::StatusCode::NOT_FOUND]);
                                    rb.status(code);
                                }
                                _ => {
                                    headers = http::HeaderMap::new();
                                    headers.insert("x-id", id.into());
                                    rb.headers(headers.clone());
                                }
                            }
                        }
                        b.push_execution(RequestExecution::Response(rb.build()));
                        execs.push(format!("{code} {headers:?}"));
                        ds.push(("connection", conn.0, conn.1));
                        ds.push(("response", resp.0, resp.1));
                    }
                    4 => {
                        let c = *sim.pick(&[CacheStatus::Hit, CacheStatus::PartialHit, CacheStatus::Miss]);
                        cache = match c {
                            CacheStatus::Hit => "Hit",
                            CacheStatus::PartialHit => "PartialHit",
                            CacheStatus::Miss => "Miss",
                        };
                        b.cache_status(c);
                    }
                    _ => {
                        let st = status(sim);
                        errors = !matches!(st, GraphqlResponseStatus::Success);
                        b.graphql_response_status(st);
                    }
                }
            }
            maybe_time(sim);
            x.start = stamp(log);
            let (_, t1) = timed(sim, || q.push_subgraph_request(b));
            let total = span(t0, t1);
            x.durations = vec![("subgraph request", total.0, total.1)];
            x.durations.extend(ds);
            x.text = format!("subgraph {name} {method} {url} execs=[{}] cache={cache} errors={errors}", execs.join(","));
        }
        2 => {
            let url = format!("http://h/{id}");
            let mut b = ExecutedHttpRequest::builder(&url);
            let (mut m, mut c) = (http::Method::POST, http::StatusCode::OK);
            if sim.chance(500) {
                m = sim.pick(&[http::Method::GET, http::Method::PUT]).clone();
                b = b.method(m.clone());
            }
            if sim.chance(500) {
                c = *sim.pick(&[http::StatusCode::BAD_GATEWAY, http::StatusCode::OK]);
                b = b.response_status(c);
            }
            x.start = stamp(log);
            q.push_http_request(b);
            x.text = format!("http {m} {url} {c}");
        }
        _ => {
            let fails = sim.chance(250);
            let mut calls = 0;
            let data: Vec<u8> = (0..sim.choose(4)).map(|i| i as u8).collect();
            x.start = stamp(log);
            let d2 = data.clone();
            let r: Result<(), u64> = q.push_extension_event(|| {
                calls += 1;
                threads::yield_point("extension event built");
                if fails {
                    return Err(id);
                }
                Ok(ExtensionEvent { extension_name: "ext".into(), event_name: format!("e{id}"), data: d2 })
            });
            let want_calls = admitted as u32;
            sim.check(calls == want_calls, "extension event evaluated when filtered", || {
                format!("the event builder ran {calls} times, expected {want_calls}")
            });
            let want = if admitted && fails { Err(id) } else { Ok(()) };
            sim.check(r == want, "extension event result", || format!("push returned {r:?}, expected {want:?}"));
            if fails {
                x.admitted = false;
            }
            x.text = format!("extension ext e{id} {data:?}");
        }
    }
    x.finish = stamp(log);
    sim.event_with(id ^ ((x.admitted as u64) << 40), || format!("t{producer} pushed {} (admitted {})", x.text, x.admitted));
    with(log, |l| l.pushed.push(x));
}

fn run(sim: &Sim, timing: bool) {
    let filter = match sim.choose(4) {
        0 | 1 => Some(EventFilter::All),
        2 => {
            let mut f = BitFlags::empty();
            for t in TYPES {
                if sim.chance(500) {
                    f |= t;
                }
            }
            Some(EventFilter::Types(f))
        }
        _ => None,
    };
    let filter = if timing { Some(EventFilter::All) } else { filter };
    sim.event(format!("filter {filter:?}"));
    let q = Arc::new(if filter.is_none() && sim.chance(300) { EventQueue::default() } else { EventQueue::new(filter) });
    let log: Shared = Default::default();
    let producers = sim.range(1, 4) as usize;
    let consumers = sim.choose(3) as usize;
    if producers + consumers > 1 {
        sim.nontrivial();
    }
    let mut bodies: Vec<threads::Body> = Vec::new();
    for p in 0..producers {
        let (sim, q, log) = (sim.clone(), q.clone(), log.clone());
        bodies.push(Box::new(move || {
            let admits = |k: usize| match filter {
                Some(EventFilter::All) => true,
                Some(EventFilter::Types(f)) => f.contains(TYPES[k]),
                None => false,
            };
            for i in 0..sim.range(1, 6) {
                produce(&sim, &q, &log, p, p as u64 * 1000 + i, &admits, timing);
                threads::yield_point("between events");
            }
        }));
    }
    for c in 0..consumers {
        let (sim, q, log) = (sim.clone(), q.clone(), log.clone());
        bodies.push(Box::new(move || {
            for _ in 0..sim.range(1, 8) {
                pop(&q, &log, c);
                threads::yield_point("between pops");
            }
        }));
    }
    threads::run_threads(sim, bodies);
    if sim.violated() {
        return;
    }
    while pop(&q, &log, consumers) {}
    let l = std::mem::take(&mut *log.lock().unwrap());
    judge(sim, l, consumers, timing);
}

fn pop(q: &EventQueue, log: &Shared, c: usize) -> bool {
    let s = stamp(log);
    let e = q.pop();
    let f = stamp(log);
    let some = e.is_some();
    with(log, |l| match e {
        Some(e) => l.popped.push((c, s, f, e)),
        None => l.empty.push((s, f)),
    });
    some
}

fn judge(sim: &Sim, l: Log, consumers: usize, timing: bool) {
    let mut matched = Vec::new();
    let mut left: Vec<Expected> = l.pushed.iter().filter(|x| x.admitted).cloned().collect();
    for (c, s, f, e) in &l.popped {
        let text = canon(e);
        sim.event(format!("consumer {c} popped {text}"));
        let Some(at) = left.iter().position(|x| x.text == text) else {
            sim.violate("event not expected", format!("popped `{text}`, which no producer pushed, or which was filtered or popped before"));
            return;
        };
        let x = left.swap_remove(at);
        if timing {
            let got = durations(e);
            for (i, (name, lo, hi)) in x.durations.iter().enumerate() {
                let v = got.get(i).map(|g| g.1).unwrap_or(u64::MAX);
                if v < *lo || v > *hi {
                    sim.violate("wrong duration", format!("{name} of `{text}`: recorded {v} ns, elapsed {lo}..={hi} ns"));
                    return;
                }
            }
        }
        if x.start > *f {
            sim.violate("event popped before it was pushed", text.clone());
        }
        matched.push((*c, *s, *f, x));
    }
    if timing {
        return;
    }
    if !left.is_empty() {
        sim.violate("event lost", format!("{} admitted events were never delivered, e.g. `{}`", left.len(), left[0].text));
        return;
    }
    // One consumer at a time: earlier pushes come out first.
    for c in 0..=consumers {
        let seq: Vec<&Expected> = matched.iter().filter(|m| m.0 == c).map(|m| &m.3).collect();
        for (i, a) in seq.iter().enumerate() {
            for b in &seq[i + 1..] {
                if b.finish < a.start || (a.producer == b.producer && b.id < a.id) {
                    sim.violate("events reordered", format!("`{}` came out before `{}`, which was pushed earlier", a.text, b.text));
                    return;
                }
            }
        }
    }
    for (s, f) in &l.empty {
        let certain = l.pushed.iter().filter(|x| x.admitted && x.finish < *s).count();
        let gone = matched.iter().filter(|m| m.1 < *f).count();
        if certain > gone {
            sim.violate("queue claims to be empty", format!("{certain} events had been pushed and at most {gone} taken"));
            return;
        }
    }
}

pub fn delivery() -> Prop {
    Prop {
        id: "E01",
        scenarios: vec![Scenario { name: "delivery", weight: 1, run: |s| run(s, false) }],
        rule: "one run = 1-4 producer threads and 0-2 consumer threads over one queue with a random filter, interleaved by the seeded scheduler at every queue operation, clock read and event boundary; non-trivial when at least two threads ran; distinct by hash of the history including every context switch",
        real: &["event-queue (all of it)", "crossbeam SegQueue (upstream code with a scheduling hook before and after each operation)"],
        stub: &["OS thread scheduling: one thread at a time, chosen by the tape", "clock_gettime: virtual clock"],
        assumptions: &["interleavings inside one lock-free queue operation are left to crossbeam's own correctness"],
        quick: (20, 150_000),
        thorough: (240, 10_000_000),
    }
}

pub fn timing() -> Prop {
    Prop {
        id: "E02",
        scenarios: vec![Scenario { name: "timing", weight: 1, run: |s| run(s, true) }],
        rule: "as E01, with time passing between any two builder calls and the wall clock jumping; non-trivial when at least two threads ran or the clock jumped; distinct by hash of the history",
        real: &["event-queue (all of it)", "crossbeam SegQueue"],
        stub: &["OS thread scheduling", "clock_gettime: virtual monotonic and wall clocks"],
        assumptions: &["durations are judged against the monotonic clock read before and after each call"],
        quick: (15, 150_000),
        thorough: (120, 10_000_000),
    }
}
