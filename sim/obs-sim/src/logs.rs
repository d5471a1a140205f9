//! Log records exported from interleaved tasks and threads.
use futures::FutureExt;
use grafbase_telemetry::otel::logs::bridge::OtelLogsLayer;
use opentelemetry::logs::{AnyValue, Severity};
use opentelemetry::trace::{SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState, TracerProvider};
use opentelemetry::{Context, InstrumentationScope};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{LogProcessor, SdkLogRecord, SdkLoggerProvider};
use opentelemetry_sdk::trace::{IdGenerator, Sampler, SdkTracerProvider, Span as SdkSpan, SpanData, SpanProcessor};
use simkit::hooks::guard;
use simkit::runner::{Prop, Scenario};
use simkit::{Sim, threads};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context as TaskContext, Poll};
use tracing::Instrument;
use tracing_opentelemetry::OpenTelemetrySpanExt;
use tracing_subscriber::layer::SubscriberExt;

#[derive(Debug, Default, Clone)]
struct Captured {
    logs: Arc<Mutex<Vec<SdkLogRecord>>>,
    spans: Arc<Mutex<Vec<SpanData>>>,
}

impl LogProcessor for Captured {
    fn emit(&self, data: &mut SdkLogRecord, _: &InstrumentationScope) {
        guard(|| self.logs.lock().unwrap().push(data.clone()));
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}

impl SpanProcessor for Captured {
    fn on_start(&self, _: &mut SdkSpan, _: &Context) {}
    fn on_end(&self, span: SpanData) {
        guard(|| self.spans.lock().unwrap().push(span));
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _: std::time::Duration) -> OTelSdkResult {
        Ok(())
    }
}

#[derive(Debug)]
struct Ids(Mutex<u64>);

impl IdGenerator for Ids {
    fn new_trace_id(&self) -> TraceId {
        guard(|| {
            let mut n = self.0.lock().unwrap();
            *n += 1;
            TraceId::from(0x1000_0000_0000_0000_0000_0000_0000_0000u128 + *n as u128)
        })
    }
    fn new_span_id(&self) -> SpanId {
        guard(|| {
            let mut n = self.0.lock().unwrap();
            *n += 1;
            SpanId::from(0x2000_0000_0000_0000u64 + *n)
        })
    }
}

/// What one emitted event must look like when exported.
#[derive(Clone, Debug)]
struct Emitted {
    id: i64,
    /// Name of the innermost span the event was emitted in.
    span: Option<String>,
    level: &'static str,
    text: String,
    field: String,
    num: Num,
    error: Option<String>,
    wide: Option<Wide>,
}

/// An event with many fields, for a target of its own.
#[derive(Clone, Debug)]
struct Wide {
    many: [Option<i64>; 24],
    debug: Vec<String>,
    bytes: Vec<u8>,
}

#[derive(Clone, Debug)]
enum Num {
    U(u64),
    I(i64),
    F(f64),
    B(bool),
    U128(u128),
    I128(i128),
    None,
}

#[derive(Debug)]
struct Failure(String);
impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Failure {}

struct World {
    sim: Sim,
    emitted: Mutex<Vec<Emitted>>,
    next: Mutex<i64>,
    /// Span name -> trace id it must belong to (of its remote parent), if set.
    remote: Mutex<Vec<(String, TraceId)>>,
    /// Open spans another piece of work can emit events for.
    open: Mutex<Vec<(String, tracing::Span)>>,
    /// Roots whose caller decided not to sample the trace: their spans aren't exported.
    unsampled: Mutex<Vec<String>>,
}

fn text(sim: &Sim) -> String {
    let unit = *sim.pick(&["a", "é", "日", "🦀", "\"", "\n"]);
    let n = match sim.choose(6) {
        0 => 0,
        1 | 2 => sim.range(1, 20),
        3 => (1024 / unit.len() as u64) + sim.range(0, 4) - 2,
        4 => sim.range(1, 1100),
        _ => (8192 / unit.len() as u64) + sim.range(0, 4) - 2,
    };
    let mut s = "a".repeat(sim.choose(4) as usize);
    s.push_str(&unit.repeat(n as usize));
    s
}

fn emit(w: &World, current: Option<&str>) {
    let sim = &w.sim;
    // Usually the event belongs to the current span; it can name another one, or none, itself.
    let explicit: Option<(Option<String>, Option<tracing::Span>)> = if sim.chance(800) {
        None
    } else {
        let open = guard(|| w.open.lock().unwrap().clone());
        match sim.choose(open.len() as u32 + 1) as usize {
            0 => Some((None, None)),
            n => Some((Some(open[n - 1].0.clone()), Some(open[n - 1].1.clone()))),
        }
    };
    let span = match &explicit {
        Some((name, _)) => name.as_deref(),
        None => current,
    };
    let id = guard(|| {
        let mut n = w.next.lock().unwrap();
        *n += 1;
        *n
    });
    let (msg, field) = (text(sim), text(sim));
    let num = match sim.choose(7) {
        0 => Num::None,
        1 => Num::U(*sim.pick(&[0, 7, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX])),
        2 => Num::I(*sim.pick(&[0, -1, i64::MIN, i64::MAX])),
        3 => Num::F(1.5),
        4 => Num::B(sim.chance(500)),
        5 => Num::U128(*sim.pick(&[5, u128::MAX, i64::MAX as u128 + 1])),
        _ => Num::I128(*sim.pick(&[-5, i128::MIN, i64::MIN as i128 - 1])),
    };
    let error = sim.chance(300).then(|| text(sim));
    let level = *sim.pick(&["INFO", "ERROR", "WARN", "DEBUG", "TRACE"]);
    let wide = sim.chance(150).then(|| Wide {
        many: {
            let n = sim.choose(25) as usize;
            std::array::from_fn(|i| (i < n).then_some(id * 100 + i as i64))
        },
        debug: (0..sim.choose(3)).map(|_| text(sim)).collect(),
        bytes: text(sim).into_bytes(),
    });
    let (num, error, level) = if wide.is_some() { (Num::None, None, "INFO") } else { (num, error, level) };
    let e = Emitted { id, span: span.map(str::to_string), level, text: msg.clone(), field: field.clone(), num: num.clone(), error: error.clone(), wide: wide.clone() };
    guard(|| w.emitted.lock().unwrap().push(e));
    sim.event_with(id as u64, || format!("event {id} in {span:?} level {level} message {} bytes, field {} bytes", msg.len(), field.len()));
    if let Some(Wide { many: m, debug: listed, bytes: blob }) = &wide {
        macro_rules! wide {
            ($($parent:tt)*) => {
                tracing::event!(target: "sim::wide", $($parent)* tracing::Level::INFO, id, field = %field, listed = ?listed, bytes = blob.as_slice(),
                    m0 = m[0], m1 = m[1], m2 = m[2], m3 = m[3], m4 = m[4], m5 = m[5], m6 = m[6], m7 = m[7], m8 = m[8], m9 = m[9], m10 = m[10], m11 = m[11],
                    m12 = m[12], m13 = m[13], m14 = m[14], m15 = m[15], m16 = m[16], m17 = m[17], m18 = m[18], m19 = m[19], m20 = m[20], m21 = m[21],
                    m22 = m[22], m23 = m[23], "{}", msg)
            };
        }
        match &explicit {
            None => wide!(),
            Some((_, parent)) => wide!(parent: parent.as_ref().and_then(|p| p.id()),),
        }
        return;
    }
    let err = error.map(Failure);
    let err = err.as_ref().map(|e| e as &(dyn std::error::Error + 'static));
    macro_rules! at {
        ($lvl:ident, $v:expr) => {
            match (&explicit, err) {
                (None, Some(err)) => tracing::$lvl!(id, num = $v, field = field.as_str(), failure = err, "{}", msg),
                (None, None) => tracing::$lvl!(id, num = $v, field = field.as_str(), "{}", msg),
                (Some((_, parent)), Some(err)) => {
                    tracing::$lvl!(parent: parent.as_ref().and_then(|p| p.id()), id, num = $v, field = field.as_str(), failure = err, "{}", msg)
                }
                (Some((_, parent)), None) => {
                    tracing::$lvl!(parent: parent.as_ref().and_then(|p| p.id()), id, num = $v, field = field.as_str(), "{}", msg)
                }
            }
        };
    }
    macro_rules! leveled {
        ($v:expr) => {
            match level {
                "ERROR" => at!(error, $v),
                "WARN" => at!(warn, $v),
                "INFO" => at!(info, $v),
                "DEBUG" => at!(debug, $v),
                _ => at!(trace, $v),
            }
        };
    }
    match num {
        Num::None => leveled!(tracing::field::Empty),
        Num::U(v) => leveled!(v),
        Num::I(v) => leveled!(v),
        Num::F(v) => leveled!(v),
        Num::B(v) => leveled!(v),
        Num::U128(v) => leveled!(v),
        Num::I128(v) => leveled!(v),
    }
}

/// Future that is pending once: an await point the scheduler may use.
pub struct YieldOnce(bool);
impl YieldOnce {
    pub fn new() -> Self {
        YieldOnce(false)
    }
}
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut TaskContext<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

/// A piece of work: events, nested spans, await points.
fn work(w: Arc<World>, span: Option<String>, depth: u32, path: String) -> Pin<Box<dyn Future<Output = ()> + Send>> {
    async move {
        let sim = w.sim.clone();
        for i in 0..sim.range(1, 4) {
            match sim.choose(5) {
                0 | 1 => emit(&w, span.as_deref()),
                2 => {
                    sim.event_with(1, || format!("{path} awaits"));
                    YieldOnce(false).await
                }
                3 if depth < 3 => {
                    let name = format!("{path}.{i}");
                    let inner = make_span(&w, &name, false);
                    work(w.clone(), Some(name.clone()), depth + 1, name).instrument(inner).await;
                }
                4 if depth < 3 => {
                    // A synchronous section inside an entered span.
                    let name = format!("{path}/{i}");
                    let inner = make_span(&w, &name, false);
                    inner.in_scope(|| emit(&w, Some(&name)));
                }
                _ => threads::yield_point("task step"),
            }
        }
        emit(&w, span.as_deref());
    }
    .boxed()
}

fn make_span(w: &World, name: &str, root: bool) -> tracing::Span {
    let span = if root {
        tracing::info_span!(parent: None, "unit", "otel.name" = name)
    } else {
        tracing::info_span!("unit", "otel.name" = name)
    };
    if root && w.sim.chance(500) {
        let n = w.sim.range(1, 1_000_000) as u128;
        let sampled = w.sim.chance(800);
        if !sampled {
            guard(|| w.unsampled.lock().unwrap().push(name.to_string()));
        }
        let trace = TraceId::from(0x7000_0000_0000_0000_0000_0000_0000_0000u128 + n);
        let cx = Context::new().with_remote_span_context(SpanContext::new(
            trace,
            SpanId::from(0x7000_0000_0000_0000u64 + n as u64),
            if sampled { TraceFlags::SAMPLED } else { TraceFlags::default() },
            true,
            TraceState::default(),
        ));
        span.set_parent(cx);
        guard(|| w.remote.lock().unwrap().push((name.to_string(), trace)));
    }
    if w.sim.chance(400) {
        guard(|| w.open.lock().unwrap().push((name.to_string(), span.clone())));
    }
    span
}

/// Polls tasks one at a time in the order the tape chooses.
pub fn execute(sim: &Sim, mut tasks: Vec<Pin<Box<dyn Future<Output = ()> + Send>>>) {
    let waker = futures::task::noop_waker();
    let mut cx = TaskContext::from_waker(&waker);
    while !tasks.is_empty() {
        let i = sim.choose(tasks.len() as u32) as usize;
        sim.event_with(i as u64 ^ 0x99, || format!("poll task {i} of {}", tasks.len()));
        if tasks[i].as_mut().poll(&mut cx).is_ready() {
            drop(tasks.remove(i));
        }
    }
}

fn run(sim: &Sim) {
    let cap = Captured::default();
    let tracer = SdkTracerProvider::builder()
        .with_id_generator(Ids(Mutex::new(0)))
        .with_sampler(Sampler::ParentBased(Box::new(Sampler::AlwaysOn)))
        .with_span_processor(cap.clone())
        .build();
    let logger = SdkLoggerProvider::builder().with_log_processor(cap.clone()).build();
    let otel_logs = OtelLogsLayer::new(logger.clone());
    // The gateway stacks the log layer above or below the trace layer depending on its configuration.
    let dispatch = if sim.chance(500) {
        let layer = tracing_opentelemetry::layer().with_tracer(tracer.tracer("sim"));
        tracing::Dispatch::new(tracing_subscriber::registry().with(layer).with(otel_logs))
    } else {
        let layer = tracing_opentelemetry::layer().with_tracer(tracer.tracer("sim"));
        tracing::Dispatch::new(tracing_subscriber::registry().with(otel_logs).with(layer))
    };
    let w = Arc::new(World { sim: sim.clone(), emitted: Default::default(), next: Mutex::new(0), remote: Default::default(), open: Default::default(), unsampled: Default::default() });
    let n_threads = sim.range(1, 3) as usize;
    let mut groups: Vec<Vec<Pin<Box<dyn Future<Output = ()> + Send>>>> = Vec::new();
    tracing::dispatcher::with_default(&dispatch, || {
        for t in 0..n_threads {
            let mut tasks = Vec::new();
            for k in 0..sim.range(1, 3) {
                let name = format!("r{t}{k}");
                if sim.chance(100) {
                    tasks.push(work(w.clone(), None, 0, name));
                } else {
                    let span = make_span(&w, &name, true);
                    tasks.push(work(w.clone(), Some(name.clone()), 0, name).instrument(span).boxed());
                }
            }
            groups.push(tasks);
        }
    });
    if n_threads > 1 || groups.iter().any(|g| g.len() > 1) {
        sim.nontrivial();
    }
    let mut bodies: Vec<threads::Body> = Vec::new();
    for tasks in groups {
        let (sim, dispatch) = (sim.clone(), dispatch.clone());
        bodies.push(Box::new(move || tracing::dispatcher::with_default(&dispatch, || execute(&sim, tasks))));
    }
    threads::run_threads(sim, bodies);
    tracing::dispatcher::with_default(&dispatch, || w.open.lock().unwrap().clear());
    drop(dispatch);
    if !sim.violated() {
        judge(sim, &w, &cap);
    }
    let _ = tracer.shutdown();
}

const MARK: &str = "...[truncated]";

/// `got` is `full`, or a prefix of it followed by the truncation mark, never over `max` bytes of content.
fn bounded(got: &str, full: &str, min: usize, max: usize) -> bool {
    if got == full {
        return full.len() <= max;
    }
    match got.strip_suffix(MARK) {
        Some(p) => full.starts_with(p) && full.len() > min && p.len() <= max && p.len() + 4 > min,
        None => false,
    }
}

fn judge(sim: &Sim, w: &World, cap: &Captured) {
    let emitted = w.emitted.lock().unwrap();
    let logs = cap.logs.lock().unwrap();
    let spans = cap.spans.lock().unwrap();
    sim.count_n("log records", logs.len() as u64);
    let attr = |r: &SdkLogRecord, k: &str| r.attributes_iter().find(|(a, _)| a.as_str() == k).map(|(_, v)| v.clone());
    if logs.len() != emitted.len() {
        sim.violate("log record lost or duplicated", format!("{} events emitted, {} records exported", emitted.len(), logs.len()));
        return;
    }
    for e in emitted.iter() {
        let found: Vec<_> = logs.iter().filter(|r| attr(r, "id") == Some(AnyValue::Int(e.id))).collect();
        if found.len() != 1 {
            sim.violate("log record lost or duplicated", format!("event {} was exported {} times", e.id, found.len()));
            return;
        }
        let r = found[0];
        match (&e.span, r.trace_context()) {
            (None, None) => {}
            (None, Some(c)) => {
                sim.violate("log record in a foreign trace", format!("event {} was emitted outside any span, exported in {c:?}", e.id));
            }
            (Some(s), None) => sim.violate("log record without its trace", format!("event {} of span {s}", e.id)),
            (Some(name), Some(c)) => {
                let root = name.split(['.', '/']).next().unwrap();
                let sampled = !w.unsampled.lock().unwrap().iter().any(|r| r == root);
                sim.check(c.trace_flags.is_some_and(|f| f.is_sampled() == sampled), "log record flags", || format!("event {} of a trace with sampled = {sampled} has flags {:?}", e.id, c.trace_flags));
                if !sampled {
                    let remote = w.remote.lock().unwrap().iter().find(|x| x.0 == root).unwrap().1;
                    if c.trace_id != remote {
                        sim.violate("log record in a foreign trace", format!("event {} left the trace of its caller", e.id));
                    }
                    sim.count("records of unsampled traces");
                    if !texts(sim, r, e) {
                        return;
                    }
                    continue;
                }
                let Some(sp) = spans.iter().find(|sp| sp.name == *name) else {
                    sim.violate("span not exported", name.clone());
                    return;
                };
                if c.span_id != sp.span_context.span_id() || c.trace_id != sp.span_context.trace_id() {
                    sim.violate(
                        "log record in a foreign trace",
                        format!(
                            "event {} of span {name} (trace {}, span {}) was exported with trace {}, span {}",
                            e.id, sp.span_context.trace_id(), sp.span_context.span_id(), c.trace_id, c.span_id
                        ),
                    );
                    return;
                }
                if let Some((_, t)) = w.remote.lock().unwrap().iter().find(|x| x.0 == root) {
                    if c.trace_id != *t {
                        sim.violate("log record in a foreign trace", format!("event {} left the trace of its caller", e.id));
                    }
                }
            }
        }
        if !texts(sim, r, e) {
            return;
        }
    }
}

/// Everything but the trace.
fn texts(sim: &Sim, r: &SdkLogRecord, e: &Emitted) -> bool {
    let attr = |r: &SdkLogRecord, k: &str| r.attributes_iter().find(|(a, _)| a.as_str() == k).map(|(_, v)| v.clone());
        sim.check(r.severity_text() == Some(e.level), "log record level", || format!("event {}: {:?} for {}", e.id, r.severity_text(), e.level));
        let body = match r.body() {
            Some(AnyValue::String(s)) => s.as_str().to_string(),
            o => format!("{o:?}"),
        };
        if !bounded(&body, &e.text, 1024, 8192) {
            sim.violate("log message", format!("event {}: a message of {} bytes was exported as {} bytes", e.id, e.text.len(), body.len()));
        }
        let str_attr = |k: &str| match attr(r, k) {
            Some(AnyValue::String(s)) => Some(s.as_str().to_string()),
            Some(o) => Some(format!("{o:?}")),
            None => None,
        };
        if !str_attr("field").is_some_and(|f| bounded(&f, &e.field, 1024, 1024)) {
            sim.violate("log field", format!("event {}: a field of {} bytes was exported as {:?} bytes", e.id, e.field.len(), str_attr("field").map(|f| f.len())));
        }
        if let Some(err) = &e.error {
            for k in ["exception.message", "failure"] {
                if !str_attr(k).is_some_and(|f| bounded(&f, err, 1024, 1024)) {
                    sim.violate("log error", format!("event {}: an error of {} bytes was exported as {:?}", e.id, err.len(), str_attr(k).map(|f| f.len())));
                }
            }
        }
        let want = match e.num {
            Num::None => None,
            Num::U(v) => Some(i64::try_from(v).map(AnyValue::from).unwrap_or_else(|_| AnyValue::from(v.to_string()))),
            Num::I(v) => Some(AnyValue::from(v)),
            Num::F(v) => Some(AnyValue::from(v)),
            Num::B(v) => Some(AnyValue::from(v)),
            Num::U128(v) => Some(i64::try_from(v).map(AnyValue::from).unwrap_or_else(|_| AnyValue::from(v.to_string()))),
            Num::I128(v) => Some(i64::try_from(v).map(AnyValue::from).unwrap_or_else(|_| AnyValue::from(v.to_string()))),
        };
        sim.check(attr(r, "num") == want, "log field", || format!("event {}: number {:?} exported as {:?}", e.id, e.num, attr(r, "num")));
        let severity = match e.level {
            "ERROR" => Severity::Error,
            "WARN" => Severity::Warn,
            "INFO" => Severity::Info,
            "DEBUG" => Severity::Debug,
            _ => Severity::Trace,
        };
        sim.check(r.severity_number() == Some(severity), "log record level", || format!("event {}: {:?} for {}", e.id, r.severity_number(), e.level));
        let target = if e.wide.is_some() { "sim::wide" } else { module_path!() };
        sim.check(r.target().is_some_and(|t| t == target), "log record source", || format!("event {} of {target} has target {:?}", e.id, r.target()));
        let line = match attr(r, "code.lineno") {
            Some(AnyValue::Int(n)) => n,
            _ => 0,
        };
        sim.check(r.event_name() == Some(format!("event {}:{line}", file!()).as_str()), "log record source", || format!("event {} has name {:?} and line {line}", e.id, r.event_name()));
        for (k, v) in [("code.namespace", module_path!()), ("code.filepath", file!()), ("code.filename", "logs.rs")] {
            sim.check(str_attr(k).as_deref() == Some(v), "log record source", || format!("event {}: {k} is {:?}", e.id, str_attr(k)));
        }
        if let Some(w) = &e.wide {
            for (i, v) in w.many.iter().enumerate() {
                let got = attr(r, &format!("m{i}"));
                sim.check(got == v.map(AnyValue::from), "log field", || format!("event {}: m{i} = {v:?} exported as {got:?}", e.id));
            }
            let debug = format!("{:?}", w.debug);
            sim.check(str_attr("listed").is_some_and(|f| bounded(&f, &debug, 1024, 1024)), "log field", || format!("event {}: {} bytes exported as {:?}", e.id, debug.len(), str_attr("listed")));
            let cut = &w.bytes[..w.bytes.len().min(1024)];
            let got = attr(r, "bytes");
            sim.check(matches!(&got, Some(AnyValue::Bytes(b)) if b.as_slice() == cut), "log field", || format!("event {}: {} bytes exported as {got:?}", e.id, w.bytes.len()));
        }
        let mut keys: Vec<String> = r.attributes_iter().map(|(k, _)| k.to_string()).collect();
        keys.sort();
        sim.check(keys.windows(2).all(|w| w[0] != w[1]), "log field duplicated", || format!("event {} has {keys:?}", e.id));
        let dropped = attr(r, "otel.fields_dropped");
        sim.check(matches!(dropped, None | Some(AnyValue::Int(0))), "log field", || format!("event {} is said to have lost fields: {dropped:?}", e.id));
        let known = |k: &str| matches!(k, "id" | "field" | "num" | "failure" | "exception.message" | "listed" | "bytes") || k.starts_with("code.") || k.starts_with("otel.") || k.strip_prefix('m').is_some_and(|n| n.parse::<usize>().is_ok());
        sim.check(keys.iter().all(|k| known(k)), "foreign log field", || format!("event {} has {keys:?}", e.id));
        sim.check(e.error.is_some() || (attr(r, "failure").is_none() && attr(r, "exception.message").is_none()), "foreign log field", || format!("event {} has {keys:?}", e.id));
    !sim.violated()
}

pub fn context() -> Prop {
    Prop {
        id: "T01",
        scenarios: vec![Scenario { name: "interleaved tasks", weight: 1, run }],
        rule: "one run = 1-3 threads, each polling 1-3 tasks in an order the tape chooses; tasks open nested spans, await inside them, and emit events with texts around the size limits; roots may continue a remote trace; non-trivial when two tasks or threads interleave; distinct by hash of the history",
        real: &["OTLP log bridge layer of grafbase-telemetry", "tracing, tracing-subscriber, tracing-opentelemetry, opentelemetry_sdk"],
        stub: &["OTLP exporters: records and spans are captured in memory", "task executor and OS thread scheduling: the tape", "clock, entropy, span id generator: seeded"],
        assumptions: &["at most 32 fields per event, the limit of the tracing macros"],
        quick: (20, 150_000),
        thorough: (240, 10_000_000),
    }
}
