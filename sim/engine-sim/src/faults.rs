//! Q02: failing subgraphs cost their own fields only, and never correctness.
use crate::answers::{check_bad, op_mode};
use crate::exec::{Db, Exec};
use crate::gateway::{self, Reply, request_body};
use crate::gql::{J, Kind, Op};
use crate::model::{Base, Field, Gen, Model, Ty};
use crate::ops;
use crate::runtime::{ALL_FAULTS, Fault, Sick, World, world};
use simkit::Sim;
use simkit::runner::{Prop, Scenario};
use std::collections::BTreeMap;
use std::time::Duration;

type Notes<'a> = BTreeMap<String, &'a Field>;

/// The reference answer, and what is known about each field in it.
pub fn annotated<'a>(w: &'a World, op: &'a Op, vars: &'a J, db: &'a mut Db) -> (J, Notes<'a>) {
    let mut x = Exec::new(&w.m, None, op, vars, db);
    x.notes = Some(Notes::new());
    let data = x.run();
    assert!(x.bad.is_empty() && x.errors.is_empty(), "generated operation is invalid: {:?} in {}", x.bad, op.print());
    (data, x.notes.take().unwrap())
}

/// Whether a value is one of the type. (What is inside of objects is not checked.)
fn conforms(v: &J, ty: &Ty) -> bool {
    match (v, ty) {
        (J::Null, t) => !t.nn(),
        (J::Arr(a), Ty::List(t, _)) => a.iter().all(|v| conforms(v, t)),
        (_, Ty::List(..)) => false,
        (v, Ty::Named(b, _)) => match b {
            Base::Int => matches!(v, J::Int(i) if i32::try_from(*i).is_ok()),
            Base::Float => matches!(v, J::Int(_) | J::Float(_)),
            Base::Str | Base::Id | Base::Enum => matches!(v, J::Str(_)),
            Base::Bool => matches!(v, J::Bool(_)),
            Base::Json => true,
            Base::Obj(_) | Base::Iface(_) | Base::Union(_) => matches!(v, J::Obj(_)),
        },
    }
}

/// Checks that an answer differs from the reference by nulls only, in nullable places. Returns the paths lost.
pub fn degraded(notes: &Notes, got: &J, want: &J, retyped: bool) -> Result<Vec<String>, String> {
    fn walk(notes: &Notes, got: &J, want: &J, ty: Option<&Ty>, exact: bool, path: &str, lost: &mut Vec<String>) -> Result<(), String> {
        match (got, want) {
            (J::Null, J::Null) => Ok(()),
            (J::Null, _) => {
                if ty.is_some_and(Ty::nn) {
                    return Err(format!("{path} is null but its type is non-null"));
                }
                lost.push(path.to_string());
                Ok(())
            }
            (J::Obj(a), J::Obj(b)) if !exact && a.iter().map(|x| &x.0).eq(b.iter().map(|x| &x.0)) => {
                for ((k, x), (_, y)) in a.iter().zip(b) {
                    let p = format!("{path}/{k}");
                    walk(notes, x, y, notes.get(&p).map(|f| &f.ty), false, &p, lost)?;
                }
                Ok(())
            }
            (v, _) if !exact => match ty.is_none_or(|t| conforms(v, t)) {
                true => Ok(()),
                false => Err(format!("{path} is {}, which isn't of its type", v.text())),
            },
            (J::Arr(a), J::Arr(b)) if ty.is_none_or(Ty::is_list) && ty.is_some() => {
                if a.len() != b.len() {
                    return Err(format!("{path} has {} items instead of {}", a.len(), b.len()));
                }
                let inner = match ty {
                    Some(Ty::List(t, _)) => Some(&**t),
                    _ => None,
                };
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    walk(notes, x, y, inner, exact, &format!("{path}/{i}"), lost)?;
                }
                Ok(())
            }
            (J::Obj(a), J::Obj(b)) if path.is_empty() || ty.is_some_and(|t| matches!(t.base(), Base::Obj(_) | Base::Iface(_) | Base::Union(_))) => {
                let (ka, kb): (Vec<_>, Vec<_>) = (a.iter().map(|x| &x.0).collect(), b.iter().map(|x| &x.0).collect());
                if ka != kb {
                    return Err(format!("{path} has the fields {ka:?} instead of {kb:?}"));
                }
                for ((k, x), (_, y)) in a.iter().zip(b) {
                    let p = format!("{path}/{k}");
                    let note = notes.get(&p);
                    // A field computed from a field that was lost may have another value.
                    walk(notes, x, y, note.map(|f| &f.ty), exact && note.is_none_or(|f| f.requires.is_none()), &p, lost)?;
                }
                Ok(())
            }
            (a, b) if a.text() == b.text() => Ok(()),
            (a, b) => Err(format!("{path} is {} instead of {}", a.text(), b.text())),
        }
    }
    let mut lost = Vec::new();
    if !got.is_null() {
        walk(notes, got, want, None, !retyped, "", &mut lost)?;
    } else {
        lost.push(String::new());
    }
    Ok(lost)
}

/// Root fields (response keys) that only `sub` has a part in.
fn alone(notes: &Notes, key: &str) -> Option<usize> {
    let root = notes.get(&format!("/{key}"))?;
    let [sub] = root.owners[..] else { return None };
    let prefix = format!("/{key}/");
    notes
        .range(prefix.clone()..)
        .take_while(|(p, _)| p.starts_with(&prefix))
        .all(|(_, f)| f.requires.is_none() && f.owners == [sub] || f.key && f.owners.contains(&sub))
        .then_some(sub)
}

fn check(sim: &Sim, w: &World, notes: &Notes, text: &str, vars: &J, want: &J, reply: &Reply, faults: &[(usize, Fault)]) {
    let ctx = || format!("operation {text} with {} answered {}, without faults {}", vars.text(), reply.text, want.text());
    let Some(got) = reply.data() else {
        sim.violate("no data", ctx());
        return;
    };
    let lost = match degraded(notes, got, want, faults.iter().any(|f| f.1 == Fault::WrongType)) {
        Ok(l) => l,
        Err(e) => {
            sim.violate("wrong data under faults", format!("{e}: {}", ctx()));
            return;
        }
    };
    let errors = reply.errors();
    let faults: Vec<_> = faults.iter().filter(|f| f.1 != Fault::Extra).copied().collect();
    if faults.is_empty() && (!lost.is_empty() || !errors.is_empty()) {
        sim.violate("failure without a fault", ctx());
    }
    // An entity that its subgraph does not know, and a field that it leaves out, are null without an error.
    let silent = faults.iter().any(|f| matches!(f.1, Fault::EntitiesNull | Fault::WrongShape | Fault::WrongType));
    if !lost.is_empty() && errors.is_empty() && !silent {
        sim.violate("data lost without an error", format!("{lost:?}: {}", ctx()));
    }
    // Fields of healthy subgraphs.
    let J::Obj(fields) = want else { return };
    let healthy = |key: &str| alone(notes, key).is_some_and(|s| !faults.iter().any(|f| f.0 == s));
    if got.is_null() {
        if fields.iter().all(|(k, _)| healthy(k) || notes.get(&format!("/{k}")).is_none_or(|f| !f.ty.nn())) {
            sim.violate("failure not isolated", format!("no data although every failed field is nullable: {}", ctx()));
        }
        return;
    }
    for (k, v) in fields {
        if healthy(k) {
            sim.count("isolated fields");
            if got.get(k).is_none_or(|g| g.text() != v.text()) {
                sim.violate("failure not isolated", format!("{k} only needs a healthy subgraph: {}", ctx()));
            }
        }
    }
    let _ = w;
}

fn isolation(sim: &Sim) {
    let m = Model::generate(sim, Gen::default());
    let w = world(sim, m);
    for s in 0..w.m.subs.len() {
        if sim.chance(500) {
            let kinds = (0..sim.range(1, 4)).map(|_| *sim.pick(&ALL_FAULTS)).collect();
            w.sick.lock().unwrap().insert(s, Sick { rate: *sim.pick(&[1000, 500, 200]), limit: u64::MAX, kinds });
        }
    }
    gateway::run(sim, Duration::from_secs(100_000), async {
        let Some(sdl) = gateway::compose(&w) else { return };
        let Some(g) = gateway::build(&w, &sdl, "[gateway]\ntimeout = \"1000m\"\n", op_mode(sim), |_| {}).await else { return };
        for i in 0..sim.range(1, 5) {
            let (op, vars) = ops::generate(sim, &w.m, Kind::Query, None);
            let text = op.print();
            sim.event_with(i, || format!("operation {i}: {text} with {}", vars.text()));
            let mut db = Db::default();
            let (want, notes) = annotated(&w, &op, &vars, &mut db);
            let before = w.net.lock().unwrap().seen.len();
            let reply = g.post(&request_body(&text, &vars, None), &[]).await;
            let faults: Vec<_> =
                w.net.lock().unwrap().seen[before..].iter().filter_map(|s| s.fault.map(|f| (s.sub, f))).collect();
            sim.count("operations");
            sim.count_n("faulty requests", faults.len() as u64);
            check(sim, &w, &notes, &text, &vars, &want, &reply, &faults);
            check_bad(&w);
            if sim.violated() {
                return;
            }
        }
    });
}

pub fn faults() -> Prop {
    Prop {
        id: "Q02",
        scenarios: vec![Scenario { name: "isolation", weight: 1, run: isolation }],
        rule: "As Q01, with queries only, while each subgraph is sick with probability one half: refused and reset connections, statuses 4xx and 5xx with and without a body, garbage, truncated, empty and wrongly shaped bodies, values of the wrong type, errors without data, lost and missing entities, unrequested data, and requests that hang until their timeout, at rates of 20 to 100 percent. Against the answer of a faultless monolithic server, an answer may only have nulls instead of values, only where the type is nullable, never another value, a missing or additional field or a list of another length; without a fault it is the same; with anything lost it has an error (unless a subgraph itself returned null or nothing for it); a root field that only healthy subgraphs take part in is untouched; and `data` is null only if a failed root field is non-null.",
        real: &["graphql-composition", "graphql-federated-graph", "gateway-config", "engine-schema", "engine (parser, binder, query solver, planner, executor, response writer)"],
        stub: &["subgraph servers and HTTP (reference executor over a generated database, 17 kinds of fault)", "extensions (none installed)", "operation cache, rate limiter, clock"],
        assumptions: &["fields with @requires are compared by type only while a subgraph is sick: they may be computed from lost fields"],
        quick: (40, 100_000),
        thorough: (600, 1_000_000),
    }
}
