//! Seeded scheduler for real OS threads: exactly one runs at a time; the tape decides who.
//! Context switches happen at yield points: clock reads, futex calls, instrumented shims, explicit calls.
use crate::{Sim, current, hooks::guard, set_current};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::{Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    /// Until `addr` is woken, or the clock has reached the deadline.
    Blocked { addr: usize, deadline: Option<u64> },
    Done,
}

#[derive(Default)]
struct SchedSt {
    cur: Option<usize>,
    status: Vec<Status>,
    timed_out: Vec<bool>,
    deadlock: bool,
    exiting: Option<usize>,
    switches: u64,
    /// Threads that the code under test spawned: their pthread_t.
    adopted: BTreeMap<usize, usize>,
}

const TIMER_SLACK_NS: u64 = 1_000;
const HANDLE: usize = 0x5151_0000_0000;
const SLEEPING: usize = usize::MAX;
const JOINING: usize = usize::MAX / 2;

#[derive(Default)]
pub struct Sched {
    st: Mutex<SchedSt>,
    cv: Condvar,
}

thread_local! {
    static ID: Cell<Option<usize>> = const { Cell::new(None) };
}

pub fn in_sim_thread() -> bool {
    ID.try_with(|i| i.get().is_some()).unwrap_or(false)
}

fn lock(s: &Sched) -> MutexGuard<'_, SchedSt> {
    s.st.lock().unwrap_or_else(|e| e.into_inner())
}

/// Picks who runs next. `me` comes first, so that the simplest choice is "no switch".
fn pick(sim: &Sim, st: &mut SchedSt, me: usize) -> Option<usize> {
    let due = |st: &SchedSt, now: u64| -> Vec<usize> {
        (0..st.status.len())
            .filter(|i| match st.status[*i] {
                Status::Ready => true,
                Status::Blocked { deadline: Some(d), .. } => d <= now,
                _ => false,
            })
            .collect()
    };
    let mut ready = due(st, sim.now_ns());
    if ready.is_empty() {
        let next = st.status.iter().filter_map(|s| if let Status::Blocked { deadline, .. } = s { *deadline } else { None }).min()?;
        // No timer fires at its very nanosecond.
        sim.advance_ns(next - sim.now_ns() + TIMER_SLACK_NS);
        ready = due(st, sim.now_ns());
    }
    if let Some(p) = ready.iter().position(|i| *i == me) {
        ready.remove(p);
        ready.insert(0, me);
    }
    let next = if ready.len() == 1 { ready[0] } else { ready[sim.choose(ready.len() as u32) as usize] };
    if st.status[next] != Status::Ready {
        st.status[next] = Status::Ready;
        st.timed_out[next] = true;
    }
    Some(next)
}

fn hand_over(sim: &Sim, mut st: MutexGuard<'_, SchedSt>, me: usize, label: &str) {
    let next = pick(sim, &mut st, me);
    match next {
        None => {
            st.cur = None;
            if st.status.iter().any(|s| *s != Status::Done) {
                st.deadlock = true;
            }
        }
        Some(n) => {
            if n != me {
                st.switches += 1;
                sim.event_with(crate::hash_str(n as u64, label), || format!("switch t{me} -> t{n} at {label}"));
            }
            st.cur = Some(n);
        }
    }
    sim.0.sched.cv.notify_all();
    if st.status[me] == Status::Done {
        return;
    }
    while st.cur != Some(me) {
        st = sim.0.sched.cv.wait(st).unwrap_or_else(|e| e.into_inner());
    }
}

/// The scheduler may run another thread here.
pub fn yield_point(label: &str) {
    let Some(me) = ID.try_with(|i| i.get()).ok().flatten() else { return };
    guard(|| {
        let Some(sim) = current() else { return };
        let st = lock(&sim.0.sched);
        hand_over(&sim, st, me, label);
    })
}

/// Futex of a simulated thread. `Some(raw result)` if handled.
pub unsafe fn futex(addr: usize, op: i32, val: u32, timeout: usize) -> Option<isize> {
    let me = ID.try_with(|i| i.get()).ok().flatten()?;
    guard(|| {
        let sim = current()?;
        match op & 127 {
            0 | 9 => {
                let cur = unsafe { (*(addr as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) };
                if cur != val {
                    return Some(-(libc::EAGAIN as isize));
                }
                let deadline = (timeout != 0).then(|| {
                    let t = unsafe { *(timeout as *const libc::timespec) };
                    let ns = t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64;
                    if op & 127 == 0 { sim.now_ns() + ns } else { ns }
                });
                let mut st = lock(&sim.0.sched);
                st.status[me] = Status::Blocked { addr, deadline };
                st.timed_out[me] = false;
                hand_over(&sim, st, me, "futex-wait");
                let st = lock(&sim.0.sched);
                Some(if st.timed_out[me] { -(libc::ETIMEDOUT as isize) } else { 0 })
            }
            1 | 10 => {
                let mut st = lock(&sim.0.sched);
                let mut woken = 0;
                for s in st.status.iter_mut() {
                    if woken < val as isize && matches!(s, Status::Blocked { addr: a, .. } if *a == addr) {
                        *s = Status::Ready;
                        woken += 1;
                    }
                }
                hand_over(&sim, st, me, "futex-wake");
                Some(woken)
            }
            _ => None,
        }
    })
}

/// A thread of the code under test reads the clock, maybe in a loop that waits for it to move on.
pub fn clock_read() {
    let Some(me) = ID.try_with(|i| i.get()).ok().flatten() else { return };
    guard(|| {
        let Some(sim) = current() else { return };
        if lock(&sim.0.sched).adopted.contains_key(&me) {
            sim.advance_ns(20);
        }
    })
}

/// Lets virtual time pass for this thread only.
pub fn sleep(ns: u64) {
    let Some(me) = ID.try_with(|i| i.get()).ok().flatten() else { return };
    guard(|| {
        let Some(sim) = current() else { return };
        let mut st = lock(&sim.0.sched);
        st.status[me] = Status::Blocked { addr: SLEEPING, deadline: Some(sim.now_ns() + ns) };
        hand_over(&sim, st, me, "sleep");
    })
}

type Start = unsafe extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;

struct Spawned {
    start: Start,
    arg: usize,
    sim: Sim,
    id: usize,
}

unsafe extern "C" fn spawned(p: *mut libc::c_void) -> *mut libc::c_void {
    let Spawned { start, arg, sim, id } = *unsafe { Box::from_raw(p as *mut Spawned) };
    enter(&sim, id);
    let r = unsafe { start(arg as *mut libc::c_void) };
    leave(&sim, id);
    r
}

fn enter(sim: &Sim, id: usize) {
    ID.with(|c| c.set(Some(id)));
    set_current(Some(sim.clone()));
    guard(|| {
        let mut st = lock(&sim.0.sched);
        while st.cur != Some(id) {
            st = sim.0.sched.cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
    });
}

fn leave(sim: &Sim, id: usize) {
    guard(|| {
        // The controller joins this thread before anybody else runs.
        ID.with(|c| c.set(None));
        set_current(None);
        let mut st = lock(&sim.0.sched);
        st.exiting = Some(id);
        st.cur = None;
        sim.0.sched.cv.notify_all();
    });
}

fn real(name: &'static [u8]) -> usize {
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const libc::c_char) };
    assert!(!p.is_null());
    p as usize
}

type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> i32;
type Join = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
type Detach = unsafe extern "C" fn(libc::pthread_t) -> i32;

/// A thread spawned by a simulated thread becomes a simulated thread.
pub unsafe fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, start: Start, arg: *mut libc::c_void) -> i32 {
    let create: Create = unsafe { std::mem::transmute(real(b"pthread_create\0")) };
    let sim = if in_sim_thread() && !crate::hooks::busy() { guard(current) } else { None };
    let Some(sim) = sim else { return unsafe { create(t, attr, start, arg) } };
    let r = guard(|| {
        let mut st = lock(&sim.0.sched);
        let id = st.status.len();
        let arg = Box::into_raw(Box::new(Spawned { start, arg: arg as usize, sim: sim.clone(), id }));
        let r = unsafe { create(t, attr, spawned, arg as *mut libc::c_void) };
        if r != 0 {
            drop(unsafe { Box::from_raw(arg) });
            return r;
        }
        st.status.push(Status::Ready);
        st.timed_out.push(false);
        st.adopted.insert(id, unsafe { *t } as usize);
        // The controller joins the thread, after which its handle may be given out again: the owner gets one of ours.
        unsafe { *t = (HANDLE + id) as libc::pthread_t };
        r
    });
    yield_point("spawn");
    r
}

fn adopted(t: libc::pthread_t) -> Option<(Sim, usize, usize)> {
    let me = ID.try_with(|i| i.get()).ok().flatten()?;
    if crate::hooks::busy() {
        return None;
    }
    guard(|| {
        let sim = current()?;
        let id = (t as usize).checked_sub(HANDLE)?;
        let known = lock(&sim.0.sched).adopted.contains_key(&id);
        known.then_some((sim, me, id))
    })
}

pub unsafe fn pthread_join(t: libc::pthread_t, out: *mut *mut libc::c_void) -> i32 {
    let Some((sim, me, id)) = adopted(t) else {
        let join: Join = unsafe { std::mem::transmute(real(b"pthread_join\0")) };
        return unsafe { join(t, out) };
    };
    guard(|| loop {
        let mut st = lock(&sim.0.sched);
        if st.status[id] == Status::Done {
            return 0;
        }
        st.status[me] = Status::Blocked { addr: JOINING + id, deadline: None };
        hand_over(&sim, st, me, "join");
    })
}

pub unsafe fn pthread_detach(t: libc::pthread_t) -> i32 {
    if adopted(t).is_some() {
        return 0;
    }
    let detach: Detach = unsafe { std::mem::transmute(real(b"pthread_detach\0")) };
    unsafe { detach(t) }
}

pub type Body = Box<dyn FnOnce() + Send>;

/// Runs `bodies` as simulated threads until all are done (or deadlocked, which is a violation).
pub fn run_threads(sim: &Sim, bodies: Vec<Body>) {
    let n = bodies.len();
    {
        let mut st = lock(&sim.0.sched);
        *st = SchedSt { status: vec![Status::Ready; n], timed_out: vec![false; n], ..Default::default() };
    }
    let mut handles = Vec::new();
    for (i, body) in bodies.into_iter().enumerate() {
        let sim = sim.clone();
        handles.push(Some(std::thread::spawn(move || {
            enter(&sim, i);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
            if r.is_err() {
                let (loc, msg) = crate::take_panic().unwrap_or_else(|| ("?".into(), "?".into()));
                let v = if crate::is_harness_location(&loc) {
                    crate::Violation { kind: "HARNESS".into(), message: format!("{loc}: {msg}") }
                } else {
                    crate::panic_violation(&loc, &msg)
                };
                sim.violate(v.kind, v.message);
            }
            leave(&sim, i);
        })));
    }
    {
        let first = sim.choose(n as u32) as usize;
        let mut st = lock(&sim.0.sched);
        st.cur = Some(first);
        sim.0.sched.cv.notify_all();
    }
    let deadlock = guard(|| {
        let mut st = lock(&sim.0.sched);
        loop {
            if st.deadlock {
                return true;
            }
            if let Some(i) = st.exiting.take() {
                let native = st.adopted.get(&i).copied();
                drop(st);
                if let Some(h) = handles.get_mut(i).and_then(|h| h.take()) {
                    let _ = h.join();
                } else if let Some(t) = native {
                    let join: Join = unsafe { std::mem::transmute(real(b"pthread_join\0")) };
                    unsafe { join(t as libc::pthread_t, std::ptr::null_mut()) };
                }
                st = lock(&sim.0.sched);
                st.status[i] = Status::Done;
                for s in st.status.iter_mut() {
                    if matches!(s, Status::Blocked { addr, .. } if *addr == JOINING + i) {
                        *s = Status::Ready;
                    }
                }
                hand_over(sim, st, i, "exit");
                st = lock(&sim.0.sched);
                continue;
            }
            if st.status.iter().all(|s| *s == Status::Done) {
                return false;
            }
            st = sim.0.sched.cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
    });
    sim.count_n("thread switches", lock(&sim.0.sched).switches);
    if deadlock {
        sim.violate("deadlock", "every remaining thread is blocked");
    }
}
