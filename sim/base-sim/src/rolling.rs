//! Rolling log files: real `rolling-logger` on real files, under a virtual clock and a faulty disk.
use rolling_logger::{RollingLogger, RotateStrategy};
use simkit::hooks::{Disk, DiskFault, DiskOp};
use simkit::runner::{Prop, Scenario};
use simkit::{Sim, libc};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// Scratch directory of one run; removed when dropped.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!(
            "vsim-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Never,
    Minutely,
    Hourly,
    Daily,
    Weekly,
    Monthly,
    Yearly,
    Size(u64),
}

impl Kind {
    fn strategy(self) -> RotateStrategy {
        match self {
            Kind::Never => RotateStrategy::never(),
            Kind::Minutely => RotateStrategy::minutely(),
            Kind::Hourly => RotateStrategy::hourly(),
            Kind::Daily => RotateStrategy::daily(),
            Kind::Weekly => RotateStrategy::weekly(),
            Kind::Monthly => RotateStrategy::monthly(),
            Kind::Yearly => RotateStrategy::yearly(),
            Kind::Size(n) => RotateStrategy::size(n),
        }
    }

    fn period(self) -> Option<u64> {
        const D: u64 = 24 * 3600;
        Some(match self {
            Kind::Minutely => 60,
            Kind::Hourly => 3600,
            Kind::Daily => D,
            Kind::Weekly => 7 * D,
            Kind::Monthly => 30 * D,
            Kind::Yearly => 365 * D,
            _ => return None,
        })
    }
}

fn choose_kind(sim: &Sim) -> Kind {
    match sim.choose(9) {
        0 | 1 | 2 => Kind::Size(sim.log_range(1, 400)),
        3 => Kind::Minutely,
        4 => Kind::Hourly,
        5 => Kind::Daily,
        6 => *sim.pick(&[Kind::Weekly, Kind::Monthly]),
        7 => Kind::Yearly,
        _ => Kind::Never,
    }
}

#[derive(Default)]
struct Faults {
    enabled: bool,
    permille: u32,
    /// Every operation fails until this many more operations have failed.
    outage: u32,
    errno: i32,
    /// The process dies before the n-th next operation.
    crash_in: Option<u32>,
    crashed: bool,
    stat_faults: bool,
    /// Disk full: writes and creations fail.
    full: bool,
    injected: u64,
}

struct World<'a> {
    sim: &'a Sim,
    dir: Scratch,
    path: PathBuf,
    faults: Arc<Mutex<Faults>>,
    logger: Option<RollingLogger>,
    /// Every byte an Ok(n) acknowledged, in order.
    accepted: Vec<u8>,
    seq: u64,
    kind: Kind,
}

fn world(sim: &Sim) -> World<'_> {
    let dir = Scratch::new();
    let path = dir.0.join("access.log");
    let faults = Arc::new(Mutex::new(Faults::default()));
    let f2 = faults.clone();
    let s2 = sim.clone();
    *sim.0.disk.lock().unwrap() = Some(Disk {
        root: dir.0.to_str().unwrap().to_string(),
        fds: Default::default(),
        plan: Box::new(move |op| plan(&s2, &mut f2.lock().unwrap(), op)),
        handled: 0,
    });
    let kind = choose_kind(sim);
    sim.event(format!("strategy {kind:?}"));
    World { sim, dir, path, faults, logger: None, accepted: Vec::new(), seq: 0, kind }
}

fn plan(sim: &Sim, f: &mut Faults, op: &DiskOp) -> DiskFault {
    if f.crashed {
        return DiskFault::Errno(libc::EIO);
    }
    if let Some(n) = f.crash_in {
        if n == 0 {
            f.crashed = true;
            f.crash_in = None;
            sim.fault("process crash inside an operation");
            sim.event(format!("crash before {} {}", op.call, op.path));
            return DiskFault::Errno(libc::EIO);
        }
        f.crash_in = Some(n - 1);
    }
    if !f.enabled {
        return DiskFault::None;
    }
    if op.call == "stat" && !f.stat_faults {
        return DiskFault::None;
    }
    if f.full && matches!(op.call, "write" | "create") {
        sim.fault("disk full");
        f.injected += 1;
        sim.event(format!("ENOSPC on {} {}", op.call, op.path));
        return DiskFault::Errno(libc::ENOSPC);
    }
    if f.outage > 0 {
        f.outage -= 1;
        f.injected += 1;
        sim.fault(fault_name(op.call));
        sim.event(format!("error {} on {} {}", f.errno, op.call, op.path));
        return DiskFault::Errno(f.errno);
    }
    if !sim.chance(f.permille) {
        return DiskFault::None;
    }
    if op.call == "write" && op.len > 1 && sim.choose(2) == 0 {
        let n = sim.range(1, op.len as u64 - 1) as usize;
        sim.fault("short write");
        sim.event(format!("short write {n} of {}", op.len));
        return DiskFault::Short(n);
    }
    f.errno = *sim.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE, libc::EINTR]);
    if f.errno != libc::EINTR {
        f.outage = sim.choose(4);
    } else if op.call != "write" && op.call != "open" && op.call != "create" {
        f.errno = libc::EIO;
    }
    f.injected += 1;
    sim.fault(fault_name(op.call));
    sim.event(format!("error {} on {} {}", f.errno, op.call, op.path));
    DiskFault::Errno(f.errno)
}

fn fault_name(call: &str) -> &'static str {
    match call {
        "write" => "write error",
        "rename" => "rename error",
        "create" | "open" => "open error",
        "stat" => "stat error",
        _ => "other disk error",
    }
}

impl World<'_> {
    fn line(&mut self) -> Vec<u8> {
        self.seq += 1;
        let pad = match self.sim.choose(8) {
            0..=4 => self.sim.choose(20),
            5 | 6 => self.sim.choose(150),
            _ => self.sim.choose(600),
        } as usize;
        format!("<{}:{}>\n", self.seq, "x".repeat(pad)).into_bytes()
    }

    fn start(&mut self) -> bool {
        let injected = self.faults.lock().unwrap().injected;
        match RollingLogger::new(&self.path, self.kind.strategy()) {
            Ok(l) => {
                self.sim.event("logger started");
                self.logger = Some(l);
                true
            }
            Err(e) => {
                self.sim.event(format!("start failed: {:?}", e.kind()));
                let f = self.faults.lock().unwrap();
                if f.injected == injected && !f.crashed {
                    self.sim.violate("start refused", format!("the disk works, yet a logger cannot start: {:?}", e.kind()));
                }
                false
            }
        }
    }

    /// The process is gone: no destructor runs, the kernel closes its files.
    fn kill(&mut self) {
        if let Some(l) = self.logger.take() {
            std::mem::forget(l);
        }
        let fds: Vec<i32> = {
            let mut d = self.sim.0.disk.lock().unwrap();
            let d = d.as_mut().unwrap();
            std::mem::take(&mut d.fds).into_keys().collect()
        };
        for fd in fds {
            unsafe { simkit::hooks::sys6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) };
        }
        let mut f = self.faults.lock().unwrap();
        f.crashed = false;
        f.crash_in = None;
    }

    /// One `write` call; returns what it said.
    fn write(&mut self, buf: &[u8]) -> Result<usize, std::io::ErrorKind> {
        let r = self.logger.as_mut().unwrap().write(buf);
        match r {
            Ok(n) => {
                if n > buf.len() {
                    self.sim.violate("write count", format!("write of {} bytes returned {n}", buf.len()));
                }
                let n = n.min(buf.len());
                self.accepted.extend_from_slice(&buf[..n]);
                self.sim.event_with(n as u64 ^ 0x77, || format!("write {} bytes -> Ok({n})", buf.len()));
                Ok(n)
            }
            Err(e) => {
                self.sim.event(format!("write {} bytes -> {:?}", buf.len(), e.kind()));
                Err(e.kind())
            }
        }
    }

    /// Files on disk, read without faults: (suffix after the base name, content).
    fn files(&self) -> Vec<(Option<String>, Vec<u8>)> {
        simkit::hooks::guard(|| {
            let mut v = Vec::new();
            for e in std::fs::read_dir(&self.dir.0).expect("scratch listing") {
                let e = e.unwrap();
                let name = e.file_name().into_string().unwrap();
                let suffix = name.strip_prefix("access.log").expect("file of the log").to_string();
                let suffix = if suffix.is_empty() { None } else { Some(suffix.trim_start_matches('.').to_string()) };
                v.push((suffix, std::fs::read(e.path()).unwrap()));
            }
            v.sort();
            v
        })
    }

    /// The files must tile the accepted stream exactly; the live file is its tail.
    fn check_content(&self, ordered_names: bool) -> bool {
        let files = self.files();
        let live = files.iter().find(|f| f.0.is_none()).map(|f| f.1.clone()).unwrap_or_default();
        let rotated: Vec<&(Option<String>, Vec<u8>)> = files.iter().filter(|f| f.0.is_some() && !f.1.is_empty()).collect();
        let total: usize = rotated.iter().map(|f| f.1.len()).sum::<usize>() + live.len();
        let s = &self.accepted;
        if total != s.len() {
            self.sim.violate(
                if total < s.len() { "acknowledged log bytes lost" } else { "log bytes duplicated" },
                format!("{} bytes were acknowledged, {total} are on disk in {} files", s.len(), files.len()),
            );
            return false;
        }
        if !s.ends_with(&live) {
            self.sim.violate("log content out of order", "the live file is not the tail of what was written".to_string());
            return false;
        }
        let end = s.len() - live.len();
        let mut used = vec![false; rotated.len()];
        let mut order = Vec::new();
        if !tile(&s[..end], 0, &rotated, &mut used, &mut order) {
            self.sim.violate("log content torn or reordered", "rotated files do not tile the acknowledged stream".to_string());
            return false;
        }
        if ordered_names {
            let stamps: Vec<Option<u128>> = order.iter().map(|i| rotated[*i].0.as_ref().unwrap().parse().ok()).collect();
            if stamps.iter().any(|x| x.is_none()) || stamps.windows(2).any(|w| w[0] >= w[1]) {
                self.sim.violate(
                    "rotated files misordered",
                    format!("suffixes in the order of their content: {:?}", order.iter().map(|i| rotated[*i].0.clone().unwrap()).collect::<Vec<_>>()),
                );
                return false;
            }
        }
        true
    }

    fn tick(&self, sim: &Sim) {
        let ns = match sim.choose(8) {
            0 | 1 => sim.choose(900_000) as u64,
            2 => sim.range(1, 5) * 1_000_000,
            3 => sim.range(1, 120) * 1_000_000_000,
            4 | 5 => {
                // Around the rotation boundary.
                let p = self.kind.period().unwrap_or(60);
                (p * 1_000_000_000 + sim.range(0, 2_000_000_000)).saturating_sub(1_000_000_000)
            }
            6 => sim.range(1, 48) * 3600 * 1_000_000_000,
            _ => sim.range(1, 800) * 86_400 * 1_000_000_000,
        };
        sim.advance_ns(ns);
    }
}

fn tile(s: &[u8], at: usize, files: &[&(Option<String>, Vec<u8>)], used: &mut [bool], order: &mut Vec<usize>) -> bool {
    if at == s.len() {
        return used.iter().all(|u| *u);
    }
    for i in 0..files.len() {
        if !used[i] && s[at..].starts_with(&files[i].1) {
            used[i] = true;
            order.push(i);
            if tile(s, at + files[i].1.len(), files, used, order) {
                return true;
            }
            order.pop();
            used[i] = false;
        }
    }
    false
}

/// Writes, rotations, clock jumps, crashes and disk faults; then everything acknowledged must be there.
fn durability_run(sim: &Sim) {
    let mut w = world(sim);
    let jumps = sim.chance(300);
    let crashes = sim.chance(500);
    {
        let mut f = w.faults.lock().unwrap();
        f.permille = *sim.pick(&[0, 20, 60, 200]);
        f.enabled = f.permille > 0;
        f.stat_faults = sim.chance(300);
    }
    let steps = sim.range(2, 60);
    let mut pending: Vec<u8> = Vec::new();
    for _ in 0..steps {
        if w.logger.is_none() && !w.start() {
            if w.faults.lock().unwrap().crashed {
                w.kill();
            }
            continue;
        }
        match sim.choose(12) {
            0..=5 => {
                let buf = if pending.is_empty() { w.line() } else { std::mem::take(&mut pending) };
                let mut at = 0;
                // As write_all does: continue after a short write, stop on error.
                while at < buf.len() {
                    match w.write(&buf[at..]) {
                        Ok(0) => break,
                        Ok(n) => at += n,
                        Err(std::io::ErrorKind::Interrupted) => continue,
                        Err(_) => break,
                    }
                    if sim.chance(100) {
                        break;
                    }
                }
                if at > 0 && at < buf.len() && sim.chance(500) {
                    pending = buf[at..].to_vec();
                }
            }
            6 | 7 | 8 => w.tick(sim),
            9 => {
                let r = w.logger.as_mut().unwrap().flush();
                sim.event(format!("flush -> {}", r.is_ok()));
            }
            10 if crashes => {
                w.faults.lock().unwrap().crash_in = Some(sim.choose(8));
            }
            11 if crashes && sim.chance(300) => {
                sim.fault("process crash between operations");
                sim.event("crash");
                w.kill();
            }
            11 if jumps => {
                let back = sim.range(1, 200_000_000_000) as i64;
                sim.fault("wall clock jump backwards");
                sim.event(format!("clock jumps back {back} ns"));
                sim.jump_wall_ns(-back);
            }
            _ => {
                let mut f = w.faults.lock().unwrap();
                if f.enabled {
                    f.full = !f.full;
                }
            }
        }
        if w.faults.lock().unwrap().crashed {
            w.kill();
        }
        if sim.violated() {
            return;
        }
    }
    *w.faults.lock().unwrap() = Faults::default();
    if !pending.is_empty() || w.seq > 3 {
        sim.nontrivial();
    }
    w.check_content(!jumps);
    w.kill();
}

/// Without disk faults, each write lands in the file the policy says, and no other rotation happens.
fn policy_run(sim: &Sim) {
    let mut w = world(sim);
    let jumps = sim.chance(250);
    {
        // Write errors and short writes must not distort the policy either.
        let mut f = w.faults.lock().unwrap();
        f.permille = *sim.pick(&[0, 0, 100]);
        f.enabled = f.permille > 0;
    }
    let errors = w.faults.lock().unwrap().enabled;
    let mut start = 0u64;
    let steps = sim.range(2, 60);
    for _ in 0..steps {
        if w.logger.is_none() {
            start = sim.wall_ns();
            if !w.start() {
                continue;
            }
        }
        match sim.choose(10) {
            0..=5 => {
                let buf = w.line();
                let live = w.files().into_iter().find(|f| f.0.is_none()).map(|f| f.1.len() as u64);
                let before = w.files().iter().filter(|f| f.0.is_some()).count();
                let due = match w.kind {
                    Kind::Never => false,
                    Kind::Size(max) => live.unwrap_or(0) >= max,
                    k => sim.wall_ns().saturating_sub(start) / 1_000_000_000 >= k.period().unwrap(),
                };
                let injected = w.faults.lock().unwrap().injected;
                let r = w.write(&buf);
                let faulted = w.faults.lock().unwrap().injected != injected;
                let after = w.files();
                let count = after.iter().filter(|f| f.0.is_some()).count();
                let live_after = after.iter().find(|f| f.0.is_none()).map(|f| f.1.len()).unwrap_or(0);
                sim.event_with(due as u64 + 2, || format!("due {due}, live {live:?}, rotated {before} -> {count}"));
                if due {
                    sim.nontrivial();
                    sim.count("rotations due");
                }
                if !due && count != before {
                    sim.violate("rotated too early", format!("{:?}: a rotation that was not due (live {live:?} bytes)", w.kind));
                }
                if let Ok(n) = r {
                    // A rotation interrupted by an error earlier may have moved the file already.
                    if due && live_after != n {
                        sim.violate(
                            "rotation missed",
                            format!("{:?}: a rotation was due, but the write landed in a file that now has {live_after} bytes", w.kind),
                        );
                    }
                    if due && live.is_some_and(|l| l > 0) && count != before + 1 {
                        sim.violate("rotation missed", format!("{:?}: {before} rotated files before, {count} after", w.kind));
                    }
                    if due {
                        start = sim.wall_ns();
                    }
                } else if due && count == before + 1 && !after.iter().any(|f| f.0.is_none()) {
                    // The rename happened, the new file could not be made: still due.
                } else if due && count == before + 1 {
                    // Rotated, and only the write into the fresh file failed.
                    start = sim.wall_ns();
                } else if due && live.is_none() && after.iter().any(|f| f.0.is_none()) {
                    start = sim.wall_ns();
                } else if !faulted {
                    sim.violate("write refused", format!("a write failed without any fault: {r:?}"));
                }
            }
            6 | 7 | 8 => w.tick(sim),
            _ if jumps && sim.chance(500) => {
                let by = sim.range(1, 100_000_000_000) as i64;
                sim.fault("wall clock jump backwards");
                sim.event("clock jumps back");
                sim.jump_wall_ns(-by);
            }
            _ if !errors => {
                sim.fault("restart");
                sim.event("restart");
                w.kill();
            }
            _ => {}
        }
        if sim.violated() {
            return;
        }
    }
    w.kill();
}

/// However the disk misbehaved, once it stops the next write is accepted and stored.
fn recovery_run(sim: &Sim) {
    let mut w = world(sim);
    if !w.start() {
        return;
    }
    for _ in 0..sim.range(1, 4) {
        {
            let mut f = w.faults.lock().unwrap();
            *f = Faults { enabled: true, permille: *sim.pick(&[300, 600, 1000]), stat_faults: sim.chance(500), ..Default::default() };
            if sim.chance(200) {
                f.full = true;
            }
        }
        for _ in 0..sim.range(1, 12) {
            if sim.chance(400) {
                w.tick(sim);
            } else {
                let buf = w.line();
                let _ = w.write(&buf);
            }
        }
        *w.faults.lock().unwrap() = Faults::default();
        sim.event("faults stop");
        if sim.chance(300) {
            w.tick(sim);
        }
        for _ in 0..2 {
            let buf = w.line();
            match w.write(&buf) {
                Ok(n) if n == buf.len() => {}
                r => sim.violate("logger stuck after disk faults", format!("the disk works again, yet a write gives {r:?}")),
            }
        }
        if sim.violated() {
            return;
        }
    }
    w.check_content(true);
    w.kill();
}

const REAL: &[&str] = &["rolling-logger (all of it)", "std::fs on real files in a scratch directory"];
const STUB: &[&str] = &[
    "clock_gettime: virtual wall and monotonic clocks",
    "libc open/write/rename/stat/fsync: faults injected in front of the real system calls",
];
const RULE: &str = "one run = a random history of writes, flushes, clock advances and jumps, crashes, restarts and disk faults on one log; non-trivial when at least one fault, crash or due rotation happened; distinct by hash of the whole history";

pub fn durability() -> Prop {
    Prop {
        id: "L01",
        scenarios: vec![Scenario { name: "durability", weight: 1, run: durability_run }],
        rule: RULE,
        real: REAL,
        stub: STUB,
        assumptions: &["process crashes, not power loss: bytes handed to the kernel survive", "one process writes a given log path"],
        quick: (25, 300_000),
        thorough: (300, 10_000_000),
    }
}

pub fn policy() -> Prop {
    Prop {
        id: "L02",
        scenarios: vec![Scenario { name: "policy", weight: 1, run: policy_run }],
        rule: RULE,
        real: REAL,
        stub: STUB,
        assumptions: &["the size of the live file is judged when a write starts"],
        quick: (25, 300_000),
        thorough: (240, 10_000_000),
    }
}

pub fn recovery() -> Prop {
    Prop {
        id: "L03",
        scenarios: vec![Scenario { name: "recovery", weight: 1, run: recovery_run }],
        rule: RULE,
        real: REAL,
        stub: STUB,
        assumptions: &["a fault is an error return of a system call; the file system itself stays consistent"],
        quick: (25, 300_000),
        thorough: (240, 10_000_000),
    }
}

#[allow(dead_code)]
fn _unused(_: &Path) {}
