//! libc interposition. `interpose!()` in a binary routes these symbols through the current run;
//! a thread that belongs to no run gets the real system call.
use crate::{EPOCH_NS, Inner, current};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;

thread_local! {
    static BUSY: Cell<bool> = const { Cell::new(false) };
    /// Clock source of this thread's run when it is not the plain virtual clock.
    static CLOCK: Cell<Option<fn() -> Option<u64>>> = const { Cell::new(None) };
}

#[inline]
pub unsafe fn sys6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}

pub fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        unsafe { *libc::__errno_location() = -r as i32 };
        -1
    } else {
        r
    }
}

pub fn real_mono_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { sys6(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as usize, 0, 0, 0, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

/// Sets an alternative source for the virtual monotonic clock of this thread (e.g. tokio's paused clock).
pub fn set_clock_source(f: Option<fn() -> Option<u64>>) {
    CLOCK.with(|c| c.set(f));
}

pub fn sim_now(inner: &Inner) -> u64 {
    if let Some(Some(ns)) = CLOCK.try_with(|c| c.get()).ok().flatten().map(|f| f()) {
        inner.mono_ns.store(ns, Ordering::Relaxed);
        return ns;
    }
    inner.mono_ns.load(Ordering::Relaxed)
}

pub fn guard<R>(f: impl FnOnce() -> R) -> R {
    let was = BUSY.try_with(|b| b.replace(true)).unwrap_or(true);
    let r = f();
    let _ = BUSY.try_with(|b| b.set(was));
    r
}

pub(crate) fn busy() -> bool {
    BUSY.try_with(|b| b.get()).unwrap_or(true)
}

pub unsafe fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if !busy() {
        let ns = guard(|| {
            let sim = current()?;
            if !sim.0.clock_on.load(Ordering::Relaxed) {
                return None;
            }
            let m = sim_now(&sim.0);
            Some(if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
                (EPOCH_NS as i64 + m as i64 + sim.0.wall_off_ns.load(Ordering::Relaxed)) as u64
            } else {
                m
            })
        });
        if let Some(ns) = ns {
            if crate::threads::in_sim_thread() {
                crate::threads::clock_read();
                crate::threads::yield_point("clock");
            }
            unsafe {
                (*ts).tv_sec = (ns / 1_000_000_000) as i64;
                (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
            }
            return 0;
        }
    }
    unsafe { ret(sys6(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as i32 }
}

pub unsafe fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if !busy() {
        let done = guard(|| {
            let sim = current()?;
            let s = unsafe { std::slice::from_raw_parts_mut(buf, len) };
            sim.entropy_bytes(s);
            Some(())
        });
        if done.is_some() {
            return len as isize;
        }
    }
    unsafe { ret(sys6(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0)) }
}

/// Interposed file system of one run: real files under `root`, faults decided by `plan`.
pub struct Disk {
    pub root: String,
    pub fds: BTreeMap<i32, String>,
    /// Called on every operation under `root`; decides the fault.
    pub plan: Box<dyn FnMut(&DiskOp) -> DiskFault + Send>,
    pub handled: u64,
}

#[derive(Debug, Clone, PartialEq)]
pub struct DiskOp {
    pub call: &'static str,
    pub path: String,
    pub path2: String,
    pub len: usize,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum DiskFault {
    None,
    Errno(i32),
    /// Only this many bytes are transferred.
    Short(usize),
}

fn disk_plan(call: &'static str, path: &str, path2: &str, len: usize) -> DiskFault {
    guard(|| {
        let Some(sim) = current() else { return DiskFault::None };
        let mut d = sim.0.disk.lock().unwrap_or_else(|e| e.into_inner());
        let Some(d) = d.as_mut() else { return DiskFault::None };
        if !path.starts_with(&d.root) {
            return DiskFault::None;
        }
        d.handled += 1;
        let op = DiskOp {
            call,
            path: path[d.root.len()..].trim_start_matches('/').to_string(),
            path2: path2.strip_prefix(&d.root).unwrap_or(path2).trim_start_matches('/').to_string(),
            len,
        };
        (d.plan)(&op)
    })
}

fn fd_path(fd: i32) -> Option<String> {
    guard(|| {
        let sim = current()?;
        let d = sim.0.disk.lock().unwrap_or_else(|e| e.into_inner());
        d.as_ref()?.fds.get(&fd).cloned()
    })
}

fn in_run() -> bool {
    !busy() && guard(|| current().is_some())
}

unsafe fn cstr(p: *const i8) -> String {
    if p.is_null() {
        return String::new();
    }
    unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().into_owned()
}

fn err(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}

pub unsafe fn openat(dir: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
    let mut p = None;
    if in_run() {
        let s = unsafe { cstr(path) };
        if let DiskFault::Errno(e) = disk_plan(if flags & libc::O_CREAT != 0 { "create" } else { "open" }, &s, "", 0) {
            return err(e) as i32;
        }
        p = Some(s);
    }
    let fd =
        unsafe { ret(sys6(libc::SYS_openat, dir as usize, path as usize, flags as usize, mode as usize, 0, 0)) } as i32;
    if let (Some(p), true) = (p, fd >= 0) {
        guard(|| {
            if let Some(sim) = current() {
                if let Some(d) = sim.0.disk.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
                    if p.starts_with(&d.root) {
                        d.fds.insert(fd, p);
                    } else {
                        d.fds.remove(&fd);
                    }
                }
            }
        });
    }
    fd
}

pub unsafe fn close(fd: i32) -> i32 {
    if in_run() {
        guard(|| {
            if let Some(sim) = current() {
                if let Some(d) = sim.0.disk.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
                    d.fds.remove(&fd);
                }
            }
        });
    }
    unsafe { ret(sys6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as i32 }
}

static CAPTURING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static CAPTURED: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());

/// Diverts standard output of the whole process, e.g. of an exporter's thread, until `captured()`.
pub fn capture_stdout() {
    CAPTURED.lock().unwrap().clear();
    CAPTURING.store(true, Ordering::SeqCst);
}

pub fn captured() -> String {
    CAPTURING.store(false, Ordering::SeqCst);
    String::from_utf8_lossy(&std::mem::take(&mut *CAPTURED.lock().unwrap())).into_owned()
}

pub unsafe fn write(fd: i32, buf: *const u8, len: usize) -> isize {
    let mut n = len;
    if fd == 1 && CAPTURING.load(Ordering::SeqCst) {
        guard(|| CAPTURED.lock().unwrap().extend_from_slice(unsafe { std::slice::from_raw_parts(buf, len) }));
        return len as isize;
    }
    if fd == 2 && CAPTURING.load(Ordering::SeqCst) && !busy() && crate::threads::in_sim_thread() {
        return len as isize;
    }
    if fd > 2 && in_run() {
        if let Some(p) = fd_path(fd) {
            match disk_plan("write", &p, "", len) {
                DiskFault::Errno(e) => return err(e),
                DiskFault::Short(k) => n = k.min(len),
                DiskFault::None => {}
            }
        }
    }
    unsafe { ret(sys6(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0)) }
}

pub unsafe fn writev(fd: i32, iov: *const libc::iovec, cnt: i32) -> isize {
    if fd > 2 && in_run() && fd_path(fd).is_some() && cnt > 0 {
        // Served as a write of the first non-empty buffer: a legal short write.
        let v = unsafe { std::slice::from_raw_parts(iov, cnt as usize) };
        if let Some(b) = v.iter().find(|b| b.iov_len > 0) {
            return unsafe { write(fd, b.iov_base as *const u8, b.iov_len) };
        }
        return 0;
    }
    unsafe { ret(sys6(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0)) }
}

pub unsafe fn rename(a: *const i8, b: *const i8) -> i32 {
    if in_run() {
        let (sa, sb) = unsafe { (cstr(a), cstr(b)) };
        if let DiskFault::Errno(e) = disk_plan("rename", &sa, &sb, 0) {
            return err(e) as i32;
        }
    }
    unsafe { ret(sys6(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as i32 }
}

pub unsafe fn unlink(a: *const i8) -> i32 {
    if in_run() {
        let sa = unsafe { cstr(a) };
        if let DiskFault::Errno(e) = disk_plan("unlink", &sa, "", 0) {
            return err(e) as i32;
        }
    }
    unsafe { ret(sys6(libc::SYS_unlink, a as usize, 0, 0, 0, 0, 0)) as i32 }
}

pub unsafe fn statx(dir: i32, path: *const i8, flags: i32, mask: u32, out: *mut libc::c_void) -> i32 {
    if in_run() && !path.is_null() {
        let s = unsafe { cstr(path) };
        let s = if s.is_empty() { fd_path(dir).unwrap_or_default() } else { s };
        if let DiskFault::Errno(e) = disk_plan("stat", &s, "", 0) {
            return err(e) as i32;
        }
    }
    unsafe {
        ret(sys6(libc::SYS_statx, dir as usize, path as usize, flags as usize, mask as usize, out as usize, 0)) as i32
    }
}

pub unsafe fn fsync(fd: i32) -> i32 {
    if in_run() {
        if let Some(p) = fd_path(fd) {
            if let DiskFault::Errno(e) = disk_plan("fsync", &p, "", 0) {
                return err(e) as i32;
            }
        }
    }
    unsafe { ret(sys6(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as i32 }
}

pub unsafe fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
    let mut n = len;
    if fd > 2 && in_run() {
        if let Some(p) = fd_path(fd) {
            match disk_plan("read", &p, "", len) {
                DiskFault::Errno(e) => return err(e),
                DiskFault::Short(k) => n = k.min(len),
                DiskFault::None => {}
            }
        }
    }
    unsafe { ret(sys6(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0)) }
}

pub unsafe fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_futex && crate::threads::in_sim_thread() && !busy() {
        if let Some(r) = unsafe { crate::threads::futex(a, b as i32, c as u32, d) } {
            return ret(r) as i64;
        }
    }
    if n == libc::SYS_getrandom {
        return unsafe { getrandom(a as *mut u8, b, c as u32) as i64 };
    }
    unsafe { ret(sys6(n, a, b, c, d, e, f)) as i64 }
}

pub unsafe fn nanosleep(req: *const libc::timespec) -> Option<i32> {
    if busy() {
        return None;
    }
    let sim = guard(current)?;
    let ns = unsafe { (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64 };
    if crate::threads::in_sim_thread() {
        crate::threads::sleep(ns);
    } else {
        sim.advance_ns(ns);
    }
    Some(0)
}

#[macro_export]
macro_rules! interpose {
    (@base) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut $crate::libc::timespec) -> i32 {
            unsafe { $crate::hooks::clock_gettime(id, ts) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
            unsafe { $crate::hooks::getrandom(buf, len, flags) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn syscall(
            n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize,
        ) -> i64 {
            unsafe { $crate::hooks::syscall(n, a, b, c, d, e, f) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn nanosleep(req: *const $crate::libc::timespec, rem: *mut $crate::libc::timespec) -> i32 {
            match unsafe { $crate::hooks::nanosleep(req) } {
                Some(r) => r,
                None => $crate::hooks::ret(unsafe {
                    $crate::hooks::sys6($crate::libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)
                }) as i32,
            }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const $crate::libc::timespec, rem: *mut $crate::libc::timespec) -> i32 {
            if flags == 0 {
                if let Some(r) = unsafe { $crate::hooks::nanosleep(req) } {
                    return r;
                }
            }
            unsafe {
                -($crate::hooks::sys6($crate::libc::SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0)) as i32
            }
        }
    };
    (@threads) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn pthread_create(
            t: *mut $crate::libc::pthread_t, attr: *const $crate::libc::pthread_attr_t,
            start: unsafe extern "C" fn(*mut $crate::libc::c_void) -> *mut $crate::libc::c_void, arg: *mut $crate::libc::c_void,
        ) -> i32 {
            unsafe { $crate::threads::pthread_create(t, attr, start, arg) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn pthread_join(t: $crate::libc::pthread_t, out: *mut *mut $crate::libc::c_void) -> i32 {
            unsafe { $crate::threads::pthread_join(t, out) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn pthread_detach(t: $crate::libc::pthread_t) -> i32 {
            unsafe { $crate::threads::pthread_detach(t) }
        }
    };
    (@disk) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn open(path: *const i8, flags: i32, mode: u32) -> i32 {
            unsafe { $crate::hooks::openat(-100, path, flags, mode) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
            unsafe { $crate::hooks::openat(-100, path, flags, mode) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn openat(d: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
            unsafe { $crate::hooks::openat(d, path, flags, mode) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn openat64(d: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
            unsafe { $crate::hooks::openat(d, path, flags, mode) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn close(fd: i32) -> i32 {
            unsafe { $crate::hooks::close(fd) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn write(fd: i32, buf: *const u8, len: usize) -> isize {
            unsafe { $crate::hooks::write(fd, buf, len) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn writev(fd: i32, iov: *const $crate::libc::iovec, n: i32) -> isize {
            unsafe { $crate::hooks::writev(fd, iov, n) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
            unsafe { $crate::hooks::read(fd, buf, len) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn rename(a: *const i8, b: *const i8) -> i32 {
            unsafe { $crate::hooks::rename(a, b) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn unlink(a: *const i8) -> i32 {
            unsafe { $crate::hooks::unlink(a) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn statx(d: i32, path: *const i8, flags: i32, mask: u32, out: *mut $crate::libc::c_void) -> i32 {
            unsafe { $crate::hooks::statx(d, path, flags, mask, out) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
            unsafe { $crate::hooks::fsync(fd) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
            unsafe { $crate::hooks::fsync(fd) }
        }
    };
    () => { $crate::interpose!(@base); $crate::interpose!(@disk); $crate::interpose!(@threads); };
}
