//! Concurrent queues.
//!
//! This crate provides concurrent queues that can be shared among threads:
//!
//! * [`ArrayQueue`], a bounded MPMC queue that allocates a fixed-capacity buffer on construction.
//! * [`SegQueue`], an unbounded MPMC queue that allocates small buffers, segments, on demand.

#![no_std]
#![allow(dead_code)]
#![doc(test(
    no_crate_inject,
    attr(
        deny(warnings, rust_2018_idioms),
        allow(dead_code, unused_assignments, unused_variables)
    )
))]

#[cfg(all(feature = "alloc", target_has_atomic = "ptr"))]
extern crate alloc;
#[cfg(feature = "std")]
extern crate std;

#[cfg(all(feature = "alloc", target_has_atomic = "ptr"))]
mod array_queue;
#[cfg(all(feature = "alloc", target_has_atomic = "ptr"))]
mod seg_queue;

#[cfg(all(feature = "alloc", target_has_atomic = "ptr"))]
pub use crate::{array_queue::ArrayQueue, seg_queue::SegQueue};

/// Where the simulator may switch threads.
pub mod hook {
    use core::sync::atomic::{AtomicUsize, Ordering};

    static HOOK: AtomicUsize = AtomicUsize::new(0);

    /// Installs the scheduling hook.
    pub fn install(f: fn(&'static str)) {
        HOOK.store(f as usize, Ordering::Relaxed);
    }

    pub(crate) fn point(label: &'static str) {
        let f = HOOK.load(Ordering::Relaxed);
        if f != 0 {
            // Safety: only `install` stores here.
            let f: fn(&'static str) = unsafe { core::mem::transmute(f) };
            f(label);
        }
    }
}
