//! The reference-count seam.  With the guarded hook of /repo the `Arc` inside
//! `DatumArc` announces every operation; without it (fallback) it is `std`'s.

#[cfg(feature = "hooks")]
pub use kul::sim_hooks::{Arc, Weak};
#[cfg(not(feature = "hooks"))]
pub use std::sync::{Arc, Weak};

/// Number of operations announced on this thread.
pub fn install() {
    #[cfg(feature = "hooks")]
    kul::sim_hooks::set_hook(Some(on_op));
}

#[cfg(feature = "hooks")]
fn on_op(op: kul::sim_hooks::Op) {
    use kul::sim_hooks::Op;
    let (name, code) = match op {
        Op::New => ("arc-new", 0),
        Op::Clone => ("arc-clone", 1),
        Op::Drop => ("arc-drop", 2),
        Op::TryUnwrap => ("arc-try-unwrap", 3),
        Op::GetMut => ("arc-get-mut", 4),
        Op::StrongCount => ("arc-strong-count", 5),
        Op::WeakCount => ("arc-weak-count", 6),
        Op::Downgrade => ("arc-downgrade", 7),
        Op::WeakUpgrade => ("weak-upgrade", 8),
        Op::WeakClone => ("weak-clone", 9),
        Op::WeakDrop => ("weak-drop", 10),
    };
    OPS.with(|o| { let mut v = o.get(); v[code] += 1; o.set(v); });
    crate::log::tick();
    crate::sched::yield_now(name);
}

thread_local! {
    static OPS: std::cell::Cell<[u64; 11]> = const { std::cell::Cell::new([0; 11]) };
}

/// Operations announced on this thread since the last call.
pub fn take_ops() -> [u64; 11] {
    OPS.with(|o| o.replace([0; 11]))
}
