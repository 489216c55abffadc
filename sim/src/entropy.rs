//! The seam of the system's random numbers.  `std` asks the system for the keys
//! of its hash tables once per thread; the answer here follows from the run.

use std::sync::atomic::{AtomicU64, Ordering};

static SEED: AtomicU64 = AtomicU64::new(1);

/// Stands in for the C library's function (which `std` looks up by name).
///
/// # Safety
/// As the C library's.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = crate::rng::Rng::new(SEED.load(Ordering::Relaxed));
    for i in 0..len {
        // SAFETY: The caller gives `len` writable bytes.
        unsafe { *buf.add(i) = r.next() as u8; }
    }
    len as isize
}

/// Do something on a thread of its own whose hash tables are keyed by `seed`.
pub fn keyed<R: Send>(seed: u64, f: impl FnOnce() -> R + Send) -> R {
    SEED.store(seed, Ordering::Relaxed);
    let r = std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || {
            crate::hooks::install();
            f()
        });
        match t {
            Ok(t) => t.join(),
            Err(e) => {
                eprintln!("harness error: no thread: {e}");
                std::process::exit(3);
            }
        }
    });
    r.unwrap_or_else(|p| std::panic::resume_unwind(p))
}
