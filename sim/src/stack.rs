//! Stack use, measured by painting.

#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}

const PAINT: u8 = 0xA5;
const GAP: usize = 8192;

/// Run `f` on a stack painted before; returns the deepest use in bytes (at most
/// `paint`).  The thread must have more stack than that left.
#[inline(never)]
pub fn in_paint<R>(paint: usize, f: impl FnOnce() -> R) -> (std::thread::Result<R>, usize) {
    let base = here();
    let low = base - GAP - paint;
    // SAFETY: nothing lives below the current frames, and the thread's stack
    // reaches further down than `low`.
    unsafe { std::ptr::write_bytes(low as *mut u8, PAINT, paint) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    (r, scan(low, paint).map_or(0, |a| base - a))
}

/// Lowest address that is not painted any more.
#[inline(never)]
fn scan(low: usize, len: usize) -> Option<usize> {
    // SAFETY: as above; frames of this function are above the region.
    let mem = unsafe { std::slice::from_raw_parts(low as *const u8, len) };
    let clean = [PAINT; 1024];
    let k = mem.chunks(1024).position(|c| *c != clean[..c.len()])?;
    let chunk = &mem[k * 1024..];
    chunk.iter().position(|b| *b != PAINT).map(|i| low + k * 1024 + i)
}

/// On a thread with plenty of stack, so that even runaway recursion is
/// measured and not a crash.
pub fn deep<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || {
            crate::hooks::install();
            f()
        });
        match h.map(std::thread::ScopedJoinHandle::join) {
            Ok(Ok(x)) => x,
            Ok(Err(p)) => std::panic::resume_unwind(p),
            Err(e) => { eprintln!("harness error: {e}"); std::process::exit(3) }
        }
    })
}
