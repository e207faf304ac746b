//! Takes control of the process's only other source of nondeterminism: the operating system's
//! random numbers (std's hash seeds, rand's thread_rng) come from this counter-based generator.
use std::cell::Cell;

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(1) };
}

pub fn set_thread_seed(s: u64) {
    SEED.with(|c| c.set(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03));
}

fn next() -> u64 {
    SEED.with(|c| {
        let mut z = c.get().wrapping_add(0x9E3779B97F4A7C15);
        c.set(z);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    })
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut i = 0;
    while i < len {
        let w = next().to_le_bytes();
        let n = (len - i).min(8);
        std::ptr::copy_nonoverlapping(w.as_ptr(), buf.add(i), n);
        i += n;
    }
    len as isize
}

/// Runs `f` on a fresh thread whose hash seeds / RNG derive from `seed`; panics come back as Err.
pub fn with_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, move || {
                set_thread_seed(seed);
                crate::core::guarded(f)
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("thread panicked".into()))
    })
}
