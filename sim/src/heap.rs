//! Guarded heap: every block is surrounded by canaries and filled with seed-dependent garbage, so a
//! read outside owned memory makes results depend on the seed and a write outside it is detected.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Guard;
static ON: AtomicBool = AtomicBool::new(false);
static SEED: AtomicU64 = AtomicU64::new(1);
static BAD: AtomicUsize = AtomicUsize::new(0);
static BADSIZE: AtomicUsize = AtomicUsize::new(0);
pub static BLOCKS: AtomicU64 = AtomicU64::new(0);
/// bytes the code under simulation has asked for and not given back, and the most of it since the last call of `peak`
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
pub fn peak() -> i64 {
    PEAK.swap(LIVE.load(Relaxed), Relaxed)
}
const MAGIC: u64 = 0xD57A_110C_0000_0000;
const HDR: usize = 64; // header and front redzone
const TAIL: usize = 256;

/// Blocks allocated while on carry guards; every block carries a header so that both kinds can be freed.
pub fn on(seed: u64) {
    SEED.store(seed | 1, Relaxed);
    ON.store(true, Relaxed);
}
pub fn off() {
    ON.store(false, Relaxed);
}
/// number of blocks found damaged since the last call, and the size of the last one
pub fn damaged() -> (usize, usize) {
    (BAD.swap(0, Relaxed), BADSIZE.load(Relaxed))
}
#[inline]
fn pat(seed: u64, i: u64) -> u64 {
    (seed ^ i.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_mul(0xBF58476D1CE4E5B9) | 0x0101
}
unsafe fn fill(p: *mut u8, n: usize, seed: u64, salt: u64) {
    let mut i = 0;
    while i + 8 <= n {
        (p.add(i) as *mut u64).write_unaligned(pat(seed, salt + (i as u64 / 8) % 61));
        i += 8;
    }
    while i < n {
        *p.add(i) = pat(seed, salt + i as u64) as u8;
        i += 1;
    }
}
unsafe fn check(p: *const u8, n: usize, seed: u64, salt: u64) -> bool {
    let mut i = 0;
    while i + 8 <= n {
        if (p.add(i) as *const u64).read_unaligned() != pat(seed, salt + (i as u64 / 8) % 61) {
            return false;
        }
        i += 8;
    }
    true
}
// header: [magic|guarded][seed][size][align pad]
unsafe fn pads(l: Layout) -> usize {
    HDR.max(l.align())
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        self.get(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        self.get(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let pad = pads(l);
        let base = p.sub(pad);
        let h = base as *mut u64;
        let kind = h.read().wrapping_sub(MAGIC);
        if kind == 2 || kind == 3 {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        let guarded = match kind {
            0 | 2 => false,
            1 | 3 => true,
            _ => {
                // the header itself is damaged: leak the block
                BAD.fetch_add(1, Relaxed);
                BADSIZE.store(l.size(), Relaxed);
                return;
            }
        };
        if guarded {
            let seed = h.add(1).read();
            if h.add(2).read() != l.size() as u64
                || !check(base.add(24), pad - 24, seed, 3)
                || !check(p.add(l.size()), TAIL, seed, 7)
            {
                BAD.fetch_add(1, Relaxed);
                BADSIZE.store(l.size(), Relaxed);
                return;
            }
            fill(p, l.size().min(1 << 16), seed, 11);
            System.dealloc(base, Layout::from_size_align_unchecked(pad + l.size() + TAIL, l.align().max(16)));
        } else {
            System.dealloc(base, Layout::from_size_align_unchecked(pad + l.size(), l.align().max(16)));
        }
    }
}
impl Guard {
    unsafe fn get(&self, l: Layout, zero: bool) -> *mut u8 {
        if simhook::alloc_fails(l.size()) {
            return std::ptr::null_mut();
        }
        let pad = pads(l);
        let guarded = ON.load(Relaxed);
        let total = pad + l.size() + if guarded { TAIL } else { 0 };
        let lay = match Layout::from_size_align(total, l.align().max(16)) {
            Ok(x) => x,
            Err(_) => return std::ptr::null_mut(),
        };
        let base = if zero && !guarded { System.alloc_zeroed(lay) } else { System.alloc(lay) };
        if base.is_null() {
            return base;
        }
        let h = base as *mut u64;
        let p = base.add(pad);
        let counted = if simhook::active() {
            let n = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
            if n > PEAK.load(Relaxed) {
                PEAK.store(n, Relaxed);
            }
            2
        } else {
            0
        };
        if guarded {
            let n = BLOCKS.fetch_add(1, Relaxed);
            let seed = SEED.load(Relaxed).wrapping_mul(0x2545F4914F6CDD1D) ^ (n & 63);
            h.write(MAGIC + 1 + counted);
            h.add(1).write(seed);
            h.add(2).write(l.size() as u64);
            fill(base.add(24), pad - 24, seed, 3);
            fill(p.add(l.size()), TAIL, seed, 7);
            if zero {
                std::ptr::write_bytes(p, 0, l.size());
            } else {
                fill(p, l.size().min(1 << 16), seed, 5);
            }
        } else {
            h.write(MAGIC + counted);
        }
        p
    }
}
