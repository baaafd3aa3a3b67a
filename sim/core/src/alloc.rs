//! The simulated allocator: owns the content, recycling, refusal and bounds of every block the library allocates.
use crate::rng::Rng;
use crate::st::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct SimAlloc;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: u64,
    guard: u64,
    off: u32,
    flags: u32, // 1 = allocated by library code
    prev: *mut Hdr,
    next: *mut Hdr,
    align: u64,
    pre: u64, // guard in front of the user bytes
}
const HSZ: usize = std::mem::size_of::<Hdr>(); // 64
const MAGIC: u64 = 0x5A1A_C0DE_0F0F_A110;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const TAIL: usize = 32;

pub const F_ZERO: u32 = 1;
pub const F_ONES: u32 = 2;
pub const F_RANDOM: u32 = 4;
pub const F_STALE: u32 = 8;
pub const F_PLAUSIBLE: u32 = 16;
pub const F_KEEP: u32 = 32;

const NREUSE: usize = 48;
const STALE_MAX: usize = 4096;
const NSTALE: usize = 16;

pub struct AllocState {
    pub modes: u32,
    pub rng: Rng,
    pub guard: u64,
    pub live_blocks: i64,
    pub live_bytes: i64,
    pub total: u64,
    /// refuse allocations number fail_from ..= fail_to (1-based count of library allocations)
    pub fail_from: u64,
    pub fail_to: u64,
    pub count: u64,
    pub refused: u64,
    pub corrupt: u64,
    pub badfree: u64,
    /// 0 = never recycle, 1 = last freed first, 2 = first freed first, 3 = random
    pub reuse: u32,
    list: *mut Hdr,
    pool: [*mut Hdr; NREUSE],
    npool: usize,
    stale: [[u8; STALE_MAX]; NSTALE],
    stale_len: [usize; NSTALE],
    stale_n: usize,
    pub limit: usize,
    pub yields: bool,
}

impl AllocState {
    pub const fn new() -> AllocState {
        AllocState {
            modes: F_ZERO, rng: Rng::zero(), guard: 0xA5A5_5A5A_1234_8765, live_blocks: 0, live_bytes: 0, total: 0,
            fail_from: 0, fail_to: 0, count: 0, refused: 0, corrupt: 0, badfree: 0, reuse: 0,
            list: std::ptr::null_mut(), pool: [std::ptr::null_mut(); NREUSE], npool: 0,
            stale: [[0; STALE_MAX]; NSTALE], stale_len: [0; NSTALE], stale_n: 0, limit: 1 << 28, yields: true,
        }
    }
}

pub static BAD_FREE: AtomicU64 = AtomicU64::new(0);

/// Reset the environment's choice of contents and recycling.
pub fn configure(seed: u64, modes: u32, reuse: u32) {
    let a = &mut sim().alloc;
    a.rng = Rng::new(seed);
    a.guard = a.rng.next() | 1;
    a.modes = if modes == 0 { F_ZERO } else { modes };
    a.reuse = reuse;
    a.fail_from = 0;
    a.fail_to = 0;
    a.count = 0;
}

/// Give all recycled blocks back to the system.
pub fn drain() {
    let a = &mut sim().alloc;
    while a.npool > 0 {
        a.npool -= 1;
        unsafe { release(a.pool[a.npool]) };
    }
    a.stale_n = 0;
}

/// Verify the guards of all live library blocks.
pub fn check_heap() -> bool {
    let a = &mut sim().alloc;
    let mut p = a.list;
    while !p.is_null() {
        unsafe {
            if (*p).magic != MAGIC || !guards_ok(p) { a.corrupt += 1; return false; }
            p = (*p).next;
        }
    }
    a.corrupt == 0 && a.badfree == 0
}

unsafe fn guards_ok(h: *mut Hdr) -> bool {
    let g = (*h).guard;
    if (*h).pre != g { return false; }
    let tail = (h as *mut u8).add(HSZ + (*h).size as usize);
    for i in 0..TAIL / 8 {
        if std::ptr::read_unaligned(tail.add(i * 8) as *const u64) != g.rotate_left(i as u32 * 7) { return false; }
    }
    true
}

unsafe fn set_guards(h: *mut Hdr, g: u64) {
    (*h).guard = g;
    (*h).pre = g;
    let tail = (h as *mut u8).add(HSZ + (*h).size as usize);
    for i in 0..TAIL / 8 {
        std::ptr::write_unaligned(tail.add(i * 8) as *mut u64, g.rotate_left(i as u32 * 7));
    }
}

unsafe fn release(h: *mut Hdr) {
    let off = (*h).off as usize;
    let align = (*h).align as usize;
    let total = off + (*h).size as usize + TAIL;
    let raw = (h as *mut u8).add(HSZ).sub(off);
    (*h).magic = DEAD;
    System.dealloc(raw, Layout::from_size_align_unchecked(total, align));
}

unsafe fn fill(u: *mut u8, n: usize, recycled: bool) {
    let s = sim();
    let a = &mut s.alloc;
    // pick one of the enabled modes
    let mut cand = [0u32; 6];
    let mut nc = 0;
    for b in 0..6 {
        let m = 1u32 << b;
        if a.modes & m != 0 && (m != F_KEEP || recycled) && (m != F_STALE || a.stale_n > 0) { cand[nc] = m; nc += 1; }
    }
    let m = if nc == 0 { F_ZERO } else { cand[a.rng.below(nc as u64) as usize] };
    match m {
        F_ZERO => { std::ptr::write_bytes(u, 0, n); s.stats[FILL_ZERO] += 1; }
        F_ONES => { std::ptr::write_bytes(u, 0xFF, n); s.stats[FILL_ONES] += 1; }
        F_RANDOM => {
            let mut i = 0;
            while i < n {
                let v = a.rng.next().to_le_bytes();
                let k = if n - i < 8 { n - i } else { 8 };
                std::ptr::copy_nonoverlapping(v.as_ptr(), u.add(i), k);
                i += k;
            }
            s.stats[FILL_RANDOM] += 1;
        }
        F_STALE => {
            let cnt = if a.stale_n < NSTALE { a.stale_n } else { NSTALE };
            // prefer a block of the same size
            let start = a.rng.below(cnt as u64) as usize;
            let mut pick = start;
            for d in 0..cnt {
                let j = (start + d) % cnt;
                if a.stale_len[j] == n { pick = j; break; }
            }
            let l = if a.stale_len[pick] == 0 { 1 } else { a.stale_len[pick] };
            let mut i = 0;
            while i < n {
                let k = if n - i < l { n - i } else { l };
                std::ptr::copy_nonoverlapping(a.stale[pick].as_ptr(), u.add(i), k);
                i += k;
            }
            s.stats[FILL_STALE] += 1;
        }
        F_PLAUSIBLE => {
            let f = ((a.rng.below(64) as f64) - 31.5) / 8.0;
            let v = f.to_bits().to_le_bytes();
            let f32b = (f as f32).to_bits().to_le_bytes();
            let narrow = a.rng.below(3) == 0;
            for i in 0..n {
                *u.add(i) = if narrow { f32b[i % 4] } else { v[i % 8] };
            }
            s.stats[FILL_PLAUSIBLE] += 1;
        }
        _ => { s.stats[FILL_KEEP] += 1; }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let lib = live();
        if lib {
            if sim().alloc.yields { point(Kind::Alloc); }
            let s = sim();
            s.alloc.count += 1;
            s.alloc.total += 1;
            s.tasks[task()].allocs += 1;
            let a = &mut s.alloc;
            if (a.fail_from != 0 && a.count >= a.fail_from && a.count <= a.fail_to) || l.size() > a.limit {
                a.refused += 1;
                s.stats[ALLOC_REFUSED] += 1;
                return std::ptr::null_mut();
            }
            // recycle a block of the same shape
            if a.reuse != 0 && a.npool > 0 {
                let mut hit = usize::MAX;
                match a.reuse {
                    2 => for i in 0..a.npool { if (*a.pool[i]).size as usize == l.size() && (*a.pool[i]).align as usize >= l.align() { hit = i; break; } },
                    _ => for i in (0..a.npool).rev() {
                        if (*a.pool[i]).size as usize == l.size() && (*a.pool[i]).align as usize >= l.align() {
                            hit = i;
                            if a.reuse == 3 && a.rng.below(2) == 0 { continue; }
                            break;
                        }
                    },
                }
                if hit != usize::MAX {
                    let h = a.pool[hit];
                    for i in hit + 1..a.npool { a.pool[i - 1] = a.pool[i]; }
                    a.npool -= 1;
                    (*h).magic = MAGIC;
                    set_guards(h, a.guard);
                    link(h);
                    s.stats[BLOCK_REUSED] += 1;
                    let u = (h as *mut u8).add(HSZ);
                    fill(u, l.size(), true);
                    return u;
                }
            }
        }
        let align = if l.align() < 16 { 16 } else { l.align() };
        let off = if align > HSZ { align } else { HSZ };
        let total = match off.checked_add(l.size()).and_then(|x| x.checked_add(TAIL)) { Some(t) => t, None => return std::ptr::null_mut() };
        let raw = System.alloc(Layout::from_size_align_unchecked(total, align));
        if raw.is_null() { return raw; }
        let u = raw.add(off);
        let h = u.sub(HSZ) as *mut Hdr;
        (*h).magic = MAGIC;
        (*h).size = l.size() as u64;
        (*h).off = off as u32;
        (*h).align = align as u64;
        (*h).flags = lib as u32;
        (*h).prev = std::ptr::null_mut();
        (*h).next = std::ptr::null_mut();
        set_guards(h, sim().alloc.guard);
        if lib {
            link(h);
            fill(u, l.size(), false);
        }
        u
    }

    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = u.sub(HSZ) as *mut Hdr;
        if (*h).magic != MAGIC || (*h).size as usize != l.size() {
            sim().alloc.badfree += 1;
            BAD_FREE.fetch_add(1, Relaxed);
            return; // never touch the system allocator with a bad block
        }
        if !guards_ok(h) {
            sim().alloc.corrupt += 1;
            set_guards(h, (*h).guard);
        }
        if (*h).flags & 1 == 0 {
            release(h);
            return;
        }
        let a = &mut sim().alloc;
        unlink(h);
        // remember what was in it
        let n = l.size();
        if n > 0 {
            let k = a.stale_n % NSTALE;
            let c = if n < STALE_MAX { n } else { STALE_MAX };
            std::ptr::copy_nonoverlapping(u, a.stale[k].as_mut_ptr(), c);
            a.stale_len[k] = c;
            a.stale_n += 1;
        }
        (*h).magic = DEAD;
        if a.reuse != 0 && n <= STALE_MAX {
            if a.npool == NREUSE {
                release(a.pool[0]);
                for i in 1..NREUSE { a.pool[i - 1] = a.pool[i]; }
                a.npool -= 1;
            }
            // contents of freed memory are anybody's: poison so that dangling reads show
            if a.modes & F_KEEP == 0 || a.rng.below(2) == 0 { std::ptr::write_bytes(u, 0xDD, n); }
            a.pool[a.npool] = h;
            a.npool += 1;
        } else {
            std::ptr::write_bytes(u, 0xDD, n);
            release(h);
        }
    }
}

unsafe fn link(h: *mut Hdr) {
    let a = &mut sim().alloc;
    a.live_blocks += 1;
    a.live_bytes += (*h).size as i64;
    (*h).flags |= 1;
    (*h).prev = std::ptr::null_mut();
    (*h).next = a.list;
    if !a.list.is_null() { (*a.list).prev = h; }
    a.list = h;
}
unsafe fn unlink(h: *mut Hdr) {
    let a = &mut sim().alloc;
    a.live_blocks -= 1;
    a.live_bytes -= (*h).size as i64;
    if (*h).prev.is_null() { a.list = (*h).next } else { (*(*h).prev).next = (*h).next }
    if !(*h).next.is_null() { (*(*h).next).prev = (*h).prev }
}
