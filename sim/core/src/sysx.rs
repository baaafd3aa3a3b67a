//! The simulated operating system boundary: file reads, standard output, entropy and futex.
//! The functions below replace libc's of the same name for the whole executable; std and the
//! dependencies call them. Outside simulated library calls, and for descriptors the simulator does not own,
//! they pass through to the kernel.
use crate::rng::*;
use crate::st::*;
use std::os::raw::{c_char, c_int, c_long, c_void};

pub const PREFIX: &[u8] = b"/la-sim-vfs/";

#[derive(Clone, Debug, PartialEq)]
pub enum REv {
    Chunk(u32),
    Eintr,
    Err(i32),
    /// the file's remaining content is replaced (writer racing with the reader)
    Replace(Vec<u8>),
    Trunc(u32),
    Flip(u32, u8),
}

pub struct Node {
    pub name: Vec<u8>,
    pub data: Vec<u8>,
    pub open_plan: Vec<i32>,
    pub plans: Vec<Vec<REv>>,
    pub opens: usize,
    pub attempts: usize,
    pub default_chunk: usize,
    pub size_lie: i64,
}

pub struct VFd { pub fd: i32, pub node: usize, pub pos: usize, pub plan: Vec<REv>, pub pi: usize, pub delivered: Vec<u8>, pub eof: bool, pub err: i32, pub task: usize, pub open: bool }

#[derive(Clone, Debug, PartialEq)]
pub enum WEv { Chunk(u32), Eintr, Err(i32) }

pub struct Sys {
    pub nodes: Vec<Node>,
    pub fds: Vec<VFd>,
    pub capture: bool,
    pub out: Vec<u8>,
    pub wplan: Vec<WEv>,
    pub wi: usize,
    pub werr: [u64; MAXT],
    pub entropy_seed: u64,
    pub entropy_on: bool,
    pub entropy_n: [u64; MAXT],
    pub entropy_faults: bool,
    pub wild_close: u64,
    pub clock_ns: u64,
    pub wall_skew: u64,
}

impl Sys {
    pub const fn new() -> Sys {
        Sys { nodes: Vec::new(), fds: Vec::new(), capture: false, out: Vec::new(), wplan: Vec::new(), wi: 0, werr: [0; MAXT], entropy_seed: 0, entropy_on: false, entropy_n: [0; MAXT], entropy_faults: false, wild_close: 0, clock_ns: 1_000_000_000, wall_skew: 1_700_000_000_000_000_000 }
    }
    pub fn open_count(&self) -> usize { self.fds.iter().filter(|f| f.open).count() }
}

#[inline]
pub unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 { set_errno(-r as i32); -1 } else { r }
}
unsafe fn set_errno(e: i32) { *libc::__errno_location() = e; }

/// Unsimulated output for the harness itself.
pub fn out(s: &str) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let r = unsafe { raw(1, 1, b.as_ptr() as usize + i, b.len() - i, 0, 0, 0) };
        if r <= 0 { break; }
        i += r as usize;
    }
}

fn find(fd: c_int) -> Option<usize> {
    if !live_any() { return None; }
    sim().sys.fds.iter().position(|f| f.fd == fd && f.open)
}
/// virtual descriptors are honoured whenever any exist (a file may be dropped outside the call scope)
fn live_any() -> bool { !sim().sys.fds.is_empty() }

unsafe fn do_open(path: *const c_char, flags: c_int, mode: usize) -> c_int {
    if live() {
        let p = std::ffi::CStr::from_ptr(path).to_bytes();
        if p.starts_with(PREFIX) {
            point(Kind::Sys);
            return mute(|| {
                let s = sim();
                let n = match s.sys.nodes.iter().position(|n| n.name == p[PREFIX.len()..]) { Some(n) => n, None => { set_errno(libc::ENOENT); return -1; } };
                let node = &mut s.sys.nodes[n];
                let at = node.attempts;
                node.attempts += 1;
                if let Some(&e) = node.open_plan.get(at) {
                    if e != 0 {
                        s.stats[if e == libc::EINTR { OPEN_EINTR } else { OPEN_ERR }] += 1;
                        set_errno(e);
                        return -1;
                    }
                }
                if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_TRUNC) != 0 { set_errno(libc::EACCES); return -1; }
                let fd = raw(2, b"/dev/null\0".as_ptr() as usize, libc::O_CLOEXEC as usize, 0, 0, 0, 0) as c_int;
                let k = node.opens;
                node.opens += 1;
                let plan = node.plans.get(k).cloned().unwrap_or_default();
                s.sys.fds.push(VFd { fd, node: n, pos: 0, plan, pi: 0, delivered: Vec::new(), eof: false, err: 0, task: task(), open: true });
                fd
            });
        }
    }
    ret(raw(2, path as usize, flags as usize, mode, 0, 0, 0)) as c_int
}

#[no_mangle] pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: usize) -> c_int { do_open(path, flags | libc::O_LARGEFILE, mode) }
#[no_mangle] pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: usize) -> c_int { do_open(path, flags, mode) }

#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(i) = find(fd) { sim().sys.fds[i].open = false; }
    ret(raw(3, fd as usize, 0, 0, 0, 0, 0)) as c_int
}

unsafe fn vread(i: usize, buf: *mut u8, n: usize) -> isize {
    point(Kind::Sys);
    mute(|| {
        let s = sim();
        s.stats[READS] += 1;
        loop {
            let f = &mut s.sys.fds[i];
            let node = &mut s.sys.nodes[f.node];
            let mut want = node.default_chunk;
            if f.eof { return 0; }
            if f.pi < f.plan.len() {
                let ev = f.plan[f.pi].clone();
                f.pi += 1;
                match ev {
                    REv::Chunk(k) => want = k as usize,
                    REv::Eintr => { s.stats[READ_EINTR] += 1; set_errno(libc::EINTR); return -1; }
                    REv::Err(e) => { s.stats[READ_ERR] += 1; f.err = e; set_errno(e); return -1; }
                    REv::Replace(d) => { s.stats[FILE_REPLACED] += 1; let keep = f.pos.min(node.data.len()); node.data.truncate(keep); node.data.extend_from_slice(&d); continue; }
                    REv::Trunc(k) => { s.stats[FILE_TRUNC] += 1; let k = (k as usize).min(node.data.len()); node.data.truncate(k); continue; }
                    REv::Flip(p, x) => { if node.data.len() > 0 { s.stats[BYTE_FLIP] += 1; let l = node.data.len(); node.data[p as usize % l] ^= x; } continue; }
                }
            }
            let left = node.data.len().saturating_sub(f.pos);
            let k = n.min(left).min(want.max(1));
            if n > 0 && left == 0 { f.eof = true; return 0; }
            if k < n && k < left { s.stats[READ_SHORT] += 1; if node.data[f.pos + k] & 0xC0 == 0x80 { s.stats[READ_SPLIT_UTF8] += 1; } }
            std::ptr::copy_nonoverlapping(node.data.as_ptr().add(f.pos), buf, k);
            f.delivered.extend_from_slice(&node.data[f.pos..f.pos + k]);
            f.pos += k;
            return k as isize;
        }
    })
}

#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if let Some(i) = find(fd) { return vread(i, buf as *mut u8, n); }
    ret(raw(0, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    if let Some(i) = find(fd) {
        for j in 0..cnt as usize { let v = &*iov.add(j); if v.iov_len > 0 { return vread(i, v.iov_base as *mut u8, v.iov_len); } }
        return 0;
    }
    ret(raw(19, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}
unsafe fn vpread(i: usize, buf: *mut c_void, n: usize, off: i64) -> isize {
    let f = &mut sim().sys.fds[i];
    let save = (f.pos, f.eof);
    f.pos = off.max(0) as usize;
    f.eof = false;
    let r = vread(i, buf as *mut u8, n);
    let f = &mut sim().sys.fds[i];
    f.pos = save.0;
    r
}
#[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    if let Some(i) = find(fd) { return vpread(i, buf, n, off); }
    ret(raw(17, fd as usize, buf as usize, n, off as usize, 0, 0))
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    if let Some(i) = find(fd) {
        let f = &mut sim().sys.fds[i];
        let len = sim().sys.nodes[f.node].data.len() as i64;
        let np = match wh { 0 => off, 1 => f.pos as i64 + off, _ => len + off };
        if np < 0 { set_errno(libc::EINVAL); return -1; }
        if np as usize != f.pos { f.eof = false; f.delivered.truncate(np as usize); }
        f.pos = np as usize;
        return np;
    }
    ret(raw(8, fd as usize, off as usize, wh as usize, 0, 0, 0)) as i64
}
#[no_mangle] pub unsafe extern "C" fn lseek(fd: c_int, off: i64, wh: c_int) -> i64 { lseek64(fd, off, wh) }

unsafe fn vsize(i: usize) -> i64 { let f = &sim().sys.fds[i]; let n = &sim().sys.nodes[f.node]; (n.data.len() as i64 + n.size_lie).max(0) }

#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if let Some(i) = find(fd) {
        std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
        (*st).st_mode = libc::S_IFREG | 0o644;
        (*st).st_size = vsize(i);
        (*st).st_blksize = 4096;
        return 0;
    }
    ret(raw(5, fd as usize, st as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: u32, st: *mut libc::statx) -> c_int {
    if live_any() {
        let p: &[u8] = if path.is_null() { b"" } else { std::ffi::CStr::from_ptr(path).to_bytes() };
        let mut size = None;
        if p.is_empty() { if let Some(i) = find(fd) { size = Some(vsize(i)); } }
        if let Some(sz) = size {
            std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
            (*st).stx_mask = 0x7ff;
            (*st).stx_mode = (libc::S_IFREG | 0o644) as u16;
            (*st).stx_size = sz as u64;
            (*st).stx_blksize = 4096;
            return 0;
        }
    }
    if live() && !path.is_null() {
        let p = std::ffi::CStr::from_ptr(path).to_bytes();
        if p.starts_with(PREFIX) {
            match sim().sys.nodes.iter().find(|n| n.name == p[PREFIX.len()..]) {
                Some(n) => {
                    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
                    (*st).stx_mask = 0x7ff;
                    (*st).stx_mode = (libc::S_IFREG | 0o644) as u16;
                    (*st).stx_size = (n.data.len() as i64 + n.size_lie).max(0) as u64;
                    return 0;
                }
                None => { set_errno(libc::ENOENT); return -1; }
            }
        }
    }
    ret(raw(332, fd as usize, path as usize, flags as usize, mask as usize, st as usize, 0)) as c_int
}

#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if fd == 1 && sim().sys.capture { return if live() { vwrite(buf as *const u8, n) } else { n as isize }; }
    ret(raw(1, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    if fd == 1 && sim().sys.capture {
        if !live() { return (0..cnt as usize).map(|j| (*iov.add(j)).iov_len).sum::<usize>() as isize; }
        for j in 0..cnt as usize { let v = &*iov.add(j); if v.iov_len > 0 { return vwrite(v.iov_base as *const u8, v.iov_len); } }
        return 0;
    }
    ret(raw(20, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}
unsafe fn vwrite(buf: *const u8, n: usize) -> isize {
    point(Kind::Sys);
    mute(|| {
        let s = sim();
        s.stats[WRITES] += 1;
        let mut k = n;
        if s.sys.wi < s.sys.wplan.len() {
            let e = s.sys.wplan[s.sys.wi].clone();
            s.sys.wi += 1;
            match e {
                WEv::Chunk(c) => { if (c as usize) < n { s.stats[WRITE_SHORT] += 1; } k = k.min(c.max(1) as usize); }
                WEv::Eintr => { s.stats[WRITE_EINTR] += 1; set_errno(libc::EINTR); return -1; }
                WEv::Err(e) => { s.stats[WRITE_ERR] += 1; s.sys.werr[task()] += 1; set_errno(e); return -1; }
            }
        }
        s.sys.out.extend_from_slice(std::slice::from_raw_parts(buf, k));
        k as isize
    })
}

unsafe fn entropy(buf: *mut u8, n: usize) -> isize {
    let s = sim();
    let t = task();
    let c = s.sys.entropy_n[t];
    s.sys.entropy_n[t] += 1;
    s.stats[ENTROPY_CALLS] += 1;
    let h = mix(mix(s.sys.entropy_seed, t as u64), c);
    let mut k = n;
    if s.sys.entropy_faults && n > 0 {
        // faults are a function of their own stream so that the bytes delivered do not depend on them
        let f = s.misc.below(6);
        if f == 0 { s.sys.entropy_n[t] = c; s.stats[ENTROPY_EINTR] += 1; set_errno(libc::EINTR); return -1; }
        if f == 1 && n > 1 { s.stats[ENTROPY_SHORT] += 1; k = 1 + s.misc.below(n as u64 - 1) as usize; }
    }
    let _ = h;
    // byte stream per task: position-indexed so that short reads do not change it
    for i in 0..k {
        let pos = ENT_POS[t].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        *buf.add(i) = (mix(mix(s.sys.entropy_seed, 0xE27 + t as u64), pos / 8) >> ((pos % 8) * 8)) as u8;
    }
    k as isize
}
static ENT_POS: [std::sync::atomic::AtomicU64; MAXT] = [const { std::sync::atomic::AtomicU64::new(0) }; MAXT];
pub fn entropy_reset(seed: u64, on: bool) {
    let s = &mut sim().sys;
    s.entropy_seed = seed;
    s.entropy_on = on;
    s.entropy_n = [0; MAXT];
    for e in ENT_POS.iter() { e.store(0, std::sync::atomic::Ordering::Relaxed); }
}

#[no_mangle] pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: u32) -> isize {
    if sim().sys.entropy_on && live() { return entropy(buf as *mut u8, n); }
    ret(raw(318, buf as usize, n, flags as usize, 0, 0, 0))
}

#[no_mangle] pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == 318 && sim().sys.entropy_on && live() { return entropy(a as *mut u8, b) as c_long; }
    if n == 202 && sim().sched.active && live() {
        let op = b & 0x7f;
        let t = task();
        if op == 0 || op == 9 {
            let cur = (*(a as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst);
            if cur != c as u32 { set_errno(libc::EAGAIN); return -1; }
            let to = crate::sched::block_on(t, a, d != 0);
            if to { set_errno(libc::ETIMEDOUT); return -1; }
            return 0;
        }
        if op == 1 || op == 10 {
            let w = crate::sched::wake(a, c);
            if w > 0 { point(Kind::Futex); return w as c_long; }
        }
    }
    ret(raw(n as usize, a, b, c, d, e, f)) as c_long
}

// ---- time: inside the simulation the clock advances only with simulator steps and sleeps
#[no_mangle] pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if live() {
        let s = sim();
        let ns = s.sys.clock_ns + s.steps * 1000 + if id == 0 { s.sys.wall_skew } else { 0 };
        (*ts).tv_sec = (ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(228, id as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
unsafe fn sleep(ns: u64) { sim().sys.clock_ns += ns; point(Kind::Sys); }
#[no_mangle] pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if live() { sleep((*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64); return 0; }
    ret(raw(35, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(id: c_int, fl: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if live() { sleep((*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64); return 0; }
    let r = raw(230, id as usize, fl as usize, a as usize, b as usize, 0, 0);
    if r < 0 { -r as c_int } else { 0 }
}
#[no_mangle] pub unsafe extern "C" fn sched_yield() -> c_int {
    if live() { point(Kind::Sys); if sim().sched.active { crate::sched::yield_now(task()); } return 0; }
    ret(raw(24, 0, 0, 0, 0, 0, 0)) as c_int
}
