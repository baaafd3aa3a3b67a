//! The report a simulated run leaves in shared memory for its supervisor.
use crate::st::*;

pub const MAXH: usize = 512;
pub const MAXS: usize = 4096;
#[repr(C)]
pub struct Report {
    pub done: u32,
    pub vio: u32,
    pub class: [u8; 160],
    pub detail: [u8; 2048],
    pub stats: [u64; NSTAT],
    pub ops: [u64; 256],
    pub nh: u32,
    pub hashes: [u64; MAXH],
    pub steps: u64,
    pub loghash: u64,
    pub ns: u32,
    pub sched: [(u64, u64); MAXS],
    pub sample: [u8; 512],
}

pub fn map() -> &'static mut Report {
    unsafe {
        let n = std::mem::size_of::<Report>();
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        &mut *(p as *mut Report)
    }
}
pub fn clear(r: &mut Report) { unsafe { std::ptr::write_bytes(r as *mut Report as *mut u8, 0, std::mem::size_of::<Report>()); } }

pub fn put(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&b[..n]);
    for x in dst[n..].iter_mut() { *x = 0; }
}
pub fn get(src: &[u8]) -> String {
    let n = src.iter().position(|&b| b == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}
