//! Things every property's run uses: reporting, child processes, operation outcomes.
use simcore::shm::{self, Report};
use simcore::st::*;

pub const WALL_S: u32 = 120;
static mut REP: *mut Report = std::ptr::null_mut();
pub fn set_report(r: *mut Report) { unsafe { REP = r } }
pub fn rep() -> &'static mut Report { unsafe { &mut *REP } }

/// Record a violation (the first one counts).
pub fn fail(class: &str, detail: String) {
    let r = rep();
    if r.vio == 0 {
        shm::put(&mut r.class, class);
        shm::put(&mut r.detail, &detail);
        r.vio = 1;
    }
}
/// Has this run done its share of work? (counted in simulator steps, so that the answer repeats)
pub fn enough() -> bool { sim().steps > 8_000_000 }
pub fn failed() -> bool { rep().vio != 0 }
pub fn sample(s: &str) { shm::put(&mut rep().sample, s); }
pub fn hash_note(h: u64) { sim().hashes.push(h & !1); }
pub fn stat(i: usize) { sim().stats[i] += 1; }
pub fn stat_add(i: usize, n: u64) { sim().stats[i] += n; }

/// Count one evaluated case; `nontrivial` by the property's own rule. `h` identifies it.
pub fn eval(nontrivial: bool, h: u64) {
    stat(EVALS);
    if nontrivial { stat(NONTRIVIAL); hash_note(h); }
}

/// Run `f` in a forked copy of this process and bring its numbers back. None: it died.
pub fn in_child(f: impl FnOnce() -> Vec<u64>) -> Result<Vec<u64>, String> {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe(p.as_mut_ptr()) != 0 { panic!("pipe"); }
        let pid = libc::fork();
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(WALL_S);
            let v = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(v) => v, Err(_) => libc::_exit(9) };
            let b = std::slice::from_raw_parts(v.as_ptr() as *const u8, v.len() * 8);
            let mut i = 0;
            while i < b.len() {
                let r = simcore::sysx::raw(1, p[1] as usize, b.as_ptr() as usize + i, b.len() - i, 0, 0, 0);
                if r <= 0 { libc::_exit(8); }
                i += r as usize;
            }
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut out: Vec<u8> = Vec::new();
        let mut buf = [0u8; 65536];
        loop {
            let r = simcore::sysx::raw(0, p[0] as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0);
            if r == -4 { continue; }
            if r <= 0 { break; }
            out.extend_from_slice(&buf[..r as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 { if *libc::__errno_location() != libc::EINTR { break; } }
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            Ok(out.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
        } else if libc::WIFSIGNALED(st) {
            Err(format!("signal {}", libc::WTERMSIG(st)))
        } else {
            Err(format!("exit {}", libc::WEXITSTATUS(st)))
        }
    }
}

pub fn modi(a: i64, n: usize) -> usize { if n == 0 { 0 } else { a.rem_euclid(n as i64) as usize } }

pub fn hash64(v: &[u64]) -> u64 {
    let mut h = 0x1234_5678u64 ^ v.len() as u64;
    for x in v { h = simcore::rng::mix(h, *x); }
    h
}

pub fn pan_name(p: &Pan) -> String {
    match p { Pan::Injected(i) => format!("injected panic {}", i), Pan::Budget => "step budget exhausted".into(), Pan::Native(s) => format!("panic \"{}\"", s) }
}
