//! Running cases in forked children, minimising failures.
use crate::case::Case;
use crate::ctx;
use crate::props;
use simcore::rng::{hash_str, mix, Rng};
use simcore::shm::{self, Report};
use simcore::st::*;
use std::time::{Duration, Instant};

pub struct Outcome {
    pub class: Option<String>,
    pub detail: String,
    pub steps: u64,
    pub loghash: u64,
    pub sched: Vec<(u64, u8)>,
}

fn report() -> &'static mut Report {
    static mut R: *mut Report = std::ptr::null_mut();
    unsafe {
        if R.is_null() { R = shm::map(); }
        &mut *R
    }
}

/// Case number `index` of the stream `seed`: a pure function.
pub fn gen(prop: &str, seed: u64, index: u64, tier: &str) -> Case {
    let p = props::find(prop);
    let mut rng = Rng::new(mix(mix(seed, hash_str(prop)), index));
    let mut c = Case::new(prop);
    c.build = crate::build().into();
    (p.gen)(&mut rng, &mut c, tier == "thorough", index);
    c
}

/// Run one case in a forked child.
pub fn exec(c: &Case, _verbose: bool) -> Outcome {
    let r = report();
    shm::clear(r);
    unsafe {
        let pid = libc::fork();
        if pid < 0 { eprintln!("fork failed"); std::process::exit(2); }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 40, rlim_max: 45 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            libc::alarm(ctx::WALL_S);
            // (M_ARENA_MAX: many threads must not use up the address space)
            extern "C" { fn mallopt(p: i32, v: i32) -> i32; }
            mallopt(-8, 2);
            child(c, r);
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 { if *libc::__errno_location() != libc::EINTR { break; } }
        let mut class = if r.vio != 0 { Some(shm::get(&r.class)) } else { None };
        let mut detail = shm::get(&r.detail);
        if class.is_none() && r.done == 0 {
            if libc::WIFSIGNALED(st) {
                let s = libc::WTERMSIG(st);
                class = Some(match s { libc::SIGALRM | libc::SIGXCPU => "hang".to_string(), libc::SIGKILL => "killed".to_string(), s => format!("crash-signal-{}", s) });
                detail = format!("the run ended by signal {} after {} recorded operations", s, r.stats[OPS]);
            } else {
                class = Some(format!("exit-{}", libc::WEXITSTATUS(st)));
                detail = "the run ended the process".into();
            }
        }
        let ns = (r.ns as usize).min(shm::MAXS);
        Outcome { class, detail, steps: r.steps, loghash: r.loghash, sched: r.sched[..ns].iter().map(|x| (x.0, x.1 as u8)).collect() }
    }
}

unsafe fn child(c: &Case, r: &'static mut Report) {
    ctx::set_report(r);
    std::panic::set_hook(Box::new(|_| {}));
    {
        // everything the run does not choose itself is a function of the case
        let h = hash_str(&c.text());
        let s = sim();
        s.misc = Rng::new(c.u("seed") ^ 0x51);
        s.sys.capture = true;
        s.alloc.guard = mix(c.u("seed"), 7) | 1;
        simcore::sysx::entropy_reset(c.u("seed"), true);
        let _ = h;
    }
    let p = props::find(&c.prop);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(c)));
    if let Err(e) = res {
        let m = classify(e);
        ctx::fail("harness-panic", format!("{:?}", m));
        ctx::rep().vio = 2;
    }
    finish();
}

fn finish() {
    let r = ctx::rep();
    let s = sim();
    s.stats[STEPS] = s.steps;
    r.stats = s.stats;
    r.steps = s.steps;
    r.loghash = s.loghash;
    for h in s.hashes.iter() { r.loghash = fnv(r.loghash, *h); }
    r.loghash = fnv(r.loghash, s.sys.out.len() as u64);
    let n = s.hashes.len().min(shm::MAXH);
    r.hashes[..n].copy_from_slice(&s.hashes[..n]);
    r.nh = n as u32;
    let n = s.sched.record.len();
    r.ns = if n > shm::MAXS { 0 } else { n as u32 };
    for (i, x) in s.sched.record.iter().take(shm::MAXS).enumerate() { r.sched[i] = (x.0, x.1 as u64); }
    r.done = 1;
}

/// The violation class without its varying parts.
pub fn same_class(a: &str, b: &str) -> bool { b.is_empty() || a.split(':').next() == b.split(':').next() }

pub fn worker(prop: &str, seed: u64, from: u64, step: u64, to: u64, deadline: u64, tier: &str) {
    pin(from);
    let t0 = Instant::now();
    let mut stats = [0u64; NSTAT];
    let mut hashes = std::collections::BTreeSet::new();
    let mut inter = 0u64;
    let mut log = 0u64;
    let mut runs = 0u64;
    let mut i = from;
    let mut samples: Vec<String> = Vec::new();
    let mut slowest = (0u128, 0u64);
    while i < to {
        if t0.elapsed() > Duration::from_secs(deadline) { break; }
        let c = gen(prop, seed, i, tier);
        let t1 = Instant::now();
        let o = exec(&c, false);
        slowest = slowest.max((t1.elapsed().as_millis(), i));
        runs += 1;
        let r = report();
        for k in 0..NSTAT { stats[k] += r.stats[k]; }
        for h in &r.hashes[..r.nh as usize] { hashes.insert(*h); }
        inter += r.nh as u64;
        log = mix(log, mix(o.loghash, i));
        if let Some(cl) = &o.class {
            let harness = r.vio == 2;
            println!("{} index={} class={} detail={}", if harness { "HARNESS" } else { "FOUND" }, i, cl, o.detail.replace('\n', " | "));
            if std::env::var_os("LASIM_ALL").is_none() { break; }
        }
        let s = shm::get(&r.sample);
        if samples.len() < 2 && !s.is_empty() { samples.push(format!("case {}: {}", i, s)); }
        i += step;
    }
    let mut out = String::new();
    out += &format!("runs {}\nnext {}\nnoted {}\nlog {:016x}\nelapsed_ms {}\nslowest {} {}\n", runs, i, inter, log, t0.elapsed().as_millis(), slowest.0, slowest.1);
    for k in 0..NSTAT { if stats[k] > 0 { out += &format!("stat {} {}\n", STAT_NAMES[k], stats[k]); } }
    for s in samples { out += &format!("sample {}\n", s.replace('\n', " ")); }
    out += "hashes";
    for h in hashes { out += &format!(" {:x}", h); }
    out += "\nend\n";
    print!("{}", out);
}

fn pin(k: u64) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set) != 0 { return; }
        let cpus: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect();
        if cpus.is_empty() { return; }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[k as usize % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &one);
    }
}

/// Minimise the failing case in `path`; returns 1 when the result still fails.
pub fn shrink_file(path: &str, out: &str, secs: u64) -> i32 {
    pin(0);
    let c = Case::parse(&std::fs::read_to_string(path).expect("read case")).expect("parse case");
    let o = exec(&c, false);
    let cl = match &o.class { Some(c) => c.clone(), None => { eprintln!("the case does not fail"); return 0; } };
    let mut best = c.clone();
    best.class = cl.clone();
    best.detail = o.detail.clone();
    let t0 = Instant::now();
    let slow = cl == "hang";
    let over = |t0: &Instant| t0.elapsed() > Duration::from_secs(secs);
    let mut tries = 0u32;
    let mut attempt = |cand: &Case, best: &mut Case| -> bool {
        tries += 1;
        let o = exec(cand, false);
        match o.class {
            Some(k) if same_class(&k, &best.class) => {
                let mut n = cand.clone();
                n.class = k;
                n.detail = o.detail;
                *best = n;
                true
            }
            _ => false,
        }
    };
    if !slow {
        // 1. make the schedule explicit
        if best.sched.is_none() && !o.sched.is_empty() {
            let mut cand = best.clone();
            cand.sched = Some(o.sched.clone());
            attempt(&cand, &mut best);
        }
        // 2. a single fault position, when the run names it
        if let Some(p) = best.detail.split("pos=").nth(1).and_then(|s| s.split(|ch: char| !ch.is_ascii_digit()).next()).and_then(|s| s.parse::<i64>().ok()) {
            let mut cand = best.clone();
            cand.set("pos", p);
            if attempt(&cand, &mut best) && best.sched.is_none() {
                // (of several runs in one case only now the schedule of the right one is known)
                let o = exec(&best, false);
                let mut cand = best.clone();
                if !o.sched.is_empty() { cand.sched = Some(o.sched.clone()); }
                attempt(&cand, &mut best);
            }
        }
        let mut changed = true;
        let mut round = 0;
        while changed && round < 4 && !over(&t0) {
            changed = false;
            round += 1;
            // 3. drop operations
            let mut chunk = (best.ops.len() / 2).max(1);
            while !best.ops.is_empty() {
                let mut i = 0;
                while i < best.ops.len() && !over(&t0) {
                    let mut cand = best.clone();
                    let e = (i + chunk).min(cand.ops.len());
                    cand.ops.drain(i..e);
                    if cand.ops.is_empty() && best.get("min_ops") > 0 { break; }
                    if attempt(&cand, &mut best) { changed = true; } else { i += chunk; }
                }
                if chunk == 1 || over(&t0) { break; }
                chunk /= 2;
            }
            // 4. drop context switches
            if let Some(sc) = best.sched.clone() {
                let mut chunk = (sc.len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < best.sched.as_ref().unwrap().len() && !over(&t0) {
                        let mut cand = best.clone();
                        let v = cand.sched.as_mut().unwrap();
                        let e = (i + chunk).min(v.len());
                        v.drain(i..e);
                        if attempt(&cand, &mut best) { changed = true; } else { i += chunk; }
                    }
                    if chunk == 1 || over(&t0) { break; }
                    chunk /= 2;
                }
            }
            // 5. smaller numbers
            let keys: Vec<String> = best.kv.keys().cloned().collect();
            for k in keys {
                if k == "seed" || k == "pos" || over(&t0) { continue; }
                let v = best.get(&k);
                for nv in [0, 1, v / 2, v - 1] {
                    if nv >= v || nv < 0 { continue; }
                    let mut cand = best.clone();
                    cand.set(&k, nv);
                    if attempt(&cand, &mut best) { changed = true; break; }
                }
            }
            for i in 0..best.ops.len() {
                for j in 0..6 {
                    let v = best.ops[i].a[j];
                    if v == 0 || over(&t0) { continue; }
                    for nv in [0, v / 2, v - 1] {
                        if nv == v || (v > 0 && nv < 0) { continue; }
                        let mut cand = best.clone();
                        cand.ops[i].a[j] = nv;
                        if attempt(&cand, &mut best) { changed = true; break; }
                    }
                }
            }
        }
    }
    eprintln!("shrunk with {} runs in {:.1}s: {} ops", tries, t0.elapsed().as_secs_f64(), best.ops.len());
    std::fs::write(out, best.text()).expect("write replay");
    1
}
