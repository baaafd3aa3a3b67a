//! C15: standard output of printing tasks is a sequence of whole matrices, under any interleaving and any write behaviour.
use crate::case::Case;
use crate::ctx::*;
use crate::props::c02;
use crate::props::c14::{text, Txt};
use la::Matrix;
use simcore::elem::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::sched;
use simcore::st::*;
use simcore::sysx::WEv;
use std::fmt::Debug;
use std::sync::Mutex;

pub fn gen(r: &mut Rng, c: &mut Case, thorough: bool, _i: u64) {
    c.set("seed", r.below(1 << 40) as i64);
    c.set("et", *r.pick(&[0, 0, 0, 1, 2]));
    c.set("fills", r.below(1 << 30) as i64);
    c.set("faults", *r.pick(&[0, 1, 1, 2, 3]));
    c.set("rate", *r.pick(&[2, 3, 6, 20]));
    let nt = if r.chance(1, 5) { 1 } else if r.chance(1, 20) { 5 + r.below(10) } else { 2 + r.below(3) };
    c.set("tasks", nt as i64);
    c02::sched_params(r, c, thorough);
    for t in 0..nt {
        for _ in 0..1 + r.below(4) {
            let size = r.below(12);
            let mut d = |r: &mut Rng| (if size == 0 { 12 + r.below(14) } else if size < 4 { 4 + r.below(6) } else { 1 + r.below(4) }) as i64;
            let (mut a, mut b) = (d(r), d(r));
            if r.chance(1, 25) { a = 20 + r.below(180) as i64; b = 1 + r.below(3) as i64; }
            else if r.chance(1, 40) { b = 40 + r.below(300) as i64; a = 1 + r.below(3) as i64; }
            // texts larger than any buffer on the way
            if r.chance(1, 60) { a = 40 + r.below(200) as i64; b = 10 + r.below(if crate::build() == "rel" { 60 } else { 10 }) as i64; }
            let name = if r.chance(1, 8) { "say" } else { "print" };
            c.op(t as u8, name, [a, b, r.below(1 << 20) as i64, 0, 0, 0]);
        }
    }
}

pub fn run(c: &Case) {
    match c.get("et") {
        1 => go::<f64>(c, |r, k| if k < 1.0e9 { k } else { r.range(-400, 400) as f64 / 16.0 }),
        2 => go::<Txt>(c, |r, k| Txt(if k < 1.0e9 { name(k as u32) } else { r.below(1700) as u32 })),
        _ => go::<Sim>(c, |r, k| Sim::of(if k < 1.0e9 { k } else { r.range(-400, 400) as f64 / 16.0 })),
    }
}

/// a text no other call has: its number in two words that cannot be confused
fn name(i: u32) -> u32 { (0..8).fold((5, 12), |(v, p), b| (v + (1 + (i >> b & 1)) * p, p.wrapping_mul(12))).0 }

struct Done { task: usize, i: usize, text: String, ok: bool }

fn go<T: Debug + Copy + 'static>(c: &Case, mk: fn(&mut Rng, f64) -> T) {
    let seed = c.u("seed");
    simcore::alloc::configure(c.u("fills"), 63, c.u("fills") as u32 % 4);
    let nt = (c.u("tasks").max(1) as usize).min(MAXT - 1);
    let mut mats: Vec<Matrix<T>> = Vec::new();
    for (i, o) in c.ops.iter().enumerate() {
        let mut r = Rng::new(mix(seed, o.a[2] as u64));
        let (a, b) = (o.a[0].clamp(1, 250) as usize, o.a[1].clamp(1, 400) as usize);
        // the first element names the call
        let v: Vec<T> = (0..a * b).map(|k| mk(&mut r, if k == 0 { 1000.0 + i as f64 } else { 1.0e10 })).collect();
        mats.push(scope(|| Matrix::new(a, b, v.iter().map(|x| *x).collect())));
    }
    let texts: Vec<String> = c.ops.iter().enumerate().map(|(i, o)| if o.name == "say" { format!("[a line of the user's own, call {}, {}]\n", i, "=".repeat(o.a[2] as usize % 60)) } else { mute(|| text(&mats[i])) }).collect();
    sample(&format!("{} tasks {} faults {}: {}", std::any::type_name::<T>(), nt, c.get("faults"), c.ops.iter().map(|o| format!("{}:{}[{}x{}]", o.t, o.name, o.a[0], o.a[1])).collect::<Vec<_>>().join(" ")));
    let faults = c.get("faults");
    let errs = faults == 3;
    {
        let mut r = Rng::new(seed ^ 0xF15);
        let n = c.u("rate").max(1);
        let s = &mut sim().sys;
        s.wi = 0;
        s.wplan = if faults == 0 { vec![] } else {
            (0..3000).map(|_| if !r.chance(1, n) { WEv::Chunk(1 << 30) } else { match r.below(if errs { 3 } else { 2 }) { 0 => WEv::Eintr, 1 => WEv::Chunk(1 + r.below(if faults == 2 { 3 } else { 30 }) as u32), _ => WEv::Err(*r.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN, libc::EFBIG])) } }).collect()
        };
        s.out.clear();
    }
    let done: Mutex<Vec<Done>> = Mutex::new(Vec::new());
    struct Sh<'a, T>(&'a [Matrix<T>], &'a [String]);
    unsafe impl<'a, T> Sync for Sh<'a, T> {}
    impl<'a, T> Sh<'a, T> { fn get(&self) -> (&'a [Matrix<T>], &'a [String]) { (self.0, self.1) } }
    let sh = Sh(&mats, &texts);
    let done_r = &done;
    let ok = sched::run_tasks(nt, &c02::spec(c), &|t| {
        let (mats, texts) = sh.get();
        for (i, o) in c.ops.iter().enumerate() {
            if o.t as usize % nt != t { continue; }
            let e0 = sim().sys.werr[t];
            let from = sim().sys.out.len();
            let (b0, sw0) = (sim().stats[FUTEX_BLOCK], sim().sched.switches);
            let (r, _) = run_op(Plan::default(), || scope(|| if o.name == "say" { print!("{}", texts[i]) } else { mats[i].print() }));
            let contended = sim().sched.switches > sw0;
            if sim().stats[FUTEX_BLOCK] > b0 { stat(P_PRINT_CONTENDED); }
            let e = sim().sys.werr[t] - e0;
            mute(|| {
                eval(contended || faults > 0, mix(hash_str(&o.name), mix(sim().sched.ihash, sim().sys.out.len() as u64)));
                let at = format!("task {} call {} {} {}x{}", t, i, o.name, o.a[0], o.a[1]);
                if o.name != "say" {
                    match &r {
                        Ok(()) if e > 0 => fail("write-error-ignored", format!("{}: a write failed but the call returned", at)),
                        Err(p) if e == 0 => fail("print-failed", format!("{}: no write failed but the call ended with {}", at, pan_name(p))),
                        // complete on return
                        Ok(()) if find(&sim().sys.out[from.min(sim().sys.out.len())..], texts[i].as_bytes()).is_none() && whole(&sim().sys.out, texts[i].as_bytes()) => {}
                        Ok(()) if find(&sim().sys.out, texts[i].as_bytes()).is_none() => fail("not-one-block", format!("{}: on return its text {:?} is not on standard output as one block; output: {:?}", at, short(&texts[i]), short(&String::from_utf8_lossy(&sim().sys.out)))),
                        _ => {}
                    }
                }
                done_r.lock().unwrap().push(Done { task: t, i, text: texts[i].clone(), ok: r.is_ok() });
            });
            if failed() { return; }
        }
    });
    if !ok { fail("deadlock", "printing tasks wait forever".into()); return; }
    if failed() { return; }
    let done = done.into_inner().unwrap();
    let out = sim().sys.out.clone();
    if done.iter().all(|d| d.ok) && !errs {
        // the output is exactly the whole texts, each once, each task's in its order
        let mut left: Vec<Vec<&Done>> = (0..nt).map(|t| { let mut v: Vec<&Done> = done.iter().filter(|d| d.task == t).collect(); v.reverse(); v }).collect();
        let mut p = 0;
        while p < out.len() {
            match (0..nt).find(|&t| left[t].last().map_or(false, |d| out[p..].starts_with(d.text.as_bytes()))) {
                Some(t) => { p += left[t].pop().unwrap().text.len(); }
                None => { fail("not-whole-matrices", format!("at byte {} the output goes on with {:?}, which is no whole text of a pending call", p, short(&String::from_utf8_lossy(&out[p..])))); return; }
            }
        }
        if left.iter().any(|v| !v.is_empty()) { fail("text-missing", format!("{} printed texts never reached standard output", left.iter().map(|v| v.len()).sum::<usize>())); }
    } else {
        for d in done.iter().filter(|d| d.ok && c.ops[d.i].name != "say") {
            match find(&out, d.text.as_bytes()) {
                None => { fail("not-one-block", format!("call {} returned normally but its text {:?} is not on standard output as one block", d.i, short(&d.text))); return; }
                Some(k) => if find(&out[k + d.text.len()..], d.text.as_bytes()).is_some() { fail("printed-twice", format!("call {}: its text is on standard output twice", d.i)); return; }
            }
        }
    }
}

fn whole(out: &[u8], t: &[u8]) -> bool { find(out, t).is_some() }
fn find(h: &[u8], n: &[u8]) -> Option<usize> { if n.is_empty() || h.len() < n.len() { return None; } h.windows(n.len()).position(|w| w == n) }
fn short(s: &str) -> String { if s.chars().count() > 300 { s.chars().take(300).collect::<String>() + "..." } else { s.to_string() } }
