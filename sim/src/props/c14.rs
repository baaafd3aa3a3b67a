//! C14: formatting into writers that fail at every point, and into ones that do other things between writes.
use crate::case::Case;
use crate::ctx::*;
use crate::props::c02;
use crate::props::sweep::positions;
use la::Matrix;
use simcore::elem::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::sched;
use simcore::st::*;
use std::fmt::{self, Debug, Write as _};
use std::io;

const NMAT: usize = 4;

pub fn gen(r: &mut Rng, c: &mut Case, thorough: bool, _i: u64) {
    c.set("seed", r.below(1 << 40) as i64);
    c.set("et", *r.pick(&[0, 0, 1, 2, 3, 3, 4]));
    c.set("fills", r.below(1 << 30) as i64);
    c.set("lim", if thorough { 200 } else { 40 });
    c.set("big", r.chance(1, 10) as i64);
    let nt = if r.chance(1, 3) { 2 + r.below(2) } else { 1 };
    c.set("tasks", nt as i64);
    c02::sched_params(r, c, thorough);
    for t in 0..nt {
        for _ in 0..2 + r.below(3) {
            let name = *r.pick(&["plain", "call", "call", "byte", "byte", "io", "io_err", "io_err", "macro"]);
            c.op(t as u8, name, [r.below(NMAT as u64) as i64, 1 + r.below(1000) as i64, r.below(4) as i64, r.below(6) as i64, r.below(1 << 16) as i64, 0]);
        }
    }
}

/// An element whose text has any length and is written in pieces.
#[derive(Clone, Copy, PartialEq)]
pub struct Txt(pub u32);
const WORDS: [&str; 12] = ["", "x", "-1", "3.25", "\u{e9}t\u{e9}", "| a |", "{:?}", "1e-300", "\u{1F600}", "NaN", " ", "a\tb"];
impl Debug for Txt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        point(Kind::Fmt);
        let mut k = self.0;
        loop {
            f.write_str(WORDS[(k % 12) as usize])?;
            k /= 12;
            if k == 0 { return Ok(()); }
        }
    }
}

/// Plain text of the matrix, from its elements' own texts.
pub fn text<T: Debug + Copy>(m: &Matrix<T>) -> String {
    let s: Vec<String> = m.get_data().iter().map(|e| format!("{:?}", e)).collect();
    let w = s.iter().map(|x| x.len()).max().unwrap_or(0);
    let c = m.cols();
    let mut t = String::from("\n");
    for i in 0..m.rows() {
        t += "|";
        for j in 0..c { let e = &s[i * c + j]; t += &" ".repeat(1 + w - e.len()); t += e; }
        t += " |\n";
    }
    t
}

/// a text around the place where it first differs from another one
fn near(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let (from, to) = (k.saturating_sub(80), (k + 80).min(a.len()));
    if from == 0 && to == a.len() { return format!("{:?}", String::from_utf8_lossy(a)); }
    format!("[{} bytes, from {}] {:?}", a.len(), from, String::from_utf8_lossy(&a[from..to]))
}

/// The writer under the simulator's control.
struct Sink<'a> { buf: Vec<u8>, writes: u64, fail_call: u64, limit: usize, failed: bool, after: u64, between: &'a dyn Fn(u64), plan: Rng, short: bool, err: io::ErrorKind }
impl<'a> Sink<'a> {
    fn new(between: &'a dyn Fn(u64)) -> Sink<'a> { Sink { buf: vec![], writes: 0, fail_call: 0, limit: usize::MAX, failed: false, after: 0, between, plan: Rng::new(1), short: false, err: io::ErrorKind::Other } }
    fn take(&mut self, b: &[u8]) -> bool {
        if self.failed { self.after += 1; return true; }
        self.writes += 1;
        let room = self.limit - self.buf.len();
        if self.writes == self.fail_call || b.len() > room {
            stat(SINK_ERR);
            self.failed = true;
            if self.writes != self.fail_call { mute(|| self.buf.extend_from_slice(&b[..room])); }
            return false;
        }
        mute(|| self.buf.extend_from_slice(b));
        (self.between)(self.writes);
        true
    }
}
impl<'a> fmt::Write for Sink<'a> {
    fn write_str(&mut self, s: &str) -> fmt::Result { point(Kind::Callback); if self.take(s.as_bytes()) { Ok(()) } else { Err(fmt::Error) } }
}
impl<'a> io::Write for Sink<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        point(Kind::Callback);
        let mut k = b.len();
        if self.short && !self.failed {
            match self.plan.below(5) { 0 => { stat(WRITE_EINTR); return Err(io::ErrorKind::Interrupted.into()) } 1 if k > 1 => { stat(WRITE_SHORT); k = 1 + self.plan.below(k as u64 - 1) as usize } _ => {} }
        }
        if !self.failed && self.limit != usize::MAX && self.buf.len() < self.limit { k = k.min(self.limit - self.buf.len()); }
        if self.take(&b[..k]) { Ok(k) } else if self.err == io::ErrorKind::WriteZero { Ok(0) } else { Err(self.err.into()) }
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

pub fn run(c: &Case) {
    match c.get("et") {
        1 => go::<f64>(c, |r| match r.below(12) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => -0.0, 3 => 1e300 * r.unit(), _ => r.range(-4000, 4000) as f64 / 64.0 }),
        2 => go::<i32>(c, |r| r.range(-30000, 30000) as i32 / (1 + r.below(5000) as i32)),
        3 => go::<Txt>(c, |r| { let k = *r.pick(&[1, 2, 3]); Txt(r.below(12u64.pow(k)) as u32) }),
        4 => go::<(u8, bool)>(c, |r| (r.below(256) as u8, r.chance(1, 2))),
        _ => go::<Sim>(c, |r| Sim::of(r.range(-4000, 4000) as f64 / 64.0)),
    }
}

fn go<T: Debug + Copy + 'static>(c: &Case, mk: fn(&mut Rng) -> T) {
    let seed = c.u("seed");
    simcore::alloc::configure(c.u("fills"), 63, c.u("fills") as u32 % 4);
    let mut r = Rng::new(seed ^ 0xC14);
    let big = c.get("big") != 0;
    let mut mats: Vec<Matrix<T>> = Vec::new();
    let long = if crate::build() == "rel" { 1400 } else { 500 };
    for k in 0..NMAT {
        let (a, b) = if big && k == 0 { match r.below(5) { 4 => if r.chance(1, 2) { (200 + r.below(long) as usize, 1) } else { (1, 200 + r.below(long) as usize) }, 0 => (20 + r.below(180) as usize, 1 + r.below(3) as usize), 1 => (1 + r.below(3) as usize, 20 + r.below(180) as usize), _ => (10 + r.below(30) as usize, 10 + r.below(30) as usize) } } else { (1 + r.below(5) as usize, 1 + r.below(5) as usize) };
        let mut v: Vec<T> = (0..a * b).map(|_| mk(&mut r)).collect();
        if r.chance(1, 4) {
            // one element decides the width of all
            let mut some: Vec<T> = (0..8).map(|_| mk(&mut r)).collect();
            mute(|| some.sort_by_key(|x| format!("{:?}", x).len()));
            for x in v.iter_mut() { *x = some[0]; }
            let n = v.len() as u64;
            v[r.below(n) as usize] = some[7];
        }
        mats.push(scope(|| Matrix::new(a, b, v.iter().map(|x| *x).collect())));
    }
    let texts: Vec<String> = mats.iter().map(|m| mute(|| text(m))).collect();
    let nt = (c.u("tasks").max(1) as usize).min(MAXT - 1);
    sample(&format!("{} tasks {}: {}", std::any::type_name::<T>(), nt, c.ops.iter().map(|o| format!("{}:{}[{}x{}]", o.t, o.name, mats[modi(o.a[0], NMAT)].rows(), mats[modi(o.a[0], NMAT)].cols())).collect::<Vec<_>>().join(" ")));
    struct Sh<'a, T>(&'a [Matrix<T>], &'a [String]);
    unsafe impl<'a, T> Sync for Sh<'a, T> {}
    impl<'a, T> Sh<'a, T> { fn get(&self) -> (&'a [Matrix<T>], &'a [String]) { (self.0, self.1) } }
    let sh = Sh(&mats, &texts);
    let ok = sched::run_tasks(nt, &c02::spec(c), &|t| {
        let (mats, texts) = sh.get();
        for (i, o) in c.ops.iter().enumerate() {
            if o.t as usize % nt != t { continue; }
            one(c, i, mats, texts, nt == 1);
            if failed() { return; }
        }
    });
    if !ok { fail("deadlock", "tasks wait forever".into()); }
}

fn one<T: Debug + Copy + 'static>(c: &Case, i: usize, mats: &[Matrix<T>], texts: &[String], sweep: bool) {
    let o = &c.ops[i];
    let s = modi(o.a[0], NMAT);
    let (m, want) = (&mats[s], texts[s].as_bytes());
    let other = &mats[(s + 1) % NMAT];
    let alt = o.a[4] % 5 == 0;
    let act = o.a[3];
    let busy = std::cell::Cell::new(0u64);
    // what the writer does between two writes
    let between = |n: u64| {
        if busy.get() >= 12 { return; }
        busy.set(busy.get() + 1);
        match act {
            1 => { stat(REENTER); let _ = scope(|| format!("{:?}", other)); }
            2 => { stat(REENTER); let _ = scope(|| format!("{:?}", m)); }
            3 => { let k = scope(|| (m.clone(), vec![n; 7])); scope(|| drop(k)); }
            4 => { stat(REENTER); let _ = scope(|| Matrix::<f64>::random(2, 2).print()); }
            _ => {}
        }
    };
    let io = o.name.starts_with("io");
    let call = |fail_call: u64, limit: usize| -> (Result<bool, Pan>, Vec<u8>, bool, u64, u64) {
        busy.set(0);
        let mut k = Sink::new(&between);
        k.fail_call = fail_call;
        k.limit = limit;
        k.short = io && o.a[2] & 1 == 1;
        k.plan = Rng::new(mix(c.u("seed"), o.a[4] as u64));
        k.err = [io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WriteZero, io::ErrorKind::WouldBlock][modi(o.a[2], 4)];
        let (r, _) = run_op(Plan::default(), || scope(|| match (io, alt) {
            (true, false) => io::Write::write_fmt(&mut k, format_args!("{:?}", m)).is_ok(),
            (true, true) => io::Write::write_fmt(&mut k, format_args!("{:#?}", m)).is_ok(),
            (false, false) => write!(&mut k as &mut dyn fmt::Write, "{:?}", m).is_ok(),
            (false, true) => write!(&mut k as &mut dyn fmt::Write, "{:#?}", m).is_ok(),
        }));
        let Sink { buf, failed, after, writes, .. } = k;
        (r, buf, failed, after, writes)
    };
    let judge = |r: (Result<bool, Pan>, Vec<u8>, bool, u64, u64), what: &str| -> bool {
        let (res, buf, sink_failed, after, _) = r;
        eval(sink_failed || act > 0 || !sweep, mix(hash_str(&o.name), mix(hash64(&[buf.len() as u64, s as u64, sink_failed as u64]), simcore::st::hash_bytes(want.as_ptr(), want.len()))));
        let at = format!("{} {:?} matrix {}x{} {}", o.name, o.a, m.rows(), m.cols(), what);
        match res {
            Err(p) => { fail("format-panicked", format!("{}: {}", at, pan_name(&p))); return false; }
            Ok(ok) => {
                if sink_failed && ok { fail("failure-not-reported", format!("{}: the writer failed but formatting returned Ok", at)); return false; }
                if !sink_failed && !ok { fail("spurious-failure", format!("{}: the writer did not fail but formatting returned an error", at)); return false; }
            }
        }
        if after > 0 { fail("written-after-failure", format!("{}: {} more writes after the failed one", at, after)); return false; }
        if sink_failed && !want.starts_with(&buf) { fail("not-a-prefix", format!("{}: wrote {} before failing, which is no prefix of {}", at, near(&buf, want), near(want, &buf))); return false; }
        if !sink_failed && buf != want { fail("wrong-text", format!("{}: wrote {}, should be {}", at, near(&buf, want), near(want, &buf))); return false; }
        true
    };
    match o.name.as_str() {
        "macro" => {
            let (r, _) = run_op(Plan::default(), || scope(|| format!("{:?}", m)).into_bytes());
            match r { Ok(b) => { judge((Ok(true), b, false, 0, 0), ""); } Err(p) => fail("format-panicked", format!("{}: {}", o.name, pan_name(&p))) }
        }
        "call" => {
            let n = call(0, usize::MAX).4;
            if sweep { for p in positions(c, n, c.u("lim").max(4), o.a[1] as u64) { stat(CRASH_POINTS); let r = call(p, usize::MAX); if !r.2 { continue; } if !judge(r, &format!("failing write pos={}", p)) { return; } } }
            else { let p = 1 + (o.a[1] as u64 - 1) % 1000 * n / 1000; let r = call(p, usize::MAX); if r.2 { judge(r, &format!("failing write {}", p)); } }
        }
        "byte" | "io_err" => {
            let n = want.len() as u64;
            if sweep { for p in positions(c, n, c.u("lim").max(4), o.a[1] as u64) { stat(CRASH_POINTS); if !judge(call(0, p as usize - 1), &format!("room for pos={} - 1 bytes", p)) { return; } } }
            else { let p = (o.a[1] as u64 - 1) % 1000 * n / 1000; judge(call(0, p as usize), &format!("room for {} bytes", p)); }
        }
        _ => { judge(call(0, usize::MAX), ""); }
    }
}
