//! C06: recording callbacks (stateful, failing at a chosen call) against the required call sequence.
use crate::case::Case;
use crate::cat::*;
use crate::ctx::*;
use la::Matrix;
use simcore::elem::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::st::*;
use std::cell::{Cell, RefCell};

pub const OPS: [&str; 7] = ["map", "map_type", "mmap", "reduce", "filter_rows", "filter_columns", "read_csv"];

pub fn gen(r: &mut Rng, c: &mut Case, _thorough: bool, _i: u64) {
    c.set("seed", r.below(1 << 40) as i64);
    c.set("et", *r.pick(&[0, 0, 1, 3, 5]));
    let big = *r.pick(&[0, 0, 0, 0, 14, 40, 130]);
    c.set("big", rare_big(r, big));
    c.set("fills", r.below(1 << 30) as i64);
    for _ in 0..4 {
        let name = *r.pick(&OPS);
        // a[5]: fail at the (a[5] permille)-th call, 0 = never
        c.op(0, name, [r.below(96) as i64, r.below(1 << 30) as i64, r.below(96) as i64, 0, 0, if r.chance(1, 2) { 1 + r.below(1000) as i64 } else { 0 }]);
    }
}

pub fn run(c: &Case) {
    match c.get("et") {
        1 => go::<f64>(c),
        3 => go::<i32>(c),
        5 => go::<Fp>(c),
        _ => go::<Sim>(c),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Acc { col: u64, n: u64, h: u64 }

/// Called at the start of every callback: records the call, fails when it is the chosen one.
struct Rec { calls: RefCell<Vec<(u64, u64)>>, fail_at: Cell<u64>, failed: Cell<bool>, after: Cell<u64>, rng: RefCell<Rng> }
impl Rec {
    fn hit(&self, a: u64, b: u64) {
        mute(|| {
            if self.failed.get() { self.after.set(self.after.get() + 1); }
            self.calls.borrow_mut().push((a, b));
            if self.calls.borrow().len() > 4_000_000 { std::panic::resume_unwind(Box::new(Budget)); }
        });
        if self.calls.borrow().len() as u64 == self.fail_at.get() {
            self.failed.set(true);
            stat(PANIC_CB);
            let b: Box<Injected> = mute(|| Box::new(Injected(99)));
            std::panic::resume_unwind(b);
        }
        cb();
    }
    fn coin(&self) -> bool { self.rng.borrow_mut().chance(1, 2) }
}

fn go<T: NElem>(c: &Case) {
    let seed = c.u("seed");
    let d = dims(seed, c.get("big") as usize);
    simcore::alloc::configure(c.u("fills"), 63, c.u("fills") as u32 % 4);
    let e = Env::<T>::new(seed, d);
    sample(&format!("{} {}x{}x{} {}", T::NAME, d.n, d.m, d.k, c.ops.iter().map(|o| format!("{}{}", o.name, if o.a[5] > 0 { "!" } else { "" })).collect::<Vec<_>>().join(",")));
    for (oi, o) in c.ops.iter().enumerate() {
        let s = modi(o.a[0], NSLOT);
        let m = &e.m[s];
        let (rows, cols) = (m.rows(), m.cols());
        let data: Vec<u64> = m.get_data().iter().map(|x| x.bits()).collect();
        let mhash = unsafe { mat_hash::<T>(m as *const _ as *const u8) };
        let rec = Rec { calls: RefCell::new(Vec::new()), fail_at: Cell::new(0), failed: Cell::new(false), after: Cell::new(0), rng: RefCell::new(Rng::new(o.a[1] as u64)) };
        let total = match o.name.as_str() { "reduce" | "map" | "map_type" | "mmap" => rows * cols, "filter_rows" => rows, "filter_columns" => cols, _ => 0 } as u64;
        let fail_at = |n: u64| if o.a[5] > 0 && n > 0 { 1 + (o.a[5] as u64 - 1) % 1000 * n / 1000 } else { 0 };
        rec.fail_at.set(fail_at(total));
        let answers: RefCell<Vec<bool>> = RefCell::new(Vec::new());
        let what = format!("{}::{} on {}x{}", T::NAME, o.name, rows, cols);
        // what the call sequence has to be
        let mut expect: Vec<(u64, u64)> = (0..data.len()).map(|i| (0, data[i])).collect();
        let mut per_column = false;
        let res: Result<Vec<u64>, Pan> = match o.name.as_str() {
            "map" | "map_type" => {
                let (r, _) = run_op(Plan::default(), || {
                    let mut out = Vec::new();
                    let x: Matrix<i64> = scope(|| m.map(&|x: &T| { rec.hit(0, x.bits()); rec.calls.borrow().len() as i64 }));
                    out.extend(x.get_data().iter().map(|x| *x as u64));
                    if x.rows() != rows || x.cols() != cols { out.push(0xBAD); }
                    out
                });
                r
            }
            "mmap" => {
                let mut t = m.clone();
                let (r, _) = run_op(Plan::default(), || {
                    scope(|| t.mmap(&|x: &T| { rec.hit(0, x.bits()); T::of((rec.calls.borrow().len() % 7) as f64 / 8.0) }));
                    t.get_data().iter().map(|x| x.bits()).collect()
                });
                r
            }
            "reduce" => {
                per_column = true;
                expect = (0..cols).flat_map(|j| { let data = &data; (0..rows).map(move |i| (j as u64, data[i * cols + j])) }).collect();
                let init: Vec<Acc> = (0..cols).map(|j| Acc { col: j as u64, n: 0, h: 7 }).collect();
                let (r, _) = run_op(Plan::default(), || {
                    let x = scope(|| m.reduce(&init, &|a: &Acc, x: &T| { rec.hit(a.col, x.bits()); Acc { col: a.col, n: a.n + 1, h: mix(a.h, x.bits()) } }));
                    let mut v = Vec::new();
                    if x.rows() != 1 { v.push(0xBAD); }
                    for a in x.get_data() { v.extend([a.col, a.n, a.h]); }
                    v
                });
                r
            }
            "filter_rows" | "filter_columns" => {
                let byrow = o.name == "filter_rows";
                let lim = if byrow { rows } else { cols };
                expect = (0..lim).map(|i| (1, i as u64)).collect();
                let none = o.a[1] % 8 == 3;
                let p = |mm: &Matrix<T>, i: usize| {
                    // (looked at every time unless that would take for ever)
                    let same = (i % (1 + lim * data.len() / 20_000_000) != 0) || mute(|| { let mut o = Vec::new(); let mut bad = false; flat(mm, &mut o, &mut bad); o.len() == data.len() + 3 && o[0] == rows as u64 && o[3..] == data[..] && !bad });
                    rec.hit(same as u64, i as u64);
                    // now and then nothing is kept
                    let b = mute(|| { let n = answers.borrow().len(); let b = !none && (rec.coin() || (n + 1 == lim && !answers.borrow().iter().any(|x| *x))); answers.borrow_mut().push(b); b });
                    b
                };
                let (r, _) = run_op(Plan::default(), || {
                    let x = if byrow { scope(|| m.filter_rows(&p)) } else { scope(|| m.filter_columns(&p)) };
                    let mut o = Vec::new();
                    let mut bad = false;
                    flat(&x, &mut o, &mut bad);
                    if bad { o.push(0xBAD); }
                    o
                });
                r
            }
            _ => {
                let mut r = Rng::new(o.a[1] as u64);
                let big = r.chance(1, 10);
                let wide = r.chance(1, 6);
                let long = r.chance(1, 12);
                let (nr, nc) = (1 + r.below(if big { 150 } else { 6 }), 1 + r.below(if wide { 90 } else { 6 }));
                let mut t = String::new();
                expect.clear();
                for i in 0..nr {
                    for j in 0..nc {
                        if j > 0 { t.push(','); }
                        let f = match r.below(6) { 0 => String::new(), 1 => format!("x{}", r.below(1000)), 2 => "é λ".into(), 3 if long => "w ".repeat(1 + r.below(3000) as usize) + "w", _ => format!("{}", r.range(-999, 999)) };
                        expect.push((2, hash_str(&f)));
                        let pad = ["", " ", "  ", "\t"];
                        t += pad[r.below(4) as usize];
                        t += &f;
                        t += pad[r.below(4) as usize];
                    }
                    if i + 1 < nr || r.chance(2, 3) { t.push('\n'); } else if nc == 1 && t.lines().count() < nr as usize { t.push('\n') }
                }
                rec.fail_at.set(fail_at(expect.len() as u64));
                let name = format!("/la-sim-vfs/f{}.csv", oi);
                sim().sys.nodes.push(simcore::sysx::Node { name: name.as_bytes()[12..].to_vec(), data: t.into_bytes(), open_plan: vec![], plans: vec![], opens: 0, attempts: 0, default_chunk: 1 + r.below(64) as usize, size_lie: 0 });
                let (r, _) = run_op(Plan::default(), || {
                    let x = scope(|| la::util::read_csv::<u64>(&name, &|s: &str| { let h = hash_str(s); rec.hit(2, h); h }));
                    x.get_data().clone()
                });
                r
            }
        };
        let calls = rec.calls.borrow().clone();
        let k = rec.fail_at.get();
        eval(calls.len() > 1 || k > 0, mix(hash_str(&o.name), mix(k, hash64(&data))));
        if rec.after.get() > 0 {
            fail("called-after-failure", format!("{}: the callback failed at call {} and was called {} more times", what, k, rec.after.get()));
            return;
        }
        // order
        let (mut got, mut want) = (calls.clone(), expect.clone());
        if k > 0 {
            if !rec.failed.get() { fail("callback-missing", format!("{}: only {} of {} callbacks made", what, got.len(), want.len())); return; }
            if !per_column { want.truncate(k as usize); }
        }
        if per_column {
            // only the order within each column is required
            let split = |v: &[(u64, u64)]| { let mut by: Vec<Vec<u64>> = vec![Vec::new(); cols + 1]; for x in v { by[(x.0 as usize).min(cols)].push(x.1); } by };
            let (gs, ws) = (split(&got), split(&want));
            for j in 0..cols + 1 {
                let (g, w) = (&gs[j], &ws[j]);
                let bad = if k > 0 { g.len() > w.len() || g[..] != w[..g.len()] } else { g != w };
                if bad { fail("wrong-callback-sequence", format!("{}: column {} was fed {} elements{}, expected its {} elements top to bottom", what, j, g.len(), if g.len() == w.len() { " in another order or altered" } else { "" }, w.len())); return; }
            }
            got.clear();
            want.clear();
        }
        if got != want {
            let at = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            fail("wrong-callback-sequence", format!("{}: {} callbacks, expected {}; first difference at call {}: {:x?} instead of {:x?}", what, got.len(), want.len(), at, got.get(at), want.get(at)));
            return;
        }
        // the answers are used where they belong
        if k == 0 {
            let want: Option<Vec<u64>> = match o.name.as_str() {
                "map" | "map_type" => Some((1..=data.len() as u64).collect()),
                "mmap" => Some((1..=data.len()).map(|i| T::of((i % 7) as f64 / 8.0).bits()).collect()),
                "reduce" => Some((0..cols).flat_map(|j| { let mut h = 7; for i in 0..rows { h = mix(h, data[i * cols + j]); } [j as u64, rows as u64, h] }).collect()),
                "read_csv" => Some(expect.iter().map(|x| x.1).collect()),
                _ => {
                    let an = answers.borrow();
                    let byrow = o.name == "filter_rows";
                    let keep: Vec<usize> = (0..an.len()).filter(|&i| an[i]).collect();
                    let (r2, c2) = if byrow { (keep.len(), cols) } else { (rows, keep.len()) };
                    let mut v = vec![r2 as u64, if r2 == 0 { 0 } else { c2 as u64 }, (r2 * c2) as u64];
                    for i in 0..r2 { for j in 0..c2 { v.push(if byrow { data[keep[i] * cols + j] } else { data[i * cols + keep[j]] }); } }
                    Some(v)
                }
            };
            match (&res, want) {
                (Ok(g), Some(w)) if *g == w => {}
                (Ok(_), _) => { fail("answer-misplaced", format!("{}: the callbacks' answers do not end up at their items", what)); return; }
                // a matrix of nothing may be refused
                (Err(Pan::Native(_)), Some(w)) if w.len() == 3 && w[2] == 0 && o.name.starts_with("filter") => {}
                (Err(p), _) => { fail("call-failed", format!("{}: {}", what, pan_name(p))); return; }
            }
        }
        let _ = mhash;
    }
}
