//! C12: after every call, completed, rejected or cut off, the heap and the descriptor table are as before.
use crate::case::Case;
use crate::cat::*;
use crate::ctx::*;
use crate::props::c02;
use crate::props::sweep::positions;
use la::Matrix;
use simcore::elem::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::sched;
use simcore::st::*;
use simcore::sysx::{Node, REv};

/// calls that are meant to be refused, and CSV input that fails
const EXTRA: [&str; 26] = [
    "x_new_len", "x_new_zero", "x_vector", "x_row_vector", "x_diag", "x_block_diag", "x_add_oo", "x_add_or", "x_add_ro", "x_sub_oo", "x_mul_oo", "x_mul_or", "x_mul_ro", "x_bitor", "x_permute_rows", "x_permute_columns", "x_select", "x_reduce", "x_sub_matrix", "x_mmul", "x_csv_err", "x_csv_ragged",
    "x_csv_utf8", "x_csv_missing", "x_csv_big", "x_random",
];

pub fn gen(r: &mut Rng, c: &mut Case, thorough: bool, _i: u64) {
    c.set("seed", r.below(1 << 40) as i64);
    let et = *r.pick(&[0, 0, 0, 0, 1, 5]);
    c.set("et", et);
    let big = if r.chance(1, 12) { *r.pick(&[24, 24, 72, 140]) } else { 0 };
    c.set("big", rare_big(r, big));
    c.set("lim", if thorough { 200 } else { 40 });
    c.set("fills", r.below(1 << 30) as i64);
    let nt = if r.chance(1, 5) { 2 + r.below(2) } else { 1 };
    c.set("tasks", nt as i64);
    c02::sched_params(r, c, thorough);
    let fops = float_ops::<f64>();
    let nops = num_ops::<i64>();
    for _ in 0..3 + r.below(4) {
        let t = r.below(nt as u64) as u8;
        let (name, mut a) = if r.chance(1, 3) { (*r.pick(&EXTRA), [r.below(96) as i64, r.below(96) as i64, r.below(96) as i64, r.below(96) as i64, r.below(96) as i64, 0]) } else if et <= 2 { gen_call(r, &fops, |_| true) } else { gen_call(r, &nops, |_| true) };
        a[5] = if r.chance(1, 2) { 1 + r.below(1000) as i64 } else { 0 };
        c.op(t, name, a);
    }
}

pub fn run(c: &Case) {
    match c.get("et") {
        1 => go::<f64>(c, float_ops(), |e| { e.decompose(); }),
        5 => go::<Fp>(c, num_ops(), |_| {}),
        _ => go::<Sim>(c, float_ops(), |e| { e.decompose(); }),
    }
}

fn files(seed: u64) {
    setup_files(seed);
    let s = sim();
    let mut add = |name: &str, data: Vec<u8>, plan: Vec<REv>| s.sys.nodes.push(Node { name: name.as_bytes().to_vec(), data, open_plan: vec![], plans: vec![plan; 4000], opens: 0, attempts: 0, default_chunk: 7, size_lie: 0 });
    add("err.csv", b"1,2\n3,4\n5,6\n7,8\n".to_vec(), vec![REv::Chunk(5), REv::Chunk(2 + (seed % 7) as u32), REv::Err(libc::EIO)]);
    add("ragged.csv", b"1,2\n3,4\n5\n7,8\n".to_vec(), vec![]);
    add("utf8.csv", b"1,2\n3,\xff4\n5,6\n".to_vec(), vec![REv::Eintr]);
    let mut big = String::new();
    for i in 0..300 { big += &format!("{},{},{}\n", i, i * 2, i * 3); }
    add("big.csv", big.into_bytes(), vec![REv::Chunk(1000), REv::Chunk(1), REv::Eintr]);
}

/// memory library code holds, open descriptors
fn held() -> (i64, i64, usize) { let s = sim(); (s.alloc.live_blocks, s.alloc.live_bytes, s.sys.open_count()) }

fn extra<T: NElem + MaybeRand>(name: &str, e: &Env<T>, a: &[i64; 6]) -> Option<Vec<Matrix<T>>> {
    let s = modi(a[0], NSLOT);
    let m = &e.m[s];
    let (r, c) = (m.rows(), m.cols());
    // a matrix that fits nothing the size of m
    let odd = || Matrix::<T>::zero(r + 1, c + 2);
    let csv = |f: &str| la::util::read_csv::<T>(f, &|x: &str| { cb(); T::of(mute(|| x.parse::<f64>().unwrap_or(0.5))) });
    let x = match name {
        "x_new_len" => Matrix::new(r, c + 1, m.get_data().clone()),
        "x_new_zero" => Matrix::new(0, c, m.get_data().clone()),
        "x_vector" => Matrix::vector(Vec::<T>::with_capacity(9)),
        "x_row_vector" => Matrix::row_vector(Vec::<T>::with_capacity(9)),
        "x_diag" => Matrix::diag(Vec::<T>::with_capacity(5)),
        "x_block_diag" => Matrix::block_diag(r, c, vec![T::of(1.0); r.min(c) + 1]),
        "x_add_oo" => m.clone() + odd(),
        "x_add_or" => m.clone() + &odd(),
        "x_add_ro" => m + odd(),
        "x_sub_oo" => m.clone() - odd(),
        "x_mul_oo" => m.clone() * Matrix::<T>::zero(c + 1, 3),
        "x_mul_or" => m.clone() * &Matrix::<T>::zero(c + 1, 3),
        "x_mul_ro" => m * Matrix::<T>::zero(c + 1, 3),
        "x_bitor" => m.clone() | &odd(),
        "x_permute_rows" => m.permute_rows(&[0, r - 1, r]),
        "x_permute_columns" => m.permute_columns(&[c - 1, c, 0]),
        "x_select" => m.select_rows(&[true; 300][..r + 1]),
        "x_reduce" => m.reduce(&vec![T::of(1.0); c + 1], &|p: &T, x: &T| { cb(); *p + *x }),
        "x_sub_matrix" => m.sub_matrix(0, 0, r + 1, c),
        "x_mmul" => { let mut k = m.clone(); k.mmul(&odd()); k }
        "x_csv_err" => csv("/la-sim-vfs/err.csv"),
        "x_csv_ragged" => csv("/la-sim-vfs/ragged.csv"),
        "x_csv_utf8" => csv("/la-sim-vfs/utf8.csv"),
        "x_csv_missing" => csv("/la-sim-vfs/not-there.csv"),
        "x_csv_big" => csv("/la-sim-vfs/big.csv"),
        "x_random" => return T::random(1 + r, c).map(|m| mute(|| vec![m])),
        _ => return None,
    };
    Some(mute(|| vec![x]))
}

/// random generation exists for some element types only
pub trait MaybeRand: Sized + Copy { fn random(_r: usize, _c: usize) -> Option<Matrix<Self>> { None } }
impl MaybeRand for Fp {}
impl MaybeRand for Sim { fn random(r: usize, c: usize) -> Option<Matrix<Sim>> { Some(Matrix::random(r, c)) } }
impl MaybeRand for f64 { fn random(r: usize, c: usize) -> Option<Matrix<f64>> { Some(Matrix::random(r, c)) } }

/// Perform call `o`, drop whatever it returned.
fn perform<T: NElem + MaybeRand>(c: &Case, i: usize, ops: &[Def<T>], e: &Env<T>, plan: Plan) -> OpState {
    let o = &c.ops[i];
    if let Some(f) = find(ops, &o.name) {
        let (r, st) = call(f, e, &o.a, plan);
        scope(|| drop(r));
        st
    } else {
        let (r, st) = run_op(plan, || scope(|| extra(&o.name, e, &o.a)));
        scope(|| drop(r));
        st
    }
}

fn go<T: NElem + MaybeRand>(c: &Case, ops: Vec<Def<T>>, dec: fn(&mut Env<T>)) {
    let seed = c.u("seed");
    let d = dims(seed, c.get("big") as usize);
    files(seed);
    simcore::alloc::configure(c.u("fills"), 63, c.u("fills") as u32 % 4);
    let nt = (c.u("tasks").max(1) as usize).min(MAXT - 1);
    sample(&format!("{} {}x{}x{} tasks {}: {}", T::NAME, d.n, d.m, d.k, nt, c.ops.iter().map(|o| o.name.as_str()).collect::<Vec<_>>().join(",")));
    // let the runtime make what it makes once per process: the stdout buffer, this thread's generator and handle
    let _ = run_op(Plan::default(), || scope(|| { Matrix::<f64>::random(1, 1).print(); let _ = std::thread::current(); let _ = std::panic::catch_unwind(|| Matrix::<i64>::vector(vec![])); }));
    let start = held();
    let mut e = Env::<T>::new(seed, d);
    if c.ops.iter().any(|o| find(&ops, &o.name).map_or(false, |d| d.fl & DEC != 0)) { dec(&mut e); }
    if nt > 1 { together(c, &ops, &e, nt); } else {
        for i in 0..c.ops.len() {
            let o = &c.ops[i];
            let before = held();
            let st = perform(c, i, &ops, &e, Plan::default());
            if !settled(c, i, T::NAME, before, 0, st.allocs) { return; }
            let n = st.user;
            for p in positions(c, n, c.u("lim").max(4), seed) {
                if enough() { break; }
                for _ in 0..2 {
                    let before = held();
                    let st = perform(c, i, &ops, &e, Plan { panic_at: p, panic_id: p, panic_kind: (p % 4) as u8, ..Default::default() });
                    if st.panic_fired { stat(CRASH_POINTS); }
                    if !settled(c, i, T::NAME, before, p, st.allocs) { return; }
                }
            }
            let _ = o;
        }
    }
    if failed() { return; }
    let Env { m, d } = e;
    scope(|| drop(d));
    scope(|| drop(m));
    let end = held();
    eval(true, mix(hash64(&[end.0 as u64, seed]), c.ops.len() as u64));
    if end != start { fail("memory-not-returned", format!("after all matrices and decompositions of the history were dropped {} blocks ({} bytes, {} descriptors) remain", end.0 - start.0, end.1 - start.1, end.2 as i64 - start.2 as i64)); }
    if sim().alloc.badfree > 0 { fail("freed-twice", "a block was freed twice, with the wrong size, or was never allocated".into()); }
}

fn settled(c: &Case, i: usize, ty: &str, before: (i64, i64, usize), pos: u64, allocs: u64) -> bool {
    let o = &c.ops[i];
    let now = held();
    eval(allocs > 0, mix(hash_str(&o.name), mix(pos, hash64(&[allocs, before.1 as u64]))));
    let at = if pos > 0 { format!(" cut off by a user-code failure at pos={}", pos) } else { String::new() };
    if now.2 != before.2 { fail("descriptor-leaked", format!("{}::{} {:?}{} left {} more descriptors open", ty, o.name, o.a, at, now.2 as i64 - before.2 as i64)); return false; }
    if (now.0, now.1) != (before.0, before.1) { fail("memory-leaked", format!("{}::{} {:?}{}: after its result was dropped {} blocks, {} bytes more than before are held", ty, o.name, o.a, at, now.0 - before.0, now.1 - before.1)); return false; }
    if sim().alloc.badfree > 0 { fail("freed-twice", format!("{}::{} {:?}{}: a block was freed twice or with the wrong size", ty, o.name, o.a, at)); return false; }
    true
}

/// The same conservation over tasks that run at once and end.
fn together<T: NElem + MaybeRand>(c: &Case, ops: &Vec<Def<T>>, e: &Env<T>, nt: usize) {
    struct Sh<'a, T>(&'a Env<T>, &'a Vec<Def<T>>);
    unsafe impl<'a, T> Sync for Sh<'a, T> {}
    impl<'a, T> Sh<'a, T> { fn get(&self) -> (&'a Env<T>, &'a Vec<Def<T>>) { (self.0, self.1) } }
    let solo = in_child(|| (0..c.ops.len()).map(|i| perform(c, i, ops, e, Plan::default()).user).collect());
    let solo = match solo { Ok(v) => v, Err(s) => { fail("crash-alone", s); return } };
    let before = held();
    let sh = Sh(e, ops);
    let ok = sched::run_tasks(nt, &c02::spec(c), &|t| {
        let (e, ops) = sh.get();
        for (i, o) in c.ops.iter().enumerate() {
            if o.t as usize % nt != t { continue; }
            for _ in 0..2 {
                let mut plan = Plan::default();
                if o.a[5] > 0 && solo[i] > 0 { plan.panic_at = 1 + (o.a[5] as u64 - 1) % 1000 * solo[i] / 1000; plan.panic_id = 9; }
                let st = perform(c, i, ops, e, plan);
                if st.panic_fired { stat(CRASH_POINTS); }
            }
        }
    });
    if !ok { fail("deadlock", "tasks wait forever".into()); return; }
    let now = held();
    eval(true, mix(sim().sched.ihash, now.1 as u64));
    if now.2 != before.2 { fail("descriptor-leaked", format!("{} more descriptors open after all tasks ended", now.2 as i64 - before.2 as i64)); }
    else if (now.0, now.1) != (before.0, before.1) { fail("memory-leaked", format!("after all tasks ended {} blocks, {} bytes more than before are held", now.0 - before.0, now.1 - before.1)); }
}
