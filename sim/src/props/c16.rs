//! C16: every allocation of every operation refused in turn, each in a forked copy of the process; guards around every block.
use crate::case::Case;
use crate::cat::*;
use crate::ctx::*;
use crate::props::c02::sched_params;
use crate::props::sweep::positions;
use la::Matrix;
use simcore::elem::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::st::*;

pub fn gen(r: &mut Rng, c: &mut Case, thorough: bool, _i: u64) {
    c.set("seed", r.below(1 << 40) as i64);
    let et = *r.pick(&[0, 0, 1, 1, 1, 2, 5, 3]);
    c.set("et", et);
    let big = if r.chance(1, 10) { *r.pick(&[24, 24, 72, 140]) } else { 0 };
    c.set("big", rare_big(r, big));
    c.set("lim", if thorough { 60 } else { 10 });
    c.set("fills", r.below(1 << 30) as i64);
    if r.chance(1, 10) { c.set("bend", 1 + r.below(1 << 20) as i64); }
    let _ = sched_params;
    let fops = float_ops::<f64>();
    let nops = num_ops::<i64>();
    let bent = c.get("bend") > 0;
    for k in 0..6 {
        let (name, mut a) = if r.chance(1, 9) { (*r.pick(&["x_random", "x_huge", "x_zero", "x_diag", "x_csv_big", "x_wrong", "x_wrong", "x_wrong", "x_wrong"]), [r.below(96) as i64, r.below(96) as i64, r.below(96) as i64, 0, 0, 0]) } else if et <= 2 { gen_call(r, &fops, |d| !bent || !elementwise(d.name)) } else { gen_call(r, &nops, |d| !bent || !elementwise(d.name)) };
        // a[5]: how much is refused (0: nothing)
        a[5] = if k < 3 { 1 + r.below(4) as i64 } else { 0 };
        c.op(0, name, a);
    }
}

pub fn run(c: &Case) {
    match c.get("et") {
        1 => go::<f64>(c, float_ops(), |e| { e.decompose(); }),
        2 => go::<f32>(c, float_ops(), |e| { e.decompose(); }),
        3 => go::<i32>(c, num_ops(), |_| {}),
        5 => go::<Fp>(c, num_ops(), |_| {}),
        _ => go::<Sim>(c, float_ops(), |e| { e.decompose(); }),
    }
}

fn perform<T: NElem>(f: Option<&Def<T>>, name: &str, e: &Env<T>, a: &[i64; 6]) -> (Result<Ret<T>, Pan>, OpState) {
    match f {
        Some(f) => call(f, e, a, Plan::default()),
        None => run_op(Plan::default(), || {
            let mut r = Ret::new();
            scope(|| {
                let m = e.any(a[0]);
                match name {
                    // far more than there is: must be refused or rejected
                    "x_huge" => { let k = [1usize << 31, 1 << 33, (1 << 40) + 7][modi(a[1], 3)]; let x = if a[2] % 2 == 0 { Matrix::<T>::zero(k, 3 + modi(a[2], 5)) } else { Matrix::<T>::zero(2, k) }; r.u(x.rows()); r.u(x.cols()); }
                    "x_random" => { let x = Matrix::<f64>::random(m.rows(), m.cols()); r.u(x.rows()); r.u(x.cols()); r.u(x.get_data().len()) }
                    // more fields than the vector read_csv starts with can hold, on few lines
                    "x_csv_big" => { let x = la::util::read_csv::<T>("/la-sim-vfs/big16.csv", &|x: &str| T::of(mute(|| x.len() as f64))); r.u(x.rows()); r.u(x.cols()); r.u(mute(|| x.get_data().iter().fold(0u64, |h, e| mix(h, e.bits()))) as usize); drop(x) }
                    // arguments outside the matrix, just or far: rejected or not, nothing else may be written
                    "x_wrong" => { wrong(m, a[1], a[2]); r.b(true) }
                    "x_zero" => { let x = Matrix::<T>::zero(1 + modi(a[1], 20), 1 + modi(a[2], 20)); r.mat(x) }
                    _ => { let k = m.get_data().len().min(48); let x = Matrix::diag(m.get_data()[..k].to_vec()); r.mat(x) }
                }
            });
            r
        }),
    }
}

fn wrong<T: NElem>(m: &Matrix<T>, which: i64, how: i64) {
    let (r, c) = (m.rows(), m.cols());
    if m.get_data().is_empty() || r * c != m.get_data().len() { return; }
    let mut k = m.clone();
    let over = [1, 1, 2, 5, 300, 1 << 20, usize::MAX / 8][modi(how, 7)];
    let (row, col) = match how / 7 % 4 { 0 => (r - 1, (c - 1).saturating_add(over)), 1 => ((r - 1).saturating_add(over), c - 1), 2 => (0, (c - 1).saturating_add(over)), _ => ((r - 1).saturating_add(over), (c - 1).saturating_add(over)) };
    let v = m.get_data()[0];
    let few = over.min(400);
    // (1 x 1 where the library asks for at least that)
    let odd = || Matrix::<T>::zero((r + few).min(700), 1 + c.min(8));
    let long = |n: usize| { let mut x = Vec::with_capacity(n + 1); for _ in 0..n { x.push(0usize); } x };
    let _ = match modi(which, 20) {
        0 | 1 => { k.set(row, col, v); 0 }
        2 | 3 => { *k.get_mref(row, col) = v; 0 }
        4 => { let _ = k.get(row, col); 0 }
        5 => { let mut l = long(3); l[1] = row; l[2] = r - 1; k.permute_rows(&l).rows() }
        6 => { let mut l = long(3); l[1] = col; l[2] = c - 1; k.permute_columns(&l).rows() }
        7 => k.sub_matrix(0, 0, row.saturating_add(1), col.saturating_add(1)).rows(),
        8 => k.sub_matrix(r - 1, c - 1, row.saturating_add(1), col.saturating_add(1)).rows(),
        9 => k.minor(row, col).rows(),
        10 => k.get_column(col.max(c)).rows(),
        11 => { k.madd(&odd()); 0 }
        12 => { k.melem_mul(&odd()); 0 }
        13 => { k.mmul(&odd()); 0 }
        14 => (&k + &odd()).rows(),
        15 => k.cr(&odd()).rows(),
        16 => k.cb(&odd()).rows(),
        17 => { let mut b = Vec::with_capacity(r + few); for i in 0..r + few { b.push(i % 3 != 1); } k.select_rows(&b).rows() }
        18 => { let mut b = Vec::with_capacity(c + few); for i in 0..c + few { b.push(i % 3 != 1); } k.select_columns(&b).rows() }
        _ => { let mut b = Vec::with_capacity(c + few); for _ in 0..c + few { b.push(v); } k.reduce(&b, &|p: &T, _: &T| *p).rows() }
    };
}

extern "C" fn on_abort(_: i32) {
    // the process is about to end: nothing may have been damaged on the way here
    let ok = mute(|| simcore::alloc::check_heap());
    check_watches();
    let s = sim();
    unsafe { libc::_exit(if !ok { 51 } else if s.watch_fail.is_some() { 52 } else if s.alloc.refused == 0 { 53 } else { 50 }) }
}

fn go<T: NElem>(c: &Case, ops: Vec<Def<T>>, dec: fn(&mut Env<T>)) {
    let seed = c.u("seed");
    let d = dims(seed, c.get("big") as usize);
    setup_files(seed);
    if c.ops.iter().any(|o| o.name == "x_csv_big") {
        let mut t = String::new();
        for i in 0..17000 { t += if i % 5 == 0 { "12" } else { "7" }; t += if i % 4250 == 4249 { "\n" } else { "," }; }
        sim().sys.nodes.push(simcore::sysx::Node { name: b"big16.csv".to_vec(), data: t.into_bytes(), open_plan: vec![], plans: vec![], opens: 0, attempts: 0, default_chunk: 8192, size_lie: 0 });
    }
    simcore::alloc::configure(c.u("fills"), 63, c.u("fills") as u32 % 4);
    sample(&format!("{} {}x{}x{} {}", T::NAME, d.n, d.m, d.k, c.ops.iter().map(|o| format!("{}{}", o.name, if o.a[5] > 0 { "!" } else { "" })).collect::<Vec<_>>().join(",")));
    let mut e = Env::<T>::new(seed, d);
    if c.ops.iter().any(|o| find(&ops, &o.name).map_or(false, |d| d.fl & DEC != 0)) { dec(&mut e); }
    if c.get("bend") > 0 { bend(&mut e, c.u("bend")); }
    watch_env(&e);
    // like the process of an operation that has run before: stdout's buffer and the generator exist, or not
    for (i, o) in c.ops.iter().enumerate() {
        let f = find(&ops, &o.name);
        if f.is_none() && !o.name.starts_with("x_") { continue; }
        let huge = o.name == "x_huge";
        if huge && o.a[5] == 0 { continue; }
        let at = |what: &str| format!("op {} {}::{} {:?} {}", i, T::NAME, o.name, o.a, what);
        let h0 = mix(hash_str(&o.name), seed % 64);
        if o.a[5] > 0 {
            // undisturbed, in a copy: its result and number of allocations
            let base = if huge { vec![1, 0] } else {
                match in_child(|| { let (mut r, st) = perform(f, &o.name, &e, &o.a); let mut v = vec![st.allocs]; v.extend(outcome(&mut r)); v }) { Ok(v) => v, Err(s) => { fail("crash", at(&format!("undisturbed ends with {}", s))); return; } }
            };
            let n = base[0];
            for p in positions(c, n, c.u("lim").max(2), seed) {
                if enough() { break; }
                stat(CRASH_POINTS);
                let got = in_child(|| {
                    unsafe {
                        let fd = simcore::sysx::raw(2, b"/dev/null\0".as_ptr() as usize, 1, 0, 0, 0, 0);
                        libc::dup2(fd as i32, 2);
                        libc::signal(libc::SIGABRT, on_abort as usize);
                    }
                    let a = &mut sim().alloc;
                    a.count = 0;
                    a.refused = 0;
                    if huge { a.limit = 1 << 20; } else {
                        a.fail_from = p;
                        a.fail_to = match o.a[5] { 1 | 2 => p, 3 => p + 1, _ => u64::MAX };
                    }
                    let (mut r, _) = perform(f, &o.name, &e, &o.a);
                    let a = &mut sim().alloc;
                    a.fail_from = 0;
                    let heap = simcore::alloc::check_heap();
                    check_watches();
                    let code = if !heap { 1 } else if sim().watch_fail.is_some() { 2 } else if r.is_err() { 3 } else { 4 };
                    let mut v = vec![code, sim().alloc.refused];
                    if code == 4 { v.extend(outcome(&mut r)); }
                    v
                });
                let what = |s: &str| at(&format!("allocation pos={} of {} refused: {}", p, n, s));
                match got {
                    Err(s) if s == "exit 50" => { stat(P_OOM_ABORT); stat(ALLOC_REFUSED); eval(true, mix(h0, p)); }
                    Err(s) if s == "exit 51" => { fail("memory-corrupted", what("memory outside its blocks was written")); return; }
                    Err(s) if s == "exit 52" => { fail("operand-changed", what("an operand was changed")); return; }
                    // stopped the program by leaving it
                    Err(s) if s.starts_with("exit ") && !["exit 8", "exit 9", "exit 53"].contains(&s.as_str()) => { stat(P_OOM_ABORT); eval(true, mix(h0, p)); }
                    Ok(v) if v.len() < 2 => { stat(P_OOM_ABORT); eval(true, mix(h0, p)); }
                    Err(s) => { fail("crash", what(&format!("the program ended with {}", s))); return; }
                    Ok(v) => {
                        if v[1] > 0 { stat(ALLOC_REFUSED); }
                        eval(v[1] > 0, mix(h0, p));
                        match v[0] {
                            1 => { fail("memory-corrupted", what("memory outside its blocks was written")); return; }
                            2 => { fail("operand-changed", what("an operand was changed")); return; }
                            3 => stat(P_OOM_PANIC),
                            _ => {
                                if huge { fail("impossible-result", at("returned a matrix larger than the memory there is")); return; }
                                if v[1] > 0 { stat(P_OOM_OK); }
                                if v[2..] != base[1..] { fail("wrong-result", what("the operation went on and its result is wrong")); return; }
                            }
                        }
                    }
                }
            }
        } else {
            let (mut r, st) = perform(f, &o.name, &e, &o.a);
            let heap = simcore::alloc::check_heap();
            check_watches();
            eval(st.allocs > 0, mix(h0, hash64(&outcome(&mut r))));
            scope(|| drop(r));
            if !heap || !simcore::alloc::check_heap() { fail("memory-corrupted", at("wrote outside the memory it owns")); return; }
            if let Some(w) = sim().watch_fail { fail("operand-changed", at(&format!("changed {}", w))); return; }
        }
    }
}
