//! C17: a budget of element operations for every call, with faults in the arithmetic and in the operands.
use crate::case::Case;
use crate::cat::*;
use crate::ctx::*;
use la::{CholeskyDecomposition, EigenDecomposition, LUDecomposition, Matrix, QRDecomposition, SVD};
use simcore::elem::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::st::*;

pub fn gen(r: &mut Rng, c: &mut Case, thorough: bool, _i: u64) {
    c.set("seed", r.below(1 << 40) as i64);
    c.set("et", *r.pick(&[0, 0, 0, 0, 0, 0, 0, 1, 2, 2]));
    c.set("big", if r.chance(1, 12) { 12 } else { 0 });
    c.set("lim", if thorough { 40 } else { 8 });
    c.set("fills", r.below(1 << 30) as i64);
    c.set("poison", if r.chance(1, 3) { 1 + r.below(7) as i64 } else { 0 });
    // matrices whose vectors were given another length
    if r.chance(1, 8) { c.set("bend", 1 + r.below(1 << 20) as i64); }
    let fops = float_ops::<f64>();
    // far larger ones, for the operations that do not iterate
    if r.chance(1, 24) {
        let l = rare_big(r, 300);
        c.set("large", if r.chance(1, 2) { if crate::build() == "rel" { 66_000 } else { 4_200 } } else { l });
        c.set("et", *r.pick(&[0, 0, 1, 2]));
        c.set("lim", 2);
        c.set("bend", 0);
        for k in 0..3 {
            // (loops whose end depends on what they find, first of all)
            let loops = k == 0 || r.chance(1, 3);
            let (name, mut a) = gen_call(r, &fops, |d| d.fl & (HEAVY | DEC) == 0 && (!loops || ["mt", "mt_own", "t", "cr", "cb"].contains(&d.name)));
            a[5] = (r.below(8) + 64 * r.below(40)) as i64;
            c.op(0, name, a);
        }
        return;
    }
    for _ in 0..3 {
        let (name, mut a) = match r.below(4) {
            0 => gen_call(r, &fops, |_| true),
            1 => gen_call(r, &fops, |d| d.fl & HEAVY != 0),
            _ => ("dec", [r.below(6) as i64, r.below(1 << 30) as i64, 1 + r.below(6) as i64, 1 + r.below(6) as i64, r.below(10) as i64, 0]),
        };
        // which arithmetic fault: kind + 8 * (how many more) + 64 * spacing
        a[5] = (r.below(8) + 8 * *r.pick(&[0, 0, 0, 1, 7]) + 64 * r.below(40)) as i64;
        c.op(0, name, a);
    }
}

pub fn run(c: &Case) {
    match c.get("et") { 1 => go::<f64>(c), 2 => go::<f32>(c), _ => go::<Sim>(c) }
}

fn budget(d: u64) -> u64 { 3 * (2000 * (30 * d * d + 60 * d) * d) + 1_000_000 }
/// for operations that iterate towards nothing
fn direct_budget(d: u64) -> u64 { 10_000 * d * d * d + 2_000_000 }

/// matrices that make iterations work hard
fn hard(seed: u64, m: usize, n: usize, style: i64) -> Vec<f64> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut v: Vec<f64> = (0..m * n).map(|_| match style { 0 => (r.unit() - 0.5) * 8.0, 1 => r.range(-3, 3) as f64, 2 => if r.chance(1, 3) { r.range(-3, 3) as f64 } else { 0.0 }, 3 => (r.unit() - 0.5) * 2f64.powi(r.range(-12, 12) as i32), 4 => r.below(2) as f64, 6 => 1.0, 7 => (r.unit() - 0.5) * 1e6 * r.below(2) as f64, 8 => 0.0, _ => 0.0 }).collect();
    if style == 5 || style == 9 {
        let k = r.below(5);
        for i in 0..m { match k {
            0 => v[i * n + (i + 1) % n] = 1.0,
            1 => { if i + 1 < n { v[i * n + i + 1] = 1.0 } if i < n { v[i * n + i] = 2.0 } }
            2 => if i + 1 < n { v[i * n + i + 1] = 1.0 },
            3 => { if i < n { v[i * n + i] = 3.0 } }
            _ => { if i + 1 < n { v[i * n + i + 1] = 1.0 } if i == m - 1 { for j in 0..n { v[i * n + j] = r.range(-2, 2) as f64 } } }
        } }
    }
    v
}

fn poison(kind: i64, r: &mut Rng) -> f64 {
    match kind { 1 => f64::NAN, 2 => f64::INFINITY, 3 => f64::NEG_INFINITY, 4 => 1e300, 5 => 4e-320, 6 => *r.pick(&[f64::NAN, f64::INFINITY, 1e300, -1e300, 0.0, 4e-320]), _ => f64::MAX }
}

fn decompose<T: FElem>(kind: usize, m: &Matrix<T>, r: &mut Ret<T>) {
    match kind {
        0 => { let d = SVD::new(m); r.flat(d.get_s()) }
        1 => { let d = EigenDecomposition::new(m); r.els(d.get_real_eigenvalues()) }
        2 => { let d = SVD::direct(m); r.flat(d.get_s()) }
        3 => { let d = QRDecomposition::new(m); let x = d.get_r(); r.mat(x) }
        4 => { let d = LUDecomposition::new(m); let x = d.get_u(); r.mat(x) }
        _ => { let d = CholeskyDecomposition::new(m); r.b(d.is_some()) }
    }
}

fn go<T: FElem>(c: &Case) {
    let seed = c.u("seed");
    let large = c.get("large").clamp(0, 66_000) as usize;
    let mut d = dims(seed, if large > 0 { large } else { c.get("big") as usize });
    if large == 0 && d.n > 12 { d.n = 12; d.m = 14; }
    setup_files(seed);
    simcore::alloc::configure(c.u("fills"), 63, c.u("fills") as u32 % 4);
    let ops = float_ops::<T>();
    let mut pr = Rng::new(seed ^ 0xBAD);
    let pk = c.get("poison");
    let mut e = Env::<T>::new(seed, d);
    if c.ops.iter().any(|o| find(&ops, &o.name).map_or(false, |d| d.fl & DEC != 0)) { e.decompose(); }
    if pk > 0 {
        for m in e.m.iter_mut() {
            let n = m.get_data().len();
            if n == 0 { continue; }
            for _ in 0..1 + pr.below(2) { let k = pr.below(n as u64) as usize; scope(|| m.get_mut_data()[k] = T::of(poison(pk, &mut pr))); }
        }
    }
    if c.get("bend") > 0 { bend(&mut e, c.u("bend")); }
    sample(&format!("{} {}x{}x{} poison {} {}", T::NAME, d.n, d.m, d.k, pk, c.ops.iter().map(|o| if o.name == "dec" { format!("dec{}:{}x{} style {}", o.a[0], o.a[2], o.a[3], o.a[4]) } else { o.name.clone() }).collect::<Vec<_>>().join(",")));
    for (i, o) in c.ops.iter().enumerate() {
        let isdec = o.name == "dec";
        let f = find(&ops, &o.name);
        if !isdec && f.is_none() { continue; }
        let (mut m, n) = (o.a[2].clamp(1, 14) as usize, o.a[3].clamp(1, 14) as usize);
        let kind = modi(o.a[0], 6);
        if kind == 1 || kind == 5 { m = n; }
        let mut data = if isdec { hard(o.a[1] as u64, m, n, o.a[4]) } else { vec![] };
        if isdec && (o.a[4] + o.a[1]) % 4 == 0 && m == n { for i in 0..n { for j in 0..i { data[i * n + j] = data[j * n + i]; } } }
        if isdec && pk > 0 { let k = pr.below(data.len() as u64) as usize; data[k] = poison(pk, &mut pr); }
        if pk > 0 { stat(P_INPUT_NONFINITE); }
        if large > 0 && (isdec || f.unwrap().fl & (HEAVY | DEC) != 0) { continue; }
        let b = if large > 0 { 2000 * (d.n.max(d.m) * d.n.max(4)) as u64 + 2_000_000 }
            else if isdec { budget(m.max(n) as u64) }
            else if f.unwrap().fl & HEAVY != 0 || o.name == "pinverse" { budget(d.m.max(d.n) as u64 + 4) }
            else { direct_budget(d.m.max(d.n) as u64 + 4) };
        let doit = |plan: Plan| -> (Result<Ret<T>, Pan>, OpState) {
            if isdec { run_op(plan, || { let mut r = Ret::new(); scope(|| { let x = Matrix::new(m, n, data.iter().map(|v| T::of(*v)).collect()); decompose(kind, &x, &mut r) }); r }) }
            else { call(f.unwrap(), &e, &o.a, plan) }
        };
        let at = |s: &str| format!("op {} {}::{} {:?}{}: {}", i, T::NAME, o.name, o.a, if pk > 0 { " on operands with special values" } else if c.get("bend") > 0 && !isdec { " on operands with resized vectors" } else { "" }, s);
        let (r, st) = doit(Plan { budget: b, ..Default::default() });
        let h0 = mix(hash_str(&o.name), mix(st.arith, seed));
        eval(pk > 0 || isdec, h0);
        match &r {
            Err(Pan::Budget) => { stat(P_BUDGET_HIT); fail("does-not-finish", at(&format!("did not return within {} element operations", b))); return; }
            Err(Pan::Native(s)) if isdec && pk == 0 && kind != 2 => { fail("no-result", at(&format!("a decomposition of a finite, moderately scaled {}x{} matrix panicked: {} ({:?})", m, n, s, data))); return; }
            _ => {}
        }
        drop(r);
        if T::NAME != "Sim" { continue; }
        let texts = st.counts[Kind::Fmt as usize];
        if texts > 0 {
            // the same call with elements whose texts change between two looks at them
            for _ in 0..c.u("lim").max(1) / 4 {
                let mut r = Rng::new(mix(seed, i as u64 ^ 0x7E));
                let (p, k) = (1 + r.below(texts), 1 + r.below(3) as u8);
                let (r, st) = doit(Plan { budget: b, text_at: p, text_kind: k, ..Default::default() });
                stat(CRASH_POINTS);
                eval(st.arith_fired > 0, mix(h0, mix(p, k as u64)));
                if let Err(Pan::Budget) = r { stat(P_BUDGET_HIT); fail("does-not-finish", at(&format!("with the text of element look {} of {} changed did not return", p, texts))); return; }
            }
        }
        // the same call with its arithmetic, or its comparisons, going wrong
        let cmp = o.a[5] & 7 == 7;
        let total = if cmp { st.cmps } else { st.arith };
        if total == 0 { continue; }
        let lim = c.u("lim").max(1);
        let list: Vec<u64> = if c.has("pos") { vec![c.u("pos")] } else { let mut r = Rng::new(mix(seed, i as u64)); (0..lim).map(|_| 1 + r.below(total)).collect() };
        for p in list {
            let kind = (o.a[5] & 7) as u8;
            let mut plan = Plan { budget: b, arith_more: (o.a[5] as u64 >> 3) & 7, arith_gap: 1 + (o.a[5] as u64 >> 6), ..Default::default() };
            if cmp { plan.cmp_at = p; plan.cmp_kind = 1 + (mix(p, o.a[5] as u64) % 4) as u8; } else { plan.arith_at = p; plan.arith_kind = kind; }
            let (r, st) = doit(plan);
            stat(CRASH_POINTS);
            eval(st.arith_fired > 0, mix(h0, p));
            if let Err(Pan::Budget) = r { stat(P_BUDGET_HIT); fail("does-not-finish", at(&format!("with the {} fault at pos={} of {} did not return within {} element operations", if cmp { "comparison" } else { "arithmetic" }, p, total, b))); return; }
        }
    }
}
