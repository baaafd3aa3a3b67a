//! C13: random matrices against the calling thread's own generator, replayed draw by draw in a fresh process.
use crate::case::Case;
use crate::ctx::*;
use crate::props::c02;
use la::Matrix;
use rand::Rand;
use simcore::elem::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::sched::{self, Policy, Spec};
use simcore::st::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

const NTYPE: u64 = 12;

pub fn gen(r: &mut Rng, c: &mut Case, thorough: bool, _i: u64) {
    c.set("seed", r.below(1 << 40) as i64);
    c.set("fills", r.below(1 << 30) as i64);
    c.set("entf", r.chance(1, 3) as i64);
    let nt = 1 + r.below(3);
    c.set("tasks", nt as i64);
    c02::sched_params(r, c, thorough);
    let fav = r.below(NTYPE);
    for t in 0..nt {
        for _ in 0..2 + r.below(6) {
            let ty = if r.chance(1, 2) { fav } else { r.below(NTYPE) } as i64;
            let big = r.below(40);
            let mut d = |r: &mut Rng| (if big == 0 { 60 + r.below(60) } else if big < 4 { 1 + r.below(24) } else { 1 + r.below(6) }) as i64;
            let (mut a, mut b) = (d(r), d(r));
            if r.chance(1, 400) { let long = if crate::build() == "rel" { *r.pick(&[1_100, 4_200, 17_000, 66_000]) } else { 4_200 } + r.below(50) as i64; if r.chance(1, 2) { a = long; b = 1 } else { a = 1; b = long } }
            match r.below(10) {
                0 => c.op(t as u8, "draw", [ty, 1 + r.below(5) as i64, 0, 0, 0, 0]),
                1 => c.op(t as u8, "noise", [r.below(5) as i64, 0, 0, 0, 0, 0]),
                2 | 3 => c.op(t as u8, "random", [*r.pick(&[8, 9, 9, 10]), a, b, 1 + r.below(1000) as i64, 0, 0]),
                _ => c.op(t as u8, "random", [ty, a, b, 0, 0, 0]),
            }
        }
    }
}

/// true: replay mode, nested matrices are replaced by the draws they stand for
static REF: AtomicBool = AtomicBool::new(false);
static DRAWS: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];

trait Bits: Rand + Copy { fn b(&self) -> u64; }
macro_rules! bits { ($($t:ty: |$s:ident| $e:expr),*) => { $(impl Bits for $t { fn b(&self) -> u64 { let $s = *self; $e } })* } }
bits!(f64: |s| s.to_bits(), f32: |s| s.to_bits() as u64, u8: |s| s as u64, u16: |s| s as u64, u32: |s| s as u64, u64: |s| s, i64: |s| s as u64, bool: |s| s as u64, Sim: |s| if s.ok() { s.bits() } else { 0xBAD0_0BAD }, (u32, u8): |s| (s.0 as u64) << 8 | s.1 as u64);

/// draws a varying amount, and knows which draw it was
#[derive(Clone, Copy)]
struct Cnt { n: u64, v: u64 }
impl Rand for Cnt {
    fn rand<R: rand::Rng>(rng: &mut R) -> Cnt {
        point(Kind::Rand);
        let n = DRAWS[task()].fetch_add(1, Relaxed);
        let mut v = n;
        for _ in 0..n % 3 + 1 { v = mix(v, rng.next_u32() as u64); }
        Cnt { n, v }
    }
}
impl Bits for Cnt { fn b(&self) -> u64 { mix(self.n, self.v) } }
/// makes a random matrix while being drawn
#[derive(Clone, Copy)]
struct Nest { a: u32, b: u32, c: u32 }
impl Rand for Nest {
    fn rand<R: rand::Rng>(rng: &mut R) -> Nest {
        point(Kind::Rand);
        let a = rng.next_u32();
        if REF.load(Relaxed) { return Nest { a, b: rand::random(), c: rand::random() }; }
        let m = Matrix::<u32>::random(2, 1);
        Nest { a, b: m.get(0, 0), c: m.get(1, 0) }
    }
}
impl Bits for Nest { fn b(&self) -> u64 { mix(self.a as u64, mix(self.b as u64, self.c as u64)) } }

/// What one call gave: shape and elements, or the failure.
fn matrix<T: Bits>(r: usize, c: usize, plan: Plan) -> Vec<u64> {
    let (x, st) = run_op(plan, || {
        let m = scope(|| Matrix::<T>::random(r, c));
        mute(|| {
            let mut v = vec![1, m.rows() as u64, m.cols() as u64];
            v.extend(m.get_data().iter().map(|e| e.b()));
            v
        })
    });
    match x { Ok(v) => { if st.panic_fired { vec![3] } else { v } } Err(Pan::Injected(_)) => vec![2], Err(_) => vec![4] }
}
/// The same from the generator itself.
fn draws<T: Bits>(n: usize) -> Vec<u64> {
    let (x, _) = run_op(Plan::default(), || { let v: Vec<u64> = scope(|| (0..n).map(|_| rand::random::<T>().b()).collect()); v });
    x.unwrap_or(vec![5])
}
fn refr<T: Bits>(r: usize, c: usize, fail_at: usize) -> Vec<u64> {
    if fail_at > 0 { draws::<T>(fail_at - 1); return vec![2]; }
    let mut v = vec![1, r as u64, c as u64];
    v.extend(draws::<T>(r * c));
    v
}

fn act(name: &str, a: &[i64; 6], reference: bool) -> Vec<u64> {
    macro_rules! by_type { ($f:ident($($x:expr),*)) => { match modi(a[0], NTYPE as usize) {
        0 => $f::<f64>($($x),*), 1 => $f::<f32>($($x),*), 2 => $f::<u8>($($x),*), 3 => $f::<u16>($($x),*), 4 => $f::<u32>($($x),*), 5 => $f::<u64>($($x),*), 6 => $f::<i64>($($x),*), 7 => $f::<bool>($($x),*),
        8 => $f::<Sim>($($x),*), 9 => $f::<Cnt>($($x),*), 10 => $f::<Nest>($($x),*), _ => $f::<(u32, u8)>($($x),*),
    } } }
    let r = a[1].clamp(1, 70_000) as usize;
    let c = (a[2].clamp(1, 70_000) as usize).min((70_000 / r).max(1));
    match name {
        "random" => {
            let user = [8, 9, 10].contains(&modi(a[0], NTYPE as usize));
            let p = if a[3] > 0 && user { 1 + (a[3] as usize - 1) % 1000 * (r * c) / 1000 } else { 0 };
            if reference { by_type!(refr(r, c, p)) } else { by_type!(matrix(r, c, Plan { panic_at: p as u64, panic_id: 13, panic_kind: (a[3] % 4) as u8, ..Default::default() })) }
        }
        "draw" => by_type!(draws(r)),
        _ if reference => vec![],
        _ => {
            let _ = run_op(Plan::default(), || scope(|| {
                let m = Matrix::new(3, 3, vec![4.0f64, 1.0, 2.0, 1.0, 3.0, 0.5, 2.0, 0.5, 5.0]);
                match modi(a[0], 5) { 0 => { let _ = (&m * &m).det(); } 1 => { let _ = m.inverse(); } 2 => m.print(), 3 => { let _ = la::SVD::new(&m); } _ => { let _ = la::EigenDecomposition::new(&m); let _ = Matrix::<f64>::id(4, 4); } }
            }));
            vec![]
        }
    }
}

/// All of one task's calls, and one more draw at the end.
fn script(c: &Case, t: usize, nt: usize, reference: bool, mut each: impl FnMut(usize, Vec<u64>)) {
    for (i, o) in c.ops.iter().enumerate() { if o.t as usize % nt == t { each(i, act(&o.name, &o.a, reference)); } }
    each(c.ops.len() + t, draws::<u64>(2));
}

pub fn run(c: &Case) {
    let seed = c.u("seed");
    let nt = (c.u("tasks").max(1) as usize).min(MAXT - 1);
    simcore::alloc::configure(c.u("fills"), 63, c.u("fills") as u32 % 4);
    sample(&format!("tasks {}: {}", nt, c.ops.iter().map(|o| format!("{}:{}{}[{}x{}]", o.t, o.name, modi(o.a[0], NTYPE as usize), o.a[1], o.a[2])).collect::<Vec<_>>().join(" ")));
    let n = c.ops.len() + nt;
    simcore::sysx::entropy_reset(seed, true);
    let want = in_child(|| {
        REF.store(true, Relaxed);
        let all = Mutex::new(vec![vec![]; n]);
        let alone = Spec { seed: 0, policy: Policy::Explicit, gap: 1, explicit: vec![], max_switches: 0, only_kind: 0, park: 0 };
        sched::run_tasks(nt, &alone, &|t| script(c, t, nt, true, |i, v| all.lock().unwrap()[i] = v));
        let mut out = Vec::new();
        for v in all.into_inner().unwrap() { out.push(v.len() as u64); out.extend(v); }
        out
    });
    let flat = match want { Ok(v) => v, Err(e) => { fail("crash-alone", e); return } };
    let mut want: Vec<&[u64]> = Vec::new();
    let mut p = 0;
    while p < flat.len() { let k = flat[p] as usize; want.push(&flat[p + 1..p + 1 + k]); p += 1 + k; }
    simcore::sysx::entropy_reset(seed, true);
    sim().sys.entropy_faults = c.get("entf") != 0;
    let want = &want;
    let ok = sched::run_tasks(nt, &c02::spec(c), &|t| script(c, t, nt, false, |i, v| mute(|| {
        let w = want[i];
        let (name, a) = if i < c.ops.len() { (c.ops[i].name.as_str(), c.ops[i].a) } else { ("final draw", [5, 2, 0, 0, 0, 0]) };
        eval(name == "random", mix(hash_str(name), mix(hash64(&v), sim().sched.ihash)));
        if v == w { return; }
        let what = if w.first() == Some(&2) && v.first() != Some(&2) { "a draw failed but the call returned or failed otherwise".to_string() }
            else if v.len() != w.len() || v.iter().take(3).ne(w.iter().take(3)) && name == "random" { format!("returned {:?}, expected {:?}", &v[..v.len().min(3)], &w[..w.len().min(3)]) }
            else { let k = v.iter().zip(w).position(|(a, b)| a != b).unwrap_or(0); format!("element {} is not the draw it should be", if name == "random" { k - 3 } else { k }) };
        fail(if w.first() == Some(&2) && name == "random" { "failed-draw" } else { "not-the-next-draws" }, format!("task {} call {} {} {:?}: {}", t, i, name, a, what));
    })));
    if !ok { fail("deadlock", "tasks wait forever".into()); }
}
