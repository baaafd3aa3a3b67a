//! C10 and C11: reading CSV through a simulated operating system.
use crate::case::{Case, Op};
use crate::ctx::*;
use crate::props::c02;
use la::Matrix;
use simcore::rng::{hash_str, mix, Rng};
use simcore::sched;
use simcore::st::*;
use simcore::sysx::{Node, REv};
use std::sync::Mutex;

const ERRS: [i32; 7] = [libc::EIO, libc::EISDIR, libc::EAGAIN, libc::ENOMEM, libc::EBADF, libc::ESTALE, libc::EINVAL];
const OPEN_ERRS: [i32; 8] = [libc::ENOENT, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EISDIR, libc::ELOOP, libc::ENOMEM, libc::EIO];

fn common(r: &mut Rng, c: &mut Case, thorough: bool) -> u64 {
    c.set("seed", r.below(1 << 40) as i64);
    c.set("fills", r.below(1 << 30) as i64);
    c.set("style", r.below(7) as i64);
    let (rows, cols) = match r.below(if thorough { 12 } else { 24 }) {
        0 => (200 + r.below(1500), 1 + r.below(9)),
        1 => (1 + r.below(4), 300 + r.below(2000)),
        2 if crate::build() == "rel" && r.chance(1, if thorough { 12 } else { 40 }) => (65_530 + r.below(2000), *r.pick(&[1, 1, 3])),
        _ => (1 + r.below(8), 1 + r.below(6)),
    };
    c.set("rows", rows as i64);
    c.set("cols", cols as i64);
    c.set("nl", r.below(3) as i64);
    c.set("chunk", match r.below(6) { 0 => 1, 1 => 2 + r.below(6) as i64, 2 => 8 + r.below(60) as i64, 3 => 1000 + r.below(8000) as i64, _ => 1 << 20 });
    if rows > 5000 { c.set("chunk", 4000 + r.below(8000) as i64); c.set("style", if cols > 1 { 0 } else { *r.pick(&[0, 4, 4, 6]) }); }
    let nt = if rows > 5000 { 1 } else if r.chance(1, 3) { 2 + r.below(2) } else { 1 };
    c.set("tasks", nt as i64);
    c.set("same", r.chance(1, 3) as i64);
    c.set("lie", *r.pick(&[0, 0, 0, -1, 7, -100000, 4096]));
    c02::sched_params(r, c, thorough);
    nt
}

fn chunk(r: &mut Rng) -> i64 { let k = *r.pick(&[1, 3, 12, 100, 9000]); 1 + r.below(k) as i64 }

pub fn gen10(r: &mut Rng, c: &mut Case, thorough: bool, _i: u64) {
    let nt = common(r, c, thorough);
    for t in 0..nt {
        let eintr = r.chance(1, 2);
        for _ in 0..r.below(40) {
            if eintr && r.chance(1, 4) { c.op(t as u8, "eintr", [0; 6]); } else { c.op(t as u8, "chunk", [chunk(r), 0, 0, 0, 0, 0]); }
        }
        if r.chance(1, 6) { c.op(t as u8, "open_eintr", [1 + r.below(3) as i64, 0, 0, 0, 0, 0]); }
    }
}

pub fn gen11(r: &mut Rng, c: &mut Case, thorough: bool, _i: u64) {
    let nt = common(r, c, thorough);
    if r.chance(1, 5) {
        // every position of a small file
        c.set("sweep", 1 + r.below(3) as i64);
        c.set("rows", 1 + r.below(4) as i64);
        c.set("cols", 1 + r.below(4) as i64);
        c.set("tasks", 1);
        return;
    }
    c.set("chunk", match r.below(4) { 0 => 1 + r.below(4) as i64, 1 => 5 + r.below(60) as i64, 2 => 1 << 20, _ => 100 + r.below(4000) as i64 });
    for t in 0..nt {
        let t = t as u8;
        let fault = t == 0 || r.chance(1, 3);
        if fault && r.chance(2, 5) {
            c.op(t, *r.pick(&["bad_utf8", "bad_utf8", "ragged", "ragged", "empty", "cut", "blank"]), [r.below(1 << 20) as i64, r.below(256) as i64, 0, 0, 0, 0]);
        }
        if fault && r.chance(1, 10) { c.op(t, "open_err", [*r.pick(&OPEN_ERRS) as i64, 0, 0, 0, 0, 0]); }
        if fault && r.chance(1, 20) { c.op(t, "missing", [r.below(3) as i64, 0, 0, 0, 0, 0]); }
        let at = r.below(8);
        for k in 0..1 + at + r.below(8) {
            if fault && k == at && r.chance(3, 4) {
                match r.below(8) {
                    0..=3 => { let e = *r.pick(&ERRS) as i64; for _ in 0..*r.pick(&[1, 1, 1, 2, 40]) { c.op(t, "err", [e, 0, 0, 0, 0, 0]); } }
                    4 => c.op(t, "trunc", [r.below(1000) as i64, 0, 0, 0, 0, 0]),
                    5 => c.op(t, "replace", [r.below(1 << 20) as i64, r.below(7) as i64, 1 + r.below(5) as i64, 1 + r.below(5) as i64, 0, 0]),
                    _ => c.op(t, "flip", [r.below(1 << 20) as i64, 1 + r.below(255) as i64, 0, 0, 0, 0]),
                }
            } else if r.chance(1, 6) { c.op(t, "eintr", [0; 6]) } else { c.op(t, "chunk", [1 + r.below(30) as i64, 0, 0, 0, 0, 0]) }
        }
    }
}

/// File contents.
pub fn content(seed: u64, style: u64, rows: usize, cols: usize, nl: u64) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 0xC57);
    let mut s = String::new();
    let words = ["é", "λ x", "漢字", "🙂", "a\u{feff}b", "\u{fffd}", "\"q", "x'y", "\u{0}", "a b", "ß", "\u{301}e", "\u{7f}", "naïve", "1e5", "-0", ";", "\\n", "#", "# a", "//", "%", "'", "\"", "nan", "NULL"];
    const NW: u64 = 26;
    // what some programs put first
    if style != 0 && r.chance(1, 10) { s += ["\u{feff}", "sep=;", "#", "\u{feff}\"a\""][r.below(4) as usize]; }
    let ws = [" ", "\t", "  ", "\u{3000}", "\u{a0}", "\u{2003}", "\r", "\u{b}", "\u{85}"];
    for i in 0..rows {
        for j in 0..cols {
            if j > 0 { s.push(','); }
            let pad = |r: &mut Rng| match style { 2 => ws[r.below(9) as usize], 3 => ws[r.below(3) as usize], _ => if r.chance(1, 8) { " " } else { "" } };
            s += pad(&mut r);
            match style {
                0 => s += &format!("{}", r.range(-99999, 99999) as f64 / 100.0),
                4 => if r.chance(1, 2) { s += &format!("{}", r.below(10)) },
                5 => if r.chance(1, 40) { let w = words[r.below(NW) as usize]; for _ in 0..3000 + r.below(2000) { s += w; } } else { s += "z" },
                6 => for _ in 0..r.below(4) { s += ["漢", "é", "🙂", "a"][r.below(4) as usize]; },
                _ => { for _ in 0..1 + r.below(2) { s += words[r.below(NW) as usize]; } if r.chance(1, 3) { s += &format!("{}", r.below(1000)); } }
            }
            s += pad(&mut r);
        }
        if i + 1 < rows || nl > 0 { s += if style == 3 || (style == 2 && r.chance(1, 3)) { "\r\n" } else { "\n" }; }
    }
    s.into_bytes()
}

/// What the bytes say: rows, columns, fields; or why they say nothing.
pub fn reference(b: &[u8]) -> Result<(usize, usize, Vec<u64>), &'static str> {
    let t = std::str::from_utf8(b).map_err(|_| "not UTF-8")?;
    let mut lines: Vec<&str> = t.split('\n').collect();
    if lines.last() == Some(&"") { lines.pop(); }
    if lines.is_empty() { return Err("no lines"); }
    let mut d = Vec::new();
    let mut cols = None;
    for l in &lines {
        let n = d.len();
        for f in l.split(',') { d.push(hash_str(f.trim_matches(char::is_whitespace))); }
        let k = d.len() - n;
        if *cols.get_or_insert(k) != k { return Err("rows of different lengths"); }
    }
    Ok((lines.len(), cols.unwrap(), d))
}

struct File { bytes: Vec<u8>, plan: Vec<REv>, open: Vec<i32>, name: String, clean: bool }

fn build(c: &Case, t: usize, faults: bool) -> File {
    let seed = if c.get("same") > 0 { c.u("seed") } else { mix(c.u("seed"), t as u64) };
    let (rows, cols) = (c.u("rows").max(1) as usize, c.u("cols").max(1) as usize);
    let mut f = File { bytes: content(seed, c.u("style"), rows, cols, c.u("nl")), plan: vec![], open: vec![], name: format!("t{}.csv", if c.get("same") > 0 { 0 } else { t }), clean: true };
    for o in c.ops.iter().filter(|o| o.t as usize == t) { event(&mut f, o, faults); }
    f
}

fn event(f: &mut File, o: &Op, faults: bool) {
    let n = f.bytes.len();
    match o.name.as_str() {
        "chunk" => f.plan.push(REv::Chunk(o.a[0].max(1) as u32)),
        "eintr" => f.plan.push(REv::Eintr),
        "open_eintr" => for _ in 0..o.a[0].min(5) { f.open.push(libc::EINTR) },
        _ if !faults => {}
        "err" => { f.clean = false; f.plan.push(REv::Err(o.a[0].max(1) as i32)) }
        "trunc" => { f.clean = false; f.plan.push(REv::Trunc((o.a[0].max(0) as u64 * (n as u64 + 1) / 1000) as u32)) }
        "replace" => { f.clean = false; f.plan.push(REv::Replace(content(o.a[0] as u64, o.a[1] as u64, o.a[2].max(0) as usize, o.a[3].max(1) as usize, 1))) }
        "flip" => { f.clean = false; f.plan.push(REv::Flip(o.a[0] as u32, o.a[1].max(1) as u8)) }
        "open_err" => { f.clean = false; f.open.push(o.a[0].max(1) as i32) }
        "missing" => { f.clean = false; f.name = ["nowhere.csv", "", "no\0where"][modi(o.a[0], 3)].into() }
        "empty" => { f.clean = false; f.bytes.clear() }
        "cut" => { f.clean = false; f.bytes.truncate(modi(o.a[0], n + 1)) }
        "bad_utf8" => { f.clean = false; let bad: &[u8] = [&b"\xff"[..], b"\xc3", b"\xe6\xbc", b"\xed\xa0\x80", b"\x80", b"\xf5\x80\x80\x80", b"\xc0\xaf"][modi(o.a[1], 7)]; let p = modi(o.a[0], n + 1); let tail = f.bytes.split_off(p); f.bytes.extend_from_slice(bad); f.bytes.extend(tail); }
        "blank" => { f.clean = false; let l: Vec<usize> = (0..n).filter(|i| f.bytes[*i] == b'\n').collect(); let p = if l.is_empty() { n } else { l[modi(o.a[0], l.len())] }; f.bytes.insert(p, b'\n') }
        "ragged" => {
            f.clean = false;
            let l: Vec<usize> = (0..n).filter(|i| f.bytes[*i] == b',').collect();
            match o.a[1] % 8 {
                // as many fields as before, in other rows: somewhere else, or in the next line
                k @ 3..=5 if !l.is_empty() => {
                    let p = l[modi(o.a[0], l.len())];
                    f.bytes.remove(p);
                    let line = |from: usize, b: &[u8]| b[from..].iter().position(|x| *x == b'\n').map(|q| from + q);
                    let q = if k == 3 { modi(o.a[0] / 7, n) } else { line(p, &f.bytes).map_or(0, |q| q + if k == 4 { 1 } else { 0 }) };
                    f.bytes.insert(q, b',');
                }
                6 => if let Some(p) = f.bytes.iter().skip(modi(o.a[0], n + 1)).position(|x| *x == b'\n') { f.bytes[modi(o.a[0], n + 1) + p] = b',' },
                7 if !l.is_empty() => f.bytes[l[modi(o.a[0], l.len())]] = b'\n',
                0 if !l.is_empty() => { f.bytes.remove(l[modi(o.a[0], l.len())]); }
                1 => f.bytes.insert(modi(o.a[0], n + 1), b','),
                _ => { if !f.bytes.ends_with(b"\n") { f.bytes.push(b'\n'); } f.bytes.extend_from_slice(b"1,2,3,4,5,6,7\n") }
            }
        }
        _ => {}
    }
}

fn node(f: &File, c: &Case) -> Node { Node { name: f.name.clone().into_bytes(), data: f.bytes.clone(), open_plan: f.open.clone(), plans: vec![f.plan.clone()], opens: 0, attempts: 0, default_chunk: c.u("chunk").max(1) as usize, size_lie: c.get("lie") } }

fn read(path: &str) -> (Result<Matrix<u64>, Pan>, OpState) {
    run_op(Plan::default(), || scope(|| la::util::read_csv(path, &|s: &str| { crate::cat::cb(); hash_str(s) })))
}
fn compare(m: &Matrix<u64>, w: &(usize, usize, Vec<u64>)) -> Result<(), String> {
    if m.rows() != w.0 || m.get_data().len() != w.2.len() || m.cols() != w.1 { return Err(format!("returned {} rows and {} fields; the file has {} rows of {}", m.rows(), m.get_data().len(), w.0, w.1)); }
    match m.get_data().iter().zip(w.2.iter()).position(|(a, b)| a != b) { None => Ok(()), Some(i) => Err(format!("field {} (row {}, column {}) is not the file's", i, i / w.1, i % w.1)) }
}

pub fn run10(c: &Case) { run(c, false) }
pub fn run11(c: &Case) { if c.get("sweep") > 0 { sweep(c) } else { run(c, true) } }

fn run(c: &Case, faults: bool) {
    simcore::alloc::configure(c.u("fills"), 63, c.u("fills") as u32 % 4);
    let nt = (c.u("tasks").max(1) as usize).min(MAXT - 1);
    let same = c.get("same") > 0;
    let mut files: Vec<File> = (0..nt).map(|t| build(c, t, faults)).collect();
    if same {
        // one file, a read plan per opening
        let bytes = files[0].bytes.clone();
        let mut n = node(&files[0], c);
        for f in files.iter_mut().skip(1) { f.bytes = bytes.clone(); n.plans.push(f.plan.clone()); }
        sim().sys.nodes.push(n);
        let clean = files.iter().all(|f| f.clean);
        for f in files.iter_mut() { f.clean = clean; f.name = "t0.csv".into(); }
    } else {
        for f in &files { if f.name.starts_with('t') { sim().sys.nodes.push(node(f, c)); } }
    }
    if files[0].bytes.len() > 8192 { stat(P_BIGFILE); }
    sample(&format!("style {} {}x{}, {} bytes, default read {}, {} tasks, {} events", c.get("style"), c.get("rows"), c.get("cols"), files[0].bytes.len(), c.get("chunk"), nt, c.ops.len()));
    let want: Vec<Result<(usize, usize, Vec<u64>), &'static str>> = files.iter().map(|f| reference(&f.bytes)).collect();
    let results: Mutex<Vec<Option<(Result<Matrix<u64>, Pan>, usize, usize)>>> = Mutex::new((0..nt).map(|_| None).collect());
    let go = |t: usize| {
        let path = format!("/la-sim-vfs/{}", files[t].name);
        let f0 = sim().sys.fds.len();
        let (r, _) = read(&path);
        let f1 = sim().sys.fds.len();
        unread(f0, Some(if nt == 1 { 0 } else { t }));
        results.lock().unwrap()[t] = Some((r, f0, f1));
        // what came before, failed reads included, must not show in the next read: another file, then the first path with new contents
        let name = format!("a{}.csv", t);
        for k in 0..2 {
            let n = if nt == 1 && k == 1 && files[0].name.starts_with('t') { files[0].name.clone() } else { name.clone() };
            let b = content(mix(c.u("seed"), 50 + 2 * t as u64 + k), (c.u("style") + k) % 7, 1 + c.u("seed") as usize % 4, 1 + t + k as usize, 1);
            {
                let s = sim();
                let nd = Node { name: n.clone().into_bytes(), data: b.clone(), open_plan: vec![], plans: vec![], opens: 0, attempts: 0, default_chunk: 1 + (c.u("seed") % 50) as usize, size_lie: 0 };
                match s.sys.nodes.iter_mut().find(|x| x.name == n.as_bytes()) { Some(x) => *x = nd, None => s.sys.nodes.push(nd) }
            }
            let (r, _) = read(&format!("/la-sim-vfs/{}", n));
            eval(true, mix(hash64(&[t as u64, k, b.len() as u64]), c.u("seed")));
            match (&r, reference(&b)) {
                (Ok(m), Ok(w)) => if let Err(e) = compare(m, &w) { fail("csv-wrong-after-earlier-reads", format!("task {} reading {} next: {}", t, n, e)); },
                (Err(p), Ok(_)) => fail("csv-refused-after-earlier-reads", format!("task {} reading a well-formed file: {}", t, pan_name(p))),
                (Ok(_), Err(e)) => fail("csv-accepted", format!("task {}: a file with {} was turned into a matrix", t, e)),
                _ => {}
            }
        }
    };
    if nt == 1 { go(0); } else if !sched::run_tasks(nt, &c02::spec(c), &go) { fail("deadlock", "reading tasks wait forever".into()); return; }
    let results = results.into_inner().unwrap();
    for (t, r) in results.iter().enumerate() {
        let (r, f0, f1) = match r { Some(x) => x, None => { fail("no-result", format!("task {} ended without result", t)); return; } };
        let s = sim();
        let mine: Vec<&simcore::sysx::VFd> = s.sys.fds[*f0..*f1].iter().filter(|f| f.task == if nt == 1 { 0 } else { t }).collect();
        let h = mix(mix(hash_str(&files[t].name), files[t].bytes.len() as u64), mix(hash64(&mine.iter().flat_map(|f| [f.pi as u64, f.delivered.len() as u64, f.err as u64]).collect::<Vec<_>>()), c.u("style") ^ c.u("chunk") << 8));
        eval(!files[t].plan.is_empty() || !files[t].clean || c.get("chunk") < files[t].bytes.len() as i64 || nt > 1, h);
        match r { Ok(_) => stat(P_CSV_OK), Err(_) => stat(P_CSV_PANIC) }
        if !faults || files[t].clean {
            // the content alone decides
            match (r, &want[t]) {
                (Ok(m), Ok(w)) => if let Err(e) = compare(m, w) { fail("csv-wrong", format!("task {} reading {}: {}", t, files[t].name, e)); return; },
                (Ok(_), Err(e)) => { fail("csv-accepted", format!("task {}: a file with {} was turned into a matrix", t, e)); return; }
                (Err(p), Ok(_)) => { if !faults { fail("csv-refused", format!("task {} reading a well-formed file: {}", t, pan_name(p))); return; } }
                (Err(_), Err(_)) => {}
            }
        } else if let Err(e) = judge(r, &mine) { fail(&e.0, format!("task {}: {}", t, e.1)); return; }
    }
}

/// Against the bytes the simulated operating system really handed out.
/// A reader that stopped before the end is held to the bytes it left unread, too.
fn unread(from: usize, task: Option<usize>) {
    let s = sim();
    for i in from..s.sys.fds.len() {
        let f = &mut s.sys.fds[i];
        if f.eof || task.map_or(false, |t| f.task != t) { continue; }
        let n = &s.sys.nodes[f.node];
        f.delivered.extend_from_slice(&n.data[f.pos.min(n.data.len())..]);
    }
}

fn judge(r: &Result<Matrix<u64>, Pan>, fds: &[&simcore::sysx::VFd]) -> Result<(), (String, String)> {
    let m = match r { Ok(m) => m, Err(_) => return Ok(()) };
    if fds.is_empty() { return Err(("csv-open-failure-ignored".into(), "the file could not be opened, yet a matrix was returned".into())); }
    if let Some(f) = fds.iter().find(|f| f.err != 0) { return Err(("csv-read-failure-ignored".into(), format!("a read failed with errno {} after {} bytes, yet a matrix was returned", f.err, f.delivered.len()))); }
    let mut why = String::new();
    for f in fds {
        match reference(&f.delivered) {
            Ok(w) => match compare(m, &w) { Ok(()) => return Ok(()), Err(e) => why = e },
            Err(e) => why = format!("the bytes read have {}", e),
        }
    }
    Err(("csv-damage-accepted".into(), why))
}

/// One fault at every position of a small file: 1 read error, 2 truncation while being read, 3 a wrong byte.
fn sweep(c: &Case) {
    simcore::alloc::configure(c.u("fills"), 63, c.u("fills") as u32 % 4);
    let b = content(c.u("seed"), c.u("style") % 5, c.u("rows").max(1) as usize, c.u("cols").max(1) as usize, c.u("nl"));
    let b: Vec<u8> = b.into_iter().take(400).collect();
    let kind = c.get("sweep");
    sample(&format!("sweep kind {} over {} bytes", kind, b.len()));
    let mut r = Rng::new(c.u("seed") ^ 0x5E);
    for p in 0..=b.len() {
        if c.has("pos") && c.u("pos") != p as u64 { continue; }
        let e = *r.pick(&ERRS);
        let x = 1 + r.below(255) as u8;
        let two = r.chance(1, 2);
        for variant in 0..2 {
            let mut plan = Vec::new();
            let mut left = p;
            while left > 0 { let k = if variant == 0 { left } else { left.min(7) }; plan.push(REv::Chunk(k as u32)); left -= k; }
            match kind {
                1 => { plan.push(REv::Err(e)); if two { for _ in 0..5 { plan.push(REv::Err(e)); } } }
                2 => plan.push(REv::Trunc(p as u32)),
                _ => plan.insert(0, REv::Flip(p as u32, x)),
            }
            let s = sim();
            s.sys.nodes.clear();
            s.sys.fds.clear();
            let base = s.sys.fds.len();
            s.sys.nodes.push(Node { name: b"s.csv".to_vec(), data: b.clone(), open_plan: vec![], plans: vec![plan], opens: 0, attempts: 0, default_chunk: if variant == 0 { 1 << 20 } else { 5 }, size_lie: 0 });
            let (r, _) = read("/la-sim-vfs/s.csv");
            unread(base, None);
            let mine: Vec<&simcore::sysx::VFd> = sim().sys.fds[base..].iter().collect();
            stat(CRASH_POINTS);
            match r { Ok(_) => stat(P_CSV_OK), Err(_) => stat(P_CSV_PANIC) }
            eval(true, mix(mix(kind as u64, p as u64), mix(hash64(&[b.len() as u64, variant]), c.u("style"))));
            if let Err(e) = judge(&r, &mine) { fail(&e.0, format!("fault kind {} at pos={} of {} bytes: {}", kind, p, b.len(), e.1)); return; }
        }
    }
}
