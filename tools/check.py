#!/usr/bin/env python3
"""Build the simulator from /repo's working tree, run one property's cases, confirm, minimise and report violations."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SIM = os.path.join(VERIF, 'sim')
TARGET = os.path.join(SIM, 'target')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
BUILDS = {'dev': 'debug', 'rel': 'release', 'ins': 'ins/release'}
INSTR = os.path.join(VERIF, 'tools', 'rustc-instr.sh')

# cases per tier (quick, thorough) and the build each worker runs
P, Q, R, S = 'dev dev dev rel rel rel rel rel', 'dev dev ins ins ins rel rel rel', 'dev rel rel rel rel rel rel rel', 'dev ins ins ins ins ins rel rel'
CFG = {
    'C01': (18000, 600000, P),
    'C02': (90000, 900000, S),
    'C03': (9000, 200000, Q),
    'C04': (50000, 1500000, P),
    'C05': (36000, 1000000, P),
    'C06': (80000, 2500000, P),
    'C07': (40000, 1000000, Q),
    'C08': (60000, 1800000, P),
    'C09': (70000, 1500000, P),
    'C10': (40000, 900000, Q),
    'C11': (45000, 600000, P),
    'C12': (15000, 300000, Q),
    'C13': (60000, 1200000, Q),
    'C14': (20000, 500000, Q),
    'C15': (60000, 1500000, Q),
    'C16': (30000, 1000000, P),
    'C17': (5000, 30000, R),
}
# seconds of exploration allowed per tier
LIMIT = {'quick': 24, 'thorough': 560}
LONGER = {'C02': 75}     # quick tier, where the number of schedules matters most
NW = 8

FAULTS = ['PANIC_ELEM', 'PANIC_CB', 'PANIC_FMT', 'PANIC_RAND', 'REENTER', 'FILL_ZERO', 'FILL_ONES', 'FILL_RANDOM', 'FILL_STALE', 'FILL_PLAUSIBLE', 'FILL_KEEP',
          'BLOCK_REUSED', 'ALLOC_REFUSED', 'READ_SHORT', 'READ_EINTR', 'READ_ERR', 'OPEN_ERR', 'OPEN_EINTR', 'FILE_TRUNC', 'FILE_REPLACED', 'BYTE_FLIP',
          'READ_SPLIT_UTF8', 'WRITE_SHORT', 'WRITE_EINTR', 'WRITE_ERR', 'SINK_ERR', 'ENTROPY_EINTR', 'ENTROPY_SHORT', 'ARITH_NAN', 'ARITH_INF', 'ARITH_ZERO',
          'ARITH_SIGN', 'ARITH_SCALE', 'ARITH_ULP', 'ARITH_DENORM', 'CMP_FLIP', 'CMP_STUCK', 'TEXT_CHANGED', 'DATA_RESIZED', 'OPERAND_OVERWRITTEN', 'OPERAND_DROPPED', 'FUTEX_BLOCK', 'PREEMPT_IN_CALL']

REAL = ['la (every line of /repo/src)', 'num', 'rand', 'Rust std: Vec, String, BufReader, File, stdout, threads, panics and unwinding', 'the pthread threads tasks run on']
STUB = ['heap: simulated global allocator (contents, recycling, refusal, guards)', 'scheduler: one task at a time, chosen by the seed at every yield point',
        'futex waits, clocks, getrandom', 'files: in-memory file system behind open/read/lseek/fstat/statx/close', 'standard output: in-memory sink behind write/writev',
        'element types, callbacks, CSV parsers and fmt::Write sinks supplied by the harness']

def die(msg):
    print('ERROR: ' + msg, flush=True)
    sys.exit(2)

def env():
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = 'stable'
    e['CARGO_TARGET_DIR'] = TARGET
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['RUST_BACKTRACE'] = '0'
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    return e

def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, 'Cargo.toml')] + sorted(glob.glob(REPO + '/src/**/*', recursive=True)) + sorted(glob.glob(SIM + '/**/*.rs', recursive=True)) + sorted(glob.glob(SIM + '/**/Cargo.toml', recursive=True))
    for f in files:
        if os.path.isfile(f) and '/target/' not in f:
            h.update(f.encode() + b'\0')
            h.update(open(f, 'rb').read())
    return h.hexdigest()

def build(which=('dev', 'rel', 'ins')):
    import fcntl
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        th = tree_hash()
        todo = []
        for b in which:
            stamp = os.path.join(TARGET, 'built-' + b)
            exe = os.path.join(TARGET, BUILDS[b], 'lasim')
            if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == th:
                continue
            # the contents decide, not time stamps: make cargo compile la and the simulator again
            for d in glob.glob(os.path.join(TARGET, BUILDS[b], '.fingerprint', 'la-*')) + glob.glob(os.path.join(TARGET, BUILDS[b], '.fingerprint', 'lasim-*')) + glob.glob(os.path.join(TARGET, BUILDS[b], '.fingerprint', 'simcore-*')):
                shutil.rmtree(d, ignore_errors=True)
            if os.path.exists(stamp):
                os.remove(stamp)
            todo.append(b)
        ps = []
        for b in todo:
            cmd = ['cargo', 'build', '--offline', '--locked'] + (['--release'] if b != 'dev' else [])
            e = env()
            # the two builds share nothing, so they can run at the same time
            if b == 'ins':
                e['CARGO_TARGET_DIR'] = os.path.join(TARGET, 'ins')
                e['RUSTC_WRAPPER'] = INSTR
            log = open(os.path.join(TARGET, 'build-%s.log' % b), 'w')
            ps.append((b, subprocess.Popen(cmd, cwd=SIM, env=e, stdout=log, stderr=subprocess.STDOUT)))
        for b, p in ps:
            if p.wait() != 0:
                for _, q in ps:
                    if q.poll() is None:
                        q.wait()
                sys.stdout.write(open(os.path.join(TARGET, 'build-%s.log' % b)).read()[-4000:])
                die('the simulator does not build against ' + REPO)
            open(os.path.join(TARGET, 'built-' + b), 'w').write(th)

def exe(b):
    return os.path.join(TARGET, BUILDS[b], 'lasim')

def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) class=(\S+) match=(.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def parse(out):
    d = {'stats': {}, 'samples': [], 'hashes': set(), 'found': [], 'harness': [], 'runs': 0, 'next': None, 'log': '', 'noted': 0, 'slowest': '', 'end': False}
    for l in out.splitlines():
        w = l.split(' ', 1)
        if w[0] in ('FOUND', 'HARNESS'):
            m = re.match(r'\S+ index=(\d+) class=(.*?) detail=(.*)$', l)
            if m:
                (d['found'] if w[0] == 'FOUND' else d['harness']).append((int(m.group(1)), m.group(2), m.group(3)))
        elif w[0] == 'stat':
            k, v = w[1].split()
            d['stats'][k] = d['stats'].get(k, 0) + int(v)
        elif w[0] == 'sample':
            d['samples'].append(w[1])
        elif w[0] == 'hashes' and len(w) > 1:
            d['hashes'].update(w[1].split())
        elif w[0] in ('runs', 'noted'):
            d[w[0]] = int(w[1])
        elif w[0] == 'next':
            d['next'] = int(w[1])
        elif w[0] in ('log', 'slowest'):
            d[w[0]] = w[1]
        elif w[0] == 'end':
            d['end'] = True
    return d

def run_worker(prop, seed, b, frm, to, secs, tier):
    return subprocess.Popen([exe(b), 'worker', prop, str(seed), str(frm), str(NW), str(to), str(max(1, int(secs))), tier],
                            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(), cwd=SIM)

def read_all(ps):
    """Collect the outputs of several processes at once."""
    import threading
    outs = [None] * len(ps)
    def rd(i):
        outs[i] = ps[i].communicate()[0].decode('utf-8', 'replace')
    ts = [threading.Thread(target=rd, args=(i,)) for i in range(len(ps))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return outs

def confirm(prop, seed, b, index, tier, cls):
    """Generate the failing case, minimise it and replay it in a fresh process. Returns the replay path or None."""
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, '%s-%s-s%d-%d' % (prop, b, seed, index))
    g = subprocess.run([exe(b), 'gen', prop, str(seed), str(index), tier], stdout=subprocess.PIPE, env=env(), cwd=SIM)
    raw, small = base + '.raw', base + '.case'
    open(raw, 'wb').write(g.stdout)
    r = subprocess.run([exe(b), 'shrink', raw, small, '40' if tier == 'quick' else '120'], env=env(), cwd=SIM, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if r.returncode != 1:
        return None
    for _ in range(2):
        r = subprocess.run([exe(b), 'replay', small], env=env(), cwd=SIM, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if r.returncode != 1:
            return None
    os.remove(raw)
    return small

def check(prop, tier, seed):
    t0 = time.time()
    nq, nt, split = CFG[prop]
    which = split.split()
    builds = sorted(set(which))
    build(builds)
    tb = time.time() - t0
    total = nq if tier == 'quick' else nt
    limit = secs = LONGER.get(prop, LIMIT[tier]) if tier == 'quick' else LIMIT[tier]
    scale = float(os.environ.get('LASIM_SCALE', '1'))
    total = int(total * scale); secs *= max(scale, 1)
    # determinism: the same first cases twice in separate processes and in both builds
    dt = [subprocess.Popen([exe(b), 'worker', prop, str(seed), '0', '1', '12', '30', tier], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(), cwd=SIM) for b in builds + builds]
    dlogs = [parse(o) for o in read_all(dt)]
    t1 = time.time()
    deadline = t1 + secs
    ps = [run_worker(prop, seed, which[w], w, total, secs, tier) for w in range(NW)]
    outs = read_all(ps)
    agg = {'stats': {}, 'hashes': set(), 'samples': [], 'runs': 0, 'noted': 0, 'runs_by_build': {b: 0 for b in builds}, 'logs': []}
    kf, unlisted, unconfirmed, harness = set(), [], [], []
    kn = known(prop)
    queue = [(w, parse(o), ps[w].returncode) for w, o in enumerate(outs)]
    rounds = 0
    while queue:
        w, d, rc = queue.pop(0)
        if not d['end']:
            harness.append('worker %d ended with %s and gave no result' % (w, rc))
            continue
        for k, v in d['stats'].items():
            agg['stats'][k] = agg['stats'].get(k, 0) + v
        agg['hashes'] |= d['hashes']
        agg['samples'] += d['samples']
        agg['runs'] += d['runs']
        agg['runs_by_build'][which[w]] += d['runs']
        agg['noted'] += d['noted']
        agg['logs'].append(d['log'])
        if d['slowest']:
            ms, ci = d['slowest'].split()
            agg['slowest'] = max(agg.get('slowest', (0, 0, '')), (int(ms), int(ci), which[w]))
        for i, c, m in d['harness']:
            harness.append('case %d (%s): %s %s' % (i, which[w], c, m))
        cont = None
        for i, c, m in d['found']:
            e = [x for x in kn if x[0] == c and x[1] in m]
            if e:
                kf.add(e[0]); cont = i + NW
            else:
                unlisted.append((w, i, c, m))
        # a listed finding ends a worker early: carry on behind it
        rounds += 1
        if cont is not None and cont < total and time.time() < deadline and rounds < 400:
            p = run_worker(prop, seed, which[w], cont, total, deadline - time.time(), tier)
            queue.append((w, parse(read_all([p])[0]), p.returncode))
    explore = time.time() - t1
    replay = None
    for w, i, c, m in sorted(unlisted, key=lambda x: (x[2] == 'hang', x[1])):
        if time.time() - t1 > limit + 240:
            break
        p = confirm(prop, seed, which[w], i, tier, c)
        if p:
            replay = (p, i, c, m, which[w])
            break
        unconfirmed.append('case %d (%s) %s did not reproduce: %s' % (i, which[w], c, m[:300]))
    st = agg['stats']
    # odd hashes are interleavings, even ones evaluations
    nd = sum(1 for h in agg['hashes'] if h[-1] in '02468ace')
    det = [x['log'] for x in dlogs]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': st.get('EVALS', 0),
            'distinct_nontrivial': nd,
            'distinct_interleavings': len(agg['hashes']) - nd,
            'interleaving_measure': 'hash of the sequence (task, kind of yield point, position in the call) at every context switch of a run',
            'rule': 'A case is generated from (seed, property, case number): a swarm-style mix of element type, shapes, operations, tasks and faults. One evaluation is one oracle decision about one simulated call or history (a call re-run with one fault at one position counts as its own). It is non-trivial when the fault, interleaving or reuse it is about really happened in it; distinct means a different hash of operation, shape class, fault position and outcome (interleavings: of the sequence of context switches).',
            'samples': agg['samples'][:10],
            'simulated_runs': agg['runs'],
            'simulated_runs_by_build': agg['runs_by_build'],
            'runs_per_hour': int(agg['runs'] / max(explore, .001) * 3600),
            'seeds_per_hour': int(agg['runs'] / max(explore, .001) * 3600),
            'seed_rule': 'every case has its own seed, derived from (VERIF_SEED, property, case number)',
            'simulated_time': {'unit': 'simulator steps (the library has no timers, so no clock is advanced)', 'steps': st.get('STEPS', 0), 'library_calls': st.get('OPS', 0), 'context_switches': st.get('SWITCHES', 0)},
            'faults_injected': {k: st.get(k, 0) for k in FAULTS if st.get(k, 0)},
            'probes': {k: v for k, v in sorted(st.items()) if k not in FAULTS and k not in ('EVALS', 'STEPS', 'OPS', 'SWITCHES')},
            'nontrivial_evaluations': st.get('NONTRIVIAL', 0),
            'real_components': REAL, 'stubbed_components': STUB,
            'determinism': {'what': 'logs of the first 12 cases, run twice per build in separate processes', 'logs': dict(zip(builds, det)), 'repeats_identical': det[:len(builds)] == det[len(builds):]},
            'unconfirmed': unconfirmed[:5],
            'slowest_case': dict(zip(('ms', 'case', 'build'), agg.get('slowest', ()))),
            'planned_runs': total, 'build_s': round(tb, 1), 'explore_s': round(explore, 1),
        },
        'assumptions': ['The simulator samples schedules, faults and inputs; a clean batch is evidence, not proof.',
                        'Interleavings are decided at element operations, callbacks, allocations, locks and system calls, and in the instrumented build at control-flow edges and accesses to static memory; weaker memory orders than sequential consistency are not explored.'],
        'wall_s': round(time.time() - t0, 1),
        'violations': 1 if replay else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in sorted(kf):
        print('KNOWN-FINDING: property=%s %s %s' % (prop, k[0], k[1]))
    for u in unconfirmed[:5]:
        print('note: ' + u)
    print('%s %s seed=%d: %d runs (%s), %d evaluations, %d distinct non-trivial, %d interleavings, %d steps in %.1fs (build %.1fs), slowest case %s' %
          (prop, tier, seed, agg['runs'], ', '.join('%d %s' % (v, k) for k, v in agg['runs_by_build'].items()), st.get('EVALS', 0), nd, len(agg['hashes']) - nd, st.get('STEPS', 0), explore, tb, '%d ms (%d, %s)' % agg.get('slowest', (0, 0, '-'))))
    if replay:
        p, i, c, m, b = replay
        print('case %d, build %s, class %s: %s' % (i, b, c, m[:600]))
        for l in open(p):
            if l.startswith('#'):
                print('minimised ' + l.rstrip()[:600])
        print('VIOLATION property=%s replay=%s' % (prop, p), flush=True)
        return 1
    if harness:
        die('; '.join(harness)[:2000])
    if any(not u.split(' ')[3].startswith(('hang', 'killed')) for u in unconfirmed):
        die('a failure did not reproduce')
    return 0

def main():
    a = sys.argv[1:]
    if a and a[0] == 'setup':
        build()
        print('built')
        return 0
    if a and a[0] == 'replay':
        txt = open(a[1]).read()
        b = re.search(r'^build (\S*)', txt, re.M).group(1) or 'rel'
        build()
        return subprocess.run([exe(b), 'replay', os.path.abspath(a[1])], env=env(), cwd=SIM).returncode
    if not a or a[0] not in CFG:
        die('usage: check.py PROPERTY | setup | replay FILE')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in LIMIT:
        tier = 'quick'
    if len(a) > 1:
        tier = a[1]
    return check(a[0], tier, int(os.environ.get('VERIF_SEED') or 1))

if __name__ == '__main__':
    sys.exit(main())
