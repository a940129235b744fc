#!/usr/bin/env python3
"""Solver-based check of one property: builds LLVM bitcode of the current /repo sources together with
the property's harness, explores it symbolically (engine/, z3 decides), replays counterexamples and
sampled path models on a natively compiled, sanitised build of the same sources.

  check.py ID            run the check (VERIF_TIER=quick|thorough)
  check.py --replay F    replay a counterexample file
"""
import sys, os, re, json, random, subprocess, time, shutil, tempfile, hashlib, collections
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
RT = os.path.join(VERIF, 'runtime')
JOBS = os.cpu_count() or 4
BC = ['-std=c++11', '-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-pic', '-fno-pie', '-ffp-contract=off',
      '-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,bool,enum,unreachable,return,builtin',
      '-fsanitize-trap=all', '-DREFLECT_USE_EXCEPTIONS=1', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-emit-llvm', '-c']
NAT = ['-std=c++11', '-O0', '-g1', '-DREFLECT_USE_EXCEPTIONS=1', '-w', '-fno-omit-frame-pointer']
ASAN = ['-fsanitize=address,shift,signed-integer-overflow,integer-divide-by-zero,bool,enum,unreachable,return,builtin', '-fno-sanitize-recover=all', '-DSYM_OWN_NEW']
WRAP = ['-Wl,--wrap=' + s for s in
        ['pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_rwlock_rdlock', 'pthread_rwlock_tryrdlock', 'pthread_rwlock_wrlock',
         'pthread_rwlock_trywrlock', 'pthread_rwlock_unlock', 'pthread_spin_lock', 'pthread_spin_trylock', 'pthread_spin_unlock',
         '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort'] +
        ['__tsan_atomic%d_%s' % (n, o) for n in (8, 16, 32, 64) for o in
         ('load', 'store', 'exchange', 'fetch_add', 'fetch_sub', 'fetch_and', 'fetch_or', 'fetch_xor', 'fetch_nand', 'compare_exchange_strong', 'compare_exchange_weak')]]
LIBS = {
    'core': ['reflect.cpp', 'types/primitive_void.cpp', 'types/reflect/value.cpp', 'types/reflect/type.cpp'],
    'prims': ['types/primitives.cpp', 'types/primitive_bool.cpp', 'types/primitive_char.cpp', 'types/primitive_short.cpp', 'types/primitive_int.cpp',
              'types/primitive_long.cpp', 'types/primitive_long_long.cpp', 'types/primitive_float.cpp'],
    'std': ['types/std/string.cpp'],
    'json': ['utils/json/json.cpp'],
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)

class CheckError(Exception):
    pass

def load_checks():
    """harness files declare checks:  // @check ID libs=core,prims entries=prop_a,prop_b quick=-DN=3 thorough=-DN=4 ..."""
    checks = collections.OrderedDict()
    hd = os.path.join(VERIF, 'harness')
    for fn in sorted(os.listdir(hd)):
        if not fn.endswith('.cpp'):
            continue
        for line in open(os.path.join(hd, fn)):
            m = re.match(r'//\s*@check\s+(\S+)\s*(.*)', line)
            if not m:
                continue
            c = {'id': m.group(1), 'file': fn, 'libs': 'core', 'entries': '', 'quick': '', 'thorough': '', 'preempt': '2', 'tpreempt': '', 'steps': '60000000', 'mode': 'seq', 'qt': '600', 'tt': '820', 'z3ms': '120000'}
            for kv in m.group(2).split():
                k, v = kv.split('=', 1)
                c[k] = v
            c['entries'] = [e for e in c['entries'].split(',') if e]
            c['libs'] = [l for l in c['libs'].split(',') if l]
            checks.setdefault(c['id'], []).append(c)
    return checks

def ensure_engine(log):
    eng = os.path.join(VERIF, 'build', 'engine')
    h = hashlib.sha256()
    ed = os.path.join(VERIF, 'engine')
    for f in sorted(os.listdir(ed)):
        h.update(f.encode()); h.update(open(os.path.join(ed, f), 'rb').read())
    stamp = os.path.join(VERIF, 'build', 'stamp')
    if os.path.exists(eng) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return eng
    r = sh(['make', '-B', '-C', ed, '-j', str(JOBS), 'BUILD=' + os.path.join(VERIF, 'build')])
    if r.returncode:
        raise CheckError('engine build failed:\n' + r.stderr[-3000:])
    open(stamp, 'w').write(h.hexdigest())
    return eng

def sources(c):
    return [os.path.join(REPO, 'src', s) for l in c['libs'] for s in LIBS[l]]

def build(c, tier, wd, flavours):
    """compile everything in parallel; returns dict flavour -> path or raises"""
    defs = c[tier].split(',') if c[tier] else []
    harness = os.path.join(VERIF, 'harness', c['file'])
    inc_bc = ['-I' + RT, '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'src'), '-isystem', os.path.join(RT, 'shadow')]
    inc_nat = ['-I' + RT, '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'src')]
    jobs = []
    objs = collections.defaultdict(list)
    for i, s in enumerate(sources(c) + [harness]):     # libraries are initialised before what uses them
        sd = defs if s == harness else []
        if 'bc' in flavours:
            o = os.path.join(wd, 'b%d.bc' % i); objs['bc'].append(o)
            jobs.append(['clang++-18'] + BC + sd + inc_bc + [s, '-o', o])
        for fl, flags in (('asan', ASAN), ('plain', ['-DSYM_OWN_NEW', '-O0']), ('tsan', ['-fsanitize=thread'])):
            if fl in flavours:
                o = os.path.join(wd, '%s%d.o' % (fl, i)); objs[fl].append(o)
                jobs.append(['g++'] + NAT + flags + sd + inc_nat + ['-c', s, '-o', o])
    if 'bc' in flavours:
        o = os.path.join(wd, 'rt.bc'); objs['bc'].append(o)
        jobs.append(['clang++-18'] + [f for f in BC if 'sanitize' not in f] + ['-fno-builtin', '-fno-access-control'] + inc_bc + [os.path.join(RT, 'runtime.cpp'), '-o', o])
    for fl, flags in (('asan', ASAN), ('plain', ['-DSYM_OWN_NEW']), ('tsan', ['-fsanitize=thread'])):
        if fl in flavours:
            o = os.path.join(wd, '%srt.o' % fl); objs[fl].append(o)
            jobs.append(['g++'] + NAT + flags + inc_nat + ['-c', os.path.join(RT, 'sym_native.cpp'), '-o', o])
    if 'tsan' in flavours:                             # the scheduler itself stays invisible to the thread sanitizer
        o = os.path.join(wd, 'tsansched.o'); objs['tsan'].append(o)
        jobs.append(['g++'] + NAT + ['-c', os.path.join(RT, 'sched_native.cpp'), '-o', o])
    jobs.sort(key=lambda j: 0 if any('reflect.cpp' in a or 'json.cpp' in a for a in j) else 1)
    with ThreadPoolExecutor(JOBS) as ex:
        for r, j in zip(ex.map(sh, jobs), jobs):
            if r.returncode:
                r = sh(j)
            if r.returncode:
                raise CheckError('compilation failed: %s\n%s' % (' '.join(j), r.stderr[-4000:]))
    res = {}
    if 'bc' in flavours:
        res['bc'] = os.path.join(wd, 'all.bc')
        r = sh(['llvm-link-18'] + objs['bc'] + ['-o', res['bc']])
        if r.returncode:
            raise CheckError('llvm-link failed: ' + r.stderr[-3000:])
    for fl, flags in (('asan', ASAN), ('plain', []), ('tsan', ['-fsanitize=thread'] + WRAP)):
        if fl in flavours:
            res[fl] = os.path.join(wd, 'native_' + fl)
            r = sh(['g++', '-rdynamic'] + [f for f in flags if f.startswith('-f') or f.startswith('-Wl')] + objs[fl] + ['-o', res[fl], '-ldl', '-lpthread'])
            if r.returncode:
                raise CheckError('native link failed: ' + r.stderr[-3000:])
    return res

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=44:alloc_dealloc_mismatch=0:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=0:exitcode=45', TSAN_OPTIONS='exitcode=66:halt_on_error=1')

def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for i in inputs:
            f.write('%s %s\n' % (i['k'], i['v']))

def run_native(binary, entry, inputs, wd, tag, timeout=20, wrap=None, sched=None):
    p = os.path.join(wd, 'in_%s.txt' % tag)
    write_inputs(p, inputs)
    try:
        r = subprocess.run((wrap or []) + [binary, entry, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(ENV, SYM_SCHED=sched) if sched is not None else ENV)
        return r.returncode, r.stdout.decode('latin1'), r.stderr.decode('latin1')
    except subprocess.TimeoutExpired:
        return 'timeout', '', 'timeout'

def schedules(v, binary, wd, tag, seconds):
    """replay under the controlled scheduler: the places of the counterexample's preemptions are searched for, first one
    preemption anywhere, then two or three; returns the schedule that fails natively"""
    if v.get('native_sched'):                          # replay of a recorded counterexample
        rc, o, e = run_native(binary, v['entry'], v['inputs'], wd, tag, 20, None, v['native_sched'])
        return v['native_sched'] if rc else None, rc, e, 1
    rnd = random.Random(1)
    end = time.time() + seconds
    def one(s, k):
        rc, o, e = run_native(binary, v['entry'], v['inputs'], wd, '%s_%d' % (tag, k), 20, None, s)
        m = re.search(r'SCHED points (\d+)', e)
        return s, rc, e, int(m.group(1)) if m else 0
    base = ['0/', '1/', '0,1/', '1,0/', '0,0,1/', '1,1,0/']
    def gen(n):
        for b in ('0', '1'):
            for c in '01':
                for k in range(n):
                    yield '%s/%d:%s' % (b, k, c)
        while True:
            ks = sorted(rnd.sample(range(max(n, 4)), rnd.choice((2, 2, 3))))
            yield '%s/%s' % (rnd.choice(base)[:-1], ','.join('%d:%d' % (k, rnd.randrange(2)) for k in ks))
    bad = lambda rc: rc not in (0, 77, 78, 79, 'timeout')
    tried = n = 0
    with ThreadPoolExecutor(JOBS) as ex:
        for s, rc, e, k in ex.map(one, base, range(len(base))):
            tried += 1; n = max(n, k)
            if bad(rc):
                return s, rc, e, tried
        g = gen(min(n, 3000) + 2)
        while time.time() < end:
            batch = [next(g) for _ in range(64)]
            for s, rc, e, k in ex.map(one, batch, range(64)):
                tried += 1
                if bad(rc):
                    return s, rc, e, tried
    return None, 0, '', tried

def confirm(v, bins, c, tier, wd, n):
    """replay a counterexample on the real code; returns (confirmed, how)"""
    kind = v['kind']
    def need(fl):
        if fl not in bins:
            bins.update(build(c, tier, wd, {fl}))
        return bins[fl]
    if kind == 'race':
        for k in range(0 if v.get('native_sched') else 3):
            rc, o, e = run_native(need('tsan'), v['entry'], v['inputs'], wd, 'v%d' % n, 30)
            if rc not in (0,):
                return True, 'tsan run %d: exit %s %s' % (k, rc, e[:300])
        s, rc, e, k = schedules(v, need('tsan'), wd, 'v%d' % n, 60)
        v['native_sched'] = s
        if s is None:
            return False, 'thread sanitizer quiet under %d schedules' % k
        return True, 'schedule %s: exit %s %s' % (s, rc, e[:300])
    to = 20 if kind in ('hang', 'deadlock') else 60
    rc, o, e = run_native(need('asan'), v['entry'], v['inputs'], wd, 'v%d' % n, to)
    if rc == 0 and c['mode'] == 'threads':
        s, rc, e, k = schedules(v, need('tsan'), wd, 'v%d' % n, 60)
        v['native_sched'] = s
        if s is not None:
            return True, 'schedule %s: exit %s %s' % (s, rc, e[:300])
    if rc not in (0, 77, 78, 79):
        return True, 'native exit %s: %s' % (rc, e.strip()[:300])
    if rc == 0 and shutil.which('valgrind') and kind in ('uninit', 'mem', 'check'):
        rc, o, e = run_native(need('plain'), v['entry'], v['inputs'], wd, 'v%d' % n, 120, ['valgrind', '-q', '--error-exitcode=46', '--leak-check=no'])
        if rc not in (0, 77, 78, 79):
            return True, 'valgrind/plain exit %s: %s' % (rc, e.strip()[:300])
    return False, 'native exit %s' % rc

def load_findings():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if not os.path.exists(p):
        return []
    return [json.loads(l) for l in open(p) if l.strip() and l.strip().startswith('{')]

def matches(f, pid, v):
    if f.get('status') != 'known' or f['property'] != pid:
        return False
    if f.get('entry') and f['entry'] != v['entry']:
        return False
    if f.get('kind') and f['kind'] != v['kind']:
        return False
    if f.get('msg') and f['msg'] not in v['msg']:
        return False
    if f.get('where') and f['where'] not in v['where']:
        return False
    if f.get('inputs'):
        got = {i['n']: i['v'] for i in v['inputs']}
        for k, pat in f['inputs'].items():
            if k not in got or not re.fullmatch(pat, got[k]):
                return False
    return True

def show_inputs(inputs):
    r = []
    for i in inputs:
        if i['k'] == 'b':
            r.append('%s=%r' % (i['n'], bytes.fromhex(i['v'])))
        else:
            r.append('%s=%s' % (i['n'], i['v']))
    return ', '.join(r)

def run_part(c, tier, eng, wd, budget):
    """one harness file of a check"""
    t0 = time.time()
    nat = 'tsan' if c['mode'] == 'threads' else 'asan'
    bins = build(c, tier, wd, {'bc', nat})
    tb = time.time() - t0
    preempt = c['preempt'] = (c['tpreempt'] if tier == 'thorough' else '') or c['preempt']
    cmd = [eng, bins['bc'], '-o', os.path.join(wd, 'o'), '-j', str(JOBS), '-t', str(budget), '-s', c['steps'], '-p', preempt, '-z', c['z3ms']]
    for e in c['entries']:
        cmd += ['-e', e]
    t1 = time.time()
    r = sh(cmd)
    te = time.time() - t1
    recs = []
    for f in sorted(os.listdir(wd)):
        if f.startswith('o.') and f.endswith('.jsonl'):
            for l in open(os.path.join(wd, f), errors='replace'):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    recs.append({'t': 'incomplete', 'entry': '', 'msg': 'truncated engine output', 'where': ''})
    if r.returncode:
        v = [x for x in recs if x['t'] == 'violation']
        for x in v:                                        # failure before any entry point: reproduced by running any of them
            if x['entry'].startswith('init:'):
                x['entry'], x['msg'] = c['entries'][0], 'while initialising (%s): %s' % (x['entry'][5:], x['msg'])
        if not v or r.returncode not in (1, 9):
            raise CheckError('engine exit %s: %s %s' % (r.returncode, r.stderr[-2000:], json.dumps(v[:2])))
    return dict(bins=bins, recs=recs, tb=tb, te=te, stderr=r.stderr)

def sample_paths(paths, per_entry=10):
    by = collections.defaultdict(list)
    for p in paths:
        by[p['entry']].append(p)
    out = []
    for e in sorted(by):
        l = by[e]
        step = max(1, len(l) // per_entry)
        out += l[::step][:per_entry]
    return out

def main():
    if sys.argv[1] == '--setup':
        os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
        print(ensure_engine(print))
        return 0
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    checks = load_checks()
    parts = checks[pid]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    base = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        return run(pid, parts, tier, seed, base, t0)
    except CheckError as e:
        print('ERROR property=%s %s' % (pid, e))
        return 2
    finally:
        shutil.rmtree(base, ignore_errors=True)

def run(pid, parts, tier, seed, base, t0):
    eng = ensure_engine(print)
    findings = load_findings()
    tot = collections.Counter()
    fns, covers, wanted = set(), set(), set()
    viol, known, unconf, incompl = [], [], [], []
    samples, validated, mism, done_entries = [], 0, [], set()
    z3max = z3time = 0.0
    total_t = sum(float(c['qt' if tier == 'quick' else 'tt']) for c in parts)
    for pi, c in enumerate(parts):
        wd = os.path.join(base, 'p%d' % pi)
        os.makedirs(wd)
        budget = float(c['qt' if tier == 'quick' else 'tt'])
        if tier == 'thorough':
            budget = budget / len(parts)
        else:
            budget = max(60.0, min(budget, 720 - (time.time() - t0)))
        res = run_part(c, tier, eng, wd, budget)
        recs = res['recs']
        allv = [x for x in recs if x['t'] == 'violation']
        # at most 3 candidates per (entry, kind, msg)
        cnt = collections.Counter()
        cand = []
        for v in allv:
            k = (v['entry'], v['kind'], v['msg'], v['where'].split(':')[0])
            cnt[k] += 1
            if cnt[k] <= 3:
                cand.append(v)
        nconf = 0
        for n, v in enumerate(cand):
            if any(matches(f, pid, v) for f in findings):
                f = [f for f in findings if matches(f, pid, v)][0]
                known.append((f, v))
                continue
            if nconf >= 3:
                continue
            ok, how = confirm(v, res['bins'], c, tier, wd, n)
            v['replay'] = how
            v['file'] = c['file']
            if ok:
                viol.append(v); nconf += 1
            elif v['kind'] == 'hang' and how == 'native exit 0':      # it does end, past the bound on the steps of a path
                incompl.append({'entry': v['entry'], 'msg': 'step bound reached, ' + show_inputs(v['inputs']), 'where': v['where']})
            else:
                unconf.append(v)
        st = [x for x in recs if x['t'] == 'stats']
        for s in st:
            for k in ('paths', 'instrs', 'forks', 'errors', 'infeasible', 'branches', 'symbranches', 'checks', 'schedpoints', 'queries', 'fast', 'modelhits', 'cachehits', 'z3calls', 'z3sat', 'z3unsat', 'z3unknown', 'asserts', 'assertsz3'):
                tot[k] += s[k]
            z3time += s['z3time']; z3max = max(z3max, s['z3max'])
            fns.update(s['functions']); covers.update(s['covers']); wanted.update(s['wanted'])
        tot['worker_processes'] += len(st)
        incompl += [x for x in recs if x['t'] == 'incomplete']
        # validate sampled path models against the native build
        paths = [x for x in recs if x['t'] == 'path']
        done_entries.update(p['entry'] for p in paths)
        sel = sample_paths(paths, 12 if tier == 'quick' else 40)
        nat = 'tsan' if c['mode'] == 'threads' else 'asan'
        def val(iv):
            i, p = iv
            return p, run_native(res['bins'][nat], p['entry'], p['inputs'], wd, 's%d' % i, 60)
        with ThreadPoolExecutor(JOBS) as ex:
            for p, (rc, o, e) in ex.map(val, list(enumerate(sel))):
                want = ''.join('%s %s\n' % (a, b) for a, b in p['obs'])
                if rc == 0 and (o == want or c['mode'] == 'threads'):
                    validated += 1
                else:
                    mism.append({'entry': p['entry'], 'inputs': show_inputs(p['inputs']), 'native': str(rc), 'stderr': e[:400], 'obs_native': o[:400], 'obs_model': want[:400], 'raw': p})
        for p in sel[:4]:
            samples.append({'entry': p['entry'], 'inputs': show_inputs(p['inputs']), 'observed': [[a, b] for a, b in p['obs']][:6], 'steps': p['steps']})
        c['_times'] = (res['tb'], res['te'])
    missing = sorted(w for w in wanted if w not in covers)
    wall = time.time() - t0
    dem = sh(['c++filt'] + sorted(f for f in fns if not f.startswith('prop_'))).stdout.split('\n') if fns else []
    ours = [d for d in dem if 'reflect::' in d.split('(')[0] or d.startswith('reflect')]
    time_out = [x for x in incompl if 'time budget' in x['msg']]
    hard_inc = [x for x in incompl if 'time budget' not in x['msg']]
    exhaustive = not incompl and not viol
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': len(viol),
        'coverage': {
            'states': tot['paths'] + tot['forks'], 'transitions': tot['instrs'], 'traces_validated_against_impl': validated,
            'samples': samples[:12],
            'exhaustive': exhaustive,
            'completed_paths': tot['paths'], 'infeasible_paths': tot['infeasible'], 'forks': tot['forks'],
            'branches': tot['branches'], 'symbolic_branches': tot['symbranches'], 'scheduling_points': tot['schedpoints'],
            'assertions_evaluated': tot['checks'], 'assertions_with_symbolic_condition': tot['assertsz3'],
            'solver': {'feasibility_queries': tot['queries'], 'decided_by_byte_domain': tot['fast'], 'decided_by_known_model': tot['modelhits'],
                       'cache_hits': tot['cachehits'], 'z3_calls': tot['z3calls'], 'z3_sat': tot['z3sat'], 'z3_unsat': tot['z3unsat'], 'z3_unknown': tot['z3unknown'],
                       'z3_seconds': round(z3time, 3), 'z3_longest_query_seconds': round(z3max, 3)},
            'functions_encoded_total': len(fns), 'functions_encoded_of_reflect': len(ours), 'functions_encoded': ours[:400],
            'reachability_witnesses': sorted(covers), 'reachability_missing': missing,
            'entries': sorted({e for c in parts for e in c['entries']}),
            'bounds': [{'harness': c['file'], 'defines': c[tier], 'max_steps_per_path': c['steps'], 'preemptions': c['preempt'] if c['mode'] == 'threads' else None, 'doc': bounds_doc(c)} for c in parts],
            'build_s': [round(c['_times'][0], 2) for c in parts], 'explore_s': [round(c['_times'][1], 2) for c in parts],
            'mismatches': mism[:5], 'incomplete': [x['msg'] + ' @ ' + x['where'][:200] for x in incompl][:10],
            'known_findings_seen': sorted({f['id'] for f, v in known}),
        },
        'assumptions': [
            'library code executed from clang-18 -O1 LLVM bitcode of the current /repo sources, x86-64',
            'C library, std exception classes, hash function, red-black tree primitives and iostreams replaced by the models in runtime/ (validated by native replay of sampled paths)',
            'allocation never fails', 'bounds as listed; inputs outside them are not covered'],
    }
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for f in sorted({f['id']: f for f, v in known}.values(), key=lambda f: f['id']):
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    print('%s %s: %d paths, %d forks, %d instructions, %d checks, %d z3 calls (%.1fs), %d native replays, build %.1fs explore %.1fs, wall %.1fs' % (
        pid, tier, tot['paths'], tot['forks'], tot['instrs'], tot['checks'], tot['z3calls'], z3time, validated,
        sum(c['_times'][0] for c in parts), sum(c['_times'][1] for c in parts), wall))
    if viol:
        for n, v in enumerate(viol[:6]):
            rp = os.path.join(VERIF, 'evidence', '%s.replay%d.json' % (pid, n))
            json.dump({'property': pid, 'tier': tier, 'violation': v}, open(rp, 'w'), indent=1)
            print('  %s: [%s] %s\n    inputs: %s\n    at: %s\n    native: %s' % (v['entry'], v['kind'], v['msg'], show_inputs(v['inputs']), v['where'][:300], v['replay'][:200]))
            if n == 0:
                first = rp
        print('VIOLATION property=%s replay=%s' % (pid, first))
        return 1
    bad = False
    for v in unconf[:5]:
        print('UNCONFIRMED counterexample (not reproduced natively): %s [%s] %s | %s | %s | %s' % (v['entry'], v['kind'], v['msg'], show_inputs(v['inputs']), v['where'][:300], v.get('replay')))
        bad = True
    for m in mism[:5]:
        # the solver found no violation on this path but the real code fails on its inputs: that is a concrete counterexample too
        if m['native'] not in ('0', '77', '78', '79'):
            rp = os.path.join(VERIF, 'evidence', '%s.replay0.json' % pid)
            json.dump({'property': pid, 'tier': tier, 'violation': {'entry': m['entry'], 'kind': 'native', 'msg': m['stderr'], 'inputs': m['raw']['inputs'], 'file': parts[0]['file']}}, open(rp, 'w'), indent=1)
            print('  %s: native run of a model from the solver fails: %s %s' % (m['entry'], m['native'], m['stderr']))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        print('MODEL MISMATCH: %s' % json.dumps({k: m[k] for k in m if k != 'raw'}))
        bad = True
    # what couldn't be explored is reported, here and in the evidence ("exhaustive"), but isn't an alarm as long as every
    # entry point was explored and every required behaviour was reached
    strict = os.environ.get('VERIF_STRICT') == '1'
    explored = {p for p in done_entries}
    for x in hard_inc[:5]:
        print('INCOMPLETE: %s %s @ %s' % (x['entry'], x['msg'], x['where'][:300]))
    if hard_inc and (strict or missing or any(e not in explored for c in parts for e in c['entries'])):
        bad = True
    if time_out:
        print('TIME BUDGET reached before the bounded space was exhausted')
        if strict and tier == 'quick':
            bad = True
    if tot['paths'] == 0:
        print('no path completed'); bad = True
    if missing and not incompl and not bad:
        rp = os.path.join(VERIF, 'evidence', '%s.replay0.json' % pid)
        json.dump({'property': pid, 'tier': tier, 'violation': {'kind': 'unreachable', 'msg': missing}}, open(rp, 'w'), indent=1)
        print('  required behaviour unreachable for every input within the bounds: %s' % ', '.join(missing))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 2 if bad else 0

def bounds_doc(c):
    r = []
    for line in open(os.path.join(VERIF, 'harness', c['file'])):
        m = re.match(r'//\s*@bounds\s+(\S+)\s+(.*)', line)
        if m and m.group(1) in (c['id'], '*'):
            r.append(m.group(2).strip())
    return ' '.join(r)

def replay(path):
    d = json.load(open(path))
    v = d['violation']
    if v['kind'] == 'unreachable':
        print('no input to replay: ' + str(v['msg'])); return 1
    for c in load_checks()[d['property']]:
        if c['file'] == v.get('file'):
            wd = tempfile.mkdtemp(prefix='verif_replay_')
            try:
                bins = {}
                ok, how = confirm(v, bins, c, d['tier'], wd, 0)
                print(how); print('reproduced' if ok else 'not reproduced')
                return 1 if ok else 0
            finally:
                shutil.rmtree(wd, ignore_errors=True)
    return 2

if __name__ == '__main__':
    sys.exit(main())
