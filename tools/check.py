#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--entry NAME] [--keep] [-v]

Rebuilds the encoding of the property's harnesses from /repo's current sources,
explores every path with the symbolic executor, replays what it finds on a
native build of the same sources, writes evidence/<property>.json."""
import sys, os, re, json, hashlib, subprocess, time, glob, shutil, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
B = V + '/build'
sys.path.insert(0, V + '/tools')
import config
T0 = time.time()
NCPU = os.cpu_count() or 8

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def die(msg):
    print('INCONCLUSIVE:', msg); sys.stdout.flush(); sys.exit(2)

def build_engine():
    srcs = [V + '/engine/' + f for f in ('engine.cc', 'expr.h', 'solver.h', 'Makefile')]
    h = hashlib.sha1(b''.join(open(s, 'rb').read() for s in srcs)).hexdigest()[:16]
    exe = '%s/engine-%s' % (B, h)
    os.makedirs(B, exist_ok=True)
    with open(B + '/engine.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            d = tempfile.mkdtemp(dir=B)
            r = sh(['make', '-C', V + '/engine', 'OUT=' + d])
            if r.returncode: die('engine build failed:\n' + r.stdout[-3000:])
            os.rename(d + '/engine', exe); shutil.rmtree(d)
    return exe

_hdr = None
def hdr_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha1()
        for f in sorted(glob.glob(REPO + '/scribbu/*.hh') + glob.glob(REPO + '/src/*.hh') + glob.glob(REPO + '/scribbu/*.ll') + glob.glob(REPO + '/scribbu/*.yy') + glob.glob(V + '/model/*.h*') + glob.glob(V + '/model/include/**/*', recursive=True) + glob.glob(V + '/model/shadow/**/*', recursive=True) + glob.glob(V + '/harness/*.h*')):
            if os.path.isfile(f): h.update(f.encode()); h.update(open(f, 'rb').read())
        _hdr = h.hexdigest()
    return _hdr

INC = ['-I' + V + '/model', '-I' + V + '/harness', '-I' + V + '/model/include', '-I' + REPO, '-I' + REPO + '/scribbu', '-I' + REPO + '/src', '-I/usr/include/guile/3.0']

def gen_dir():
    """flex/bison output for the template language, from the current grammar"""
    srcs = [REPO + '/scribbu/tbt-lexer.ll', REPO + '/scribbu/tbt-parser.yy']
    h = hashlib.sha1(b''.join(open(s, 'rb').read() for s in srcs)).hexdigest()[:16]
    d = '%s/gen-%s' % (B, h)
    if not os.path.exists(d + '/ok'):
        t = tempfile.mkdtemp(dir=B); os.makedirs(t + '/scribbu')
        for c in (['bison', '-o', t + '/scribbu/tbt-parser.cc', '--defines=' + t + '/scribbu/tbt-parser.hh', srcs[1]],
                  ['flex', '--header-file=' + t + '/scribbu/tbt-lexer.hh', '-o', t + '/scribbu/tbt-lexer.cc', srcs[0]]):
            r = sh(c, cwd=t)
            if r.returncode: die('cannot generate parser: ' + r.stdout[-2000:])
        for f in ('tbt-lexer.cc', 'tbt-lexer.hh'):      # %option outfile takes precedence over -o
            if os.path.exists(t + '/' + f): os.rename(t + '/' + f, t + '/scribbu/' + f)
        open(t + '/ok', 'w').close()
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t)
    return d

def goops_dir():
    """the classes scripts see, from the current Scheme module"""
    s = open(REPO + '/scheme/scribbu.scm', errors='replace').read(); h = hashlib.sha1(s.encode()).hexdigest()[:16]
    d = '%s/goops-%s' % (B, h)
    if os.path.exists(d + '/vp_goops.inc'): return d
    s = re.sub(r';[^\n]*', '', s)
    tok = re.findall(r'"(?:[^"\\]|\\.)*"|#vu8\(\)|\'\(\)|[()]|[^\s()"]+', s)
    def form(i):                    # tokens -> nested lists
        r = []
        while i < len(tok) and tok[i] != ')':
            if tok[i] == '(': x, i = form(i + 1)
            else: x = tok[i]
            r.append(x); i += 1
        return r, i
    out = []
    for m in [i for i, t in enumerate(tok) if t == 'define-class']:
        f, _ = form(m + 1); slots = []
        for sl in f[2:]:
            v = sl[sl.index('#:init-value') + 1] if '#:init-value' in sl else "'()"
            if v[0] == '"': k, v = 's', v[1:-1]
            elif v == '#vu8()': k = 'v'
            elif v in ('#t', '#f'): k = v[1]
            elif re.fullmatch(r'-?\d+', v): k = 'n'
            elif v[0] == "'" and v != "'()": k, v = 'y', v[1:]
            else: k = 'e'
            slots.append('{"%s", \'%s\', "%s"}' % (sl[0], k, v.replace('"', '')))
        out.append('{"%s", "%s", {%s}},' % (f[0], f[1][0] if f[1] else '', ', '.join(slots)))
    t = tempfile.mkdtemp(dir=B); open(t + '/vp_goops.inc', 'w').write('\n'.join(out) + '\n')
    try: os.rename(t, d)
    except OSError: shutil.rmtree(t)
    return d

def compile_unit(src, mode, extra, shadow):
    """mode: bc | native | nativez (stack zero-filled instead of pattern-filled)"""
    inc = list(INC)
    if b'tbt-' in open(src, 'rb').read() or '-DVP_TBT' in extra:
        inc += ['-I' + gen_dir(), '-I' + gen_dir() + '/scribbu']
    if src.endswith('shadow/guile.cc'): inc.append('-I' + goops_dir())
    if shadow: inc = ['-I' + V + '/model/shadow'] + inc
    base = ['clang++-18', '-std=c++20', '-w', '-gline-tables-only'] + extra + inc
    if mode == 'bc':
        cmd = base + ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-include', V + '/model/vp_pre.hh', '-emit-llvm', '-c']
        if src.startswith(V + '/model/'): cmd.insert(1, '-fno-builtin')
    else:
        cmd = base + ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=' + ('pattern' if mode == 'native' else 'zero'), '-DVP_NATIVE', '-c']
    if shadow: cmd[-1:-1] = ['-include', V + '/model/shadow/fstream']
    key = hashlib.sha1((' '.join(cmd) + hdr_hash()).encode() + open(src, 'rb').read()).hexdigest()[:20]
    os.makedirs(B + '/obj', exist_ok=True)
    out = '%s/obj/%s-%s.%s' % (B, os.path.basename(src).replace('.', '_'), key, 'bc' if mode == 'bc' else 'o')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        r = sh(cmd + [src, '-o', tmp])
        if r.returncode: return None, '%s\n%s' % (' '.join(cmd), r.stdout[-3000:])
        os.rename(tmp, out)
    return out, None

def unit_path(u):
    if u.startswith('gen:'): return gen_dir() + '/scribbu/' + u[4:] + '.cc'
    if u.startswith('src:'): return REPO + '/src/' + u[4:] + '.cc'
    return REPO + '/scribbu/' + u + '.cc'

def build(h, pool, native):
    """h: harness description; returns (bitcode module, {mode: exe})"""
    extra = h.get('defs', []); shadow = h.get('shadow', False)
    srcs = [V + '/harness/' + h['src']] + [unit_path(u) for u in h['units']]
    rt = [V + '/model/rt.cc', V + '/model/env.cc'] + [V + '/model/' + x for x in h.get('models', []) + (['shadow/vpfs.cc'] if shadow else [])]
    jobs = [pool.submit(compile_unit, s, 'bc', extra, shadow and not s.endswith('/rt.cc')) for s in srcs + rt]
    njobs = {}
    if native:
        for m in ('native',):
            njobs[m] = [pool.submit(compile_unit, s, m, extra, shadow) for s in srcs + [V + '/model/native.cc'] + [V + '/model/' + x for x in h.get('nmodels', []) + (['shadow/vpfs.cc'] if shadow else [])]]
    outs = []
    for j in jobs:
        o, e = j.result()
        if e: die('compilation failed:\n' + e)
        outs.append(o)
    key = hashlib.sha1(' '.join(outs + [x['fn'] for x in h['all_entries']]).encode()).hexdigest()[:20]
    mod = '%s/obj/mod-%s-%s.bc' % (B, h['src'].replace('.', '_'), key)
    if not os.path.exists(mod):
        t = mod + '.%d.tmp' % os.getpid()
        entries = ','.join(x['fn'] for x in h['all_entries'])
        # runtime model definitions take precedence over template instantiations
        r = sh(['llvm-link-18', '-o', t + '1'] + outs[len(srcs):] + outs[:len(srcs)])
        if r.returncode: die('link failed:\n' + r.stdout[-3000:])
        r = sh(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + entries, t + '1', '-o', t])
        if r.returncode: die('opt failed:\n' + r.stdout[-3000:])
        os.unlink(t + '1'); os.rename(t, mod)
    return mod, njobs

def link_native(h, njobs):
    exes = {}
    for m, js in njobs.items():
        objs = []
        for j in js:
            o, e = j.result()
            if e: die('native compilation failed:\n' + e)
            objs.append(o)
        key = hashlib.sha1(' '.join(objs).encode()).hexdigest()[:20]
        exe = '%s/obj/replay-%s-%s' % (B, h['src'].replace('.', '_'), key)
        if not os.path.exists(exe):
            t = exe + '.%d.tmp' % os.getpid()
            r = sh(['clang++-18', '-fsanitize=address', '-rdynamic', '-Wl,--unresolved-symbols=ignore-all', '-o', t] + objs + h.get('libs', ['-lz', '-lcrypto', '-ldl']))
            if r.returncode: die('native link failed:\n' + r.stdout[-3000:])
            os.rename(t, exe)
        exes[m] = exe
    return exes

def run_native(exe, fn, inputs, tmp, tag, fill=0xbe, timeout=20):
    p = '%s/%s.in' % (tmp, tag)
    with open(p, 'w') as f:
        for n, hx in inputs: f.write('%s %s\n' % (n, hx))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=71:allocator_may_return_null=1:max_malloc_fill_size=100000000:malloc_fill_byte=%d:detect_odr_violation=0' % fill, LC_ALL='C.UTF-8')
    try:
        r = subprocess.run([exe, fn, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=tmp)
        return r.returncode, r.stdout.decode('latin-1')
    except subprocess.TimeoutExpired:
        return 'timeout', ''

def explore(exe, mod, e, tier, tmp, jobs_fds):
    out = '%s/%s' % (tmp, e['name']); os.makedirs(out)
    to = e.get('timeout', 600 if tier == 'quick' else 3000)
    cmd = [exe, mod, '--entry=' + e['fn'], '--out=' + out, '--timeout=%d' % to, '--jobs=%d,%d' % jobs_fds] + e.get('opts', [])
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, pass_fds=jobs_fds, text=True, errors='replace')
    res = []
    for f in glob.glob(out + '/r-*.json'):
        try: res.append(json.load(open(f)))
        except Exception as x: return {'fatal': 'bad result file %s: %s' % (f, x), 'log': r.stdout}
    if r.returncode or not res or glob.glob(out + '/crash-*'): return {'fatal': 'engine exit %s' % r.returncode, 'log': r.stdout[-3000:]}
    a = {k: sum(x[k] for x in res) for k in ('queries', 'byte_decisions', 'sat', 'unsat', 'cache_hits', 'solver_time', 'instrs', 'paths', 'infeasible', 'forks', 'asserts')}
    a['depth'] = max(x['depth'] for x in res); a['procs'] = len(res)
    for k in ('covers', 'functions', 'incomplete', 'unmodelled'): a[k] = sorted(set(y for x in res for y in x[k]))
    if any(x['solver_error'] for x in res): a['incomplete'].append('solver reported an error')
    a['errors'] = [y for x in res for y in x['errors']]; a['tests'] = [y for x in res for y in x['tests']]
    a['wall'] = time.time() - t; a['log'] = r.stdout
    return a

def undef_differs(h, e, x, exes, pool, tmp):
    """uninitialised data: the same input gives different results with different memory contents"""
    outs = {}
    h2 = dict(h); srcs = [V + '/harness/' + h['src']] + [unit_path(u) for u in h['units']] + [V + '/model/native.cc'] + [V + '/model/' + y for y in h.get('nmodels', []) + (['shadow/vpfs.cc'] if h.get('shadow') else [])]
    if 'nativez' not in exes[h['src']]:
        exes[h['src']].update(link_native(h, {'nativez': [pool.submit(compile_unit, s, 'nativez', h.get('defs', []), h.get('shadow', False)) for s in srcs]}))
    for m in ('native', 'nativez'):
        for fill in (0xbe, 0x00, 0xff, 0x41):
            rc, o = run_native(exes[h['src']][m], e['fn'], x['inputs'], tmp, 'undef', fill)
            outs[(rc, '\n'.join(re.findall(r'^DEF .*', o, re.M)))] = (m, fill, o)
    if len(outs) > 1:
        return 'differs', 'results depend on uninitialised memory:\n' + '\n---\n'.join('%s fill %02x: exit %s\n%s' % (v[0], v[1], k[0], k[1]) for k, v in list(outs.items())[:3])
    return None

def known_findings(prop):
    kf = []
    p = V + '/KNOWN_FINDINGS'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)', l.strip())
            if m and m.group(1) == prop: kf.append((m.group(2), m.group(3)))
    return kf

def print_cex(desc, x, confirmed, last):
    print('CEX', desc)
    for l in x['stack'].split('\n'):
        m = re.match(r'(.*?) @ (.*)', l)
        if m: print('    %s @ %s' % (m.group(1)[:90], ' < '.join(re.sub(r'^/usr/.*/(?=[^/]+$)', '', y) for y in m.group(2).split(' < '))[-140:]))
    print('    inputs', ' '.join('%s=%s' % tuple(i) for i in x['inputs'])[:700])
    rc, o = confirmed or last or (None, '')
    e = re.findall(r'(?:ERROR: AddressSanitizer|VP|terminate|assert).*', o)
    print('    native: %s exit %s %s' % ('confirmed' if confirmed else 'NOT CONFIRMED', rc, (e[0] if e else o[-300:])[:300]))

def main():
    a = sys.argv[1:]; prop = a[0]
    if prop == '--setup': print('engine', build_engine()); return 0
    tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = '-v' in a; nonative = '--no-native' in a
    for i, x in enumerate(a):
        if x == '--tier': tier = a[i + 1]
        if x == '--entry': only = a[i + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    hs = config.harnesses(prop, tier)
    exe = build_engine()
    tmp = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=B)
    try: return run(prop, tier, seed, hs, exe, tmp, only, verbose, nonative)
    finally:
        if '--keep' not in a: shutil.rmtree(tmp, ignore_errors=True)

def run(prop, tier, seed, hs, exe, tmp, only, verbose, nonative):
    pool = ThreadPoolExecutor(NCPU)
    jr, jw = os.pipe(); 
    built = []
    for h in hs:
        h['all_entries'] = h['entries']
        if only: h['entries'] = [e for e in h['entries'] if re.fullmatch(only, e['name'])]
    hs = [h for h in hs if h['entries']]
    for h in hs: built.append((h,) + build(h, pool, not nonative))
    tb = time.time() - T0
    # every engine process holds one token while it works
    tasks = [(h, mod, e) for h, mod, nj in built for e in h['entries']]
    par = min(NCPU, len(tasks))
    for _ in range(NCPU - par): os.write(jw, b't')
    import queue, threading
    q = queue.Queue(); [q.put(t) for t in tasks]; results = []
    def worker():
        while True:
            try: h, mod, e = q.get_nowait()
            except queue.Empty: os.write(jw, b't'); return
            r = explore(exe, mod, e, tier, tmp, (jr, jw)); results.append((h, e, r))
            if verbose: print('  [%6.1fs] %-28s %s' % (time.time() - T0, e['name'], r.get('fatal') or 'paths=%d queries=%d solver=%.1fs errors=%d %s' % (r['paths'], r['queries'], r['solver_time'], len(r['errors']), r['incomplete'] or ''))); sys.stdout.flush()
    ths = [threading.Thread(target=worker) for _ in range(par)]
    [t.start() for t in ths]; [t.join() for t in ths]
    inconc = []; viol = []; known = []; unconfirmed = []
    exes = {}
    if not nonative:
        for h, mod, nj in built: exes[h['src']] = link_native(h, nj)
    covers_missing = []
    for h, mod, nj in built:
        if only: continue
        want = set(re.findall(r'vp_cover\("([^"]+)"\)', open(V + '/harness/' + h['src']).read())) - set(h.get('ignore_covers', []))
        got = set(c for hh, e, r in results if hh is h and not r.get('fatal') for c in r['covers'])
        covers_missing += ['%s:%s' % (h['src'], c) for c in sorted(want - got)]
    kf = known_findings(prop)
    validated = diverged = 0; samples = []; mismatch = []
    def replay_test(h, e, t, i):
        rc, o = run_native(exes[h['src']]['native'], e['fn'], t['inputs'], tmp, '%s-t%d' % (e['name'], i))
        if rc == 0 and 'DONE' in o:
            obs = re.findall(r'^OBS (.*) (\d+)$', o, re.M); exp = [(n, str(v)) for n, v in t['obs']]
            return 'ok' if obs == exp else 'mismatch: native %s, encoding %s' % ([x for x in obs if x not in exp][:3], [x for x in exp if x not in obs][:3])
        return 'exit %s: %s' % (rc, o[-800:])
    tj = []
    if not nonative:
        for h, e, r in results:
            if r.get('fatal'): continue
            lim = e.get('tests', 24 if tier == 'quick' else 60)
            for i, t in enumerate(r['tests'][:lim]): tj.append((e, t, pool.submit(replay_test, h, e, t, i)))
    for e, t, j in tj:
        s = j.result()
        if s == 'ok': validated += 1; (samples.append({'harness': e['name'], 'inputs': t['inputs'], 'observed': t['obs']}) if len(samples) < 4 else None)
        else: mismatch.append('%s: %s (inputs %s)' % (e['name'], s, t['inputs']))
    cex_n = 0
    for h, e, r in results:
        if r.get('fatal'): inconc.append('%s: %s %s' % (e['name'], r['fatal'], r.get('log', '')[-1500:])); continue
        for x in r['incomplete']: inconc.append('%s: %s' % (e['name'], x))
        for x in r['errors']:
            confirmed = None; 
            if not nonative:
                for fill in (0xbe, 0x00, 0xff, 0x01, 0x41):
                    rc, o = run_native(exes[h['src']]['native'], e['fn'], x['inputs'], tmp, 'cex%d' % cex_n, fill)
                    if rc not in (0, 76, 77, 97, 98, 99): confirmed = (rc, o); break
                if confirmed is None and x['kind'] == 'undef': confirmed = undef_differs(h, e, x, exes, pool, tmp)
            x['native'] = confirmed
            desc = '%s: %s: %s' % (e['name'], x['kind'], x['msg'])
            if verbose: print_cex(desc, x, confirmed, None if nonative else (rc, o))
            if confirmed is None: unconfirmed.append((desc, x)); continue
            full = desc + '\n' + x['stack'] + '\n' + confirmed[1]
            k = [d for pat, d in kf if re.search(pat, full, re.S)]
            if k: known.append(k[0]); continue
            d = '%s/evidence/%s-cex%d' % (V, prop, cex_n); cex_n += 1
            os.makedirs(d, exist_ok=True)
            with open(d + '/inputs', 'w') as f:
                for n, hx in x['inputs']: f.write('%s %s\n' % (n, hx))
            with open(d + '/report.txt', 'w') as f: f.write('%s\nentry: %s\n\nstack (innermost first):\n%s\nnative replay (exit %s):\n%s\n' % (desc, e['fn'], x['stack'], confirmed[0], confirmed[1][-6000:]))
            shutil.copy(exes[h['src']]['native'], d + '/replay.bin')
            with open(d + '/replay.sh', 'w') as f: f.write('#!/bin/sh\nexec "$(dirname "$0")/replay.bin" %s "$(dirname "$0")/inputs"\n' % e['fn'])
            os.chmod(d + '/replay.sh', 0o755)
            viol.append((desc, d))
    for d, x in unconfirmed: inconc.append('counterexample not reproduced natively: %s\n%s\n%s' % (d, x['stack'], x['inputs']))
    for c in covers_missing: inconc.append('vacuity guard: cover point not reached: ' + c)
    for m in mismatch: inconc.append('encoding and native build disagree: ' + m)
    # evidence
    ok = [r for _, _, r in results if not r.get('fatal')]
    tot = lambda k: sum(r[k] for r in ok)
    fns = sorted(set(f for r in ok for f in r['functions'] if 'scribbu::' in f and not f.startswith('std::') and not f.startswith('boost::') and not re.match(r'^(decltype|void std|bool std|void boost)', f)))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - T0, 2), 'violations': len(viol),
          'coverage': {'states': tot('paths'), 'transitions': tot('instrs'), 'traces_validated_against_impl': validated, 'samples': samples,
                       'solver_queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'query_cache_hits': tot('cache_hits'), 'single_byte_decisions': tot('byte_decisions'), 'solver_time_s': round(tot('solver_time'), 2),
                       'assertions_discharged': tot('asserts'), 'forks': tot('forks'), 'max_path_depth': max([r['depth'] for r in ok] or [0]),
                       'functions_encoded': fns, 'functions_encoded_count': len(fns),
                       'entries': [{'harness': e['name'], 'bounds': e.get('bounds', ''), 'paths': r['paths'], 'queries': r['queries'], 'assertions': r['asserts'], 'wall_s': round(r['wall'], 1), 'covers': r['covers']} for h, e, r in results if not r.get('fatal')],
                       'exhaustive': not inconc, 'explanation': 'states = completed symbolic paths, transitions = IR instructions interpreted, traces validated = path witnesses replayed on the native build with equal observations'},
          'assumptions': config.assumptions(prop)}
    os.makedirs(V + '/evidence', exist_ok=True)
    if not only:
        with open('%s/evidence/%s.json' % (V, prop), 'w') as f: json.dump(ev, f, indent=1)
    print('%s [%s]: %d harness entries, %d paths, %d queries (%.1fs solver), %d assertions, %d traces validated, %d scribbu functions encoded, build %.1fs, total %.1fs' % (prop, tier, len(ok), tot('paths'), tot('queries'), tot('solver_time'), tot('asserts'), validated, len(fns), tb, time.time() - T0))
    for d in sorted(set(known)): print('KNOWN-FINDING: property=%s %s' % (prop, d))
    for d, p in viol:
        print('  ' + d); print('VIOLATION property=%s replay=%s' % (prop, p + '/replay.sh'))
    sys.stdout.flush()
    if viol: return 1
    if inconc:
        for i in inconc[:12]: print('INCONCLUSIVE:', i)
        return 2
    return 0

if __name__ == '__main__': sys.exit(main())
