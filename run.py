#!/usr/bin/env python3
"""Driver of the solver-based checks.

  run.py setup                      build the engine
  run.py check ID [--tier T] [--only ENTRY]   decide one property on /repo's working tree
  run.py replay FILE                replay a reported counterexample natively

Exit status of check: 0 held on everything explored, 1 violation (with a
VIOLATION line), 2 no answer (build failure, engine error, time out,
counterexample that does not reproduce).
"""
import sys, os, re, json, subprocess, time, hashlib, shutil, glob, concurrent.futures as cf, tempfile
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
JOBS = os.cpu_count() or 4
CLANG = 'clang++'
INC = ['-I' + os.path.join(V, 'harness'), '-I' + os.path.join(REPO, 'include')]
GUARD = '/opt/vp/cmake/guard'
if os.path.isdir(GUARD): INC += ['-isystem', GUARD]
COMMON = ['-std=c++17', '-DNDEBUG', '-g1', '-Wno-everything']
BC = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-builtin-memcmp', '-emit-llvm', '-c', '-DSX_ENGINE']
PREEMPT = {'quick': '1', 'thorough': '2'}   # bound on preemptions in the threaded harnesses
WRAP = ['-Wl,--wrap=pthread_mutex_lock', '-Wl,--wrap=pthread_mutex_unlock', '-pthread']
TSAN = ['-O1', '-fsanitize=thread', '-fno-omit-frame-pointer', '-c']
SAN = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,alignment', '-fno-omit-frame-pointer', '-c']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def engine():
    exe = os.path.join(BUILD, 'symex')
    srcs = glob.glob(os.path.join(V, 'engine', '*'))
    h = hashlib.sha256()
    for s in sorted(srcs): h.update(open(s, 'rb').read())
    stamp = exe + '.sha'
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest(): return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    r = sh(['g++', '-std=c++17', '-O2', '-fno-rtti', '-w', '-isystem', '/usr/lib/llvm-18/include',
            os.path.join(V, 'engine', 'symex.cpp'), '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3'])
    if r.returncode: print(r.stdout); sys.exit(2)
    os.rename(tmp, exe); open(stamp, 'w').write(h.hexdigest())
    return exe

def sources(pid): return sorted(glob.glob(os.path.join(V, 'harness', pid + '*.cpp')))

def text_of(src):
    # the harness with its property-specific includes (C10.h and the like)
    t = open(src).read()
    for m in re.findall(r'^#include "(C\d\d\w*\.(?:h|cpp))"', t, re.M): t += text_of(os.path.join(V, 'harness', m))
    return t

def entries_of(src, tier):
    # a source that runs another one's entries in another mode may select them
    t = text_of(src); r = []; pick = []
    for m in re.finditer(r'^// SX-ONLY(-THOROUGH)?: (.*)$', open(src).read(), re.M):
        if not m.group(1) or tier == 'thorough': pick += m.group(2).split()
    for m in re.finditer(r'^SX_ENTRY(_THOROUGH|_QUICK)?\((\w+)\)', t, re.M):
        if pick:
            if m.group(2) in pick: r.append(m.group(2))
            continue
        if m.group(1) == '_THOROUGH' and tier != 'thorough': continue
        if m.group(1) == '_QUICK' and tier != 'quick': continue
        r.append(m.group(2))
    return r

def main_check(pid, tier, only):
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    exe = engine()
    work = tempfile.mkdtemp(prefix='sx_%s_' % pid)
    try: return run_check(pid, tier, only, t0, seed, exe, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def run_check(pid, tier, only, t0, seed, exe, work):
    srcs = sources(pid)
    if not srcs: print('no harness for', pid); return 2
    defs = ['-DSX_THOROUGH=%d' % (tier == 'thorough'), '-DSX_PREEMPT=' + PREEMPT[tier]]
    def build(job):
        kind, src = job; b = os.path.basename(src)[:-4]
        extra = re.findall(r'^// SX-FLAGS: (.*)$', open(src).read(), re.M)
        fl = COMMON + [x for e in extra for x in e.split()] + defs + INC
        if kind == 'bc': o = os.path.join(work, b + '.bc'); c = [CLANG] + fl + BC + [src, '-o', o]
        elif kind == 'tsan': o = os.path.join(work, b + '.tsan.o'); c = [CLANG] + fl + (['-O1', '-c'] if src == NAT else TSAN) + [src, '-o', o]
        else: o = os.path.join(work, b + '.o'); c = [CLANG] + fl + SAN + [src, '-o', o]
        return job, o, sh(c)
    # the IR is built first; the native replayers are built while the engine runs
    NAT = os.path.join(V, 'harness', 'sx_native.cpp'); pool = cf.ThreadPoolExecutor(JOBS)
    fut = {j: pool.submit(build, j) for j in [('bc', s) for s in srcs] + [('nat', NAT)] + [('nat', s) for s in srcs]}
    def built(job):
        _, o, r = fut[job].result()
        if r.returncode: raise BuildFailed('%s\n%s' % (job, r.stdout[-6000:]))
        return o
    nat = {}
    def native(s):
        if s not in nat:
            p = os.path.join(work, os.path.basename(s)[:-4] + '.nat')
            r = sh([CLANG, '-fsanitize=address,undefined', '-rdynamic', built(('nat', s)), built(('nat', NAT)), '-o', p, '-ldl'] + WRAP)
            if r.returncode: raise BuildFailed('link\n' + r.stdout[-4000:])
            nat[s] = p
        return nat[s]
    def tsan(s):   # the same replayer under ThreadSanitizer, for harnesses with threads
        if 'sx_spawn(' not in text_of(s): return None
        if ('tsan', s) not in nat:
            p = os.path.join(work, os.path.basename(s)[:-4] + '.tsan'); obj = []
            for j in (('tsan', s), ('tsan', NAT)):
                _, o, r = build(j); obj.append(o)
                if r.returncode: raise BuildFailed('%s\n%s' % (j, r.stdout[-6000:]))
            r = sh([CLANG, '-fsanitize=thread', '-rdynamic'] + obj + ['-o', p, '-ldl'] + WRAP)
            if r.returncode: raise BuildFailed('link\n' + r.stdout[-4000:])
            nat['tsan', s] = p
        return nat['tsan', s]
    try: return explore(pid, tier, only, t0, seed, exe, work, srcs, built, native, tsan)
    except BuildFailed as e: print('BUILD FAILED: %s' % e); return 2
    finally: pool.shutdown(cancel_futures=True)

class BuildFailed(Exception): pass

def explore(pid, tier, only, t0, seed, exe, work, srcs, built, native, tsan):
    for s in srcs: built(('bc', s))
    tbuild = time.time() - t0
    known = load_known(pid)
    limit = float(os.environ.get('SX_TIMEOUT', '700' if tier == 'quick' else '6000'))
    tot = dict(cache_hits=0, queries=0, sat=0, unsat=0, secs=0.0, paths=0, infeasible=0, forks=0, branches=0, checks=0, checks_solver=0, steps=0, validated=0)
    funcs = {}; per = []; samples = []; errors = []; viol = []; knownhit = set(); maxinputs = 0
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:alloc_dealloc_mismatch=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=98', TSAN_OPTIONS='halt_on_error=1:exitcode=97')
    for s in srcs:
        ents = [e for e in entries_of(s, tier) if not only or e in only]
        if not ents: continue
        res = os.path.join(work, os.path.basename(s) + '.json')
        left = limit - (time.time() - t0)
        r = sh([exe, built(('bc', s)), '--entry', ','.join(ents), '--jobs', str(JOBS), '--timeout', '%.0f' % max(5, left), '--seed', str(seed), '--samples', '6', '--preempt', PREEMPT[tier], '--out', res])
        if r.returncode or not os.path.exists(res): errors.append('engine: ' + r.stdout[-2000:]); continue
        d = json.load(open(res))
        for e in set(d['errors']): errors.append('%s: %s' % (os.path.basename(s), e))
        if d['timed_out']: errors.append('%s: time limit reached, exploration incomplete' % os.path.basename(s))
        for w in d['workers']:
            for k in ('queries', 'cache_hits', 'sat', 'unsat', 'secs'): tot[k] += w[k]
            if w['unknown']: errors.append('solver returned unknown')
            for n, cov in w['functions']: funcs[n] = cov if n not in funcs else ''.join('1' if a == '1' or b == '1' else '0' for a, b in zip(cov, funcs[n]))
        reached = {}
        for i, e in enumerate(d['entries']):
            row = {'entry': e}
            for k in ('paths', 'infeasible', 'forks', 'branches', 'checks', 'checks_solver', 'steps'):
                row[k] = sum(w['entries'][i][k] for w in d['workers']); tot[k] += row[k]
            row['symbolic_inputs'] = max([w['entries'][i]['inputs'] for w in d['workers']] or [0]); maxinputs = max(maxinputs, row['symbolic_inputs'])
            rc = {}
            for w in d['workers']:
                for l, n in w['entries'][i]['reach'].items(): rc[l] = rc.get(l, 0) + n; reached[l] = reached.get(l, 0) + n
            row['reached'] = rc; per.append(row)
        # replay of completed paths: the engine's observations against the real code
        batch = []; 
        for i, e in enumerate(d['entries']):
            sm = [x for w in d['workers'] for x in w['entries'][i]['samples']]
            sm.sort(key=lambda x: x['digest']); keep = sm[:24]
            batch += [(e, x) for x in keep]
            if keep: samples.append({'entry': e, 'inputs': keep[0]['in'], 'observations': keep[0]['nobs'], 'digest': keep[0]['digest']})
        if batch:
            inp = ''.join('%s %s\n' % (e, ' '.join(map(str, x['in']))) for e, x in batch)
            r = sh([native(s), 'batch'], input=inp, env=env, timeout=300)
            lines = [l for l in r.stdout.splitlines() if re.match(r'^[0-9a-f]+ \d+$', l)]
            for j, (e, x) in enumerate(batch):
                if j >= len(lines) or lines[j] != '%s %d' % (x['digest'], x['nobs']):
                    errors.append('engine/native mismatch on %s inputs=%s: native %r' % (e, x['in'], r.stdout.splitlines()[j:j+3] if j < len(r.stdout.splitlines()) else r.stdout[-300:])); break
                tot['validated'] += 1
        for v in d['violations']:
            if any(k['entry'] == v['entry'] and k['label'] == v['label'] for k in known): knownhit.add((v['entry'], v['label'])); continue
            viol.append((s, v))
        if not d['violations'] and not d['errors'] and not d['timed_out'] and not only:
            want = set(re.findall(r'sx_reach\("([^"]+)"\)', text_of(s))) if '// SX-ONLY' not in open(s).read() else set()
            for l in sorted(want - set(reached)): errors.append('%s: witness "%s" never reached (vacuous)' % (os.path.basename(s), l))
            for row in per:
                if row['entry'] in ents and not row['paths']: errors.append('entry %s has no complete path' % row['entry'])
    if not per: errors.append('nothing explored')
    # confirm violations against the real code
    confirmed = []; unconf = []; seen = set()
    tc = time.time()
    for s, v in viol:
        if confirmed and (len(confirmed) >= 10 or time.time() - tc > 100): break   # enough to report
        key = (v['entry'], v['label'])
        if key in seen: continue
        ok, how = replay_native(native(s), v, env)
        if not ok and v['label'] == 'data-race' and tsan(s): ok, how = replay_native(tsan(s), v, env)
        if not ok: unconf.append((s, v, how)); continue
        seen.add(key); confirmed.append((s, v, how))
    unconf = [(s, v, how) for s, v, how in unconf if (v['entry'], v['label']) not in seen]
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    for i, (s, v, how) in enumerate(confirmed):
        rp = os.path.join(V, 'replays', '%s_%s_%d.json' % (pid, v['entry'], i))
        json.dump({'property': pid, 'harness': os.path.relpath(s, V), 'entry': v['entry'], 'label': v['label'], 'detail': v['detail'], 'inputs': v['inputs'], 'stack': v['stack'], 'native': how, 'tier': tier}, open(rp, 'w'), indent=1)
        if i < 10:
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            print('  %s / %s %s inputs=%s\n  native: %s' % (v['entry'], v['label'], v['detail'], v['inputs'], how.strip().splitlines()[0] if how.strip() else '(signal)'))
            for f in v['stack'][:4]: print('    ' + f[:200])
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for s, v, how in unconf[:5]: print('NOT CONFIRMED by native replay: %s %s %s inputs=%s -> %s\n   %s' % (v['entry'], v['label'], v['detail'], v['inputs'], how[-300:], '\n   '.join(x[:160] for x in v['stack'][:5])))
    for e in errors[:20]: print('ERROR: ' + e)
    wall = time.time() - t0
    allb = sum(len(c) for c in funcs.values()); covb = sum(c.count('1') for c in funcs.values())
    names = sorted(funcs)
    short = sorted({re.sub(r'<.*', '', n) for n in demangle(names)})
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': len(confirmed),
          'coverage': {'states': tot['forks'] + tot['paths'], 'transitions': tot['steps'], 'traces_validated_against_impl': tot['validated'], 'samples': samples[:8],
            'paths_completed': tot['paths'], 'paths_infeasible': tot['infeasible'], 'symbolic_branches_decided': tot['branches'],
            'assertions_evaluated': tot['checks'], 'assertions_with_symbolic_condition': tot['checks_solver'],
            'solver_queries': tot['queries'], 'queries_answered_from_cache': tot['cache_hits'], 'solver_sat': tot['sat'], 'solver_unsat': tot['unsat'], 'solver_seconds': round(tot['secs'], 2), 'solver': 'Z3 (libz3), QF_BV',
            'functions_encoded': len(funcs), 'function_names': short[:80], 'basic_blocks_executed': covb, 'basic_blocks_total_in_those': allb,
            'entries': per, 'exhaustive_within_bounds': not errors and not confirmed, 'build_seconds': round(tbuild, 2),
            'bounds': bounds_of(srcs), 'explanation': 'states = symbolic states created (forks + completed paths); transitions = IR instructions interpreted'},
          'assumptions': assumptions_of(srcs)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    if os.environ.get('SX_COV'): json.dump(funcs, open(os.environ['SX_COV'], 'w'))
    print('%s %s: paths=%d forks=%d queries=%d+%d cached (%.1fs solver) checks=%d/%d validated=%d functions=%d build=%.1fs wall=%.1fs%s' % (pid, tier, tot['paths'], tot['forks'], tot['queries'], tot['cache_hits'], tot['secs'], tot['checks_solver'], tot['checks'], tot['validated'], len(funcs), tbuild, wall, '' if not errors else ' INCOMPLETE'))
    if os.environ.get('SX_VERBOSE'):
        for row in per: print('  ', row)
    if confirmed: return 1
    if unconf or errors: return 2
    return 0

def demangle(names):
    if not names: return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return [re.sub(r'^.*? (boost::)', r'\1', l) if ' boost::' in l.split('(')[0] and not l.startswith('boost::') else l for l in r.stdout.splitlines()]

def bounds_of(srcs): return [m for s in srcs for m in re.findall(r'^// BOUND: (.*)$', open(s).read(), re.M)]
def assumptions_of(srcs):
    return ['LLVM IR of clang 18 -O1 stands for the code; pointers are concrete, addresses ascending per allocation', 'libstdc++ out-of-line functions, operator new/delete and the C++ exception runtime are modelled by the engine', 'checks are exhaustive only within the stated bounds'] + [m for s in srcs for m in re.findall(r'^// ASSUME: (.*)$', open(s).read(), re.M)]

def load_known(pid):
    p = os.path.join(V, 'known_findings.jsonl'); r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'): continue
            k = json.loads(l)
            if k.get('property') == pid and k.get('status') != 'fixed': r.append(k)
    return r

def replay_native(exe, v, env):
    try: r = sh([exe, 'replay', v['entry']] + [str(x) for x in v['inputs']], env=env, timeout=90)
    except subprocess.TimeoutExpired: return v['label'] in ('non-termination',), 'native run timed out'
    o = r.stdout
    if r.returncode in (3, 4, 5): return False, 'exit %d: %s' % (r.returncode, o[-400:])
    if r.returncode != 0:
        m = re.search(r'^(CHECK-FAILED.*|.*ERROR: AddressSanitizer.*|.*WARNING: ThreadSanitizer.*|.*runtime error.*)$', o, re.M)
        return True, (m.group(1) if m else 'exit status %d' % r.returncode)
    if v['label'] == 'uninitialised-value' and shutil.which('valgrind'): pass
    return False, 'completed normally: ' + o[-200:]

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == 'setup': engine(); print('engine built'); return 0
    if a[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick'); only = []
        i = 2
        while i < len(a):
            if a[i] == '--tier': tier = a[i+1]; i += 2
            elif a[i] == '--only': only = a[i+1].split(','); i += 2
            else: print('bad argument', a[i]); return 2
        return main_check(a[1], tier, only)
    if a[0] == 'replay':
        d = json.load(open(a[1])); src = os.path.join(V, d['harness']); w = tempfile.mkdtemp(prefix='sxr_')
        extra = re.findall(r'^// SX-FLAGS: (.*)$', open(src).read(), re.M)
        r = sh([CLANG] + COMMON + [x for e in extra for x in e.split()] + ['-DSX_THOROUGH=%d' % (d['tier'] == 'thorough')] + ['-DSX_PREEMPT=' + PREEMPT[d['tier']]] + INC + (['-O1', '-fsanitize=thread'] if d['label'] == 'data-race' else [x for x in SAN if x != '-c']) + WRAP + ['-rdynamic', src, os.path.join(V, 'harness', 'sx_native.cpp'), '-o', w + '/r', '-ldl'])
        if r.returncode: print(r.stdout); return 2
        r = sh([w + '/r', 'replay', d['entry']] + [str(x) for x in d['inputs']], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', TSAN_OPTIONS='halt_on_error=1:exitcode=97')); print(r.stdout); shutil.rmtree(w); return r.returncode
    return 2
if __name__ == '__main__': sys.exit(main())
