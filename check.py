#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its real code (engine/symx + z3).

usage: check.py <property-id> [--tier quick|thorough] [--unit NAME] [--keep]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (never counted as success)
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, concurrent.futures as cf, collections, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SV_REPO', '/repo')
sys.path.insert(0, HERE)
import props

CL = ['-std=c++11', '-DHAVE_PTHREADS', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
      '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-gline-tables-only', '-w', '-fno-builtin-printf', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
CACHE = os.path.join(HERE, 'build')

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class Fail(Exception):
    pass

def incs():
    return ['-I' + os.path.join(HERE, 'harness'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'rx'), '-I' + os.path.join(REPO, 'src')]

def must(cmd, what):
    r = run(cmd)
    if r.returncode:
        raise Fail('%s failed: %s\n%s' % (what, ' '.join(cmd), r.stdout[-3000:]))

def build_symbolic(u, tier, d):
    """The unit's harness and the repository sources it needs, to one IR module."""
    defs = ['-D%s=%s' % kv for kv in u['defs'].get(tier, {}).items()]
    opt = u.get('opt', '-O1')
    tsan = ['-fsanitize=thread'] if u.get('threads') else []
    objs = []
    jobs = []
    srcs = [os.path.join(HERE, 'harness', u['harness'])] + [os.path.join(REPO, s) for s in u['srcs']]
    for i, s in enumerate(srcs):
        o = os.path.join(d, 's%d.bc' % i)
        jobs.append((['clang++', opt] + CL + tsan + (defs if i == 0 else []) + incs() + ['-emit-llvm', '-c', s, '-o', o], 'clang ' + s))
        objs.append(o)
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(must, *j) for j in jobs]:
            f.result()
    rt = []
    for n, cc in (('stdcxx.cpp', ['clang++', '-O1', '-std=c++11', '-fno-exceptions', '-w']), ('rbtree.cpp', ['clang++', '-O1', '-std=c++11', '-fno-exceptions', '-w']), ('rt.c', ['clang', '-O1', '-fno-builtin', '-w'])):
        o = os.path.join(d, n + '.bc')
        must(cc + ['-emit-llvm', '-c', os.path.join(HERE, 'rt', n), '-o', o], 'clang ' + n)
        rt.append(o)
    out = os.path.join(d, 'all.bc')
    # library models only where the code under test does not define the function itself
    must(['llvm-link-18'] + objs + ['-o', os.path.join(d, 'code.bc')], 'llvm-link')
    must(['llvm-link-18', os.path.join(d, 'code.bc')] + ['--only-needed'] + rt + ['-o', out], 'llvm-link')
    return out

def build_native(u, tier, d):
    defs = ['-D%s=%s' % kv for kv in u['defs'].get(tier, {}).items()]
    srcs = [os.path.join(HERE, 'harness', u['harness'])] + [os.path.join(REPO, s) for s in u['srcs']]
    if u.get('threads'):
        cc = ['clang++', '-O1', '-fsanitize=thread', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops']
        extra = [os.path.join(HERE, 'rt', 'native_mt.cpp')]
        ecc = ['clang++', '-O1']
        san = []
    else:
        cc = ['g++', '-O1', '-fsanitize=address', '-fno-omit-frame-pointer']
        extra = [os.path.join(HERE, 'rt', 'native.cpp')]
        ecc = cc
        san = ['-fsanitize=address']
    common = ['-std=c++11', '-g1', '-w', '-DHAVE_PTHREADS', '-fno-strict-aliasing']
    objs, jobs = [], []
    for i, s in enumerate(srcs + extra):
        o = os.path.join(d, 'n%d.o' % i)
        jobs.append(((cc if i < len(srcs) else ecc) + common + (defs if i == 0 else []) + incs() + ['-c', s, '-o', o], 'native compile ' + s))
        objs.append(o)
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(must, *j) for j in jobs]:
            f.result()
    exe = os.path.join(d, 'native')
    must(['g++'] + san + objs + ['-o', exe, '-lpthread'], 'native link')
    return exe

def case_text(inputs):
    return ''.join('%s %d %d\n' % (n, w, v) for n, w, v in inputs)

def clean_env():
    e = dict(os.environ)
    e.pop('LD_PRELOAD', None)
    return e

def native_one(exe, path, timeout=40, verbose=False):
    env = dict(clean_env(), **({'SV_VERBOSE': '1'} if verbose else {}))
    if '# nontermination' in open(path).read(300):
        env['SV_FAIR'] = '1'    # the recorded schedule ends at the step limit: go on fairly
    try:
        r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, 'TIMEOUT'

def confirms(rc, out):
    """Does this native run show the property broken on the real code?"""
    if rc == 0 or rc in (2, 78, 79):
        return False
    return True

def norm_where(w):
    return re.sub(r':\d+', '', w)

def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                out.append(json.loads(l))
    return out

def run_unit(pid, u, tier, seed, work, deadline, res):
    d = os.path.join(work, u['name'])
    os.makedirs(d)
    t0 = time.time()
    with cf.ThreadPoolExecutor(2) as ex:
        fn = ex.submit(build_native, u, tier, d)
        bc = ex.submit(build_symbolic, u, tier, d).result()
        left = deadline - time.time()
        if left < 5:
            raise Fail('no time left for unit ' + u['name'])
        out = os.path.join(d, 'out.jsonl')
        cmd = [os.path.join(CACHE, 'symx'), bc, '--out', out, '--time', str(int(min(left, u.get('time', 100000)))), '--jobs', str(u.get('jobs', 8)),
               '--max-steps', str(u.get('max_steps', 3000000)), '--max-viol', str(u.get('max_viol', 6)), '--seed', str(seed),
               ] + (['--race'] if u.get('threads') else []) + ['--preempt', str(u.get('preempt', {}).get(tier, 2) if isinstance(u.get('preempt'), dict) else u.get('preempt', 2))] + u.get('args', [])
        r = run(cmd, env=clean_env())
        exe = fn.result()
    lines = []
    if os.path.exists(out):
        for l in open(out):
            try:
                lines.append(json.loads(l))
            except ValueError:
                pass
    viol = [l for l in lines if l['t'] == 'violation']
    wk = [l for l in lines if l['t'] == 'worker']
    st = res['units'].setdefault(u['name'], {})
    for k in ('paths', 'forks', 'steps', 'checks', 'checks_symbolic', 'killed', 'accesses', 'sched', 'queries', 'sat', 'unsat', 'unknown', 'cached', 'done', 'by_value_set'):
        st[k] = sum(w.get(k, 0) for w in wk)
    st['solver_s'] = round(sum(w['solver_s'] for w in wk), 3)
    st['solver_max_s'] = round(max([w['solver_max_s'] for w in wk] or [0]), 3)
    st['workers'] = len(wk)
    fns = set()
    for w in wk:
        fns |= set(f for f in w['functions'] if f.startswith(REPO + '/'))
    st['functions'] = len(fns)
    st['bounds'] = u.get('bounds', '')
    if isinstance(st['bounds'], dict):
        st['bounds'] = st['bounds'][tier]
    res['functions'] |= set(f[len(REPO) + 1:] for f in fns)
    for w in wk:
        for f, ls in w['lines'].items():
            if f.startswith(REPO + '/'):
                res['lines'].setdefault(f[len(REPO) + 1:], set()).update(ls)
    reached = set()
    for w in wk:
        reached |= set(w['reached'])
    inc = [w['incomplete'] for w in wk if w['incomplete']]
    st['explore_s'] = round(time.time() - t0, 1)

    # violations: replay each on the real build
    confirmed = []
    for i, v in enumerate(viol):
        rp = os.path.join(d, 'viol%d.txt' % i)
        hdr = '# property %s unit %s tier %s\n# %s: %s\n# at %s\n' % (pid, u['name'], tier, v['kind'], v['msg'], v['where'])
        open(rp, 'w').write(hdr + ''.join('# note %s\n' % n for n in v.get('notes', [])) + case_text(v['inputs']))
        rc, o = native_one(exe, rp, verbose=True)
        v['native_rc'] = rc
        v['native_out'] = o[:1500] + o[-1000:]
        v['path'] = rp
        v['unit'] = u['name']
        if confirms(rc, o):
            confirmed.append(v)
        else:
            res['unconfirmed'].append(v)
    res['violations'] += confirmed
    res['native_replays'] += len(viol)

    # validation: sampled paths, replayed on the real build, outputs compared
    samples = [s for w in wk for s in w['samples']]
    k = u.get('validate', {'quick': 16, 'thorough': 60})[tier]
    if len(samples) > k:
        step = len(samples) / k
        samples = [samples[int(i * step)] for i in range(k)]
    if samples:
        bf = os.path.join(d, 'batch.txt')
        open(bf, 'w').write('.\n'.join(case_text(s['inputs']) for s in samples) + '.\n')
        try:
            rr = subprocess.run([exe, '--batch', bf], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=300, env=clean_env())
            o = rr.stdout
        except subprocess.TimeoutExpired:
            o = ''
        cases = re.split(r'^CASE \d+\n', o, flags=re.M)[1:]
        for s, c in zip(samples, cases):
            outs = [int(x) for x in re.findall(r'^OUT (\d+)$', c, flags=re.M)]
            m = re.search(r'^END (\d+)$', c, flags=re.M)
            rc = int(m.group(1)) if m else -1
            if rc == 0 and outs == s['outs']:
                res['validated'] += 1
            else:
                rp = os.path.join(d, 'mismatch.txt')
                open(rp, 'w').write('# property %s unit %s tier %s\n# native run of a path the encoding passes\n' % (pid, u['name'], tier) + case_text(s['inputs']))
                if rc not in (0, 2, 78, 79, -1) and confirms(rc, c):
                    rc2, o2 = native_one(exe, rp)
                    res['violations'].append({'kind': 'native', 'msg': 'the real build fails on a sampled path', 'where': c[-300:], 'path': rp, 'unit': u['name'], 'native_rc': rc, 'native_out': o2[-1500:], 'inputs': s['inputs']})
                else:
                    res['errors'].append('unit %s: encoding and native run disagree (rc %d, outs %s vs %s) inputs %s' % (u['name'], rc, outs[:8], s['outs'][:8], str(s['inputs'])[:600]))
                break
        if len(cases) < len(samples) and not res['violations']:
            res['errors'].append('unit %s: native batch ended early (%d of %d)' % (u['name'], len(cases), len(samples)))
        for s in samples[:2]:
            res['samples'].append({'unit': u['name'], 'inputs': [['%s' % n, v] for n, w, v in s['inputs']][:40], 'observed': s['outs'][:20]})
    elif not viol:
        res['errors'].append('unit %s: no completed path' % u['name'])
    if r.returncode != 0:
        res['errors'].append('unit %s: engine exit %d: %s' % (u['name'], r.returncode, r.stdout[-1500:]))
    if inc:
        res['errors'].append('unit %s: incomplete exploration (%s)' % (u['name'], '; '.join(sorted(set(inc)))))
    if not viol:
        src = open(os.path.join(HERE, 'harness', u['harness'])).read()
        want = set(u.get('reach', []))
        miss = want - reached
        if miss:
            res['errors'].append('unit %s: vacuous, never reached %s' % (u['name'], sorted(miss)))
    st['reached'] = sorted(reached)
    st['wall_s'] = round(time.time() - t0, 1)

def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    keep = False
    verbose = '-v' in args
    for i, a in enumerate(args):
        if a == '--tier':
            tier = args[i + 1]
        if a == '--unit':
            only = args[i + 1]
        if a == '--keep':
            keep = True
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.CHECKS[pid]
    t0 = time.time()
    budget = {'quick': 600, 'thorough': 820}[tier]
    deadline = t0 + budget
    os.makedirs(CACHE, exist_ok=True)
    if not os.path.exists(os.path.join(CACHE, 'symx')):
        must(['make', '-s', '-C', os.path.join(HERE, 'engine')], 'engine build')
    work = tempfile.mkdtemp(prefix='w-%s-' % pid, dir=CACHE)
    res = {'units': {}, 'functions': set(), 'lines': {}, 'violations': [], 'unconfirmed': [], 'errors': [], 'validated': 0, 'native_replays': 0, 'samples': []}
    try:
        for u in P['units']:
            if only and u['name'] != only:
                continue
            if tier == 'quick' and u.get('thorough_only'):
                continue
            try:
                run_unit(pid, u, tier, seed, work, deadline, res)
            except Fail as e:
                res['errors'].append(str(e))
            if verbose:
                print(u['name'], json.dumps({k: v for k, v in res['units'].get(u['name'], {}).items() if k not in ('bounds',)}))
            if res['violations'] and not [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']:
                break
        # known findings
        known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
        new, seen = [], []
        for v in res['violations']:
            hit = None
            for k in known:
                if k.get('unit') and k['unit'] != v['unit']:
                    continue
                if re.search(k['kind'], v['kind']) and re.search(k['msg'], v['msg']) and re.search(k['where'], v['where']) and all(re.search(n, ' '.join(v.get('notes', []))) for n in k.get('notes', [])):
                    hit = k
            if hit:
                if hit not in seen:
                    seen.append(hit)
            else:
                new.append(v)
        for k in seen:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        tot = collections.Counter()
        for s in res['units'].values():
            for k in ('paths', 'forks', 'steps', 'checks', 'checks_symbolic', 'killed', 'accesses', 'sched', 'queries', 'sat', 'unsat', 'unknown', 'cached', 'done', 'by_value_set'):
                tot[k] += s.get(k, 0)
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
            'coverage': {
                'states': tot['forks'] + len(res['units']),
                'transitions': tot['steps'],
                'traces_validated_against_impl': res['validated'] + res['native_replays'],
                'samples': res['samples'][:8] or [{'none': 'no path completed'}],
                'explanation': 'states = symbolic states (initial plus forked); transitions = IR instructions executed symbolically; traces_validated_against_impl = complete paths whose solver model was replayed against the native build of the real sources with equal outcome and observations',
                'paths_completed': tot['done'], 'assertions_decided': tot['checks'], 'assertions_over_symbolic_values': tot['checks_symbolic'],
                'memory_accesses_checked': tot['accesses'], 'scheduling_choices': tot['sched'],
                'queries_discharged': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'], 'queries_unknown': tot['unknown'], 'query_cache_hits': tot['cached'], 'branches_decided_by_exact_value_sets': tot['by_value_set'], 'value_set_note': 'branch conditions over one symbol are decided by an exact interval procedure; one in 256 of them is decided again by z3 and must agree; assertions over symbolic values always go to z3',
                'solver': 'z3 4.8.12 (QF_BV)', 'solver_seconds': round(sum(s.get('solver_s', 0) for s in res['units'].values()), 2),
                'solver_longest_query_s': max([s.get('solver_max_s', 0) for s in res['units'].values()] or [0]),
                'units': {n: {k: v for k, v in s.items()} for n, s in res['units'].items()},
                'functions_encoded': sorted(res['functions']),
                'source_lines_encoded': {f: len(l) for f, l in sorted(res['lines'].items())},
                'exhaustive': False,
            },
            'assumptions': P.get('assumptions', []) + props.COMMON_ASSUMPTIONS,
            'wall_s': round(time.time() - t0, 2),
            'violations': len(new),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if '--lines' in args:
            for f, l in sorted(res['lines'].items()):
                print(f, sorted(l))
        if new:
            rd = os.path.join(HERE, 'evidence', 'replays')
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(new):
                dst = os.path.join(rd, '%s-%s-%d.txt' % (pid, v['unit'], i))
                shutil.copy(v['path'], dst)
                print('# %s: %s: %s\n#   at %s\n#   native replay: rc=%s %s' % (v['unit'], v['kind'], v['msg'], v['where'], v['native_rc'], ' | '.join([l for l in v['native_out'].splitlines() if re.search('SV-|ERROR: Addr|Assert|assert|TIMEOUT', l)][:2])))
                if i == 0:
                    first = dst
                if verbose:
                    print('\n'.join('#     note ' + n for n in v.get('notes', [])))
                    print('#     inputs', v['inputs'])
            print('VIOLATION property=%s replay=%s' % (pid, first))
            return 1
        for v in res['unconfirmed']:
            res['errors'].append('unit %s: counterexample does not reproduce natively (rc %s): %s: %s at %s\n   inputs %s\n   native: %s' % (v['unit'], v['native_rc'], v['kind'], v['msg'], v['where'], v['inputs'], v['native_out'][-300:]))
        if res['errors']:
            for e in res['errors']:
                print('NO-ANSWER property=%s %s' % (pid, e))
            return 2
        print('OK property=%s tier=%s units=%d paths=%d checks=%d queries=%d solver_s=%.1f validated=%d wall_s=%.1f' % (pid, tier, len(res['units']), tot['done'], tot['checks'], tot['queries'], ev['coverage']['solver_seconds'], res['validated'], time.time() - t0))
        return 0
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)

if __name__ == '__main__':
    sys.exit(main())
