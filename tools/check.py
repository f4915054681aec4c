#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep]

Decides one property by symbolic execution of the real code of /repo:
 1. compiles the harness and the repository's translation units (current
    working tree, against the mini torch in /verif/minitorch) to LLVM bitcode,
 2. runs the symbolic executor (build/qsym: every input is an SMT variable,
    every branch and every assertion is decided by Z3),
 3. replays counterexamples (and a sample of path models) on the natively
    compiled code and reports only what reproduces,
 4. writes evidence/PROPERTY.json.
Exit 0: the property held on everything explored; 1: VIOLATION; 2: no answer.
"""
import sys, os, json, hashlib, subprocess, time, glob, re, argparse, shutil, tempfile, collections
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QSYM_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, HARNESS  # noqa

CXX = '/usr/bin/clang++-18'
LINK = '/usr/bin/llvm-link-18'
INC = ['-include', HERE + '/engine/pre.h', '-I' + HERE + '/engine', '-I' + HERE + '/harness',
       '-I' + HERE + '/minitorch', '-I' + REPO + '/include', '-I' + REPO + '/extern/boost',
       '-I' + REPO + '/extern/doctest', '-I' + REPO + '/sources', '-DDOCTEST_CONFIG_DISABLE', '-Wno-everything']
BCFLAGS = ['-std=c++17', '-O1', '-fwrapv', '-g1', '-fno-vectorize', '-fno-slp-vectorize'] + INC
JOBS = int(os.environ.get('QSYM_JOBS', '8'))


class NoAnswer(Exception):
    pass


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, errors='replace', **kw)


def files_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()


def tree(d, exts=('.h', '.hpp', '.cpp', '.inc', '.tpp', '.ipp')):
    out = []
    for r, ds, fs in os.walk(d):
        for f in fs:
            if f.endswith(exts) or '.' not in f:
                out.append(os.path.join(r, f))
    return out


def engine():
    src = [HERE + '/engine/' + f for f in ('qsym.cpp', 'interp.inc', 'lin.inc', 'expr.cpp', 'expr.h', 'build.sh')]
    key = files_hash(src)[:16]
    exe = f'{BUILD}/qsym-{key}'
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        d = tempfile.mkdtemp(dir=BUILD)
        r = run(['bash', HERE + '/engine/build.sh', d])
        if r.returncode:
            raise NoAnswer('engine build failed:\n' + r.stdout[-3000:])
        os.replace(d + '/qsym', exe)
        shutil.rmtree(d)
    return exe


_inc_hash = None


def inc_hash():
    """hash of everything a translation unit may include"""
    global _inc_hash
    if _inc_hash is None:
        fs = tree(REPO + '/include') + tree(HERE + '/minitorch') + \
            [HERE + '/engine/pre.h', HERE + '/engine/qsym.h'] + tree(HERE + '/harness', ('.h',))
        _inc_hash = files_hash(fs) + ' '.join(BCFLAGS)
    return _inc_hash


def compile_bc(src, defs=()):
    with open(src, errors='replace') as f:  # sources included by a harness
        own = [src] + [REPO + '/sources/' + x for x in re.findall(r'^#include "(\w+\.cpp)"', f.read(), re.M)]
    key = hashlib.sha256((inc_hash() + src + files_hash(own) + ' '.join(defs)).encode()).hexdigest()[:20]
    out = f'{BUILD}/{os.path.basename(src).split(".")[0]}-{key}.bc'
    if not os.path.exists(out):
        tmp = out + f'.{os.getpid()}.tmp'
        r = run([CXX] + BCFLAGS + list(defs) + ['-emit-llvm', '-c', src, '-o', tmp])
        if r.returncode:
            raise NoAnswer(f'{src} does not compile to bitcode:\n' + r.stdout[-4000:])
        os.replace(tmp, out)
    return out


def sources(harness):
    h = HARNESS[harness]
    return [HERE + '/harness/' + s for s in h['src']] + [REPO + '/sources/' + s + '.cpp' for s in h['repo']] + \
        ([HERE + '/minitorch/minitorch.cpp'])


def build_module(harness):
    os.makedirs(BUILD, exist_ok=True)
    srcs = sources(harness)
    with ThreadPoolExecutor(JOBS) as ex:
        bcs = list(ex.map(compile_bc, srcs))
    rt = compile_bc(HERE + '/engine/rt.cpp')
    key = hashlib.sha256(' '.join(bcs + [rt]).encode()).hexdigest()[:20]
    mod = f'{BUILD}/{harness}-{key}.link.bc'
    if not os.path.exists(mod):
        tmp = mod + f'.{os.getpid()}.tmp'
        r = run([LINK, '-o', tmp] + bcs + [rt])
        if r.returncode:
            raise NoAnswer('link failed:\n' + r.stdout[-3000:])
        os.replace(tmp, mod)
    return mod, bcs


def build_native(harness, bcs):
    """the same bitcode (without the executor's runtime) as a native program"""
    key = hashlib.sha256((' '.join(bcs) + files_hash([HERE + '/engine/qsym_native.cpp'])).encode()).hexdigest()[:20]
    exe = f'{BUILD}/{harness}-{key}.native'
    if os.path.exists(exe):
        return exe
    d = tempfile.mkdtemp(dir=BUILD)

    def one(i):
        o = f'{d}/{i}.o'
        r = run([CXX, '-O1', '-c', '-Wno-everything', bcs[i], '-o', o])
        if r.returncode:
            raise NoAnswer('native code generation failed:\n' + r.stdout[-3000:])
        return o
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, range(len(bcs))))
    r = run([CXX, '-std=c++17', '-O1', '-rdynamic', '-I' + HERE + '/engine', HERE + '/engine/qsym_native.cpp'] + objs +
            ['-o', d + '/native', '-ldl', '-lpthread'])
    if r.returncode:
        raise NoAnswer('native link failed:\n' + r.stdout[-3000:])
    os.replace(d + '/native', exe)
    shutil.rmtree(d)
    return exe


def build_asan(harness):
    """a sanitizer build from source, only needed to confirm memory errors"""
    srcs = sources(harness)
    key = hashlib.sha256((inc_hash() + files_hash(srcs + [HERE + '/engine/qsym_native.cpp'])).encode()).hexdigest()[:20]
    exe = f'{BUILD}/{harness}-{key}.asan'
    if os.path.exists(exe):
        return exe
    d = tempfile.mkdtemp(dir=BUILD)
    fl = ['-std=c++17', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function',
          '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS'] + INC

    def one(i):
        o = f'{d}/{i}.o'
        r = run([CXX] + fl + ['-c', srcs[i], '-o', o])
        if r.returncode:
            raise NoAnswer('sanitizer build failed:\n' + r.stdout[-3000:])
        return o
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, range(len(srcs))))
    r = run([CXX] + fl + ['-rdynamic', HERE + '/engine/qsym_native.cpp'] + objs + ['-o', d + '/asan', '-ldl'])
    if r.returncode:
        raise NoAnswer('sanitizer link failed:\n' + r.stdout[-3000:])
    os.replace(d + '/asan', exe)
    shutil.rmtree(d)
    return exe


def replay(exe, case, timeout=60):
    with tempfile.NamedTemporaryFile('w', suffix='.in', dir=BUILD, delete=False) as f:
        for k, v in case['inputs'].items():
            f.write(f'{k}\t{v}\n')
    args = [a for a in case['args'].split(',') if a != '']
    try:
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='exitcode=77')
        r = run([exe, case['entry'], f.name] + args, timeout=timeout, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    finally:
        os.unlink(f.name)


def failed_ids(out):
    return re.findall(r'^FAILED (.*?)(?: \([^()]* vs [^()]*\))?$', out, re.M)


def reproduces(case, native, harness, state):
    """does the counterexample fail on the native code?  (how, output)"""
    rc, out = replay(native, case)
    kind = case['kind']
    if rc == 3:
        return None, out
    if rc not in (0, 3) and rc != 'timeout':
        return ('native run fails', out)
    if rc == 'timeout':
        return ('native run does not end', out)
    if kind in ('check', 'same'):
        return None, out
    # undefined behaviour may stay invisible in a plain run
    try:
        if 'asan' not in state:
            state['asan'] = build_asan(harness)
        rc, out = replay(state['asan'], case)
        if rc not in (0, 3) and rc != 'timeout':
            return ('sanitizer run fails', out)
    except NoAnswer as e:
        out = str(e)
    return None, out


def load_known():
    p = HERE + '/known_findings.json'
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--entries', nargs='*')
    ap.add_argument('--timeout', type=float)
    a = ap.parse_args()
    pid = a.prop
    P = PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    entries = a.entries or list(P['quick'])
    budget = P.get('budget', 240)
    if tier == 'thorough' and not a.entries:
        entries += [e for e in P.get('thorough', []) if e not in entries]
        budget = P.get('thorough_budget', 3000)
    if a.timeout:
        budget = a.timeout
    harness = P['harness']
    exe = engine()
    mod, bcs = build_module(harness)
    native = build_native(harness, bcs)
    t_build = time.time() - t0
    out = tempfile.mkdtemp(prefix=f'run-{pid}-', dir=BUILD)
    try:
        r = run([exe, mod, '--out', out, '--jobs', str(JOBS), '--timeout', str(budget)] + entries, timeout=budget + 120)
    except subprocess.TimeoutExpired:
        raise NoAnswer('executor did not stop')
    if not os.path.exists(out + '/summary.json'):
        raise NoAnswer(f'executor failed ({r.returncode}):\n' + r.stdout[-3000:])
    S = json.load(open(out + '/summary.json'))
    # ---- counterexamples
    viols = []
    for f in sorted(glob.glob(out + '/viol_*.json'), key=lambda s: int(re.findall(r'(\d+)\.json', s)[0])):
        try:
            viols.append(json.load(open(f)))
        except ValueError:
            pass
    state, confirmed, unconfirmed, tried = {}, [], [], collections.Counter()
    for v in viols:
        k = (v['entry'], v['args'], v['id'])
        if tried[k] >= 4 or len(confirmed) >= 12 or any((c['entry'], c['args'], c['id']) == k for c in confirmed):
            continue
        tried[k] += 1
        how, txt = reproduces(v, native, harness, state)
        v['replay_output'] = txt[-1500:]
        if how:
            v['how'] = how
            confirmed.append(v)
        else:
            unconfirmed.append(v)
    known, new = [], []
    for v in confirmed:
        hit = None
        for kf in load_known():
            if kf['property'] == pid and kf['entry'] == v['entry'] and kf['check'] == v['id'] and \
                    kf.get('args', v['args']) == v['args'] and \
                    all(v['inputs'].get(k) == str(x) for k, x in kf.get('inputs', {}).items()):
                hit = kf
        (known if hit else new).append((v, hit))
    # ---- sample replays: the native code must agree with the executor
    samples, validated, mismatch = [], 0, []
    allsamp = sorted(glob.glob(out + '/sample_*.json'))
    per = collections.defaultdict(list)
    for f in allsamp:
        per[f.rsplit('_', 1)[0]].append(f)
    pick = []
    for i in range(8):
        for k in sorted(per):
            if i < len(per[k]):
                pick.append(per[k][-1 - i])
    for f in pick[:P.get('replays', 150)]:
        if time.time() - t0 > budget + 150:
            break
        try:
            c = json.load(open(f))
        except ValueError:
            continue
        rc, txt = replay(native, c, timeout=20)
        obs = re.findall(r'^OBS (.*)$', txt, re.M)
        if rc == 0 and obs == c['obs']:
            validated += 1
            if len(samples) < 6:
                samples.append({k: c[k] for k in ('entry', 'args', 'inputs', 'obs')})
        else:
            mismatch.append({'case': c, 'native_rc': str(rc), 'native': txt[-400:]})
    shutil.rmtree(out)
    # ---- verdict
    E = S['entries']
    paths = sum(e['paths'] for e in E)
    done = [e for e in E if e['paths'] and not e['inconclusive'] and not e['timeouts']]
    nchk = sum(sum(c[0] for c in e['checks'].values()) for e in E)
    nsolver = sum(sum(c[1] for c in e['checks'].values()) for e in E)
    vac = [f"{e['entry']}:{e['args']}" for e in E if e['paths'] and not sum(c[0] for c in e['checks'].values())]
    incomplete = [{'entry': e['entry'], 'args': e['args'], 'inconclusive_paths': e['inconclusive'],
                   'timed_out_paths': e['timeouts'], 'reason': e['reason'][:300]} for e in E
                  if e['inconclusive'] or e['timeouts'] or not e['paths']]
    repo_fns = sorted({re.sub(r'\(.*', '', f) for f in S['functions'] if 'quantit::' in f.split('(')[0]})
    own = [f for f in repo_fns if f.startswith('quantit::') or ' quantit::' in f]
    cov = {
        'states': paths,
        'transitions': sum(e['branches'] for e in E),
        'traces_validated_against_impl': validated,
        'samples': samples,
        'states_are': 'completed symbolic paths; each stands for every input that satisfies its path condition',
        'transitions_are': 'branch decisions taken on those paths (forks: %d, decided infeasible by the solver otherwise)' % sum(e['forks'] for e in E),
        'instructions_interpreted': sum(e['instrs'] for e in E),
        'assertions_evaluated': nchk, 'assertions_sent_to_solver': nsolver,
        'solver_queries': S['queries'], 'unsat_answers_rechecked': S.get('audited', 0), 'solver_unknown': S['unknown'], 'solver_seconds': round(S['solver_s'], 2),
        'bounds': P['bounds'], 'outside_bounds': P.get('outside', ''),
        'functions_encoded': len(own), 'functions_encoded_sample': own[:200],
        'entries': [{k: e[k] for k in ('entry', 'args', 'paths', 'infeasible', 'inconclusive', 'timeouts',
                                       'assume_cut', 'branches', 'violations', 'wall_s')} for e in E],
        'complete_entries': len(done), 'incomplete_entries': incomplete, 'entries_without_assertion': vac,
        'replay_mismatches': mismatch[:5], 'unconfirmed_counterexamples': unconfirmed[:5],
        'known_findings_seen': [v['id'] for v, _ in known],
        'executor_s': round(S['wall_s'], 2), 'build_s': round(t_build, 2),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': P.get('assumptions', []) + HARNESS[harness].get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open(f'{HERE}/evidence/{pid}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    for e in E:
        print(f"{pid} {e['entry']}:{e['args']} paths={e['paths']} infeasible={e['infeasible']} inconclusive={e['inconclusive']} "
              f"timeouts={e['timeouts']} violations={e['violations']} checks={sum(c[0] for c in e['checks'].values())} {e['wall_s']:.1f}s"
              + (f" [{e['reason'][:160]}]" if e['inconclusive'] else ''))
    print(f"{pid}: {paths} paths, {nchk} assertions, {S['queries']} solver queries ({S['unknown']} unknown), "
          f"{validated} path models replayed natively, {len(mismatch)} mismatches, {len(unconfirmed)} unconfirmed, {time.time()-t0:.1f}s")
    for m in mismatch[:3]:
        print('  replay mismatch:', m['case']['entry'], m['case']['args'], m['case']['inputs'], m['native_rc'], m['native'][-200:])
    for u in unconfirmed[:5]:
        print('  unconfirmed counterexample:', u['entry'], u['args'], u['id'], u['msg'][:200], u['where'][:300])
    for kf in {json.dumps(h) for _, h in known}:
        kf = json.loads(kf)
        print(f"KNOWN-FINDING: property={pid} {kf['what']}")
    if new:
        os.makedirs(HERE + '/evidence/replay', exist_ok=True)
        for i, (v, _) in enumerate(new):
            p = f'{HERE}/evidence/replay/{pid}-{i}.json'
            with open(p, 'w') as f:
                json.dump(v, f, indent=1)
            print(f"  {v['entry']}:{v['args']} {v['id']} {v['msg'][:200]} inputs={json.dumps(v['inputs'])} at {v['where'][:300]} ({v['how']})")
            print(f'VIOLATION property={pid} replay={p}')
        return 1
    if not paths or not nchk:
        print(f'{pid}: nothing was explored')
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except NoAnswer as e:
        print('NO ANSWER:', e)
        rc = 2
    sys.exit(rc)
