#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : decides one property by symbolic execution of /repo's code.

1. builds the engine (/verif/engine) and the harness (/verif/harness, path dependency on /repo) and
   lowers the whole program to LLVM IR
2. explores every path of the property's entry functions symbolically (engine, z3)
3. replays counterexamples, and a sample of the passing paths, with the natively compiled code on a
   real file system
4. writes evidence/ID.json
"""
import sys, os, json, subprocess, hashlib, shutil, tempfile, time, fcntl, random
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
TC = 'stable-x86_64-unknown-linux-gnu'


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors='replace', **kw)


def files_of(d):
    out = []
    for root, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'node_modules'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock', '.sh')):
                out.append(os.path.join(root, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for d in (os.path.join(REPO, 'src'), os.path.join(HERE, 'harness'), os.path.join(HERE, 'engine')):
        for f in files_of(d):
            h.update(f.encode()); h.update(open(f, 'rb').read())
    for f in (os.path.join(REPO, 'Cargo.toml'), os.path.join(HERE, 'build_harness.sh')):
        if os.path.exists(f):
            h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, RUSTUP_TOOLCHAIN=TC)
        env.pop('RUSTFLAGS', None)
        eng = os.path.join(HERE, 'engine/target/release/symex')
        r = sh(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=os.path.join(HERE, 'engine'), env=env)
        if r.returncode != 0 or not os.path.exists(eng):
            print('engine build failed\n' + r.stderr[-2000:]); sys.exit(2)
        h = tree_hash()
        d = os.path.join(BUILD, h)
        if not os.path.exists(os.path.join(d, 'ok')):
            # keep only a few old modules
            old = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, x)) and x not in ('work',)]
            old.sort(key=os.path.getmtime)
            for o in old[:-4]:
                shutil.rmtree(o, ignore_errors=True)
            w = os.path.join(BUILD, 'work')
            r = sh(['bash', os.path.join(HERE, 'build_harness.sh'), w, REPO], env=env)
            if r.returncode != 0:
                print('harness build failed\n' + (r.stdout + r.stderr)[-3000:]); sys.exit(2)
            os.makedirs(d, exist_ok=True)
            shutil.move(os.path.join(w, 'mod.ll'), os.path.join(d, 'mod.ll'))
            shutil.copy(os.path.join(w, 'hx'), os.path.join(d, 'hx'))
            r = sh(['cc', '-shared', '-fPIC', '-O1', '-o', os.path.join(d, 'shim.so'), os.path.join(HERE, 'lib/shim.c')])
            if r.returncode != 0:
                print('shim build failed\n' + r.stderr[-2000:]); sys.exit(2)
            open(os.path.join(d, 'ok'), 'w').close()
        os.utime(d)
        return eng, d


def demangle(n):
    """the readable parts of a mangled Rust name"""
    import re
    out = []
    i = 0
    s = n
    if not (s.startswith('_R') or s.startswith('_ZN')):
        return s
    for m in re.finditer(r'(\d+)_?', s):
        k = int(m.group(1)); j = m.end()
        if 0 < k < 60 and re.fullmatch(r'[A-Za-z0-9_$.]+', s[j:j + k] or ' ') and len(s[j:j + k]) == k:
            out.append(s[j:j + k])
    return '::'.join(out[-4:])


def rep_text(r, params):
    m = bytes.fromhex(r['model'])
    L = ['param %s %d' % kv for kv in params.items()]
    L += ['var %s %d' % (n.replace(' ', '_'), m[i]) for i, n in enumerate(r['names']) if n not in ('hash', 'sw')]
    return '\n'.join(L) + '\n'


def native(d, entry, text, timeout=20, keep=None):
    """run the natively compiled code on the recorded inputs; (status, notes, detail)"""
    w = tempfile.mkdtemp(prefix='sx-')
    try:
        os.makedirs(os.path.join(w, 'r'))
        rp = os.path.join(w, 'rep')
        open(rp, 'w').write(text)
        try:
            p = subprocess.run([os.path.join(d, 'hx'), entry, rp, os.path.join(w, 'r')], capture_output=True, timeout=timeout,
                               cwd=w, env=dict({'PATH': '/usr/bin:/bin', 'RUST_BACKTRACE': '0'}, **({'LD_PRELOAD': os.path.join(d, 'shim.so')} if 'param threads ' in text else {})))
        except subprocess.TimeoutExpired:
            return 'timeout', [], 'still running after %d s' % timeout
        out = p.stdout.decode('utf8', 'replace'); err = p.stderr.decode('utf8', 'replace')
        notes = [tuple(l.split(' ')[1:3]) for l in out.splitlines() if l.startswith('NOTE ')]
        last = out.strip().splitlines()[-1] if out.strip() else ''
        if p.returncode == 0 and last == 'OK':
            return 'ok', notes, ''
        if p.returncode == 3:
            return 'assert', notes, last[7:]
        if p.returncode == 4:
            return 'assume', notes, last
        if p.returncode in (5, 6):
            return 'desync', notes, last
        if p.returncode < 0:
            return 'crash', notes, 'signal %d: %s' % (-p.returncode, ' '.join(err.split())[:300])
        return 'error', notes, 'exit %d %s %s' % (p.returncode, last, err[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    t0 = time.time()
    from specs import SPECS
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    verbose = '-v' in sys.argv
    spec = SPECS[pid]
    eng, d = build()
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    known = {k['id']: k for k in known if k['property'] == pid and k.get('status', 'open') == 'open'}
    budget = 480 if tier == 'quick' else 3300
    runs, viols, kf_seen, errors, mism = [], [], {}, {}, []
    validated = 0
    samples_out = []
    work = tempfile.mkdtemp(prefix='sxo-')
    try:
        for k, run in enumerate(spec['runs']):
            if only and run['entry'] != only:
                continue
            params = dict(run.get('params', {}))
            if tier == 'thorough':
                params.update(run.get('thorough', {}))
            left = max(20, budget - (time.time() - t0))
            out = os.path.join(work, 'o%d.json' % k)
            cmd = [eng, 'run', os.path.join(d, 'mod.ll'), '--entry', run['entry'], '--out', out, '--time', '%.0f' % min(left, run.get('time', 1e9) if tier == 'quick' else 1e9),
                   '--steps', str(run.get('steps', 3000000)), '--depth', str(run.get('depth', 400)), '--samples', str(run.get('samples', 48)),
                   '--preempt', str(params.get('preempt', 2))]
            if known:
                cmd += ['--after-viol', '1e9']
            for a, b in params.items():
                cmd += ['--param', '%s=%d' % (a, b)]
            r = sh(cmd)
            if r.returncode != 0 or not os.path.exists(out):
                print('engine failed (%s): %s' % (run['entry'], r.stderr[-1500:])); sys.exit(2)
            j = json.load(open(out))
            j['params'] = params
            runs.append(j)
            if j['range_bad']:
                errors[run['entry'] + ': %d interval decisions refuted by the solver' % j['range_bad']] = j['range_bad']
            for e, n in j['errors'].items():
                errors[run['entry'] + ': ' + e[:600]] = n
            # counterexamples
            todo = [(v, rep_text(v, params)) for v in j['viol']]
            tmo = run.get('timeout', 20)
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(lambda x: native(d, run['entry'], x[1], tmo), todo))
            for (v, text), (st, notes, det) in zip(todo, res):
                ok = st in ('assert', 'crash', 'timeout')
                m = bytes.fromhex(v['model'])
                if st == 'ok' and v['msg'].startswith('deadlock'):
                    ok, det = True, 'a lock is awaited that is never released; it depends on the random hash seed of the tables whether two keys share a lock: the interpreter puts all keys under one lock'
                if st == 'ok' and any(n == 'sw' and m[i] for i, n in enumerate(v['names'])):
                    # the scheduler of the machine did not produce the interleaving: the interpreter did
                    ok, det = True, 'the interleaving did not occur in the native runs; the schedule was executed on the compiled code by the interpreter'
                kf = None
                for a, b in v['notes']:
                    if a == 'kf':
                        kf = bytes.fromhex(b).decode()
                if v['msg'].startswith('KF'):
                    kf = v['msg'].split(':')[0]
                viols.append(dict(entry=run['entry'], kind=v['kind'], msg=v['msg'], text=text, native=st, detail=det, ok=ok, kf=kf if kf in known else None, notes=v['notes']))
            if any(v['ok'] and not v['kf'] for v in viols):
                # decided: the remaining entries cannot change the answer
                break
            # passing paths
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(lambda s: native(d, run['entry'], rep_text(s, params), 30), j['samples']))
            for s, (st, notes, det) in zip(j['samples'], res):
                want = [tuple(x) for x in s['notes']]
                if st == 'ok' and notes == want:
                    validated += 1
                else:
                    # once more (load), then it counts
                    st, notes, det = native(d, run['entry'], rep_text(s, params), 60)
                    if st == 'ok' and notes == want:
                        validated += 1
                    else:
                        mism.append(dict(entry=run['entry'], text=rep_text(s, params), native=st, detail=det, want=want, got=notes))
            for s in j['samples'][:3]:
                m = bytes.fromhex(s['model'])
                samples_out.append(dict(entry=run['entry'], inputs={n: m[i] for i, n in enumerate(s['names'])},
                                        observed={a: bytes.fromhex(b).decode('utf8', 'replace') for a, b in s['notes']}))
            if verbose:
                print(run['entry'], params, 'paths', j['paths'], 'ends', j['ends'], 'wall', j['wall'], 'q', j['queries'], 'complete', j['complete'], 'validated', validated, 'covers', j['covers'])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # report
    rc = 0
    confirmed = [v for v in viols if v['ok'] and not v['kf']]
    unconf = [v for v in viols if not v['ok'] and not v['kf']]
    for v in viols:
        if v['ok'] and v['kf']:
            kf_seen[v['kf']] = kf_seen.get(v['kf'], 0) + 1
    rdir = os.path.join(HERE, '.replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'):
            os.remove(os.path.join(rdir, f))
    seen = set()
    nviol = 0
    for v in confirmed:
        key = (v['entry'], v['kind'], v['msg'][:200])
        if key in seen:
            continue
        seen.add(key)
        nviol += 1
        path = os.path.join(rdir, '%s-%d.rep' % (pid, nviol))
        with open(path, 'w') as f:
            f.write('# property %s entry %s\n# %s: %s\n# native run: %s %s\n# replay: python3 %s/replay.py %s\nentry %s\n' % (pid, v['entry'], v['kind'], v['msg'][:1000].replace('\n', ' '), v['native'], v['detail'][:600].replace('\n', ' '), HERE, path, v['entry']))
            f.write(v['text'])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s in %s: %s' % (v['kind'], v['entry'], v['msg'][:700]))
        print('  native: %s %s' % (v['native'], v['detail'][:400]))
        for a, b in v['notes']:
            print('    %s = %s' % (a, bytes.fromhex(b).decode('utf8', 'replace')[:200]))
        rc = 1
        if nviol >= 10:
            break
    for k, n in sorted(kf_seen.items()):
        print('KNOWN-FINDING: property=%s %s %s' % (pid, k, known[k]['what']))
    if rc == 0:
        for v in unconf[:5]:
            print('UNCONFIRMED %s %s: %s | native %s %s' % (v['entry'], v['kind'], v['msg'][:500], v['native'], v['detail'][:300]))
            for a, b in v['notes']:
                print('    %s = %s' % (a, bytes.fromhex(b).decode('utf8', 'replace')[:200]))
            if verbose:
                print(v['text'])
            rc = 2
        for m in mism[:5]:
            print('MISMATCH between the symbolic and the native run in %s: %s %s want %s got %s' % (m['entry'], m['native'], m['detail'][:300],
                  [(a, bytes.fromhex(b).decode('utf8', 'replace')[:200]) for a, b in m['want']], [(a, bytes.fromhex(b).decode('utf8', 'replace')[:200]) for a, b in m['got'] if len(b) % 2 == 0]))
            if verbose:
                print(m['text'])
            rc = 2
        for e, n in list(errors.items())[:6]:
            print('NOT EXPLORED (%d paths): %s' % (n, e))
            if 'audit:' in e or 'refuted by the solver' in e:
                rc = 2
        for j in runs:
            if j['ends'].get('done', 0) == 0 and not j['viol']:
                print('no path of %s reached the end' % j['entry'])
                rc = 2
            missing = [c for r2 in spec['runs'] if r2['entry'] == j['entry'] for c in r2.get('covers', []) if not j['covers'].get(c)]
            if missing and j['complete']:
                print('note: %s never reached %s' % (j['entry'], missing))
    complete = all(j['complete'] for j in runs) and not errors
    funcs = sorted({demangle(f) for j in runs for f in j['funcs']})
    repo_funcs = sorted({demangle(f) for j in runs for f in j['funcs'] if 'nodejs_resolver' in f})
    S = lambda k: sum(j[k] for j in runs)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=spec.get('assumptions', []) + COMMON_ASSUMPTIONS,
              coverage=dict(
                  states=S('paths'), transitions=S('insts'), traces_validated_against_impl=validated, samples=samples_out[:12] or ['none'],
                  exhaustive=complete, bounds=spec['bounds'], outside_bounds=spec['outside'],
                  runs=[dict(entry=j['entry'], params=j['params'], complete=j['complete'], paths=j['paths'], pruned_by_assumption=j['pruned'], ends=j['ends'], unexplored_left=j['left'],
                             symbolic_bytes=j['max_vars'], longest_path_steps=j['max_steps'], step_limit=j['step_limit'], depth_limit=j['depth_limit'], covers=j['covers'], wall_s=j['wall']) for j in runs],
                  branch_decisions=dict(forks=S('forks'), forced_by_domains=S('dom_forced'), forced_by_solver=S('smt_forced'), decided_by_finite_tables=S('table_decided'), witness_by_local_search=S('local_sat')),
                  assertions=dict(evaluated=S('asserts'), needing_a_query=S('assert_queries')),
                  solver=dict(name='z3 4.8.12 (QF_BV)', queries=S('queries'), sat=S('sat'), unsat=S('unsat'), unknown=S('unknown'), time_s=round(S('solver_time'), 2), path_conditions_rechecked=S('final_checks')),
                  functions_encoded=dict(total=len(funcs), of_nodejs_resolver=repo_funcs),
                  not_explored=errors, unconfirmed=len(unconf), mismatches=len(mism), known_findings=kf_seen))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %s; %d paths, %d queries, %d traces validated, %.1f s%s' % (pid, tier, 'ok' if rc == 0 else ('VIOLATED' if rc == 1 else 'ERROR'), S('paths'), S('queries'), validated, time.time() - t0, '' if complete else ' (not exhaustive)'))
    sys.exit(rc)


COMMON_ASSUMPTIONS = [
    'the symbolic run interprets the LLVM IR rustc emits for the whole program (opt-level 0, then the scalar -O1 passes); counterexamples and a sample of passing paths are replayed in the natively compiled program',
    'the operating system is replaced by an in-memory POSIX file system model (stat, open, read, realpath); the native replays use the real one',
    'hash functions are replaced by a constant (every key collides), the iteration order of std HashMap is then the order of insertion; getrandom returns zeros; allocation never fails',
]
if __name__ == '__main__':
    main()
