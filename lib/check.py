#!/usr/bin/env python3
"""Runs the checks of one property: compiles its harnesses against /repo's
current headers to LLVM IR, executes them symbolically (build/symx, Z3),
replays witnesses and counterexamples natively, writes evidence."""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'lib'))
from specs import CHECKS

SYMX = os.path.join(HERE, 'build', 'symx'); RT = os.path.join(HERE, 'build', 'rt.bc')
CXX = 'clang++-18'
IRFLAGS = ['-std=c++17', '-O1', '-gline-tables-only', '-w', '-fno-vectorize', '-fno-slp-vectorize', '-fno-pic', '-fno-pie', '-emit-llvm', '-c']
NATFLAGS = ['-std=c++17', '-O1', '-g1', '-w', '-fsanitize=address', '-fno-omit-frame-pointer']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


class Fatal(Exception):
    pass


def build_units(units, tmp):
    """units: list of (key, harness, defs) -> {key: (bc, native)}"""
    out = {}
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'harness'), '-I' + tmp]

    def ir(key, h, defs):
        src = os.path.join(HERE, 'harness', h); bc = os.path.join(tmp, key + '.bc'); l = os.path.join(tmp, key + '.l.bc')
        r = sh([CXX] + IRFLAGS + inc + ['-D' + d for d in defs] + [src, '-o', bc])
        if r.returncode:
            raise Fatal('harness %s does not compile: %s' % (h, r.stderr[-3000:]))
        r = sh(['llvm-link-18', bc, RT, '-o', l])
        if r.returncode:
            raise Fatal('link: ' + r.stderr[-2000:])
        return l

    def nat(key, h, defs):
        src = os.path.join(HERE, 'harness', h); ex = os.path.join(tmp, key + '.exe')
        r = sh([CXX] + NATFLAGS + inc + ['-D' + d for d in defs] + [src, os.path.join(tmp, 'native.o'), '-o', ex])
        if r.returncode:
            raise Fatal('native build of %s: %s' % (h, r.stderr[-3000:]))
        return ex
    r = sh([CXX] + NATFLAGS + ['-c', os.path.join(HERE, 'harness', 'native.cpp'), '-o', os.path.join(tmp, 'native.o')])
    if r.returncode:
        raise Fatal(r.stderr)
    with ThreadPoolExecutor(8) as ex:
        fi = {u[0]: ex.submit(ir, *u) for u in units}
        fn = {u[0]: ex.submit(nat, *u) for u in units}
        for k in fi:
            out[k] = [fi[k].result(), fn[k].result()]
    return out


def run_native(exe, params, runs, tmp, timeout=120):
    """replays runs natively; returns list of (status, obs, text) per run"""
    res = []
    i = 0
    while i < len(runs):
        fd, path = tempfile.mkstemp(dir=tmp, suffix='.run'); os.close(fd)
        with open(path, 'w') as f:
            for k, v in params.items():
                f.write('P %s %d\n' % (k, v))
            for r in runs[i:]:
                f.write('R ' + ' '.join(map(str, r)) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:strict_memcmp=0')
        try:
            p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
            outp, errp, rc = p.stdout.decode('latin1'), p.stderr.decode('latin1'), p.returncode
        except subprocess.TimeoutExpired as e:
            outp, errp, rc = (e.stdout or b'').decode('latin1'), '', 'timeout'
        os.unlink(path)
        done = 0; cur = None; failed = False
        for line in outp.split('\n'):
            if line.startswith('RUN '):
                cur = []
            elif line.startswith('O ') and cur is not None:
                _, t, v = line.split(); cur.append([int(t), int(v)])
            elif line == 'END':
                res.append(('ok', cur, '')); done += 1; cur = None
            elif line.startswith('FAIL '):
                res.append(('fail', cur or [], line[5:])); done += 1; cur = None; failed = True; break
            elif line.startswith('BAD '):
                res.append(('bad', cur or [], line[4:])); done += 1; cur = None; failed = True; break
        if not failed and done < len(runs) - i:
            txt = ''
            for l in errp.split('\n'):
                if 'ERROR: AddressSanitizer' in l or 'Assertion' in l or 'terminate called' in l:
                    txt = l.strip(); break
            res.append(('timeout' if rc == 'timeout' else 'crash', cur or [], txt or ('exit %s' % rc))); done += 1
        i += done
    return res


def run_job(job, units, tmp, tier, seed, deadline):
    bc, exe = units[job['unit']]
    params = job['params']; t = max(5, min(job.get('time', 3000), deadline - time.time()))
    fd, out = tempfile.mkstemp(dir=tmp, suffix='.json'); os.close(fd)
    cmd = [SYMX, bc, '-o', out, '-t', str(t), '--seed', str(seed), '--wit', str(job.get('wit', 40)), '--mem', str(job.get('mem', 3000))]
    cmd += ['--steps', str(job.get('steps', 60000000))]
    if os.environ.get('SYMX_PARANOID'):
        cmd += ['--paranoid']
    for k, v in params.items():
        cmd += ['-p', '%s=%d' % (k, v)]
    p = sh(['prlimit', '--as=%d' % (6 << 30)] + cmd)
    try:
        d = json.load(open(out))
    except Exception:
        d = {'status': 'error', 'reason': 'engine died rc=%s %s' % (p.returncode, p.stderr[-500:]), 'violations': [], 'witnesses': []}
    d['job'] = job['name']
    d['replay_problems'] = []
    nv = 0
    if d['status'] in ('ok', 'violation', 'incomplete') and d.get('witnesses') and not job.get('noreplay'):
        rr = run_native(exe, params, [w['bytes'] for w in d['witnesses']], tmp)
        for w, r in zip(d['witnesses'], rr):
            if r[0] == 'ok' and r[1] == w['obs']:
                nv += 1
            else:
                d['replay_problems'].append({'bytes': w['bytes'], 'engine_obs': w['obs'], 'native': r})
    d['validated'] = nv
    for v in d.get('violations', []):
        r = run_native(exe, params, [v['bytes']], tmp, timeout=30)[0]
        v['native'] = r
        v['confirmed'] = r[0] in ('fail', 'crash', 'timeout') or v['kind'] == 'memory'
    return d


def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); spec = CHECKS[pid]
    if not (os.path.exists(SYMX) and os.path.exists(RT)):
        r = sh(['bash', os.path.join(HERE, 'setup.sh')])
        if r.returncode:
            print('setup failed', r.stderr[-2000:]); return 2
    evd = os.path.join(HERE, 'evidence'); os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
    for f in os.listdir(os.path.join(evd, 'replay')):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(evd, 'replay', f))
    deadline = t0 + float(os.environ.get('VERIF_DEADLINE', '800' if tier == 'quick' else '3000'))
    tmp = tempfile.mkdtemp(prefix='lexv.'); rc = 2; lines = []
    try:
        if spec.get('prepare'):
            spec['prepare'](REPO, tmp, HERE)
        jobs = spec['jobs'](tier)
        only = os.environ.get('VERIF_JOB')
        if only:
            jobs = [j for j in jobs if only in j['name']]
        units = {}
        for j in jobs:
            defs = tuple(j.get('defs', ()))
            key = 'u' + hashlib.sha1(repr((j['harness'], defs)).encode()).hexdigest()[:10]
            j['unit'] = key; units[key] = (key, j['harness'], defs)
        built = build_units(list(units.values()), tmp)
        jobs.sort(key=lambda j: -j.get('weight', 1))
        with ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as ex:
            res = list(ex.map(lambda j: run_job(j, built, tmp, tier, seed, deadline), jobs))
        covers = {}
        for d in res:
            for k, n in d.get('covers', {}).items():
                covers[k] = covers.get(k, 0) + n
        viol = [(d, v) for d in res for v in d.get('violations', [])]
        conf = [(d, v) for d, v in viol if v['confirmed']]
        problems = []
        for d in res:
            if d['status'] in ('error', 'incomplete'):
                problems.append('%s: %s %s' % (d['job'], d['status'], d['reason'][:600]))
            for x in d['replay_problems'][:2]:
                problems.append('%s: native replay differs: %s' % (d['job'], json.dumps(x)[:500]))
        for d, v in viol:
            if not v['confirmed']:
                problems.append('%s: counterexample not confirmed natively: %s %s bytes=%s native=%s where=%s' % (d['job'], v['kind'], v['msg'], v['bytes'], v['native'], v['where'][:500]))
        if not conf and not only:
            for c in spec.get('covers', []):
                if not covers.get(c):
                    problems.append('vacuous: cover "%s" not reached' % c)
        seen = set(); nrep = 0
        for d, v in conf:
            key = (d['job'], v['msg'])
            if key in seen:
                continue
            seen.add(key); path = os.path.join(evd, 'replay', '%s-%d.json' % (pid, nrep)); nrep += 1
            jp = next(j for j in jobs if j['name'] == d['job'])
            json.dump({'property': pid, 'job': d['job'], 'harness': jp['harness'], 'defs': list(jp.get('defs', ())), 'params': jp['params'], **v}, open(path, 'w'), indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (pid, path))
            lines.append('  job=%s kind=%s msg=%s native=%s where=%s bytes=%s' % (d['job'], v['kind'], v['msg'], v['native'][0] + ' ' + v['native'][2], v['where'][:400], v['bytes']))
        known = []
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            if l.startswith('known: property=%s ' % pid):
                known.append('KNOWN-FINDING: ' + l[7:].strip())
        S = lambda k: sum(d.get(k, 0) for d in res)
        fns = sorted({f for d in res for f in d.get('functions', [])})
        samples = []
        for d in res[:6]:
            for w in d.get('witnesses', [])[:2]:
                samples.append({'job': d['job'], 'symbolic_bytes': w['bytes'], 'observed': w['obs']})
        ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'model_checking',
              'coverage': {'states': S('paths'), 'transitions': S('forks'), 'traces_validated_against_impl': S('validated'), 'samples': samples[:12] or [{'none': True}],
                           'what_is_counted': 'states = completed symbolic paths (each covers every value satisfying its path condition); transitions = symbolic forks; traces = solver witnesses replayed on the natively built code with identical observations',
                           'exhaustive': not problems and not conf,
                           'jobs': [{'name': d['job'], 'status': d['status'], 'paths': d.get('paths'), 'queries_sat': d.get('queries_sat'), 'queries_unsat': d.get('queries_unsat'), 'solver_s': d.get('solver_s'), 'wall_s': d.get('wall_s')} for d in res],
                           'queries_discharged': S('queries_sat') + S('queries_unsat'), 'queries_sat': S('queries_sat'), 'queries_unsat': S('queries_unsat'), 'solver_s': round(S('solver_s'), 3),
                           'byte_domain_decisions': S('domain_decisions'), 'assertions_decided_by_query': S('asserts_symbolic'), 'assertions_decided_by_path_condition': S('asserts_path'), 'ir_instructions': S('instrs'), 'assumed_away_paths': S('killed'),
                           'functions_encoded': fns, 'functions_encoded_count': len(fns), 'bounds': spec['bounds'][tier], 'covers': covers, 'problems': problems},
              'assumptions': spec.get('assumptions', []) + ['IR semantics as implemented in engine/ (validated by native replay of solver witnesses)', 'clang-18 -O1 IR of the headers; x86-64; libstdc++ 13 headers with rt/rt.cpp for its compiled part; classic locale'],
              'wall_s': round(time.time() - t0, 2), 'violations': len(seen)}
        json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
        for k in known:
            print(k)
        for l in lines:
            print(l)
        if conf:
            rc = 1
        elif problems:
            for p in problems[:20]:
                print('PROBLEM ' + p)
            rc = 2
        else:
            rc = 0
        print('%s %s: paths=%d forks=%d queries=%d solver=%.1fs validated=%d wall=%.1fs rc=%d' % (pid, tier, S('paths'), S('forks'), S('queries_sat') + S('queries_unsat'), S('solver_s'), S('validated'), time.time() - t0, rc))
        if os.environ.get('VERIF_V'):
            for d in sorted(res, key=lambda d: -d.get('wall_s', 0)):
                print('   %-40s %-8s paths=%-6s wall=%.1f solver=%.1f exprs=%s rss=%s covers=%s' % (d['job'], d['status'], d.get('paths'), d.get('wall_s', 0), d.get('solver_s', 0), d.get('exprs'), d.get('rss_mb'), d.get('covers')))
    except Fatal as e:
        tok = spec.get('must_compile')
        if tok and tok in str(e):
            path = os.path.join(evd, 'replay', pid + '-compile.txt')
            open(path, 'w').write(str(e))
            print('VIOLATION property=%s replay=%s' % (pid, path)); print('  %s cannot be compiled for a supported iterator type' % tok)
            rc = 1
        else:
            print('ERROR', e)
            rc = 2
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('kept', tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
