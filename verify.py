#!/opt/veriftools/pyvenv/bin/python
"""Decides one property: discharges the obligations its contracts generate from /repo's current source.

verify.py PROPERTY [--tier quick|thorough] [--repo DIR]        verify.py --replay FILE
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/venv/lib/python3.12/site-packages')       # Cython's parser
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

from vc import registry, build as vbuild          # noqa: E402

JOBS = max(1, min(8, os.cpu_count() or 1))


def findings(prop):
    out, fixed = [], []
    for ln in open(os.path.join(HERE, 'known-findings.txt')):
        m = re.match(r'finding: property=(\S+) contract=(\S+) deviation=(\S+) :: (.*)', ln)
        if m and m.group(1) == prop:
            out.append(dict(contract=m.group(2), deviation=m.group(3), what=m.group(4).strip()))
    return out


# ------------------------------------------------------------------ proving (forked workers)
def prove_one(repo, name, variant, devs):
    """devs: known departures of this contract.  Returns a dict"""
    from vc import sym as S, check as C, smt
    from vc.ir import Unsupported
    con = registry.by_name()[name]
    t0 = time.time()
    q0, s0 = smt.STATS['queries'], smt.STATS['time']

    def attempt(dev):
        rep = C.Report()
        con.dev = dev
        err = None
        try:
            con.prove(rep, S.Loader(repo), variant)
        except Unsupported as e:
            err = 'unsupported: %s (line %s)' % (e, getattr(e, 'line', None))
        except Exception as e:
            err = 'engine: %s: %s | %s' % (type(e).__name__, e, traceback.format_exc(limit=-4)[-1500:])
        return rep, err
    tries = list(devs) + [None]
    rep = err = used = None
    for dev in tries:
        rep, err = attempt(dev)
        used = dev
        if err is None and rep.obs and all(o.status == 'proved' for o in rep.obs):
            break
    return dict(contract=name, variant=variant, dev=used, error=err, obs=[o.js() for o in rep.obs],
                functions=sorted(rep.functions, key=str), notes=rep.notes, seconds=time.time() - t0,
                queries=smt.STATS['queries'] - q0, solver=smt.STATS['time'] - s0)


def worker(conn, args):
    try:
        r = prove_one(*args)
        r['functions'] = [list(f) if isinstance(f, (list, tuple)) else str(f) for f in r['functions']]
        conn.send(json.dumps(r, default=str))
    except BaseException as e:
        conn.send(json.dumps(dict(contract=args[1], variant=args[2], dev=None, error='engine: %r' % e, obs=[], functions=[], notes=[], seconds=0, queries=0, solver=0)))
    conn.close()


def schedule(jobs, limit, deadline):
    """jobs: args of prove_one; each in its own process, at most JOBS at a time"""
    ctx = mp.get_context('fork')
    todo = list(jobs)[::-1]
    run, out = [], []
    while todo or run:
        while todo and len(run) < JOBS and time.time() < deadline:
            a = todo.pop()
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(w, a))
            p.start()
            w.close()
            run.append((p, r, a, time.time()))
        if todo and not run and time.time() >= deadline:
            for a in todo:
                out.append(dict(contract=a[1], variant=a[2], dev=None, error='undecided: time budget of the run', obs=[], functions=[], notes=[], seconds=0, queries=0, solver=0))
            break
        mp.connection.wait([r for _, r, _, _ in run], timeout=1.0)
        keep = []
        for p, r, a, t in run:
            if r.poll():
                try:
                    out.append(json.loads(r.recv()))
                except EOFError:
                    out.append(dict(contract=a[1], variant=a[2], dev=None, error='engine: worker died', obs=[], functions=[], notes=[], seconds=0, queries=0, solver=0))
                p.join()
            elif time.time() - t > limit or time.time() > deadline + limit:
                p.kill()
                p.join()
                out.append(dict(contract=a[1], variant=a[2], dev=None, error='undecided: time limit of %ds' % limit, obs=[], functions=[], notes=[], seconds=limit, queries=0, solver=0))
            else:
                keep.append((p, r, a, t))
        run = keep
    return out


# ------------------------------------------------------------------ run-time evaluation
def run_contracts(scratch, tasks, limit, extra=None):
    """evaluates contracts on the built code, in parallel runner processes"""
    if not tasks:
        return []
    n = min(JOBS, len(tasks))
    procs = []
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    env['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    env.update(extra or {})
    for k in range(n):
        part = tasks[k::n]
        if not part:
            continue
        ti, to = os.path.join(scratch, 'tasks%d.json' % k), os.path.join(scratch, 'out%d.json' % k)
        json.dump(part, open(ti, 'w'))
        for f in (to, to + '.now'):
            if os.path.exists(f):
                os.unlink(f)
        lg = open(os.path.join(scratch, 'log%d' % k), 'w')
        procs.append((subprocess.Popen([vbuild.PY, '-m', 'vc.runner', scratch, ti, to], cwd=scratch, env=env, stdout=lg, stderr=lg), to, part, lg.name))
    res = []
    t0 = time.time()
    for p, to, part, lg in procs:
        crash = None
        try:
            p.wait(max(5, limit - (time.time() - t0)))
            if p.returncode not in (0, None):
                crash = 'exit status %s: %s' % (p.returncode, crash_report(open(lg, errors='replace').read()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            crash = 'time limit'
        got = []
        if os.path.exists(to):
            try:
                got = json.load(open(to))
            except ValueError:
                pass
        for n, t in enumerate(part):
            if n < len(got):
                res.append(got[n])
            elif n == len(got) and crash and 'exit status' in crash and p.returncode < 0:
                now = {}
                if os.path.exists(to + '.now'):
                    now = json.load(open(to + '.now'))
                res.append(dict(contract=t['contract'], variant=t['variant'], runs=0, error=None,
                                failure=dict(what='the process dies: ' + crash, kind='crash', env=now, detail={})))
            else:
                res.append(dict(contract=t['contract'], variant=t['variant'], runs=0, failure=None, error='not run: %s' % crash))
    return res


def crash_report(log):
    m = re.search(r'ERROR: AddressSanitizer.*', log)
    if not m:
        return log[-800:]
    frames = [ln.strip() for ln in log[m.start():].split('\n') if re.match(r'\s*#\d+', ln) and 'panels' in ln][:3]
    return m.group(0)[:200] + ' at ' + ' | '.join(frames)


def evaluate(repo, tasks, limit):
    """builds what the tasks need and evaluates them"""
    runs = []
    for asan in (False, True):
        part = [t for t in tasks if registry.by_name()[t['contract']].asan == asan]
        if not part:
            continue
        scratch = tempfile.mkdtemp(prefix='panels-verify-')
        try:
            vbuild.build(repo, scratch, asan=asan)
            runs += run_contracts(scratch, part, limit, vbuild.asan_env(scratch) if asan else None)
        except RuntimeError as e:
            print('build failed: %s' % str(e)[:2000])
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return runs


def clean_hint(h):
    out = {}
    for k, v in (h or {}).items():
        try:
            f = float(v) if not isinstance(v, str) or '/' not in v else float(v.split('/')[0]) / float(v.split('/')[1])
        except Exception:
            continue
        if isinstance(k, str) and ('~' in k or k.startswith(('X_', 'H_'))):
            continue
        out[k] = int(f) if float(f).is_integer() and (isinstance(v, int) or str(v).lstrip('-').isdigit()) else f
    return out


def misread(o, rr):
    """the interpreter saw a type error where the real code runs through on the same path: nothing is decided"""
    return bool(re.match(r'raises (TypeError|AttributeError|NameError|ImportError)\b', o['detail'] or '') and rr and
                not rr.get('failure') and not rr.get('error') and rr.get('hint_runs'))


def points(h):
    """inputs to try for a failed obligation: one on its path, and the point at which its sides differ"""
    if not h:
        return []
    w = (h.get('_fix') or {})
    base = {k: v for k, v in h.items() if k == '_case'}
    return ([dict(base, **clean_hint(w))] if w else []) + [clean_hint({k: v for k, v in h.items() if k != '_fix'})]


def key(c, v):
    return c + json.dumps(v, sort_keys=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    if a.replay:
        return replay(a)
    t0 = time.time()
    prop = a.property
    cons = registry.for_property(prop)
    if not cons:
        print('no contract for', prop)
        return 2
    known = findings(prop)
    jobs = []
    for c in cons:
        devs = [f['deviation'] for f in known if f['contract'] == c.name]
        for v in c.variants():
            jobs.append((a.repo, c.name, v, devs))
    jobs.sort(key=lambda j: -registry.by_name()[j[1]].cost)
    budget = 420 if a.tier == 'quick' else 1500
    results = schedule(jobs, 200 if a.tier == 'quick' else 600, t0 + budget)
    obs = [dict(o, contract=r['contract'], variant=r['variant']) for r in results for o in r['obs']]
    departed = [o for r in results for o in r['obs'] if r['dev'] and o['status'] == 'proved']
    obs = [dict(o, contract=r['contract'], variant=r['variant']) for r in results if not r['dev'] for o in r['obs']]
    proved = [o for o in obs if o['status'] == 'proved']
    # functions the run really covered
    funcs = sorted({str(f) for r in results for f in r['functions']})
    failing = {}
    for r in results:
        bad = [o for o in r['obs'] if o['status'] != 'proved']
        if r['error'] or bad or not r['obs']:
            failing[key(r['contract'], r['variant'])] = (r, bad)
    kf = sorted({(f['contract'], f['deviation'], f['what']) for f in known
                 if any(r['contract'] == f['contract'] and r['dev'] == f['deviation'] and key(r['contract'], r['variant']) not in failing for r in results)})
    for c, d, w in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    # ---- run-time evaluation of what the verifier did not accept (and of everything in the thorough tier)
    bounded = []
    violations = []
    tasks = []
    for r in results:
        k = key(r['contract'], r['variant'])
        con = registry.by_name()[r['contract']]
        if not con.runnable:
            continue
        if k in failing or a.tier == 'thorough' or con.always_run:
            hints = []
            for o in (failing[k][1] if k in failing else []):
                for h in points(o.get('hint')):
                    if h not in hints and len(hints) < 12:
                        hints.append(h)
            devs = [f['deviation'] for f in known if f['contract'] == r['contract']]
            tasks.append(dict(contract=r['contract'], variant=r['variant'], hints=hints, dev=devs[0] if devs else None,
                              samples=(con.samples if a.tier == 'quick' else 3 * con.samples), seed=a.seed, seconds=60 if a.tier == 'quick' else 120))
    runs = []
    if tasks:
        runs = evaluate(a.repo, tasks, 300 if a.tier == 'quick' else 1500)
    ran = {key(r['contract'], r['variant']): r for r in runs}
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    groups = {}
    for k, (r, bad) in sorted(failing.items()):
        rr = ran.get(k)
        groups.setdefault(r['contract'], []).append((k, r, bad, rr))
    for k, rr in ran.items():
        if k not in failing and rr.get('failure'):
            r = [x for x in results if key(x['contract'], x['variant']) == k][0]
            groups.setdefault(r['contract'], []).append((k, r, [], rr))
    for rr in runs:
        if rr.get('error'):
            print('note: run-time evaluation of %s %s: %s' % (rr['contract'], rr['variant'], rr['error'][-300:]))
    undecided = []
    for cname, items in sorted(groups.items()):
        con = registry.by_name()[cname]
        fail = [(k, r, bad, rr) for k, r, bad, rr in items if rr and rr.get('failure')]
        path = os.path.join(HERE, 'replays', '%s-%s.json' % (prop, re.sub(r'\W+', '_', cname)))
        if fail:
            k, r, bad, rr = fail[0]
            json.dump(dict(property=prop, contract=cname, variant=r['variant'], where=con.where(), failure=rr['failure'],
                           obligations=[o for o in bad], error=r['error'], how='verify.py --replay ' + path), open(path, 'w'), indent=1, default=str)
            print('%s: %s' % (con.where(), rr['failure']['what'][:600]))
            for o in bad[:3]:
                print('  failed obligation: %s' % o['name'])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            violations.append(path)
            continue
        refuted = [o for k, r, bad, rr in items for o in bad if o['status'] == 'refuted' and not misread(o, rr)]
        if refuted:
            json.dump(dict(property=prop, contract=cname, where=con.where(), failed_obligations=refuted,
                           runtime=[rr for *_, rr in items if rr]), open(path, 'w'), indent=1, default=str)
            print('%s: failed obligation %s: %s' % (con.where(), refuted[0]['name'], refuted[0]['detail'][:500]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
            violations.append(path)
            continue
        for k, r, bad, rr in items:
            undecided.append(dict(contract=cname, variant=r['variant'], error=r['error'],
                                  obligations=[o['name'] + ' :: ' + o['detail'][:300] for o in bad][:10],
                                  bounded=(dict(runs=rr['runs'], error=rr.get('error')) if rr else None)))
    for u in undecided:
        print('UNDECIDED (bounded evaluation of %s inputs holds) %s %s %s' % ((u['bounded'] or {}).get('runs', 0), u['contract'], u['variant'],
              (u['error'] or u['obligations'][:1])))
        if u['bounded'] and u['bounded'].get('error'):
            print('   ', u['bounded']['error'][-600:])
    nob = len(obs)
    if nob == 0 and not any(rr['runs'] for rr in runs):
        print('no obligation was generated and nothing was evaluated')
        path = os.path.join(HERE, 'replays', '%s-none.json' % prop)
        json.dump(dict(property=prop, results=results), open(path, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        violations.append(path)
    backends = {}
    for o in proved:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    trusted = sorted({t for c in cons for t in c.trusted()})
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level='proof',
              coverage=dict(obligations=nob, discharged=len(proved), checker_cmd='python3-vt verify.py %s --tier %s' % (prop, a.tier),
                            trusted_base=trusted, contracts=sorted({c.name for c in cons}),
                            functions_under_contract=sorted({c.where() for c in cons}),
                            functions_executed_symbolically=funcs, discharged_by=backends,
                            solver_queries=sum(r['queries'] for r in results), solver_seconds=round(sum(r['solver'] for r in results), 2),
                            prover_cpu_seconds=round(sum(r['seconds'] for r in results), 2),
                            known_findings=[w for _, _, w in kf],
                            obligations_of_known_findings_discharged_against_the_recorded_departure=len(departed),
                            undecided=undecided,
                            bounded_evaluation=dict(label='bounded: contracts evaluated on the built code, never counted as proved',
                                                    contracts=len(tasks), inputs=sum(r['runs'] for r in runs)),
                            samples=[o['name'] + ' [' + o['backend'] + ']' for o in proved[:: max(1, len(proved) // 12)]]),
              assumptions=sorted({t for c in cons for t in c.assumptions()}), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d undecided contracts, %d violations, %d bounded evaluations, %.1fs' % (
        prop, nob, len(proved), len(undecided), len(violations), sum(r['runs'] for r in runs), time.time() - t0))
    return 1 if violations else 0


def replay(a):
    d = json.load(open(a.replay))
    if 'failure' not in d:
        print(json.dumps(d, indent=1)[:4000])
        return 1
    r = evaluate(a.repo, [dict(contract=d['contract'], variant=d['variant'], replay=d['failure']['env'], seconds=300)], 300)
    print(json.dumps(r, indent=1)[:4000])
    return 1 if r and r[0].get('failure') else 0


if __name__ == '__main__':
    sys.exit(main())
