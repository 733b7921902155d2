"""Run-time evaluation of contracts against the built code (executed by the interpreter that has the package).

usage: python -m vc.runner BUILD_DIR TASKS.json OUT.json
tasks: [{contract, variant, dev, hints: [env], samples, seed, seconds}]
"""
import importlib
import json
import os
import random
import sys
import time
import traceback


def getfunc_in(build):
    sys.path.insert(0, build)

    def getfunc(module, func):
        m = importlib.import_module(module)
        if not os.path.abspath(m.__file__).startswith(os.path.abspath(build)):
            raise RuntimeError('wrong module ' + m.__file__)
        return getattr(m, func)
    return getfunc


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    return x


def attempt(con, variant, env, getfunc, Mis, exact=False):
    """None when the contract holds, else a description"""
    try:
        con.run(variant, env, getfunc)
    except Mis as e:
        return {'what': e.what, 'detail': jsonable(e.kw)}
    return None


def one(task, getfunc, current=None):
    from . import registry
    from .contracts import Mis
    con = registry.by_name()[task['contract']]
    v = task['variant']
    rng = random.Random('%s|%s|%s' % (task.get('seed', 1), task['contract'], json.dumps(v, sort_keys=True)))
    res = {'contract': con.name, 'variant': v, 'runs': 0, 'hint_runs': 0, 'failure': None, 'error': None}
    t0 = time.time()
    todo = [('hint', dict(h)) for h in task.get('hints', [])] + [('random', {})] * task.get('samples', 20)
    if task.get('replay') is not None:
        todo = [('replay', dict(task['replay']))]
    for kind, env in todo:
        if time.time() - t0 > task.get('seconds', 60):
            break
        con.dev = None
        try:
            env = env if kind == 'replay' else con.sample(v, rng, env)
        except Exception as e:
            if kind == 'hint':
                continue
            res['error'] = 'sampling: ' + traceback.format_exc(limit=-4)
            break
        if current:
            # what was running, should the process die
            json.dump(jsonable(env), open(current, 'w'))
        try:
            f = attempt(con, v, env, getfunc, Mis)
            if f is not None and task.get('dev'):
                con.dev = task['dev']
                f2 = attempt(con, v, env, getfunc, Mis)
                con.dev = None
                if f2 is None:
                    f = None
        except Exception:
            res['error'] = traceback.format_exc(limit=-4)
            break
        res['runs'] += 1
        if kind == 'hint':
            res['hint_runs'] += 1
        if f is not None:
            res['failure'] = dict(f, env=jsonable(env), kind=kind)
            break
    res['seconds'] = time.time() - t0
    return res


def main():
    build, tasks, out = sys.argv[1:4]
    getfunc = getfunc_in(build)
    res = []
    for t in json.load(open(tasks)):
        try:
            res.append(one(t, getfunc, out + '.now'))
        except Exception:
            res.append({'contract': t['contract'], 'variant': t['variant'], 'runs': 0, 'failure': None, 'error': traceback.format_exc(limit=-5)})
        json.dump(res, open(out, 'w'))


if __name__ == '__main__':
    main()
