"""Makes and confirms a planted bug in a scratch copy of /repo.

python3 tools/seed.py make FILE.json    {id, property, file, edits: [[old, new], ...] (or files: {..}), needs, breaks, demo}
python3 tools/seed.py confirm ID        clean: demo passes; patched: builds, stable tests pass, demo fails
python3 tools/seed.py check ID [PROP]   runs verify.py of the property on the patched copy
"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def copy():
    d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    r = os.path.join(d, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', r])
    return d, r


def build(r):
    env = {'PATH': '/usr/lib/ccache:' + os.environ['PATH'], 'CCACHE_DIR': '/opt/vp/ccache', 'PYTHONPATH': r,
           'PYTHONDONTWRITEBYTECODE': '1'}
    return sh('find panels -name "*.so" -delete; CYTHON_FORCE_REGEN=1 %s setup.py build_ext --inplace --force' % PY, r, env)


def demo(d, r):
    return sh('bash %s/demo.sh' % d, r, timeout=300)


def make(spec):
    sid = spec['id']
    out = os.path.join(HERE, 'seeded', sid)
    os.makedirs(out, exist_ok=True)
    d, r = copy()
    try:
        sh('git checkout -q -- .', r)
        files = spec.get('files') or {spec['file']: spec['edits']}
        for f, edits in files.items():
            p = os.path.join(r, f)
            s = open(p).read()
            for e in edits:
                old, new = e[0], e[1]
                n = e[2] if len(e) > 2 else None     # which occurrence
                c = s.count(old)
                assert c >= 1, (sid, 'not found', old)
                if n is None:
                    assert c == 1, (sid, 'occurs %d times' % c, old)
                    n = 0
                pos = -1
                for _ in range(n + 1):
                    pos = s.index(old, pos + 1)
                s = s[:pos] + new + s[pos + len(old):]
            open(p, 'w').write(s)
        diff = sh('git diff', r).stdout
        assert diff
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    finally:
        shutil.rmtree(d)
    open(os.path.join(out, 'demo.sh'), 'w').write(
        '#!/bin/bash\n# run with the repository as working directory, after the build\n'
        'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(os.path.join(out, 'demo.py'), 'w').write(spec['demo'])
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)


def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def confirm(sid):
    s = os.path.join(HERE, 'seeded', sid)
    d, r = copy()
    ok = True
    try:
        sh('git checkout -q -- .', r)
        x = demo(s, r)
        print(sid, 'demo on the clean tree:', x.returncode, (x.stdout + x.stderr)[-300:].strip())
        ok &= x.returncode == 0
        x = sh('git apply %s/patch.diff' % s, r)
        assert x.returncode == 0, x.stderr
        if any(l.startswith('+++') and not l.rstrip().endswith('.py') for l in open(s + '/patch.diff')):
            x = build(r)
            print(sid, 'build:', x.returncode, x.stderr[-300:] if x.returncode else '')
            ok &= x.returncode == 0
        x = demo(s, r)
        print(sid, 'demo with the patch:', x.returncode, (x.stdout + x.stderr)[-300:].strip())
        ok &= x.returncode != 0
        env = dict(MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=r, PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', MPLCONFIGDIR='/tmp/w')
        x = sh('%s -m pytest tests -q -p no:cacheprovider -n 8 --timeout=300 -rA --continue-on-collection-errors' % PY, r, env)
        failed = re.findall(r'^(?:FAILED|ERROR) (\S+)', x.stdout, re.M)
        st = {re.sub(r'[^a-zA-Z0-9]', '', t) for t in stable()}
        bad = [f for f in failed if any(re.sub(r'[^a-zA-Z0-9]', '', f.split('::')[-1]) in t for t in st)]
        print(sid, 'tests:', x.stdout.strip().splitlines()[-1], 'failing stable:', bad)
        ok &= not bad and 'passed' in x.stdout
    finally:
        shutil.rmtree(d)
    print(sid, 'CONFIRMED' if ok else 'NOT CONFIRMED', flush=True)
    return ok


def check(sid, prop=None):
    s = os.path.join(HERE, 'seeded', sid)
    prop = prop or json.load(open(s + '/meta.json'))['property']
    d, r = copy()
    try:
        sh('git checkout -q -- .', r)
        sh('git apply %s/patch.diff' % s, r)
        x = sh('python3-vt verify.py %s --tier quick --repo %s' % (prop, r), HERE)
        print(sid, prop, 'rc', x.returncode, [l for l in x.stdout.splitlines() if 'VIOLATION' in l][:2], x.stderr[-300:], flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    cmd, rest = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        for f in rest:
            sp = json.load(open(f))
            for x in (sp if isinstance(sp, list) else [sp]):
                make(x)
    elif cmd == 'confirm':
        for i in rest:
            confirm(i)
    else:
        check(*rest)
