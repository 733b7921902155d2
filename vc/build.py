"""Build of the repository's current sources in a scratch directory (never trusts binaries lying in the tree)."""
import ast
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'


def extensions(repo):
    """[(module name, [sources])] declared by setup.py"""
    tree = ast.parse(open(os.path.join(repo, 'setup.py')).read())
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'Extension':
            name = n.args[0].value if n.args else [k.value.value for k in n.keywords if k.arg == 'name'][0]
            src = [k.value for k in n.keywords if k.arg == 'sources']
            src = src[0] if src else n.args[1]
            out.append((name, [os.path.normpath(e.value) for e in src.elts]))
    return out


def run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-3000:]))
    return p.stdout.decode(errors='replace')


def asan_env(scratch):
    lib = subprocess.run(['g++', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
    return dict(LD_PRELOAD=os.path.realpath(lib), PYTHONMALLOC='malloc',
                ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:halt_on_error=1:max_malloc_fill_size=100000000:malloc_fill_byte=255:allocator_may_return_null=1')


def build(repo, dest=None, jobs=8, modules=None, asan=False):
    """copies the sources of repo to dest and builds the extensions there; returns dest"""
    dest = dest or tempfile.mkdtemp(prefix='panels-build-')

    def ign(d, names):
        return [x for x in names if x in ('.git', 'build', '__pycache__', '.hypothesis') or x.endswith(('.so', '.pyc', '.o'))
                or (x.endswith('.cpp') and os.path.exists(os.path.join(d, x[:-4] + '.pyx')))]
    for top in ('panels', 'setup.py'):
        s = os.path.join(repo, top)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dest, top), ignore=ign)
        else:
            shutil.copy(s, dest)
    env = dict(os.environ, LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=dest)
    vpy = os.path.join(dest, 'panels', 'version.py')
    if not os.path.exists(vpy):
        open(vpy, 'w').write("__version__ = version = short_version = '0'\n")
    exts = extensions(repo)
    if modules is not None:
        exts = [e for e in exts if e[0] in modules]
    inc = run([PY, '-c', 'import sysconfig; print(sysconfig.get_paths()["include"]); print(sysconfig.get_config_var("EXT_SUFFIX"))'], dest, env).split()
    objdir = os.path.join(dest, 'obj')
    os.makedirs(objdir)
    flags = ['-O1', '-fPIC', '-fopenmp', '-fwrapv', '-w', '-DNDEBUG', '-I' + inc[0], '-I' + os.path.join(dest, 'panels/core/include')]

    san = ['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else []
    flags += san + (['-g1'] if asan else [])

    def obj(src):
        return os.path.join(objdir, src.replace('/', '__') + '.o')

    def one(src):
        s = src
        if src.endswith('.pyx'):
            s = src[:-4] + '.cpp'
            run([PY, '-m', 'cython', '--cplus', '-3', '-X', 'linetrace=True', src, '-o', s], dest, env)
        run(['g++'] + flags + ['-c', s, '-o', obj(src)], dest, env)
    srcs = sorted({s for _, ss in exts for s in ss}, key=lambda s: -os.path.getsize(os.path.join(dest, s)))
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, srcs))

        def link(e):
            name, ss = e
            so = os.path.join(dest, name.replace('.', '/') + inc[1])
            run(['g++', '-shared', '-fopenmp'] + san + [obj(s) for s in ss] + ['-o', so], dest, env)
        list(ex.map(link, exts))
    return dest


if __name__ == '__main__':
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
