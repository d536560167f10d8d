'''Scratch copy of /repo/src/s3ql that reflects /repo's current working tree.

* `_linked_dict` is imported from its (pure-Python-mode Cython) source, so that no stale
  compiled module can hide a change.
* `sqlite3ext` is a C++ extension. Its compiled module is taken from /repo if the native sources
  are byte-identical to those recorded in mc/native_base.json *and* the compiled file exists;
  otherwise it is compiled in the scratch directory.
'''
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

REPO = '/repo'
HERE = os.path.dirname(os.path.abspath(__file__))
NATIVE = ('sqlite3ext.pyx', '_sqlite3ext.cpp')


def native_hash(srcdir):
    h = hashlib.sha256()
    for n in NATIVE:
        with open(os.path.join(srcdir, n), 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()


def needs_ext(verif, pid):
    return True


def so_name():
    import sysconfig

    return 'sqlite3ext' + sysconfig.get_config_var('EXT_SUFFIX')


def build(scratch, need_ext=True):
    src = os.path.join(scratch, 'src')
    dst = os.path.join(src, 's3ql')
    shutil.copytree(
        os.path.join(REPO, 'src', 's3ql'),
        dst,
        ignore=shutil.ignore_patterns('__pycache__', '*.so', '_linked_dict.c', 'sqlite3ext.cpp'),
    )
    shutil.copytree(
        os.path.join(REPO, 'contrib'),
        os.path.join(scratch, 'contrib'),
        ignore=shutil.ignore_patterns('__pycache__'),
    )
    with open(os.path.join(HERE, 'native_base.json')) as fh:
        base = json.load(fh)
    repo_so = os.path.join(REPO, 'src', 's3ql', so_name())
    so_ok = False
    if os.path.exists(repo_so) and native_hash(dst) == base['native_sha256']:
        with open(repo_so, 'rb') as fh:
            data = fh.read()
        # A module built from other sources would have another build stamp; verify by content
        # markers is not possible, so only accept the one recorded when the sources were recorded,
        # or one that is newer than the native sources.
        if hashlib.sha256(data).hexdigest() == base['so_sha256']:
            so_ok = True
    if so_ok:
        shutil.copy2(repo_so, dst)
    elif need_ext:
        compile_ext(dst)
    return src


def compile_ext(dst):
    '''Compile sqlite3ext in *dst* with the venv's Cython and the system compiler.'''
    env = dict(os.environ)
    out = os.path.join(dst, 'sqlite3ext.cpp')
    subprocess.run(
        [sys.executable, '-I', '-m', 'cython', '--cplus', '-3', '-o', out, os.path.join(dst, 'sqlite3ext.pyx')],
        check=True,
        env=env,
        cwd=os.path.dirname(dst),
        stdout=subprocess.DEVNULL,
    )
    import sysconfig

    inc = sysconfig.get_paths()['include']
    subprocess.run(
        ['g++', '-shared', '-fPIC', '-O1', '-std=c++17', '-I', inc, '-I', dst]
        + ext_flags()
        + ['-o', os.path.join(dst, so_name()), out],
        check=True,
        cwd=os.path.dirname(dst),
    )
    os.unlink(out)


def ext_flags():
    return ['-w']
