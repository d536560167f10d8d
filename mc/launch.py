'''Build a scratch overlay of /repo/src, run one check in it, clean up.'''
import os
import shutil
import signal
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from mc import overlay  # noqa: E402


def scratch_root():
    try:
        st = os.statvfs('/dev/shm')
        if st.f_bavail * st.f_frsize > 2 * 1024**3 and os.access('/dev/shm', os.W_OK):
            return '/dev/shm'
    except OSError:
        pass
    return tempfile.gettempdir()


def main():
    args = sys.argv[1:]
    if not args:
        print('usage: check ID [quick|thorough] [--replay FILE]')
        return 2
    pid = args.pop(0)
    replay = None
    tier = os.environ.get('VERIF_TIER') or 'quick'
    while args:
        a = args.pop(0)
        if a == '--replay':
            replay = os.path.abspath(args.pop(0))
        elif a in ('quick', 'thorough'):
            tier = a
        else:
            print('bad argument', a)
            return 2
    scratch = tempfile.mkdtemp(prefix='s3qlmc-', dir=scratch_root())
    proc = None

    def on_term(signum, frame):
        if proc is not None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(2)

    signal.signal(signal.SIGTERM, on_term)
    signal.signal(signal.SIGINT, on_term)
    try:
        src = overlay.build(scratch, need_ext=overlay.needs_ext(VERIF, pid))
        env = dict(os.environ)
        env.update(
            PYTHONPATH=src + os.pathsep + VERIF,
            PYTHONDONTWRITEBYTECODE='1',
            PYTHONHASHSEED='0',
            MC_SCRATCH=os.path.join(scratch, 'work'),
            MC_SRC=src,
            VERIF_TIER=tier,
            VERIF_SEED=os.environ.get('VERIF_SEED', '1'),
            HOME=os.path.join(scratch, 'home'),
            TMPDIR=os.path.join(scratch, 'tmp'),
        )
        for d in ('work', 'home', 'tmp'):
            os.mkdir(os.path.join(scratch, d))
        env.pop('S3QL_CACHE_DIR', None)
        cmd = [sys.executable, '-u', '-W', 'ignore', '-m', 'mc.main', pid, tier]
        if replay:
            cmd += [replay]
        proc = subprocess.Popen(cmd, env=env, cwd=VERIF, start_new_session=True)
        rc = proc.wait()
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        return rc if rc in (0, 1) else 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
