'''Run inside the overlay environment: python -m mc.main ID tier [replay]'''
import importlib
import json
import logging
import os
import sys
import traceback


def main():
    pid, tier = sys.argv[1:3]
    replay = sys.argv[3] if len(sys.argv) > 3 else None
    import s3ql

    src = os.environ['MC_SRC']
    assert os.path.realpath(s3ql.__file__).startswith(os.path.realpath(src)), s3ql.__file__
    logging.disable(logging.CRITICAL)
    mod = None
    for f in sorted(os.listdir(os.path.join(os.path.dirname(__file__), '..', 'checks'))):
        if f.lower().startswith(pid.lower() + '_') and f.endswith('.py'):
            mod = importlib.import_module('checks.' + f[:-3])
    if mod is None:
        print('no such check', pid)
        return 2
    if replay:
        with open(replay) as fh:
            d = json.load(fh)
        return mod.replay(d['replay'])
    from mc import explore
    from mc.report import Report

    rep = Report(pid, tier, mod.LEVEL)
    if tier != 'quick':
        explore._PHANG = 3000
    try:
        mod.run(rep, tier)
    except explore.Violation as exc:
        rep.violation(exc.sig, exc.detail, {})
    except BaseException:
        if not rep.violations:
            raise
        traceback.print_exc()
    return rep.finish()


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit as exc:
        rc = exc.code
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc if isinstance(rc, int) else 2)
