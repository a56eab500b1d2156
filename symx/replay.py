"""python -m symx.replay FILE: run one concrete input on the real code.

Exit 1 if the property fails on it (prints why), 0 if it holds, 3 otherwise.
"""
import json
import os
import sys


def main(path):
    import resource
    import signal
    from . import session
    from .plain import run_plain
    with open(path) as f:
        rec = json.load(f)
    secs = rec.get('timeout', 20)
    resource.setrlimit(resource.RLIMIT_CPU, (secs + 5, secs + 6))
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))

    class Late(BaseException):
        pass

    def late(*a):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(secs)
    out = os.fdopen(os.dup(1), 'w')
    try:
        mod = session.native(rec['module'])
        fn = getattr(mod, rec['harness'])
        st, detail, obs = run_plain(fn, rec['inputs'], rec['params'])
    except Late:
        st, detail, obs = 'timeout', 'no result after %d s of CPU' % secs, ''
    except MemoryError:
        st, detail, obs = 'timeout', 'memory exhausted', ''
    signal.alarm(0)
    print('%s: %s' % (st, detail), file=out)
    if st == 'error':
        print(obs, file=out)
    out.flush()
    if st in ('fail', 'error', 'timeout'):
        return 1
    return 0 if st == 'ok' else 3


if __name__ == '__main__':
    rc = main(sys.argv[1])
    sys.stdout.flush()
    os._exit(rc)
