"""Runs /repo's own unit tests through the transformed code (no symbols):
the encoding must give the verdict the real interpreter gives."""
import os
import subprocess
import sys
import traceback


def main():
    from . import session, stubs, transform, rt
    from . import engine as E
    session.native_setup()
    sys.setrecursionlimit(12000)
    ld = transform.Loader({'xigt': session.REPO, 'tests': session.REPO})
    stubs.install(ld)
    tdir = os.path.join(session.REPO, 'tests')
    n = bad = 0
    for f in sorted(os.listdir(tdir)):
        if not (f.startswith('test_') and f.endswith('.py')) and not f.endswith('_test.py'):
            continue
        try:
            src = open(os.path.join(tdir, f)).read()
            import types
            m = types.ModuleType(f[:-3])
            m.__dict__.update(__symx__=True, __builtins__=ld.builtins,
                              __package__='tests', __file__=os.path.join(tdir, f))
            exec(transform.compile_src(src, f, f[:-3]), m.__dict__)
        except Exception:
            print('SKIP', f, traceback.format_exc().splitlines()[-1])
            continue
        cases = []
        for k, v in list(m.__dict__.items()):
            if k.startswith('test') and callable(v):
                cases.append((k, v))
            elif isinstance(v, type) and k.startswith('Test'):
                for kk in sorted(vars(v)):
                    if kk.startswith('test'):
                        def run(v=v, kk=kk):
                            o = v()
                            if hasattr(o, 'setup_method'):
                                o.setup_method(None)
                            getattr(o, kk)()
                        cases.append((k + '.' + kk, run))
        for name, fn in cases:
            stubs.reset()
            E.ENGINE = E.Engine()
            n += 1
            try:
                fn()
            except BaseException:
                bad += 1
                print('FAIL', f, name)
                if '-v' in sys.argv:
                    traceback.print_exc()
    print('%d tests through the encoding, %d failed' % (n, bad))
    # Python's own features on symbolic values against native replays
    r = subprocess.call([sys.executable, '-B', '-m', 'symx.run', 'battery'],
                        cwd=session.VERIF)
    return 1 if bad or r else 0


if __name__ == '__main__':
    sys.exit(main())
