"""Plain (concrete) mode: replays one input assignment on the real code."""
import os
import sys
import io
import tempfile
import shutil
import logging
import warnings


class PlainFail(Exception):
    pass


class PlainInfeasible(Exception):
    pass


# While a replay runs, the code under test may only write below its own
# scratch directory, wherever a wrong path would lead it.
_GUARD = {'root': None, 'hooked': False}
_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_PATHS = {'os.mkdir': 1, 'os.remove': 1, 'os.rmdir': 1, 'os.rename': 2, 'os.link': 2, 'os.symlink': 2,
          'os.truncate': 1, 'os.chmod': 1, 'os.chown': 1, 'os.utime': 1, 'shutil.rmtree': 1,
          'shutil.move': 2}
_NEVER = ('os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn', 'os.kill', 'os.killpg', 'socket.connect')


def _hook(event, args):
    root = _GUARD['root']
    if root is None:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int) or not (flags or 0) & _WRITE:
            return
        paths = [path]
    elif event in _PATHS:
        paths = args[:_PATHS[event]]
    elif event in _NEVER:
        raise PermissionError(1, 'not during a replay: %s' % event)
    else:
        return
    for p in paths:
        if isinstance(p, int):
            continue
        real = os.path.realpath(os.fsdecode(p))
        if real != root and not real.startswith(root + os.sep) and real != os.devnull:
            raise PermissionError(13, 'outside the scratch directory of the replay', os.fsdecode(p))


class PlainS(object):
    symbolic = False

    def __init__(self, inputs, params=None):
        self.inputs = inputs
        self.params = dict(params or {})
        self.names = set()
        self.failures = []
        self.observed = []
        self.tmp = None
        self.missing = []
        self._log = []
        self._level = None
        self._stubs = []

    def _name(self, name):
        n = name
        k = 1
        while n in self.names:
            k += 1
            n = '%s~%d' % (name, k)
        self.names.add(n)
        return n

    def _get(self, name, default):
        n = self._name(name)
        if n not in self.inputs:
            self.missing.append(n)
            return default
        return self.inputs[n]

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        return min(max(v, lo), hi)

    def bool(self, name): return bool(self._get(name, False))
    flag = bool

    def choice(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def size(self, name, lo, hi): return self.int(name, lo, hi)

    def str(self, name, lo, hi, alphabet):
        # (what a path never got to ask for is of the least length)
        return self._get(name, ''.join(map(chr, alphabet.codes[:1])) * lo if hasattr(alphabet, 'codes') else alphabet[:1] * lo)

    def char(self, name, alphabet): return self.str(name, 1, 1, alphabet)

    def assume(self, cond):
        if not cond:
            raise PlainInfeasible()

    def require(self, cond, msg):
        if not cond:
            self.failures.append(msg)
            raise PlainFail(msg)

    def reach(self, tag): pass
    def observe(self, x): self.observed.append(x)
    def eq(self, a, b): return a == b

    def start(self):
        self._old = sys.stdout
        self._olderr = sys.stderr
        sys.stderr = io.StringIO()
        self._oldcwd = os.getcwd()
        sys.stdout = self._out = io.StringIO()
        self._handler = _H(self._log)
        if not _GUARD['hooked']:
            _GUARD['hooked'] = True
            sys.addaudithook(_hook)
        _GUARD['root'] = os.path.realpath(self._dir())
        root = logging.getLogger()
        self._oldlevel = root.level
        self._oldh = root.handlers[:]
        root.handlers[:] = [self._handler]
        root.setLevel(logging.WARNING)
        self._basic = logging.basicConfig
        logging.basicConfig = _basic_config
        self._cw = warnings.catch_warnings(record=True)
        self._ws = self._cw.__enter__()
        warnings.simplefilter('always')

    def stop(self):
        sys.stdout = self._old
        sys.stderr = self._olderr
        _GUARD['root'] = None
        self._cw.__exit__(None, None, None)
        logging.basicConfig = self._basic
        root = logging.getLogger()
        root.handlers[:] = self._oldh
        root.setLevel(self._oldlevel)
        os.chdir(self._oldcwd)
        for name, old in reversed(self._stubs):
            if old is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = old
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def stdout(self): return self._out.getvalue()

    def stringio(self, s=''):
        return io.StringIO(s)

    def logs(self): return list(self._log)
    def set_loglevel(self, n): logging.getLogger().setLevel(n)

    def warned(self):
        return [(w.category, w.message) for w in self._ws]

    def _dir(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='verif-replay-')
        return self.tmp

    def mkpath(self, name): return os.path.join(self._dir(), name)

    def put_file(self, name, text):
        p = self.mkpath(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', newline='') as f:
            f.write(text)
        return p

    def get_file(self, path):
        if not os.path.exists(path):
            return None
        with open(path, newline='') as f:
            return f.read()

    def list_files(self):
        out = []
        for d, _, fs in os.walk(self._dir()):
            out.extend(os.path.join(d, f) for f in fs)
        return sorted(out)

    def stub_module(self, name, **attrs):
        import types
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        self._stubs.append((name, sys.modules.get(name)))
        sys.modules[name] = m


class _H(logging.Handler):
    def __init__(self, out):
        logging.Handler.__init__(self)
        self.out = out

    def emit(self, r):
        if r.levelno >= 20:
            self.out.append((r.levelno, r.msg))


def _basic_config(level=None, **k):
    if level is not None:
        logging.getLogger().setLevel(level)


def canon(x):
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if isinstance(x, dict):
        return sorted(([canon(k), canon(v)] for k, v in x.items()), key=repr)
    if isinstance(x, (set, frozenset)):
        return sorted((canon(y) for y in x), key=repr)
    if isinstance(x, bytes):
        return x.decode('latin-1')
    if x is None or isinstance(x, (str, int, bool, float)):
        return x
    return '<%s>' % type(x).__name__


def run_plain(fn, inputs, params=None):
    """-> (status, detail, observed); status: ok, fail, infeasible, error"""
    s = PlainS(inputs, params)
    s.start()
    try:
        try:
            fn(s)
            return 'ok', '', [canon(o) for o in s.observed]
        except PlainFail as ex:
            return 'fail', str(ex), [canon(o) for o in s.observed]
        except PlainInfeasible:
            return 'infeasible', '', []
        except TimeoutError:
            raise
        except Exception as ex:
            import traceback
            return 'error', '%s: %s' % (type(ex).__name__, ex), traceback.format_exc()
    finally:
        s.stop()
