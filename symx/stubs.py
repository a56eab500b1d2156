"""Environment models used by the symbolic runs (see DESIGN.md, stubs)."""
import collections as _collections
import io as _io
import logging as _logging
import os as _os
import types
import warnings as _warnings
from . import rt, symre
from .engine import SymInt, SymBool, Unsupported
from .symstr import SymStr, raw, mkstr, isstr
from .containers import (SymDict, SymDefaultDict, SymOrderedDict, SymCounter,
                         SymSet, SymFrozenSet)


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    m.__dict__['__symx__'] = True
    return m


# -- io ---------------------------------------------------------------------

class SymStringIO(object):
    def __init__(self, s='', newline='\n'):
        self._parts = [s] if s else []
        self._pos = 0
        self._path = None
        self.closed = False
        self.encoding = 'utf-8'

    def _text(self):
        if len(self._parts) > 1:
            self._parts = [raw('').join(self._parts)]
        return self._parts[0] if self._parts else ''

    def write(self, s):
        if isinstance(s, JSONDoc):
            if self._parts:
                raise Unsupported('several JSON documents in one file')
            self._parts = [s]
            self._pos = None
            if self._path is not None:
                rt.VFS[self._path] = s
            return 1
        if not isstr(s):
            raise TypeError('string argument expected')
        self._parts.append(s)
        self._pos = None
        if self._path is not None:
            rt.VFS[self._path] = self._text()
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def getvalue(self): return self._text()

    def read(self, n=-1):
        t = self._text()
        if isinstance(t, JSONDoc):
            return t if self._pos == 0 else ''
        p = len(t) if self._pos is None else self._pos
        e = len(t) if n is None or n < 0 else min(len(t), p + n)
        self._pos = e
        return t[p:e]

    def readline(self):
        t = self._text()
        p = len(t) if self._pos is None else self._pos
        i = raw(t).find('\n', p)
        e = len(t) if i < 0 else i + 1
        self._pos = e
        return t[p:e]

    def __iter__(self):
        while True:
            s = self.readline()
            if not s:
                return
            yield s

    def readlines(self): return list(self)

    def seek(self, p, w=0):
        self._pos = p if w == 0 else len(self._text())
        return self._pos

    def tell(self): return len(self._text()) if self._pos is None else self._pos
    def flush(self): pass
    def readable(self): return True
    def writable(self): return True
    def seekable(self): return True
    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


class SymBinaryIO(SymStringIO):
    """a file opened for reading bytes"""
    def __init__(self, s):
        SymStringIO.__init__(self, s if isinstance(s, (JSONDoc, bytes)) else s.encode('utf-8'))
        del self.encoding

    def _text(self):
        return self._parts[0] if self._parts else b''

    def readline(self):
        t = self._text()
        p = self._pos
        i = t.find(b'\n', p)
        self._pos = len(t) if i < 0 else i + 1
        return t[p:self._pos]

    def write(self, s):
        raise OSError('not writable')


class _BytesIO(type(_io.BytesIO)):
    """io.BytesIO; over symbolic bytes, a file opened for reading them"""
    def __call__(cls, initial_bytes=b''):
        if isinstance(initial_bytes, bytes) and type(initial_bytes) is not bytes:
            return SymBinaryIO(initial_bytes)
        return _io.BytesIO(initial_bytes)

    def __instancecheck__(cls, x):
        return isinstance(x, _io.BytesIO) or type(x) is SymBinaryIO


SymBytesIO = _BytesIO('BytesIO', (_io.BytesIO,), {})


class SymBinaryOut(SymBinaryIO):
    """a file opened for writing bytes; what can be decoded is kept as text"""
    def __init__(self, path, s):
        SymBinaryIO.__init__(self, s)
        self._path = path
        self._store()

    def _store(self):
        t = self._text()
        try:
            t = t.decode('utf-8')
        except UnicodeDecodeError:
            pass
        rt.VFS[self._path] = t

    def write(self, s):
        if not isinstance(s, bytes):
            raise TypeError("a bytes-like object is required, not 'str'")
        self._parts = [self._text() + s]
        self._pos = None
        self._store()
        return len(s)

    def readable(self): return False


class SymBuffer(_io.BufferedIOBase):
    """the binary file below a text file; its contents are kept as text"""
    def __init__(self, f):
        self._f = f

    def writable(self): return True
    def readable(self): return True

    def write(self, b):
        if isstr(b):
            raise TypeError("a bytes-like object is required, not 'str'")
        raise Unsupported('bytes written to a file')


def encoded(s, encoding, errors):
    """the text that decoding what is written for s gives"""
    enc = encoding.lower().replace('_', '-')
    top = {'utf-8': 0x110000, 'utf8': 0x110000, 'ascii': 0x80, 'us-ascii': 0x80}.get(enc)
    if top is None:
        raise Unsupported('encoding ' + encoding)
    hi = None if top > 0x10ffff else chr(top)
    out = []
    for c in s:
        if type(c) is str:
            bad = c >= '\ud800' and c <= '\udfff' or hi is not None and c >= hi
        else:
            bad = bool(c >= '\ud800') and bool(c <= '\udfff') or hi is not None and bool(c >= hi)
        if bad:
            if errors != 'xmlcharrefreplace':
                raise UnicodeEncodeError(encoding, '?', 0, 1, 'not encodable')
            c = '&#%d;' % ord(rt.realise(c))
        out.append(c)
    return raw('').join(out)


class SymTextWrapper(object):
    def __init__(self, f, encoding='utf-8', errors='strict'):
        self._f, self._encoding, self._errors = f, encoding, errors

    def write(self, s):
        if not isstr(s):
            raise TypeError('string argument expected')
        self._f.write(encoded(s, self._encoding, self._errors))
        return len(s)

    def detach(self): pass
    def flush(self): pass


def text_wrapper(f, encoding=None, errors=None, newline=None, *a, **k):
    if isinstance(f, SymBuffer):
        return SymTextWrapper(f._f, encoding or 'utf-8', errors or 'strict')
    return _io.TextIOWrapper(f, encoding, errors, newline, *a, **k)


io_stub = module('io', StringIO=SymStringIO, BytesIO=SymBytesIO,
                 TextIOWrapper=text_wrapper, BufferedWriter=_io.BufferedWriter,
                 BufferedIOBase=_io.BufferedIOBase, RawIOBase=_io.RawIOBase,
                 TextIOBase=_io.TextIOBase, IOBase=_io.IOBase,
                 open=rt.rt_open, BufferedReader=_io.BufferedReader)

# -- collections --------------------------------------------------------------

collections_stub = module(
    'collections', OrderedDict=SymOrderedDict, defaultdict=SymDefaultDict,
    Counter=SymCounter, deque=_collections.deque,
    namedtuple=_collections.namedtuple, abc=_collections.abc,
    ChainMap=_collections.ChainMap, UserDict=_collections.UserDict,
    UserList=_collections.UserList)
collections_stub.__path__ = []
collections_abc_stub = _collections.abc

# -- warnings -----------------------------------------------------------------


class _WS(object):
    def __init__(self):
        self.sinks = []
        self.log = []

    def reset(self):
        self.sinks = []
        self.log = []

WS = _WS()


class WarningMessage(object):
    def __init__(self, message, category, filename='', lineno=0):
        self.message = message
        self.category = category
        self.filename = filename
        self.lineno = lineno


def warn(message, category=None, stacklevel=1, source=None):
    if isinstance(message, Warning):
        category = type(message)
    category = category or UserWarning
    w = WarningMessage(message, category)
    (WS.sinks[-1] if WS.sinks else WS.log).append(w)


def warn_explicit(message, category, filename='', lineno=0, *a, **k):
    warn(message, category)


class catch_warnings(object):
    def __init__(self, record=False, **k):
        self.record = record

    def __enter__(self):
        sink = []
        WS.sinks.append(sink)
        return sink if self.record else None

    def __exit__(self, *a):
        WS.sinks.pop()


warnings_stub = module(
    'warnings', warn=warn, warn_explicit=warn_explicit,
    catch_warnings=catch_warnings, simplefilter=lambda *a, **k: None,
    filterwarnings=lambda *a, **k: None, resetwarnings=lambda: None,
    WarningMessage=WarningMessage)

# -- logging ------------------------------------------------------------------


class _Log(object):
    def __init__(self):
        self.records = []
        self.level = _logging.WARNING

    def reset(self):
        self.records = []
        self.level = _logging.WARNING

    def log(self, level, msg='', *args, **k):
        if level >= max(self.level, 20):
            self.records.append((level, msg))

    def debug(self, *a, **k): pass
    def info(self, msg='', *a, **k): self.log(20, msg)
    def warning(self, msg='', *a, **k): self.log(30, msg)
    def error(self, msg='', *a, **k): self.log(40, msg)
    def critical(self, msg='', *a, **k): self.log(50, msg)

    def basicConfig(self, level=None, **k):
        if level is not None:
            self.level = level
    warn = warning
    exception = error
    def getEffectiveLevel(self): return self.level
    def isEnabledFor(self, l): return l >= self.level
    def setLevel(self, l): self.level = l
    def addHandler(self, h): pass


LOG = _Log()
logging_stub = module(
    'logging', log=LOG.log, debug=LOG.debug, info=LOG.info,
    warning=LOG.warning, warn=LOG.warning, error=LOG.error,
    exception=LOG.error, critical=LOG.critical, getLogger=lambda *a: LOG,
    basicConfig=LOG.basicConfig, NullHandler=_logging.NullHandler,
    NOTSET=0, DEBUG=10, INFO=20, WARNING=30, WARN=30, ERROR=40, CRITICAL=50,
    FATAL=50, getLevelName=lambda l: _logging.getLevelName(rt.realise(l)))

# -- json: loads(dumps(x)) is x for trees of str-keyed dicts --------------------


class JSONDoc(object):
    def __init__(self, data, opts=None):
        self.data = data
        self.opts = opts or {}

    def text(self):
        import json
        return json.dumps(_realised(self.data), **self.opts)

    def encode(self, *a): return self.text().encode(*a)
    def __add__(self, o): return self.text() + o
    def __radd__(self, o): return o + self.text()
    def __bool__(self): return True
    def __len__(self): return len(self.text())
    def __str__(self): return self.text()

    def __getattr__(self, name):
        return getattr(raw(self.text()), name)


def _realised(x):
    if isinstance(x, list):
        return [_realised(y) for y in x]
    if isinstance(x, SymDict):
        return {rt.realise(k): _realised(v) for k, v in x.items()}
    return rt.realise(x)


def _json_norm(x):
    if x is None or isinstance(x, bool) or isinstance(x, (int, float)):
        return x
    if isstr(x):
        return x
    if isinstance(x, (list, tuple)):
        return [_json_norm(y) for y in x]
    if isinstance(x, SymDict):
        d = SymDict()
        for k, v in x.items():
            if k is None:
                k = 'null'
            elif k is True or k is False:
                k = 'true' if k else 'false'
            elif isinstance(k, (int, float)) and not isstr(k):
                k = str(rt.realise(k))
            elif not isstr(k):
                raise TypeError('keys must be str, int, float, bool or None')
            d[k] = _json_norm(v)
        return d
    raise TypeError('Object of type %s is not JSON serializable' % type(x).__name__)


def json_dumps(obj, **k):
    return JSONDoc(_json_norm(obj), {a: v for a, v in k.items() if a in ('ensure_ascii', 'indent', 'separators')})


def json_loads(s, **k):
    if isinstance(s, JSONDoc):
        return _json_norm(s.data)
    import json
    return _to_sym(json.loads(rt.realise(s)))


def _to_sym(x):
    if isinstance(x, dict):
        return SymDict((k, _to_sym(v)) for k, v in x.items())
    if isinstance(x, list):
        return [_to_sym(y) for y in x]
    return x


def json_dump(obj, fp, **k):
    fp.write(json_dumps(obj, **k))


def json_load(fp, **k):
    return json_loads(fp.read())


json_stub = module('json', dumps=json_dumps, loads=json_loads, dump=json_dump,
                   load=json_load)

# -- os -------------------------------------------------------------------------


def p_join(a, *ps):
    path = a
    for b in ps:
        if bool(raw(b).startswith('/')):
            path = b
        elif not path or bool(raw(path).endswith('/')):
            path = path + b
        else:
            path = path + '/' + b
    return path


def p_split(p):
    i = raw(p).rfind('/') + 1
    head, tail = p[:i], p[i:]
    if head and not bool(head == '/' * len(head)):
        head = raw(head).rstrip('/')
    return head, tail


def p_splitext(p):
    s = raw(p)
    sep = s.rfind('/')
    dot = s.rfind('.')
    if dot > sep:
        i = sep + 1
        while i < dot:
            if bool(s[i:i + 1] != '.'):
                return p[:dot], p[dot:]
            i += 1
    return p, ''


def p_isfile(p): return rt.realise(p) in rt.VFS
def p_isdir(p): return rt.realise(p).rstrip('/') in rt.VDIRS


def os_mkdir(p, mode=0o777):
    p = rt.realise(p).rstrip('/')
    if p in rt.VDIRS or p in rt.VFS:
        raise FileExistsError(17, 'File exists', p)
    rt.VDIRS.add(p)


def os_makedirs(p, mode=0o777, exist_ok=False):
    p = rt.realise(p).rstrip('/')
    if p in rt.VDIRS and exist_ok:
        return
    os_mkdir(p)


def os_listdir(p):
    p = rt.realise(p).rstrip('/') + '/'
    return [f[len(p):] for f in rt.VFS if f.startswith(p)]


path_stub = module('os.path', join=p_join, split=p_split, splitext=p_splitext,
                   basename=lambda p: p_split(p)[1], dirname=lambda p: p_split(p)[0],
                   isfile=p_isfile, isdir=p_isdir,
                   exists=lambda p: p_isfile(p) or p_isdir(p), sep='/',
                   normpath=lambda p: _os.path.normpath(rt.realise(p)),
                   abspath=lambda p: p)
os_stub = module('os', path=path_stub, mkdir=os_mkdir, makedirs=os_makedirs,
                 listdir=os_listdir, environ=SymDict(), sep='/', linesep='\n',
                 getcwd=lambda: '/', fspath=lambda p: p, PathLike=_os.PathLike)
os_stub.__path__ = []

# -- string (format strings) -------------------------------------------------------


def _field_split(name):
    import _string
    return _string.formatter_field_name_split(rt.realise(name))


_string_stub = module('_string', formatter_parser=rt.parse_format,
                      formatter_field_name_split=_field_split)


from . import expat as _expat
expat_stub = module('pyexpat', ParserCreate=_expat.ParserCreate,
                    error=_expat.ExpatError, ExpatError=_expat.ExpatError,
                    version_info=(2, 6, 0))


def reset():
    WS.reset()
    LOG.reset()
    rt.reset_env()


def install(loader, extra=()):
    for n, m in (('re', symre_mod), ('collections', collections_stub),
                 ('collections.abc', collections_abc_stub),
                 ('warnings', warnings_stub), ('logging', logging_stub),
                 ('json', json_stub), ('io', io_stub), ('os', os_stub),
                 ('os.path', path_stub), ('_string', _string_stub),
                 ('_elementtree', None), ('pyexpat', expat_stub),
                 ('xml.parsers.expat', expat_stub)):
        loader.add_stub(n, m)
    loader.stdlib.update(('xml.etree.ElementTree', 'xml.etree.ElementPath', 'string'))


symre_mod = module('re', **{k: v for k, v in symre.__dict__.items()
                            if not k.startswith('_')})
