"""Model of the part of pyexpat that ElementTree drives: namespace-aware,
non-validating, no DTD.  Input is taken as a whole when parsing ends."""
import re
from .engine import Unsupported
from .symstr import (SymStr, chars_of, mkstr, ch_in, ch_eq, isstr, raw,
                     ch_concrete)
from .containers import SymDict


class ExpatError(Exception):
    code = 0
    lineno = 1
    offset = 0


error = ExpatError
version_info = (2, 6, 0)
XMLNS = 'http://www.w3.org/2000/xmlns/'
XMLURI = 'http://www.w3.org/XML/1998/namespace'


def _bad(code, what):
    e = ExpatError(what)
    e.code = code
    raise e


def _namestart(c):
    return c == 58 or c == 95 or 65 <= c <= 90 or 97 <= c <= 122 or (
        c >= 0xC0 and c not in (0xD7, 0xF7) and chr(c).isalpha())


def _namechar(c):
    return _namestart(c) or c in (45, 46, 0xB7) or 48 <= c <= 57 or (
        c >= 0x300 and chr(c).isalnum())


def _ws(c):
    return c in (32, 9, 10, 13)


def _illegal(c):
    return not (c in (9, 10, 13) or 0x20 <= c <= 0xD7FF or 0xE000 <= c <= 0xFFFD
                or 0x10000 <= c <= 0x10FFFF) or c in (0xFFFE, 0xFFFF)


def declared(data):
    """the encoding of a document given as (the first chunk of) its bytes"""
    if type(data) is not bytes:
        return 'utf-8'
    if data[:2] in (b'\xff\xfe', b'\xfe\xff'):
        return 'utf-16'
    if data[:3] == b'\xef\xbb\xbf':
        return 'utf-8-sig'
    m = re.match(br"""<\?xml[^>]*?\sencoding\s*=\s*["']([A-Za-z][-\w.]*)["']""", data)
    return m.group(1).decode('ascii') if m else 'utf-8'


class Parser(object):
    def __init__(self, encoding=None, sep=None):
        self.sep = sep
        self.buf = []
        self.encoding = encoding
        self.StartElementHandler = self.EndElementHandler = None
        self.StartNamespaceDeclHandler = self.EndNamespaceDeclHandler = None
        self.CharacterDataHandler = self.CommentHandler = None
        self.ProcessingInstructionHandler = None
        self.DefaultHandlerExpand = None
        self.ErrorLineNumber, self.ErrorColumnNumber = 1, 0
        self.buffer_text = self.ordered_attributes = 0
        self.done = False

    def GetReparseDeferralEnabled(self): return True
    def SetReparseDeferralEnabled(self, x): pass

    def Parse(self, data, final=False):
        if isinstance(data, bytes):
            if self.encoding is None:
                self.encoding = declared(data)
            try:
                data = data.decode(self.encoding)
            except UnicodeError:
                _bad(4, 'not well-formed (invalid token)')
        if len(data):
            self.buf.extend(chars_of(data))
        if final:
            self.run()
        return 1

    # -- scanning helpers
    def at(self, i, s):
        if i + len(s) > len(self.c):
            return False
        for k, x in enumerate(s):
            if not bool(ch_eq(self.c[i + k], ord(x))):
                return False
        return True

    def find(self, i, s):
        while i < len(self.c):
            if self.at(i, s):
                return i
            i += 1
        _bad(3, 'unclosed token')

    def ws(self, i):
        while i < len(self.c) and bool(ch_in(self.c[i], 'xml-ws', _ws)):
            i += 1
        return i

    def name(self, i):
        if i >= len(self.c) or not bool(ch_in(self.c[i], 'xml-ns', _namestart)):
            _bad(4, 'not well-formed (invalid token)')
        j = i + 1
        while j < len(self.c) and bool(ch_in(self.c[j], 'xml-nc', _namechar)):
            j += 1
        return mkstr(self.c[i:j]), j

    def ref(self, i):
        """entity/char reference at '&' -> (code point, end)"""
        j = i + 1
        if self.at(j, '#'):
            j += 1
            hexa = self.at(j, 'x')
            if hexa:
                j += 1
            s = ''
            while j < len(self.c) and not self.at(j, ';'):
                s += chr(ch_concrete(self.c[j]))
                j += 1
            try:
                v = int(s, 16 if hexa else 10) if s.isalnum() else None
            except ValueError:
                v = None
            if v is None or j >= len(self.c):
                _bad(4, 'not well-formed (invalid token)')
            if v > 0x10FFFF or _illegal(v):
                _bad(14, 'reference to invalid character number')
            return v, j + 1
        n, j = self.name(j)
        if not self.at(j, ';'):
            _bad(4, 'not well-formed (invalid token)')
        for k, v in (('lt', 60), ('gt', 62), ('amp', 38), ('quot', 34), ('apos', 39)):
            if len(n) == len(k) and bool(n == k):
                return v, j + 1
        _bad(11, 'undefined entity')

    def run(self):
        if self.done:
            _bad(36, 'parsing finished')
        self.done = True
        # line ends
        src, out = self.buf, []
        i = 0
        while i < len(src):
            if bool(ch_eq(src[i], 13)):
                out.append(10)
                if i + 1 < len(src) and bool(ch_eq(src[i + 1], 10)):
                    i += 1
            else:
                if bool(ch_in(src[i], 'xml-bad', _illegal)):
                    _bad(4, 'not well-formed (invalid token)')
                out.append(src[i])
            i += 1
        self.c = out
        self.text = []
        self.stack = []
        self.ns = [{'xml': XMLURI}]      # list of concrete-ish dicts
        seen_root = False
        i = 0
        if self.at(0, '<?xml'):
            i = self.find(0, '?>') + 2
        n = len(self.c)
        while i < n:
            if not self.stack:
                # prolog or epilog
                j = self.ws(i)
                if j > i:
                    i = j
                    continue
                if not self.at(i, '<'):
                    _bad(9 if seen_root else 2, 'junk after document element'
                         if seen_root else 'syntax error')
            if bool(ch_eq(self.c[i], 60)):
                if self.at(i, '<!--'):
                    self.flush()
                    j = self.find(i + 4, '--')
                    if not self.at(j, '-->'):
                        _bad(4, 'not well-formed (invalid token)')
                    if self.CommentHandler:
                        self.CommentHandler(mkstr(self.c[i + 4:j]))
                    i = j + 3
                elif self.at(i, '<![CDATA['):
                    j = self.find(i + 9, ']]>')
                    self.text.extend(self.c[i + 9:j])
                    i = j + 3
                elif self.at(i, '<!'):
                    raise Unsupported('DOCTYPE')
                elif self.at(i, '<?'):
                    self.flush()
                    i = self.find(i, '?>') + 2
                elif self.at(i, '</'):
                    self.flush()
                    nm, j = self.name(i + 2)
                    j = self.ws(j)
                    if not self.at(j, '>'):
                        _bad(4, 'not well-formed (invalid token)')
                    if not self.stack or not bool(self.stack[-1][0] == nm):
                        _bad(7, 'mismatched tag')
                    self.close()
                    i = j + 1
                else:
                    self.flush()
                    if not self.stack and seen_root:
                        _bad(9, 'junk after document element')
                    seen_root = True
                    i = self.start(i)
            elif bool(ch_eq(self.c[i], 38)):
                v, i = self.ref(i)
                self.text.append(v)
            else:
                if bool(ch_eq(self.c[i], 93)) and self.at(i, ']]>'):
                    _bad(4, 'not well-formed (invalid token)')
                self.text.append(self.c[i])
                i += 1
        if self.stack or not seen_root:
            _bad(3, 'no element found')

    def flush(self):
        if self.text:
            t = mkstr(self.text)
            self.text = []
            if self.CharacterDataHandler:
                self.CharacterDataHandler(t)

    def start(self, i):
        nm, i = self.name(i + 1)
        attrs = []
        while True:
            j = self.ws(i)
            if self.at(j, '>'):
                empty = False
                i = j + 1
                break
            if self.at(j, '/>'):
                empty = True
                i = j + 2
                break
            if j == i or j >= len(self.c):
                _bad(4, 'not well-formed (invalid token)')
            an, j = self.name(j)
            j = self.ws(j)
            if not self.at(j, '='):
                _bad(4, 'not well-formed (invalid token)')
            j = self.ws(j + 1)
            if j >= len(self.c) or not bool(ch_in(self.c[j], 'xml-q', lambda c: c in (34, 39))):
                _bad(4, 'not well-formed (invalid token)')
            q = ch_concrete(self.c[j])
            j += 1
            val = []
            while True:
                if j >= len(self.c):
                    _bad(3, 'unclosed token')
                c = self.c[j]
                if bool(ch_eq(c, q)):
                    break
                if bool(ch_eq(c, 60)):
                    _bad(4, 'not well-formed (invalid token)')
                if bool(ch_eq(c, 38)):
                    v, j = self.ref(j)
                    val.append(v)
                    continue
                if bool(ch_in(c, 'xml-ws', _ws)):
                    c = 32
                val.append(c)
                j += 1
            i = j + 1
            for a, _ in attrs:
                if bool(a == an):
                    _bad(8, 'duplicate attribute')
            attrs.append((an, mkstr(val)))
        # namespaces
        scope = SymDict(self.ns[-1])
        decls = []
        plain = []
        for a, v in attrs:
            if bool(a == 'xmlns'):
                scope[''] = v
                decls.append((None, v))
            elif bool(raw(a).startswith('xmlns:')):
                p = a[6:]
                if not len(v):
                    _bad(28, 'must not undeclare prefix')
                if bool(p == 'xmlns') or (bool(p == 'xml') != bool(v == XMLURI)):
                    _bad(39, 'reserved prefix')
                if not len(p):
                    _bad(4, 'not well-formed (invalid token)')
                scope[p] = v
                decls.append((p, v))
            else:
                plain.append((a, v))
        self.ns.append(scope)
        tag = self.qname(nm, scope, True)
        flat = []
        seen = []
        for a, v in plain:
            q = self.qname(a, scope, False)
            for s in seen:
                if bool(s == q):
                    _bad(8, 'duplicate attribute')
            seen.append(q)
            flat.extend((q, v))
        self.stack.append((nm, tag, decls))
        for p, v in decls:
            if self.StartNamespaceDeclHandler:
                self.StartNamespaceDeclHandler(p, v if len(v) else None)
        if self.StartElementHandler:
            self.StartElementHandler(tag, flat)
        if empty:
            self.close()
        return i

    def close(self):
        nm, tag, decls = self.stack.pop()
        if self.EndElementHandler:
            self.EndElementHandler(tag)
        for p, v in reversed(decls):
            if self.EndNamespaceDeclHandler:
                self.EndNamespaceDeclHandler(p)
        self.ns.pop()

    def qname(self, nm, scope, elem):
        k = raw(nm).find(':')
        if k < 0:
            if elem and '' in scope and len(scope['']):
                return scope[''] + self.sep + nm
            return nm
        p, local = nm[:k], nm[k + 1:]
        if not len(p) or not len(local) or raw(local).find(':') >= 0 or \
                not bool(ch_in(chars_of(local)[0], 'xml-ns', _namestart)):
            _bad(4, 'not well-formed (invalid token)')
        if p not in scope:
            _bad(27, 'unbound prefix')
        return scope[p] + self.sep + local


def ParserCreate(encoding=None, namespace_separator=None, intern=None):
    return Parser(encoding, namespace_separator)
