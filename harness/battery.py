"""Language features on symbolic values, compared with the interpreter (run by the self-test)."""
import re, itertools, functools, operator, string, collections, copy, bisect
from collections import OrderedDict, defaultdict, namedtuple, Counter, deque, ChainMap
from functools import partial, reduce, lru_cache, total_ordering
from itertools import chain, groupby, islice, takewhile, dropwhile, accumulate, product, combinations, zip_longest, starmap, count, tee
from dataclasses import dataclass, field
from enum import Enum, IntEnum
from contextlib import contextmanager, suppress
from typing import NamedTuple, Optional, List, Dict
from operator import itemgetter, attrgetter, methodcaller
PROPERTY = None
BOUNDS=''
ASSUMES=[]
F={}
def t(f):
    F[f.__name__]=f
    return f

@t
def join_bound(s,n):
    j=','.join
    return j([s,'x']), j(c for c in s), list(map(''.join, [[s,'a'],[s]]))
@t
def map_str(s,n):
    return list(map(str.upper,[s,'x'])), sorted([s,'B','a'],key=str.lower), list(map(str,[n,s])), list(map(len,[s]))
@t
def filt(s,n):
    return list(filter(None,[s,'','x'])), list(filter(str.isdigit, s)), list(filter(lambda c:c!='a', s))
@t
def cm(s,n):
    out=[]
    @contextmanager
    def f(x):
        out.append('in'+x)
        yield x
        out.append('out')
    with f(s) as y, suppress(KeyError):
        out.append({}[y])
    return out
@t
def dc(s,n):
    @dataclass
    class P:
        a: str
        b: int = 0
        c: list = field(default_factory=list)
    p=P(s,n)
    return p==P(s,n), p.a, p==P('a',1), repr(P('a',1))
@t
def nt(s,n):
    class N(NamedTuple):
        a: str
        b: Optional[int] = None
    M=namedtuple('M','x y')
    m=M(s,n)
    return N(s).a, N(s,n)==(s,n), m._replace(x='q').x, m[0], sorted([M('b',1),m])[0].x, m._asdict()['x']
@t
def mt(s,n):
    match s:
        case 'a': r=1
        case 'b'|'ab': r=2
        case str() if len(s)==2: r=3
        case _: r=4
    match (s,n):
        case ('a',x): q=x
        case (y,1): q=y
        case _: q=None
    match {'k':s}:
        case {'k':v}: w=v
    match [s,n]:
        case [a,*rest]: z=(a,rest)
    return r,q,w,z
@t
def walrus(s,n):
    if (k:=len(s))>1 and (c:=s[0])=='a': return k,c
    return [y for x in s if (y:=x.upper())!='B']
@t
def fs(s,n):
    return f'{s}-{n}', f'{s!r}', f'{s:>5}|{n:03d}|{n+1=}', f'{s:{n}}', '{:>{w}}'.format(s,w=4), '{0}{1}{0}'.format(s,n), '{x[0]}{y.real}'.format(x=[s],y=3)
@t
def pct(s,n):
    x='%s:%d'
    x%=(s,n)
    return x, '%(a)s' % {'a':s}, '%5s|%-5s|%r' % (s,s,s), '%%%s' % s
@t
def tryx(s,n):
    try:
        r=int(s)
    except ValueError as e:
        r=str(e)
    else:
        r+=1
    finally:
        n+=1
    try:
        ['a'].index(s); z=1
    except ValueError:
        z=2
    try:
        {'a':1}[s]; q=1
    except KeyError as e:
        q=e.args[0]
    return r,z,q,n
@t
def slices(s,n):
    return s[::-1], s[n:], s[:n], s[-n:], s[n:n+1], 'abcdef'[n:], [1,2,3,4][n:], [1,2,3][:n], (1,2,3)[-n:], list(range(10))[n], 'abc'[n-1:]
@t
def slice_assign(s,n):
    a=[1,2,3,4]; a[n:n+1]=[s,s]; b=[1,2,3]; del b[n-1]; c=[1,2,3]; c.insert(n,s); d=[1,2,3]; d.pop(n-1); e=[0]*3; e[n-1]=s; e[n-1]+='x'
    return a,b,c,d,e
@t
def dicts(s,n):
    d={'a':1,'b':2}
    e={**d,s:3}
    f=dict(d,c=4); f.update({s:5}); f.setdefault(s,9); f.setdefault('z',s)
    g={k:v for k,v in e.items() if k!=s}
    h=dict([(s,1),('b',2)]); i=dict(zip([s,'x'],[1,2])); j=dict.fromkeys([s,'a']); k=d|{s:7}
    d2=dict(d); d2|={s:1}; x=d2.pop(s); y=d2.pop(s,None)
    return sorted(e.items()),sorted(f.items(),key=lambda kv:kv[0]),sorted(g),sorted(h.items()),sorted(i.items()),sorted(j),sorted(k.items()),x,y,len(e), s in d, d.get(s), d.get(s,0), list(e)[-1], max(d,key=d.get), min(e.items()), [*e], {**e}=={**e}, d=={'a':1,s:2}, d.items()>=({('a',1)})
@t
def sets(s,n):
    a={s,'a','b'}; b=set('ab'); b.add(s); c=frozenset([s]); 
    return len(a),sorted(a|{'z'}),sorted(b-{'a'}),s in b,c<=a,a.isdisjoint({s}),sorted(set(s)&set('ab')),sorted({c for c in s}), {s}=={'a'}, sorted(b^{'a'}), b.issuperset([s]), sorted(b.union([s,'q'],['r']))
@t
def dd(s,n):
    d=defaultdict(list); d[s].append(1); d['a'].append(2)
    c=Counter([s,'a','a']); c[s]+=1; c.update('ab')
    o=OrderedDict(); o[s]=1; o['a']=2; o.move_to_end(s)
    q=deque([s,'a'],maxlen=2); q.append('c'); q.appendleft(s); q.rotate(1)
    cm=ChainMap({s:1},{'a':2})
    return sorted(d.items()),sorted(c.items()),c.most_common(1)[0][1],list(o),list(q),cm['a'], s in cm, sum(c.values()), sorted(c.elements())
@t
def its(s,n):
    return [(k,list(g)) for k,g in groupby(s)], list(chain.from_iterable([s,'x'])), list(islice(s,1)), list(takewhile(lambda c:c=='a',s)), list(accumulate([n,1])), list(zip_longest(s,'ab')), list(product(s,'x')), list(starmap(lambda a,b:a+b,[(s,'x')])), list(zip(count(),s)), [list(x) for x in tee(s)], list(itertools.repeat(s,2)), list(itertools.compress(s,[1,0])), list(itertools.pairwise(s)), list(combinations(s,2))
@t
def islice_n(s,n):
    return list(islice('abcdef',n)), list(itertools.repeat('x',n)), list(range(n)), list(range(n,0,-1)), 'ab'*n, [0]*n, ['x' for _ in range(n)], list(reversed(range(n))), sum(range(n)), enumerate_(s,n)
def enumerate_(s,n):
    return list(enumerate(s,n)), list(enumerate(s,start=n)), list(zip(range(n),s))
@t
def fnt(s,n):
    add=partial(operator.add,s)
    @lru_cache(maxsize=None)
    def f(x): return x+'!'
    @functools.wraps(f)
    def g(x): return x
    return add('x'), reduce(operator.add,[s,'a','b']), f(s), f('a'), g(s), reduce(lambda a,b:a+b,[n,1],0), sorted(['b',s],key=functools.cmp_to_key(lambda a,b:(a>b)-(a<b)))
@t
def ops(s,n):
    return itemgetter(0)([s,1]), itemgetter('a','b')({'a':s,'b':1}), methodcaller('upper')(s), methodcaller('split','a')(s), attrgetter('real')(3), operator.eq(s,'a'), operator.contains(s,'a'), operator.getitem(s,slice(0,1)), operator.not_(s=='a'), operator.itemgetter(n)([1,2,3,4])
@t
def kls(s,n):
    class A(object):
        x='d'
        __slots__=('v',)
        def __init__(self,v): self.v=v
        def __eq__(self,o): return isinstance(o,A) and self.v==o.v
        def __hash__(self): return hash(self.v)
        def __lt__(self,o): return self.v<o.v
        def __len__(self): return len(self.v)
        def __contains__(self,c): return c in self.v
        def __getitem__(self,i): return self.v[i]
        def __str__(self): return 'A'+self.v
        def __repr__(self): return 'R(%s)'%self.v
        def __bool__(self): return self.v!='a'
        def __iter__(self):
            yield from self.v
        def __call__(self,y): return self.v+y
        @property
        def p(self): return self.v
        @staticmethod
        def sm(x): return x+'s'
        @classmethod
        def cm(cls,x): return cls(x)
    a=A(s); b=A('a')
    return a==b, len(a), 'a' in a, a[0:1], str(a), repr(a), bool(a), list(a), a('y'), a.p, A.sm(s), A.cm(s).v, sorted([a,b])[0].v, len({a,b}), f'{a}', '%s'%a, '{!r}'.format(a), [str(x) for x in [a]], min(a,b).v, {a:1}.get(b), a in [b], [b].count(a), not a
@t
def inh(s,n):
    class L(list):
        def append(self,x):
            super().append(x+'!')
        def has(self,x): return x in self
    class D(dict):
        def __missing__(self,k): return k+'?'
        def __setitem__(self,k,v): super().__setitem__(k,v+'.')
    class S2(str): pass
    class E(Exception):
        def __init__(self,m): super().__init__('E:'+m); self.m=m
    l=L(['a']); l.append(s); d=D(); d[s]='v'
    try: raise E(s)
    except E as e: m=str(e),e.m,e.args
    return list(l), l.has(s+'!'), l.index('a'), d['a'], d[s], m, sorted(d.items()), L([s])==['a']
@t
def enums(s,n):
    class C(Enum):
        A='a'
        B='b'
    class I(IntEnum):
        X=1
        Y=2
    try: r=C(s).name
    except ValueError: r='none'
    return r, C.A.value==s, I.X==n, [x.name for x in C if x.value in s]
@t
def strs(s,n):
    return (s.split(), s.split('a'), s.split('a',1), s.rsplit('a',1), s.partition('a'), s.rpartition('b'), s.strip('a'), s.lstrip(), s.replace('a','xx'), s.replace('a','',1), s.find('b'), s.rfind('a'), s.count('a'), s.startswith(('a','b')), s.endswith('b'), s.upper(), s.title(), s.capitalize(), s.swapcase(), s.casefold(), s.isalpha(), s.isdigit(), s.isspace(), s.isalnum(), s.isupper(), s.islower(), s.zfill(3), s.center(5), s.ljust(n), s.rjust(n,'*'), s.splitlines(), s.expandtabs(), s.removeprefix('a'), s.removesuffix('b'), s*n, n*s, s.isidentifier(), s.translate({97:'x'}), s.translate(str.maketrans('ab','ba')), s.translate(str.maketrans({'a':None})), s.join(['1','2']), 'ab'.join(s), s>='a', max(s,'a'), min([s,'b']), s in 'abc', 'a' in s, s not in ('a','b'), s=='a' or s=='b', s!='', not s, s and 'y', s or 'z', s if s else None, sorted(s), list(reversed(s)), ''.join(sorted(set(s))), any(c=='a' for c in s), all(c in 'ab' for c in s), len(s), s.isascii(), s.isprintable(), s.istitle(), s.isdecimal(), s.index('') , 'xax'.find(s), 'xax'.split(s) if s else 0, 'xaxb'.replace(s,'-'), 'xaxb'.startswith(s), 'xaxb'.count(s), 'a' < s < 'c', 'a' <= s <= 'b' != n, s.encode(), s.casefold()==s, ascii(s), repr(s), str(s), format(s,'>4'), hash(s)==hash(s), bytes(s,'utf-8'))
@t
def chars(s,n):
    return [ord(c) for c in s], [chr(ord(c)+1) for c in s], ''.join(chr(x) for x in map(ord,s)), [c.isalpha() and ord(c)-97 for c in s], [string.ascii_lowercase.find(c) for c in s], [c in string.digits for c in s], [ord(c) in range(97,99) for c in s], sum(ord(c) for c in s), [hex(ord(c)) for c in s], [bool(re.match('[a-b]',c)) for c in s]
@t
def ints(s,n):
    return n+1, n-1, n*2, n//2, n%2, -n, abs(-n), n**2, divmod(n,2), n<2, 1<=n<=2, n in (1,2), n==1, max(n,2), min(n,1,2), str(n), int(n), int('1'), bool(n), float(n), round(n), n/2, n&1, n|1, n^1, n<<1, n>>1, ~n, [n]==[1], (n,)<(2,), sorted([2,n]), 'abc'[n-1], ['a','b','c'][-n], n if n else 0, n is None, isinstance(n,int), '%d'%n, format(n,'02d'), n.bit_length(), hex(n), not n, sum([n,1]), pow(n,2), {n:1}.get(1), n in {1:2}, n in [1], range(n)==range(1), len(range(n)), int(str(n)), f'{n:>3}', n.__index__(), [10,20,30].index(10*n) if n<4 and n>0 else 0
@t
def res(s,n):
    p=re.compile(r'(?P<x>a+)(b)?')
    m=p.search(s)
    return (m.group('x'),m.groups(),m.span(),m.groupdict(),m.start('x'),m.end(),m[0],m.lastindex,m.lastgroup,m.string,m.re.pattern) if m else None, re.split('[ab]',s), re.findall('a|b',s), re.sub('a','x',s), re.sub('(a)(b)',r'\2\1',s), re.sub('a',lambda m:m.group().upper(),s), re.subn('a','',s), [m.span() for m in re.finditer('a*',s)], re.fullmatch('[ab]+',s) is not None, re.match('a$',s) is None, re.escape(s), bool(re.search(r'\bA',s,re.I)), re.split('(a)',s,maxsplit=1), re.sub('a','x',s,count=1), bool(re.match('(?:a|ab)(?!b)',s)), bool(re.search('(?<=a)b',s)), bool(re.match(r'(a)\1',s)), re.sub(r'\s+',' ',s), re.sub('(?P<q>a)',r'[\g<q>]',s), p.sub('-',s), p.split(s), p.findall(s), re.compile('A',re.I).match(s) is not None, re.match('[^a]',s) is not None, re.match('(?i:A)b',s) is not None, re.match('a{1,2}?b',s) is not None, re.match(re.escape(s),s) is not None, re.compile('|'.join(map(re.escape,['a','b']))).findall(s)
@t
def gens(s,n):
    def g():
        x=yield s
        yield x
        return 5
    def h():
        r=yield from g()
        yield r
    k=g(); a=next(k); b=k.send(s+'1')
    def f(*a,k=1,**kw): return a,k,sorted(kw.items())
    args=[s,n]; kw={'k':s,'z':n}
    return a,b,list(h()),next(iter([]),s),f(*args,**kw),f(*s),[*s,*[n]],(*s,),(lambda *a:a)(*s), list(x for x in s if x), dict(a=s,**{'b':n})['b'], next((c for c in s if c=='b'),None), next(filter(lambda c:c=='b',s),None)
@t
def unpack(s,n):
    a,*b=[s,1,2]; (c,d),e=('x',s),n; x=y=s; x+='1'
    f,g=s.partition('a')[::2]
    try:
        p,q=s
    except ValueError: p,q=None,None
    del c
    return a,b,d,e,x,y,f,g,p,q
@t
def nonl(s,n):
    cnt=0; res=[]
    def inc(c):
        nonlocal cnt
        cnt+=1
        res.append(c)
    for c in s: inc(c)
    else: res.append('end')
    i=0
    while True:
        if i>=n: break
        i+=1
        if i==2: continue
        res.append(i)
    assert cnt==len(s), s
    return cnt,res
@t
def cp(s,n):
    d={'a':[s]}; e=copy.copy(d); f=copy.deepcopy(d); f['a'].append(1); l=[s]; m=l[:]; m.append(2); k=l.copy(); d3=d.copy()
    return e,f,d,m,k,l==[s],d3==d, d==f
@t
def typ(s,n):
    return isinstance(s,str), isinstance(s,(int,str)), type(s) is str, type(s)==str, type(n) is int, type(s).__name__, callable(s), hasattr(s,'upper'), getattr(s,'upper')(), isinstance(s,collections.abc.Iterable), isinstance(s,collections.abc.Sequence), isinstance({s:1},dict), type({s:1})==dict, isinstance({s:1},collections.abc.Mapping), isinstance({s},set), isinstance(n,bool), issubclass(type(s),str), isinstance([s],list), type([s]) is list, isinstance(s,collections.abc.Hashable), isinstance(s=='a',bool), type(s=='a') is bool, isinstance(OrderedDict(),dict), isinstance({s:1}, collections.abc.MutableMapping), dict is type({}) 
@t
def lists(s,n):
    a=['b',s,'a']; a.sort(); b=sorted(a,reverse=True); c=[s]; c.extend('xy'); c+=[n]; d=list(s); d.reverse(); e=[s,'a']; 
    e.remove('a'); f=[[s]]*2; g=a.index(s); h=[x for y in [[s],['q']] for x in y]; i=[s]+['a']; 
    return a,b,c,d,e,f,g,h,i,a.count(s),s in a,[s]==['a'],[s,1]<['b',2],a[-1],a[1:],max(a),tuple(a),list(map(lambda x:x+'1',a)),sum([[s],['x']],[]),any(a),all(a),[i for i,x in enumerate(a) if x==s], list(zip(a,s)), dict(enumerate(a)), bisect.bisect(['a','c'],s), a.pop(0), min(a,key=len), sorted(zip(a,[2,1])), [[]]*n
@t
def truth(s,n):
    x=s=='a'; y=n>1
    return x and y, x or y, not x, x==y, x!=y, [x,y].count(True), sum([x,y]), int(x), str(x), x is True, bool(x), x&y, x|y, x^y, (x,y)==(True,False), {True:'t',False:'f'}[x], ['f','t'][x], f'{x}', x+1, (1 if x else 2), any([x,y]), all([x,y]), [c for c,k in zip('ab',[x,y]) if k], sorted([x,y]), max(x,y), isinstance(x,int), -x, x*3, x in (True,), 'ab'*x
@t
def excs(s,n):
    out=[]
    for k in (ValueError,KeyError,IndexError,TypeError):
        try:
            if k is ValueError: int('x'+s)
            elif k is KeyError: {}[s]
            elif k is IndexError: s[len(s)]
            else: s+1
        except (ValueError,LookupError) as e: out.append(type(e).__name__)
        except TypeError: out.append('T')
    try:
        try: raise KeyError(s)
        except KeyError as e: raise ValueError('v'+s) from e
    except ValueError as e:
        out.append(e.__cause__.args[0]); out.append(str(e))
    try: raise AttributeError
    except AttributeError: out.append(1)
    try: s.nothing
    except AttributeError: out.append(2)
    try: assert not s, 'msg'+s
    except AssertionError as e: out.append(str(e))
    return out
@t
def vars_(s,n):
    class A: pass
    a=A(); setattr(a,'k',s); a.__dict__['z']=n
    return sorted(vars(a)), getattr(a,'k'), getattr(a,'q',s), a.__dict__['k'], hasattr(a,'z'), a.__class__.__name__, delattr(a,'k'), hasattr(a,'k'), locals()['s'], eval('s+"1"'), (lambda: s)()
@t
def srt(s,n):
    L=[(s,2),('a',1),('b',0)]
    L.sort(key=lambda t:(t[0],-t[1])); M=sorted(L,key=itemgetter(1)); N=sorted(L,key=lambda t:t[0],reverse=True)
    G={}
    for k,v in L: G.setdefault(k,[]).append(v)
    return L,M,N,sorted(G.items()),[k for k,_ in groupby(L,key=lambda t:t[0])],list(map(itemgetter(0),L)), [*map(lambda p:p[0],L)], dict(L)[s], sorted(dict(L)), list(dict(L)), list(dict(L).values()), next(iter(dict(L)))

def go(S):
    s=S.str('s',0,2,'ab 1')
    n=S.int('n',1,3)
    f=F[S.params['f']]
    S.observe(f(s,n))
    S.reach('x')
HARNESSES=[('go',lambda t:[dict(f=k) for k in F],['x'])]
