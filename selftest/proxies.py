"""the proxies against the native types: every path of every method, evaluated under its model"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from sx import engine, values as V, instrument as I
I.install_helpers()

class Ctx:
    def __init__(s, e): s.e = e
    def _enter(s): pass
    def _exit(s): pass

def mk(e, name, n, alpha):
    cs = []
    for i in range(n):
        c = z3.Int('%s[%d]' % (name, i)); e.assume(V.c_in(c, sorted(set(alpha)))); cs.append(c)
    e.declare(name, 'str', tuple(cs))
    return V.SymStr(cs)

def ev(m, x):
    t = type(x)
    if t is V.SymBool: return z3.is_true(m.eval(x.e, model_completion=True))
    if t is V.SymInt: return m.eval(x.e, model_completion=True).as_long()
    if t is V.SymStr: return ''.join(chr(c if isinstance(c,int) else m.eval(c, model_completion=True).as_long()) for c in x.c)
    if t is V.SymBytes: return bytes(c if isinstance(c,int) else m.eval(c, model_completion=True).as_long() for c in x.c)
    if t in (list, tuple): return t(ev(m,i) for i in x)
    return x

bad = tot = 0
def case(label, alpha, n, f):
    global bad, tot
    seen = set()
    def run(ctx):
        global bad, tot
        e = ctx.e
        s = mk(e, 's', n, [ord(c) for c in alpha])
        try: r, exc = f(s), None
        except Exception as x: r, exc = None, x
        e.ensure_model()
        m = e.model
        nat = ev(m, s)
        try: nr, nexc = f(nat), None
        except Exception as x: nr, nexc = None, x
        tot += 1
        if type(exc) is not type(nexc) or ev(m, r) != nr:
            bad += 1
            print('DIFF', label, repr(nat), 'proxy', ev(m, r), exc, 'native', nr, nexc)
    e = engine.Engine(label, run)
    e.explore(Ctx)

ws = ' \tab\n'
for name, f in dict(
    strip=lambda s: s.strip(), lstrip=lambda s: s.lstrip(), rstrip=lambda s: s.rstrip(), split=lambda s: s.split(),
    split1=lambda s: s.split(None, 1), splitn=lambda s: s.split('\n'), splita1=lambda s: s.split('a', 1), rsplit=lambda s: s.rsplit('a', 1),
    splitlines=lambda s: s.splitlines(), splitk=lambda s: s.splitlines(True), find=lambda s: s.find('ab'), rfind=lambda s: s.rfind('a'),
    count=lambda s: s.count('a'), count2=lambda s: s.count('aa'), starts=lambda s: s.startswith('a'), ends=lambda s: s.endswith(('a', 'b ')), rep=lambda s: s.replace('a', 'bb'),
    rep2=lambda s: s.replace('aa', ''), rep0=lambda s: s.replace('', '-'), part=lambda s: s.partition('a'), rpart=lambda s: s.rpartition('a'), sub=lambda s: s[1:], idx=lambda s: s[-1], contains=lambda s: I._in('ab', s),
    rev=lambda s: s[::-1], eq=lambda s: s == 'ab a', lt=lambda s: s < 'ab a', expand=lambda s: s.expandtabs(), isspace=lambda s: s.isspace(), stripc=lambda s: s.strip('ab'),
    add=lambda s: 'x' + s + 'y', mod=lambda s: I._mod('<%s|%r>', (s, 1)), join=lambda s: I.fn(','.join)([s, 'q']), upper=lambda s: s.upper(), isid=lambda s: s.isidentifier(),
    bool=lambda s: bool(s), mul=lambda s: s*2, removeprefix=lambda s: s.removeprefix('a'), incont=lambda s: I._in(s, 'ab aab'), dictget=lambda s: I.fn({'ab a': 1, 'aaaa': 2}.get)(s, 7)).items():
    for n in (0, 1, 3, 4):
        case(name, ws, n, f)
for name, f in dict(lat=lambda s: s.encode('latin-1'), utf=lambda s: s.encode('utf-8'), rt=lambda s: s.encode('utf-8').decode('utf-8'),
    latutf=lambda s: s.encode('latin-1').decode('utf-8'), splitlines=lambda s: s.splitlines(), strip=lambda s: s.strip(), isascii=lambda s: s.isascii()).items():
    for n in (1, 2, 3):
        case(name, 'a\x85\xc3\xa9\u20ac\U0001f600\xe2\x82\xac\xff\xa0' if n < 3 else 'a\xc3\xa9\xe2\x82\xac\x82', n, f)
for name, f in dict(int=lambda s: I.m_int(s), ).items():
    for n in (1, 2, 3): case(name, '0 9-+', n, f)

def ints():
    global bad, tot
    ops = dict(fd=lambda x: x // 3, fdn=lambda x: x // -3, mod=lambda x: x % 3, modn=lambda x: x % -3, sh=lambda x: x >> 2, shl=lambda x: x << 2, neg=lambda x: -x, ab=lambda x: abs(x), inv=lambda x: ~x, str=lambda x: I.m_str(x),
               cmp=lambda x: x > 3, dm=lambda x: divmod(x, 7), andm=lambda x: x & 7, bl=lambda x: x.bit_length(), eqf=lambda x: x == 3.0, tr=lambda x: bool(x), pct=lambda x: I._mod('%d %s', (x, x)))
    for k, f in ops.items():
        def run(ctx):
            global bad, tot
            e = ctx.e
            z = z3.Int('x'); e.declare('x', 'int', z); e.assume(z3.And(z >= -30, z <= 130))
            x = V.SymInt(z)
            r = f(x)
            e.ensure_model(); m = e.model
            nat = m.eval(z, model_completion=True).as_long()
            tot += 1
            if ev(m, r) != f(nat):
                bad += 1; print('DIFF', k, nat, ev(m, r), f(nat))
        engine.Engine(k, run).explore(Ctx)
ints()
print('selftest: %d paths compared, %d differ' % (tot, bad))
sys.exit(1 if bad else 0)
