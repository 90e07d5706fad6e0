"""Generated uses of + - * / in every form the library offers, with the exact result of each.

A case is {'k': form, 'op': op, 'x':..., 'y':...}; run(case) performs it through the public API and yields
(label, result interval, exact lower, exact upper) for every element of the result.
"""
import operator
import numpy as np
from fractions import Fraction as F

from . import exact as E
from . import gen as G
from .lib import Interval, mk, vec, mat, is_array, asnum, plain, ip, NARROW

PY = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv}
NPF = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'div': np.divide}
IPY = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'div': operator.itruediv}
NUMKINDS = ('py', 'f', 'npf', 'npi')
REG = [None, ['int'], ['int', 'dec'], ['dec'], ['unit'], ['log'], ['dyad'], ['ulp'], ['mid'], ['special'], ['small']]
LIM = 2**53


def regimes(rng):
    return rng.choice(REG)


def fx(p):
    return E.fr(p[0]), E.fr(p[1])


def safe_div(p):
    """The divisor is away from zero and its reciprocal stays a normal double."""
    return p[0] * 1.0 * (1 if p[1] > 0 else -1) > 0 and min(abs(p[0]), abs(p[1])) > 1e-290 and \
        max(abs(p[0]), abs(p[1])) < 1e290


def int_safe(op, *ps):
    """Integer operands whose exact results leave the exactly convertible range are the known finding."""
    m = 1
    for p in ps:
        for v in p:
            if isinstance(v, int):
                if abs(v) > LIM:
                    return False
    if op in ('add', 'sub'):
        return sum(max([abs(v) for v in p if isinstance(v, int)] or [0]) for p in ps) <= LIM
    for p in ps:
        m *= max([abs(v) for v in p if isinstance(v, int)] or [0]) or 1
    return m <= LIM


def divisor(rng, kaucher=False, **kw):
    for _ in range(50):
        p = G.pair(rng, rng.choice(('pos', 'neg', 'pos', 'neg', 'thin', 'near')), **kw)
        if safe_div(p):
            return p
    return [1.5, 2.5]


def narrow(rng, k, v=None):
    """A number that the numpy type k holds exactly."""
    t = NARROW[k]
    if k[0] == 'f':
        w = t(v if v is not None and abs(v) < 6e4 else rng.uniform(-50, 50))
        return float(w)
    i = np.iinfo(t)
    lo, hi = max(int(i.min), -LIM), min(int(i.max), LIM)
    return rng.choice((lo, hi, rng.randint(lo, hi), rng.randint(max(lo, -40), min(hi, 40))))


def number(rng, nonzero=False, regs=None):
    while True:
        if rng.random() < 0.2:
            k = rng.choice(list(NARROW))
            with np.errstate(all='ignore'):
                v = narrow(rng, k, G.num(rng, rng.choice(regs) if regs else None))
            if v or not nonzero:
                return v, k
            continue
        v = G.num(rng, rng.choice(regs) if regs else None)
        k = rng.choice(NUMKINDS)
        if k == 'npi':
            if not isinstance(v, int):
                v = int(v) if abs(v) < 2**53 else 3
        if nonzero and not (1e-290 < abs(v) < 1e290):
            continue
        return v, k


def gen_case(rng, side=None):
    """side: function(rng, regs) -> operand pair (default proper)."""
    while True:
        c = _gen(rng, side or (lambda r, regs: G.pair(r, regimes=regs)))
        if c is not None:
            if rng.random() < .08 and not c['k'].startswith('ip'):
                c['np'] = True         # as a function of numpy instead of the operator
            return c


def _gen(rng, opd):
    op = rng.choice(('add', 'sub', 'mul', 'div'))
    regs = regimes(rng)
    k = rng.choice(('II', 'II', 'II', 'IN', 'NI', 'VV', 'VI', 'IV', 'VN', 'NV', 'MV', 'BV', 'AV', 'VA', 'AI', 'IA', 'ip', 'ipN', 'ipI',
                    'dot', 'matv', 'matm', 'rmat', 'pdot', 'same', 'samev', 'list', 'MM', 'MN', 'NM', 'MI', 'IM', 'MA', 'AM',
                    'prod', 'prod'))
    right = (lambda: divisor(rng, regimes=regs)) if op == 'div' else (lambda: opd(rng, regs))
    left = lambda: opd(rng, regs)
    nn = lambda nz: number(rng, nz, regs)
    c = {'k': k, 'op': op}
    if k == 'list':
        c['k'] = k = rng.choice(('AV', 'VA', 'AI', 'IA', 'rmat', 'rmat', 'pdot'))
        c['as'] = rng.choice(('int', 'obj') if k in ('AI', 'IA') else ('list', 'int', 'ilist', 'obj'))
        if rng.random() < .4:
            c['as'] = rng.choice(list(NARROW))
        if c['as'] in ('int', 'ilist'):
            nn = lambda nz: (rng.choice((-1, 1)) * rng.randint(1 if nz else 0, 40), 'py')
        elif c['as'] in NARROW:
            def nn(nz):
                while True:
                    v = narrow(rng, c['as'])
                    if v or not nz:
                        return v, 'py'
    n = rng.randint(1, 4)
    m = rng.randint(1, 3)
    q = rng.randint(1, 3)
    if rng.random() < 0.02:      # sizes at which a faster path would pay
        n, m, q = rng.choice(((rng.randint(5, 70), rng.randint(1, 2), 1), (rng.randint(4, 12), rng.randint(4, 12), rng.randint(2, 6))))
    if k == 'same':
        c['x'] = c['y'] = right()
    elif k == 'samev':
        c['x'] = c['y'] = [right()] * n
        c['way'] = rng.choice(('new', 'new', 'place', 'entry', 'view'))
    elif k == 'II':
        c['x'], c['y'] = left(), right()
    elif k == 'IN':
        c['x'] = left()
        c['y'], c['nk'] = nn(op == 'div')
    elif k == 'NI':
        c['x'], c['nk'] = nn(False)
        c['y'] = right()
    elif k in ('VV', 'ip'):
        c['x'], c['y'] = [left() for _ in range(n)], [right() for _ in range(n)]
    elif k in ('VI', 'ipI'):
        c['x'], c['y'] = [left() for _ in range(n)], right()
    elif k == 'IV':
        c['x'], c['y'] = left(), [right() for _ in range(n)]
    elif k in ('VN', 'ipN'):
        c['x'] = [left() for _ in range(n)]
        c['y'], c['nk'] = nn(op == 'div')
    elif k == 'NV':
        c['x'], c['nk'] = nn(False)
        c['y'] = [right() for _ in range(n)]
    elif k in ('MV', 'BV'):
        c['x'] = [[left() for _ in range(n)] for _ in range(m)]
        c['y'] = [right() for _ in range(n)]
        if k == 'BV':
            c['x'], c['y'] = [left() for _ in range(n)], [[right() for _ in range(n)] for _ in range(m)]
    elif k == 'AV':
        c['x'] = [numarr(c, nn(False)[0]) for _ in range(n)]
        c['y'] = [right() for _ in range(n)]
    elif k == 'VA':
        c['x'] = [left() for _ in range(n)]
        c['y'] = [numarr(c, nn(op == 'div')[0]) for _ in range(n)]
    elif k == 'AI':
        c['x'] = [numarr(c, nn(False)[0]) for _ in range(n)]
        c['y'] = right()
    elif k == 'IA':
        c['x'] = left()
        c['y'] = [numarr(c, nn(op == 'div')[0]) for _ in range(n)]
    elif k in ('MM', 'MN', 'NM', 'MI', 'IM', 'MA', 'AM'):
        grid = lambda f: [[f() for _ in range(n)] for _ in range(m)]
        if k in ('MN', 'NM'):
            v, c['nk'] = nn(k == 'MN' and op == 'div')
        c['x'] = v if k == 'NM' else left() if k == 'IM' else grid(lambda: float(nn(False)[0])) if k == 'AM' else grid(left)
        c['y'] = v if k == 'MN' else right() if k == 'MI' else grid(lambda: float(nn(op == 'div')[0])) if k == 'MA' else grid(right)
    else:
        if op != 'mul':
            return None
        c['op'] = 'mul'
        el = lambda: G.pair(rng, regimes=[rng.choice(('int', 'dec', 'unit', 'dyad', 'mid', 'small'))])
        dec = lambda: rng.randint(-40, 40) if c.get('as') in ('int', 'ilist') else \
            narrow(rng, c['as']) if c.get('as') in NARROW else float(G.num(rng, 'dec'))
        if k == 'dot':
            c['x'], c['y'] = [el() for _ in range(n)], [el() for _ in range(n)]
        elif k == 'matv':
            c['x'], c['y'] = [[el() for _ in range(n)] for _ in range(m)], [el() for _ in range(n)]
        elif k == 'matm':
            c['x'], c['y'] = [[el() for _ in range(n)] for _ in range(m)], [[el() for _ in range(q)] for _ in range(n)]
        elif k == 'prod':      # any product of vectors and matrices, one of which may consist of numbers
            side = rng.choice('ixy')
            one, two = (dec if side == 'x' else el), (dec if side == 'y' else el)
            c['x'] = [one() for _ in range(n)] if rng.random() < .4 else [[one() for _ in range(n)] for _ in range(m)]
            c['y'] = [two() for _ in range(n)] if rng.random() < .3 else [[two() for _ in range(q)] for _ in range(n)]
            c['num'] = side
            if side != 'i' and rng.random() < .3:
                c['as'] = 'list' if side == 'x' else 'obj'
        elif k == 'rmat':
            c['x'] = [[dec() for _ in range(n)] for _ in range(m)]
            c['y'] = [el() for _ in range(n)]
        elif k == 'pdot':
            c['x'] = [el() for _ in range(n)]
            c['y'] = [dec() for _ in range(n)]
        return c
    if not int_safe(op, *_operands(c)):
        return None
    return c


def numarr(c, v):
    return v if c.get('as') in ('int', 'ilist') or c.get('as') in NARROW else float(v)


def container(c, v):
    """The list of numbers v as the kind of container the case asks for."""
    kind = c.get('as')
    if kind in ('list', 'ilist'):
        return v
    if kind in NARROW:
        return np.array(v, dtype=NARROW[kind])
    return np.array(v, dtype=object) if kind == 'obj' else np.array(v)


def _isnum(v):
    return not isinstance(v, list)


def _operands(c):
    out = []
    for s in ('x', 'y'):
        st = [c[s]]
        worst = []
        while st:
            v = st.pop()
            if _isnum(v):
                worst.append(v)
            else:
                st += v
        out.append(worst)
    return out


def _obj(v, nk=None, mkf=mk):
    if _isnum(v):
        return asnum(v, nk)
    if _isnum(v[0]):
        return mkf(v)
    if mkf is not mk:
        return ip.ArrayInterval([[mkf(p) for p in r] for r in v] if not _isnum(v[0][0]) else [mkf(p) for p in v])
    if _isnum(v[0][0]):
        return vec(v)
    return mat(v)


def _pair(v):
    return (E.fr(v), E.fr(v)) if _isnum(v) else fx(v)


def depth(v):
    return 1 + depth(v[0]) if isinstance(v, list) else 0


def run(c, mkf=mk):
    """Yield (label, result element, exact lo, exact hi)."""
    k, op = c['k'], c['op']
    f = E.OPS[op]
    x, y = c['x'], c['y']
    if k == 'prod':
        X = container(c, x) if c['num'] == 'x' else _obj(x, None, mkf)
        Y = container(c, y) if c['num'] == 'y' else _obj(y, None, mkf)
        R = np.matmul(X, Y) if c.get('np') else X @ Y
        dx, dy = (depth(x) - (c['num'] != 'x')), (depth(y) - (c['num'] != 'y'))
        for i, r in enumerate([x] if dx == 1 else x):
            for j, t in enumerate([y] if dy == 1 else [list(t) for t in zip(*y)]):
                acc = (F(0), F(0))
                for u, v in zip(r, t):
                    acc = E.kadd(acc, E.kmul(_pair(u), _pair(v)))
                idx = ((i,) if dx == 2 else ()) + ((j,) if dy == 2 else ())
                yield 'prod', (R[idx if len(idx) > 1 else idx[0]] if idx else R), acc[0], acc[1]
        return
    if k in ('dot', 'matv', 'matm', 'rmat', 'pdot'):
        X = container(c, x) if k == 'rmat' else _obj(x, None, mkf)
        Y = container(c, y) if k == 'pdot' else _obj(y, None, mkf)
        R = np.matmul(X, Y) if c.get('np') else X @ Y
        rows = [x] if k in ('dot', 'pdot') else x
        cols = [list(t) for t in zip(*y)] if k == 'matm' else [y]
        for i, r in enumerate(rows):
            for j, q in enumerate(cols):
                acc = (F(0), F(0))
                for u, v in zip(r, q):
                    acc = E.kadd(acc, E.kmul(_pair(u), _pair(v)))
                el = R if k in ('dot', 'pdot') else (R[i, j] if k == 'matm' else R[i])
                yield k, el, acc[0], acc[1]
        return
    if k in ('AM', 'MA'):
        X, Y = [np.array(v) if t == 'A' else _obj(v, None, mkf) for t, v in zip(k, (x, y))]
    elif k in ('AV', 'AI'):
        X, Y = container(c, x), _obj(y, None, mkf)
    elif k in ('VA', 'IA'):
        X, Y = _obj(x, None, mkf), container(c, y)
    elif k == 'same' and x == y:
        X = Y = mkf(x)
    elif k == 'samev' and x == y and all(p == x[0] for p in x):
        o = mkf(x[0])
        X = Y = ip.ArrayInterval([o] * len(x))
        if c.get('way') == 'view':
            Y = X[:]
        if c.get('way') == 'entry':
            Y = X[0]
    else:
        X, Y = _obj(x, c.get('nk'), mkf), _obj(y, c.get('nk'), mkf)
    if k in ('ip', 'ipN', 'ipI') or c.get('way') == 'place':
        R = IPY[op](X, Y)
    else:
        R = (NPF if c.get('np') else PY)[op](X, Y)
    if k in ('II', 'IN', 'NI', 'same'):
        yield k, R, *f(_pair(x), _pair(y))
    elif k in ('VV', 'ip', 'AV', 'VA', 'samev'):
        for i in range(len(x)):
            yield k, R[i], *f(_pair(x[i]), _pair(y[i]))
    elif k in ('VI', 'VN', 'ipN', 'ipI', 'AI'):
        for i in range(len(x)):
            yield k, R[i], *f(_pair(x[i]), _pair(y))
    elif k in ('IV', 'NV', 'IA'):
        for i in range(len(y)):
            yield k, R[i], *f(_pair(x), _pair(y[i]))
    elif k in ('MM', 'MN', 'NM', 'MI', 'IM', 'MA', 'AM'):
        for i in range(len(x if k[0] in 'MA' else y)):
            for j in range(len((x if k[0] in 'MA' else y)[0])):
                yield k, R[i, j], *f(_pair(x[i][j] if k[0] in 'MA' else x), _pair(y[i][j] if k[1] in 'MA' else y))
    elif k == 'MV':
        for i in range(len(x)):
            for j in range(len(y)):
                yield k, R[i, j], *f(_pair(x[i][j]), _pair(y[j]))
    elif k == 'BV':
        for i in range(len(y)):
            for j in range(len(x)):
                yield k, R[i, j], *f(_pair(x[j]), _pair(y[i][j]))


def show(c, r, lo, hi):
    return '%s -> [%r, %r], exact [%s, %s]' % (c, plain(r.a), plain(r.b), _dec(lo), _dec(hi))


def _dec(v):
    return repr(E.rd(v)) + '+' if isinstance(v, F) and F(E.rd(v)) != v else repr(float(v) if isinstance(v, F) else v)
