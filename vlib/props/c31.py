"""C31: printed forms show the endpoints, and the array helpers do what they say to every row."""
import re
from fractions import Fraction as F
from ..lib import ip, np, mk, vec, mat, tolist, is_array
from .. import gen as G

ID = 'C31'
RULE = ('one interval or array printed and its text parsed back to the endpoints (six significant digits, every element in its place), or one call of '
        'get_shape, unique, non_repeat, clear_zero_rows judged row by row')
N = {'quick': 1500, 'thorough': 40000}
CASE_TIMEOUT = 30
NUM = r'(?:[-+]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][-+]?\d+)?|[-+]?inf|nan)'
CELL = re.compile(r"'\[(%s), (%s)\]'" % (NUM, NUM))


def required(tier):
    return {'scalars_printed': 2500, 'arrays_printed': 1000, 'elements_parsed': 10000, 'exact_texts': 500, 'shapes': 500, 'ragged': 60, 'unique': 500,
            'duplicates': 400, 'non_repeat': 500, 'zero_rows': 500, 'contradictions': 60}


def number(rng):
    u = rng.random()
    if u < .3:
        return rng.choice((0., 1., -1., 2.5, -0.125, 100., 123456., 1234567., 999999.5, 1e22, -1e-7, 1e-4, 0.00012345649999, 9.999995, 5e-324, 1.7976931348623157e308))
    if u < .6:
        return round(rng.uniform(-10, 10), rng.randint(0, 8))
    if u < .9:
        return rng.uniform(-1, 1) * 10. ** rng.randint(-30, 30)
    return G.num(rng, 'wide')


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        k = rng.choice(('scalar', 'scalar', 'array', 'shape', 'unique', 'repeat', 'zero'))
        if k in ('scalar', 'array'):
            sh = () if k == 'scalar' else rng.choice(((rng.randint(1, 9),), (rng.randint(1, 4), rng.randint(1, 6)), (2, rng.randint(1, 3), 2), (rng.randint(40, 90),)))
            d = [sorted((number(rng), number(rng)), reverse=rng.random() < .2) for _ in range(int(np.prod(sh)))]
            if rng.random() < .1:
                d = [[x, x] for x, _ in d]
            yield {'k': k, 'shape': list(sh), 'd': d}
        elif k == 'shape':
            sh = [rng.randint(1, 4) for _ in range(rng.randint(1, 4))]
            yield {'k': k, 'shape': sh, 'as': rng.choice(('list', 'list', 'tuple', 'array')), 'v': rng.choice((0, 1.5, -3)), 'ragged': rng.random() < .3}
        else:
            m = rng.choice((2, 3)) if k == 'zero' else rng.randint(1, 4)
            rows = [[rng.choice((rng.randint(-2, 2), rng.randint(-1, 1), rng.uniform(-2, 2))) for _ in range(m)] for _ in range(rng.randint(1, 6))]
            rows += [list(rng.choice(rows)) for _ in range(rng.randint(0, 4))]
            if k != 'zero' and rng.random() < .3:       # near duplicates that rounding to twelve digits does not touch
                rows.append([v + rng.choice((0, 1e-6, -1e-9)) for v in rng.choice(rows)])
            if k == 'zero':
                rows += [[0] * m for _ in range(rng.randint(0, 2))] + [[rng.choice((0, 0, 1e-9, 1e-6)) for _ in range(m)] for _ in range(rng.randint(0, 1))]
            rng.shuffle(rows)
            b = [rng.choice((-1, 0, 0, 1, 1e-6, -1e-9, rng.uniform(-2, 2))) for _ in rows]
            if k == 'repeat':
                for i, r in enumerate(rows):
                    j = rows.index(r)
                    if j < i and rng.random() < .5:
                        b[i] = b[j]
            yield {'k': k, 'rows': rows, 'b': b}


def six(text, v):
    """The text is the value rounded to six significant digits (the nearest, either one at a tie)."""
    if v != v or v in (float('inf'), float('-inf')):
        return text == ('nan' if v != v else 'inf' if v > 0 else '-inf')
    if text.lstrip('+-') in ('inf', 'nan'):
        return False
    t, x = F(text), F(v)
    if x == 0:
        return t == 0
    e = 0
    while abs(x) >= F(10) ** (e + 1):
        e += 1
    while abs(x) < F(10) ** e:
        e -= 1
    digits = re.sub(r'[eE].*', '', text).lstrip('+-').replace('.', '').lstrip('0')
    return abs(t - x) <= F(10) ** (e - 5) / 2 and len(digits.rstrip('0')) <= 6


def nested(sh, v, wrap=list):
    return v if not sh else wrap(nested(sh[1:], v, wrap) for _ in range(sh[0]))


def check(ctx, c):
    k = c['k']
    if k == 'scalar':
        x = mk(c['d'][0])
        ctx.event('scalars_printed')
        for text in (repr(x), str(x), '%s' % x, format(x)):
            m = CELL.fullmatch(text)
            if not ctx.expect(m and all(six(m.group(i + 1), c['d'][0][i]) for i in (0, 1)), 'scalar-text', lambda: '%s -> %s' % (c, text)):
                return
            ctx.event('elements_parsed')
            ctx.event('exact_texts', float(m.group(1)) == c['d'][0][0])
        ctx.expect(tolist(x) == list(c['d'][0]) or tuple(tolist(x)) == tuple(c['d'][0]), 'printing-changes', lambda: '%s' % c)
        ctx.distinct(c['d'])
    elif k == 'array':
        arr = np.array([mk(p) for p in c['d']] + [None], dtype=object)[:-1].reshape(c['shape'])
        x = ip.ArrayInterval(arr)
        ctx.event('arrays_printed')
        for text in (repr(x), str(x)):
            show = lambda: '%s -> %s' % (c, text)
            cells = CELL.findall(text)
            ctx.event('elements_parsed', len(cells))
            ctx.expect(len(cells) == len(c['d']) and all(six(q[i], p[i]) for q, p in zip(cells, c['d']) for i in (0, 1)), 'array-text', show)
            frame = re.sub(r'[\s,]', '', CELL.sub('x', text))
            ctx.expect(frame == 'Interval(' + nestedtext(c['shape']) + ')', 'array-brackets', lambda: show() + ' frame ' + frame)
        ctx.distinct(c['d'])
    elif k == 'shape':
        sh = c['shape']
        x = nested(sh, c['v'], tuple if c['as'] == 'tuple' else list)
        if c['as'] == 'array':
            x = np.array(x)
        elif c['ragged'] and len(sh) > 1 and sh[0] > 1:
            x = list(x)
            x[-1] = list(x[-1]) + [nested(sh[2:], c['v'])]
            ctx.event('ragged')
            try:
                got = ip.get_shape(x)
            except ValueError:
                return
            ctx.violation('ragged-accepted', '%s -> %s' % (x, got))
            return
        ctx.event('shapes')
        ctx.expect(tuple(ip.get_shape(x)) == tuple(sh), 'shape', lambda: '%s -> %s' % (x, ip.get_shape(x)))
        ctx.distinct((sh, c['as']))
    else:
        a, b = np.array(c['rows'], dtype=float), np.array(c['b'], dtype=float)
        a0, b0 = a.copy(), b.copy()
        near = lambda p, q: all(abs(u - v) <= 6e-13 for u, v in zip(p, q))
        full = [list(r) + [h] for r, h in zip(a0, b0)]
        if k == 'unique':
            ctx.event('unique')
            out = [list(r) for r in ip.unique(a)]
            src = [list(r) for r in a0]
        elif k == 'repeat':
            ctx.event('non_repeat')
            r = ip.non_repeat(a, b)
            if not ctx.expect(len(r) == 2 and len(r[0]) == len(r[1]), 'form:non_repeat', lambda: '%s -> %s' % (c, r)):
                return
            out = [list(p) + [h] for p, h in zip(*r)]
            src = full
        else:
            ctx.event('zero_rows')
            m = a.shape[1]
            r = ip.clear_zero_rows(a, b) if m == 2 else ip.clear_zero_rows(a, b, ndim=m)
            out = [list(p) + [h] for p, h in zip(r[0], r[1])]
            want = [p for p in full if any(v != 0 for v in p[:-1])]
            bad = any(p[-1] > 0 and not any(p[:-1]) for p in full)
            ctx.event('contradictions', bad)
            ctx.expect(len(out) == len(want) and all(near(p, q) for p, q in zip(out, want)), 'rows:clear_zero_rows', lambda: '%s -> %s' % (c, r))
            ctx.expect(bool(r[2]) == (not bad), 'consistency:clear_zero_rows', lambda: '%s -> %s' % (c, r))
            ctx.distinct(full)
            return
        # the first of equal rows, in the order of the rows
        want = []
        for p in src:
            if not any(near(p, q) for q in want):
                want.append(p)
        ctx.event('duplicates', len(src) - len(want))
        ctx.expect(len(out) == len(want) and all(near(p, q) for p, q in zip(out, want)), 'rows:' + k, lambda: '%s -> %s, expected %s' % (c, out, want))
        ctx.expect((a == a0).all() and (b == b0).all(), 'argument-changed:' + k, lambda: '%s' % c)
        ctx.distinct(src)


def nestedtext(sh):
    return 'x' if not sh else '[' + nestedtext(sh[1:]) * sh[0] + ']'
