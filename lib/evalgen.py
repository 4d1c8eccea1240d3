"""Stores, forests and operations for mode "eval" (C13, C14, C17, C22)."""
from boostgen import table, tree
from floats import ord_of, f32

EXACT = [-3, -2, -1, -.5, -.125, 0, .125, .25, 1, 2.5, 7, 100]
BITS = [0, 1, -1, 7, 8388607, 8388608, -8388608, 2139095039, -2139095039, ord_of(.1), ord_of(-1e-7), ord_of(1 / 3.), ord_of(16777217.0)]


def anyfloat(rng, inf=False):
    r = rng.random()
    if r < .05:
        return -0.0
    if r < .4:
        return {'ord': rng.choice(BITS)}
    if inf and r < .5:
        return {'ord': rng.choice([2139095040, -2139095040])}
    if r < .7:
        return {'ord': ord_of(f32(rng.gauss(0, 1) * 10 ** rng.randrange(-8, 9)))}
    return {'ord': rng.randrange(-2139095039, 2139095040)}


def wild(rng, t):
    """Any bits in scores, thresholds and gains."""
    t['s'] = anyfloat(rng)
    if 'th' in t and rng.random() < .6:
        t['th'] = anyfloat(rng, True)
    if 'f' in t:
        t['gain'] = rng.choice([rng.random() * 100, 1e-9, 1e30, 0.1, 3])
    for k in ('l', 'r'):
        if k in t:
            wild(rng, t[k])
    return t


def oddcats(rng, t):
    if 'cats' in t and rng.random() < .5:
        t['cats'] = t['cats'] + rng.sample(['', 'é', '"q"', 'a\\b', 'tab\there', '</script>', '\u2028', 's10', 'S1', ' s1'], 3)
    for k in ('l', 'r'):
        if k in t:
            oddcats(rng, t[k])
    return t


def forests(rng, cols, k, kmax=5, depth=(0, 1, 2, 3, 4), odd=False):
    out = []
    for _ in range(k):
        ex = rng.random() < .6
        f = [tree(rng, cols, rng.choice(depth), EXACT) for _ in range(rng.choice(range(kmax + 1)))]
        if not ex:
            f = [wild(rng, t) for t in f]
        if odd:
            f = [oddcats(rng, t) for t in f]
        out.append({'trees': f, 'exact': ex})
    return out


def pick(cols, ids):
    return [{'n': c['n'], 't': c['t'], 'v': [c['v'][i] for i in ids]} for c in cols]


def world(rng, nmax=12, tables=3, odd=False, kmax=5, forests_n=2):
    n = rng.randrange(0 if rng.random() < .1 else 1, nmax + 1)
    cols = table(rng, n)
    if odd:
        for c in cols:
            if c['t'] == 'str':
                m = {}
                for x in set(c['v']):
                    m[x] = rng.choice(['', 'é', '"q"', 'a\\b', 'tab\there', '</script>', '\u2028', x, x, x])
                c['v'] = [m[x] for x in c['v']]
    ts = [{'ids': list(range(n)), 'cols': cols}]
    for _ in range(tables - 1):
        r = rng.random()
        ids = list(range(n))
        if r < .5:
            rng.shuffle(ids)
        elif r < .8:
            ids = [rng.randrange(n) for _ in range(rng.randrange(1, n + 4))] if n else []
        else:
            ids = rng.sample(ids, rng.randrange(0, n + 1))
        ts.append({'ids': ids, 'cols': pick(cols, ids)})
    return {'tables': ts, 'forests': forests(rng, cols, forests_n, kmax, odd=odd)}


def large(rng, c):
    """The same tables with every row repeated many times among other rows; more trees."""
    for t in c['tables']:
        n = max(1, len(t['ids']))
        if t['cols']:
            t['scale'] = {'m': rng.choice([1, 100, 150000 // n]), 'fill': rng.choice([0, 77, 70000]), 'blocked': rng.random() < .5, 'first': rng.random() < .5}
    for f in c['forests']:
        if rng.random() < .3 and f['trees']:
            f['trees'] = [rng.choice(f['trees']) for _ in range(rng.choice([40, 260]))]
    return c
