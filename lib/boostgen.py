"""Random trainings shared by the checks of TrainGBDT."""
import json
from floats import ord_of, f32
from props.C10 import fvalues


def table(rng, n, kmax=3):
    cols = []
    for k in range(rng.randrange(1, kmax + 1)):
        t = rng.choice(['bkt', 'bkt', 'str'])
        m = rng.choice([1, 2, 3, 6])
        miss = rng.choice([0, 0, .2])
        codes = [0 if rng.random() < miss else rng.randrange(1, m + 1) for _ in range(n)]
        if t == 'str':
            v = [None if c == 0 else 's%d' % c for c in codes]
        else:
            vals = fvalues(rng, [m])
            v = [None if c == 0 else vals[c] for c in codes]
        cols.append({'n': 'f%d' % k, 't': t, 'v': v})
    return cols


def tree(rng, cols, depth, scores):
    t = {'s': rng.choice(scores)}
    if depth and cols and rng.random() < .7:
        c = rng.choice(cols)
        t['f'] = c['n']
        t['gain'] = rng.randrange(1, 9)
        if c['t'] == 'str':
            cats = sorted(set(x or '__missing__' for x in c['v']) | {'unknown'})
            t['cats'] = rng.sample(cats, rng.randrange(0, len(cats) + 1))
        else:
            vs = [x for x in c['v'] if x is not None] or [0.0]
            t['th'] = rng.choice(vs)
            t['mr'] = rng.random() < .5
        t['l'] = tree(rng, cols, depth - 1, scores)
        t['r'] = tree(rng, cols, depth - 1, scores)
    return t


def forest(rng, cols, kmax=3, scores=(-2, -.5, 0, .25, 1, 3)):
    return [tree(rng, cols, rng.choice([0, 1, 2, 3]), scores) for _ in range(rng.randrange(0, kmax + 1))]


def training(rng, nmax=10, itmax=4):
    n = rng.randrange(1, nmax + 1)
    cols = table(rng, n)
    iters = rng.randrange(1, itmax + 1)
    gs = rng.choice([[-1, 1], [-3, -2, -1, 0, 1, 2, 3], [1, 2], [-4, 4, 1]])
    hs = rng.choice([[1], [1], [1, 2], [1, 2, 4]])
    c = {'cols': cols, 'w': [rng.choice([1] if rng.random() < .6 else [0, 1, 2]) for _ in range(n)],
         'y': [rng.choice([-1, 1]) for _ in range(n)],
         'features': [x['n'] for x in cols if rng.random() < .85],
         'lam4': rng.choice([0, 0, 1, 4]), 'minh4': rng.choice([0, 0, 4, 7]), 'ming4': rng.choice([0, 0, 1, 6]),
         'shrink8': rng.choice([8, 8, 4, 1, 2]), 'threads': rng.choice([1, 2, 3, 7]), 'seed': rng.randrange(1000),
         'iters': [{'c': rng.choice([0, 0, 8, -4, 3, 100]), 'g': [rng.choice(gs) for _ in range(n)],
                    'h': [rng.choice(hs) for _ in range(n)]} for _ in range(iters)],
         'cfg': {'num_leaves': rng.choice([1, 2, 3, 5, 8]), 'num_trees': iters}}
    if rng.random() < .6:
        c['base'] = forest(rng, cols)
    return c


def scaled(rng, c, key='w'):
    """The same problem with every row repeated up to some thousand times and many rows of weight zero in between."""
    for k in c['cols']:
        if k['t'] == 'bkt':   # values apart from each other, so that no bucket holds two of them
            vs = sorted({json.dumps(x) for x in k['v'] if x is not None})
            num = {x: i for i, x in enumerate(sorted(vs, key=lambda x: order(json.loads(x))))}
            k['v'] = [None if x is None else num[json.dumps(x)] + .5 for x in k['v']]
    n = max(1, len(c[key]))
    c['scale'] = {'m': rng.choice([1, 64, 2048, 4096, 1 << (131072 // n).bit_length() - 1]), 'fill': rng.choice([0, 300, 5000, 70000]), 'blocked': rng.random() < .5, 'first': rng.random() < .5}
    if c['scale']['m'] == 1 and c['scale']['fill'] > 20000:
        c['scale']['m'] = 256
    return c


def order(x):
    return x['ord'] if isinstance(x, dict) else ord_of(f32(x))
