"""Routing rows through a split loses, duplicates and misplaces none."""
from floats import ord_of, f32, NAN
from props.C10 import fvalues

TECHNIQUE = 'TLA+ specifications Routing and Partition (with the in-place loop), model-checked by TLC; Partition called on random columns, splits and slices, each answer validated by TLC'
NOTE = ('Design: the swapping loop for all vectors of up to 5 rows, slices and predicates, termination included. Code: random string and bucketized columns, thresholds on, next to and between '
        'values, missing values, unknown and empty category lists, slices inside larger vectors. Trusts the harness and TLC.')
STR = ['__missing__', 's1', 's2', 's3', 's4', '', 'a b', 'S1']


def one(rng, huge=False):
    n = rng.randrange(1, 14) if not huge else rng.choice([300, 700])
    t = rng.choice(['str', 'bkt'])
    if t == 'str':
        pool = STR[:rng.randrange(1, 9)] if not huge else ['s%d' % i for i in range(500)]
        col = {'n': 'f', 't': 'str', 'v': [rng.choice(pool) for _ in range(n)]}
        cats = [rng.choice(STR + ['zz'] if not huge else pool) for _ in range(rng.randrange(0, 5) if not huge else 100)]
        node = {'f': 'f', 'cats': cats}
        internal = rng.random() < .3
        if internal and not set(cats) & set(col['v'] + ['__missing__']):
            internal = False
    else:
        m = rng.randrange(1, 8) if not huge else 400
        vals = fvalues(rng, [m]) if not huge else [i * .5 for i in range(m + 1)]
        col = {'n': 'f', 't': 'bkt', 'v': [None if rng.random() < .2 else rng.choice(vals) for _ in range(n)]}
        ords = [x['ord'] if isinstance(x, dict) else ord_of(x) for x in vals]
        o = rng.choice(ords)
        th = rng.choice([o, o - 1, o + 1, ord_of(0.0), ord_of(rng.uniform(-2, 5)), (min(ords) + max(ords)) // 2,
                         ord_of(f32(3.4e38)), ord_of(f32(-3.4e38))])
        node = {'f': 'f', 'th': {'ord': th}, 'mr': rng.random() < .5}
        internal = False
        if rng.random() < .1:
            col['budget'] = rng.choice([1, 2, 3])
    rows = list(range(n))
    rng.shuffle(rows)
    if rng.random() < .5:
        rows = rows[:rng.randrange(0, n + 1)]
    off = rng.randrange(0, len(rows) + 1) if rng.random() < .5 else 0
    ln = rng.randrange(0, len(rows) - off + 1) if rng.random() < .5 else len(rows) - off
    return {'col': col, 'node': node, 'rows': rows, 'off': off, 'len': ln, 'internal': internal}


def large(rng):
    c = one(rng)
    while 'budget' in c['col'] or c['internal']:
        c = one(rng)
    n = len(c['col']['v'])
    c.update(seed=rng.randrange(1000), shuffle=rng.random() < .5, off=rng.choice([0, 1, 1000]), rest=rng.choice([0, 1, 70]),
             scale={'m': max(400, 140000 // n if rng.random() < .5 else 0), 'fill': rng.choice([0, 1000, 70000]), 'blocked': rng.random() < .5, 'first': rng.random() < .5})
    if c['col']['t'] == 'bkt':   # values apart from each other
        ords = sorted({x['ord'] if isinstance(x, dict) else ord_of(f32(x)) for x in c['col']['v'] if x is not None})
        c['col']['v'] = [None if x is None else ords.index(x['ord'] if isinstance(x, dict) else ord_of(f32(x))) + .5 for x in c['col']['v']]
        c['node']['th'] = rng.choice([-1, 0, 1, 1.5, 2, 3, 4.5, 100])
        if c['node']['th'] % 1 == .5 and c['scale']['fill']:
            c['node']['th'] += .5
    return c


def run(ctx):
    ctx.model('Partition', workers=8)
    rng = ctx.rng
    cases = [one(rng) for _ in range(ctx.n(4000, 40000))] + [one(rng, True) for _ in range(ctx.n(8, 60))]
    cases += [large(rng) for _ in range(ctx.n(24, 240))]
    ctx.conform('partition', 'PartitionTrace', cases, cfg='Stateless.cfg', label='partitions')
