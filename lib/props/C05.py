"""Bucketizing preserves order, bounds and missing values."""
from floats import ord_of, NAN

TECHNIQUE = 'TLA+ specification Buckets: requirements plus the transcribed binning algorithm, model-checked by TLC on all small columns; TLC-generated and random columns run on the real class, every resulting column validated by TLC against the requirements'
NOTE = ('Design: all columns of up to 6 rows over 5 values and NaN, budgets 1..4. Code: all columns of up to 4 rows over NaN and 3 values, budgets 1..3, all divisions into 2 batches; '
        'random columns (duplicates, infinitesimals, extremes, early bucket building, storage-width boundaries). Finite values only; trusts the order-preserving float encoding and TLC.')


def values(rng, n):
    kind = rng.randrange(8)
    if kind == 0:
        pool = [float(i) for i in range(rng.randrange(1, 6))]
    elif kind == 1:
        pool = [rng.uniform(-1, 1) for _ in range(rng.randrange(1, 2 * n + 2))]
    elif kind == 2:   # neighbouring floats
        o = ord_of(rng.choice([0.0, 1.0, -1.0, 1e30, -1e-30]))
        return [rng.choice([NAN] + [o + k for k in range(-4, 5)]) if rng.random() < .95 else NAN for _ in range(n)]
    elif kind == 3:
        pool = [3.4028234663852886e38, -3.4028234663852886e38, 0.0, 1e-45, -1e-45, 1.0]
    elif kind == 4:   # a few heavy values among light ones
        heavy = [float(rng.randrange(-20, 20)) for _ in range(rng.randrange(1, 4))]
        return [ord_of(rng.choice(heavy)) if rng.random() < .5 else ord_of(rng.uniform(-20, 20)) for _ in range(n)]
    elif kind == 5:
        pool = [float(i) for i in range(n)]
    elif kind == 6:
        return [NAN] * n
    else:
        pool = [rng.gauss(0, 1) * 10 ** rng.randrange(-5, 6) for _ in range(rng.randrange(1, 30))]
    miss = rng.choice([0, 0, .1, .5])
    return [NAN if rng.random() < miss else ord_of(rng.choice(pool)) for _ in range(n)]


def divide(rng, v, parts):
    cut = sorted(rng.randrange(len(v) + 1) for _ in range(parts - 1))
    return [v[a:b] for a, b in zip([0] + cut, cut + [len(v)])]


def run(ctx):
    ctx.model('Buckets', ctx.n('Buckets_quick.cfg', 'Buckets.cfg'), workers=8)
    cases = ctx.generate('BucketsGen')
    rng = ctx.rng
    for _ in range(ctx.n(300, 4000)):
        n = rng.choice([1, 2, 5, 20, 40, 60, 120, 250])
        budget = rng.choice([1, 2, 3, 4, 5, 8, 13, 20, 50, 100, n, max(1, n // 2), n + 1])
        cases.append({'budget': budget, 'b': divide(rng, values(rng, n), rng.randrange(1, 5))})
    for _ in range(ctx.n(30, 300)):   # buckets built before the last batch
        budget = rng.choice([1, 2, 3])
        n = rng.randrange(100 * budget - 5, 100 * budget + 150)
        cases.append({'budget': budget, 'b': divide(rng, values(rng, n), rng.randrange(2, 6))})
    ctx.conform('bktcol', 'BucketsTrace', cases, cfg='Stateless.cfg', label='columns')
    big = []
    for k in [253, 254, 255, 256, 257] + [65532, 65533, 65534, 65535, 65536][::1 if ctx.thorough else 2]:
        v = [ord_of(i * .25 - 100) for i in range(k)]
        rng.shuffle(v)
        v += [rng.choice(v) for _ in range(40)] + [NAN] * 2
        big.append({'budget': 40000 if k > 1000 else 200, 'big': 1, 'b': divide(rng, v, 3)})
    for k in [254, 255, 256, 257]:   # buckets built from 100 rows of each of k values, then others come
        v = [ord_of(float(i)) for i in range(k)] * 100 + [ord_of(0.0)]
        rng.shuffle(v)
        late = [ord_of(rng.choice([-5., 0., .5, k - 1., k - .5, k + 3., 1e30])) for _ in range(20)] + [NAN]
        big.append({'budget': k, 'big': 1, 'b': [v, late[:9], late[9:]]})
    ctx.conform('bktcol', 'BucketsTrace', big, cfg='Stateless.cfg', label='storage widths')
