"""Ranking problems for mode "pair"; the tables of transcendental functions the specification uses."""
import math
from pointgen import said

LOSSES = ['custom', 'auc', 'gbrank', 'pairwise_logloss', 'lambdamart']


def case(rng, nmax=12):
    n = rng.randrange(1, nmax + 1)
    pool = rng.choice([[0, 1], [0, 1, 2], [-1.5, 0, .5, 2], [1], [0, 1, 2, 3, 4]])
    c = {'loss': rng.choice(LOSSES), 'y': [rng.choice(pool) for _ in range(n)],
         'w': [rng.choice([1] if rng.random() < .5 else [0, .5, 1, 2]) for _ in range(n)],
         'rate8': rng.choice([4, 8, 20, 40, 80]), 'delta': rng.random() < .4, 'equal': rng.random() < .4,
         'threads': rng.choice([1, 2, 3, 8]), 'seed': rng.randrange(10 ** 6), 'junk': rng.choice([0, 0, n, n + 3, 1]),
         'quiet': rng.random() < .2, 'rerank': rng.random() < .5, 'twice': rng.random() < .2}
    if rng.random() < .65:
        k = rng.choice([1, 2, 3, 5])
        c['grp'] = ['q%d' % rng.randrange(k) for _ in range(n)]
    if c['loss'] == 'lambdamart':
        c['base8'] = rng.choice([0, 0, 8 + 4, 16, 80])
    fp = rng.choice([[0], [0, 1, -1, 4], list(range(-24, 25)), [-8, 0, 8, 16]])
    c['fs'] = [[rng.choice(fp) for _ in range(n)] for _ in range(rng.choice([1, 2, 3]))]
    return c


def long_group(rng):
    """Ranks beyond a hundred, few pairs."""
    n = rng.choice([99, 101, 102, 110, 130])
    c = case(rng, 3)
    c.update(loss=rng.choice(['lambdamart'] * 4 + LOSSES), w=[1] * n, y=[0] * n, rate8=rng.choice([8, 16, 24]), equal=False, junk=0, twice=False,
             threads=rng.choice([1, 2]), rerank=True, base8=rng.choice([0, 16, 12]))
    for i in rng.sample(range(n), rng.choice([1, 2])):
        c['y'][i] = rng.choice([1, 2])
    if 'grp' in c:
        c['grp'] = ['q%d' % (rng.random() < .05) for _ in range(n)]
    # few distinct differences: scores are small integers, most rows distinct enough for ranks to matter
    c['fs'] = [[rng.choice(range(-24, 25)) for _ in range(n)] for _ in range(2)]
    return c


def many_groups(rng):
    """More groups than threads, slices or bytes can count."""
    k = rng.choice([40, 100, 280])
    c = case(rng, 3)
    grp = []
    for g in range(k):
        grp += ['q%d' % g] * rng.choice([1, 2, 2, 3])
    rng.shuffle(grp)
    n = len(grp)
    c.update(grp=grp, y=[rng.choice([0, 0, 1, 2]) for _ in range(n)], w=[rng.choice([1, 1, 2, .5]) for _ in range(n)], rate8=rng.choice([8, 16, 24]), junk=rng.choice([0, n, n + 3]),
             threads=rng.choice([1, 2, 3, 8, 16]), fs=[[rng.choice([0, 4, 8, -8, 12]) for _ in range(n)] for _ in range(2)])
    return c


def post(case, evs):
    for e in evs:
        if e['e'] == 'Init':
            b = case.get('base8', 0) / 8 or 2.0
            # at most 1e5 in the table: ranks start at discount(0) = 1
            e['disc'] = [round(1e4 * math.log(b) / math.log(b + r)) for r in range(len(case['y']) + 1)]
        elif e['e'] == 'Iter':
            d = {a - b for a in e['f'] for b in e['f']}
            e['sig'] = {str(x): round(1e4 / (1 + math.exp(x / 8))) for x in d}
            e['lg'] = {str(x): round(1e4 * (math.log1p(math.exp(-x / 8)) if x > -4000 else -x / 8)) for x in d}
            said(e)
            # TLC reads an empty list well, an empty record too; big numbers never occur
    return evs
