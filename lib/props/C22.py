"""Feature importance is the normalized total gain of the splits made."""
import evalgen

TECHNIQUE = 'TLA+ specification Evaluate (total gains, their order and normalization); importance lists and collected features of the real code for random forests validated by TLC (EvaluateTrace)'
NOTE = 'Random forests of up to 8 trees of depth up to 5, gains in quarters (from 0 to 1000). Trusts the harness and TLC.'


def gains(rng, t, pool):
    if 'f' in t:
        t['gain'] = rng.choice(pool)
    for k in ('l', 'r'):
        if k in t:
            gains(rng, t[k], pool)


def case(rng):
    n = rng.choice([1, 2, 5, 20])
    cols = [{'n': 'f%d' % i, 't': rng.choice(['str', 'bkt']), 'v': ['a'] if False else [None]} for i in range(n)]
    fs = []
    for _ in range(rng.randrange(1, 5)):
        trees = [evalgen.tree(rng, cols, rng.choice([0, 1, 2, 3, 5]), evalgen.EXACT) for _ in range(rng.randrange(0, 9))]
        pool = rng.choice([[1], [.25, .5, 1, 2.5], [.25, 1000], [0, 0, .5, 2], [0, 1], [0], [k / 4 for k in range(1, 200)]])
        for t in trees:
            gains(rng, t, pool)
        fs.append({'trees': trees, 'exact': False})
    return {'tables': [], 'forests': fs, 'ops': [{'op': 'importance', 'forest': k} for k in range(len(fs))]}


def run(ctx):
    rng = ctx.rng
    cases = [case(rng) for _ in range(ctx.n(700, 9000))]
    ctx.conform('eval', 'EvaluateTrace', cases, cfg='Stateless.cfg', label='importance lists')
