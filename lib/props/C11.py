"""Trees grow best-first within the leaf limit, with exact leaf scores."""
from floats import ord_of, f32, NAN
from props.C10 import fvalues

TECHNIQUE = 'TLA+ specification Trees (best-first growth over Splits) model-checked by TLC; trees fitted by the real code to random integer gradients validated node by node by TLC, the sampled rows inferred by TLC'
NOTE = ('Design: all tables of 3-4 rows with two features, all leaf limits; liveness included. Code: random tables of up to 14 rows and 3 features; every node: rows, score, gain, optimality; '
        'growth order and stopping. With row sampling TLC searches for a sample explaining the tree. Trusts the harness and TLC.')


def case(rng, nmax):
    n = rng.randrange(1, nmax + 1)
    cols = []
    for k in range(rng.randrange(1, 4)):
        t = rng.choice(['bkt', 'bkt', 'str'])
        m = rng.choice([1, 2, 3, 6, 9])
        miss = rng.choice([0, 0, .2])
        codes = [0 if rng.random() < miss else rng.randrange(1, m + 1) for _ in range(n)]
        if t == 'str':
            v = [None if c == 0 else 's%d' % c for c in codes]
        else:
            vals = fvalues(rng, [m])
            v = [None if c == 0 else vals[c] for c in codes]
        cols.append({'n': 'f%d' % k, 't': t, 'v': v})
    gs = rng.choice([[-1, 1], [-3, -2, -1, 0, 1, 2, 3], [1, 2], [-4, 4, 1], [0]])
    hs = rng.choice([[1], [1], [1, 2], [1, 2, 3, 4]])
    return {'cols': cols, 'g': [rng.choice(gs) for _ in range(n)], 'h': [rng.choice(hs) for _ in range(n)],
            'w': [rng.choice([1] if rng.random() < .6 else [0, 1, 2]) for _ in range(n)],
            'lam4': rng.choice([0, 0, 1, 4]), 'minh4': rng.choice([0, 0, 4, 7]), 'ming4': rng.choice([0, 0, 1, 6]),
            'threads': rng.choice([1, 2, 3, 7]), 'seed': rng.randrange(1000),
            'cfg': {'num_leaves': rng.choice([1, 2, 3, 4, 5, 8, 30])}}


def run(ctx):
    ctx.model('TreesMC', ctx.n('TreesMC.cfg', 'TreesMC_deep.cfg'), workers=8)
    ctx.model('TreesMC', ctx.n('TreesMC_reg.cfg', 'TreesMC_reg_deep.cfg'), workers=8)
    rng = ctx.rng
    cases = [case(rng, 14) for _ in range(ctx.n(1500, 15000))]
    for _ in range(ctx.n(120, 1500)):
        c = case(rng, 6)
        c['cfg']['example_sampling_rate'] = rng.choice([.3, .5, .8])
        if rng.random() < .3:
            c['cfg']['feature_sampling_rate'] = .5
        cases.append(c)
    for _ in range(ctx.n(40, 400)):
        c = case(rng, 12)
        c['cfg']['feature_sampling_rate'] = rng.choice([.3, .6])
        cases.append(c)
    from boostgen import scaled
    for _ in range(ctx.n(40, 400)):   # many rows
        cases.append(scaled(rng, case(rng, 14)))
    ctx.conform('tree', 'TreesTrace', cases, cfg='Stateless.cfg', label='fitted trees')
