"""The best split of a feature is optimal and its reported gain is real."""
from floats import ord_of, f32, NAN

TECHNIQUE = 'TLA+ specification Splits: candidate divisions, gains and the transcribed histogram scan, model-checked by TLC; FindBestSplit + Partition run on TLC-generated and random problems, each answer validated by TLC against all candidates'
NOTE = ('Design: the scan finds an optimal candidate for all problems of up to 3 (thorough: 4) rows over 3 codes (5 parameter sets, both feature types). Code: all problems of up to 3 rows, random problems of up to 16 rows with integer '
        'gradients, compared in units of 1e-4. Categorical optimality is over score-order cuts, and over all subsets when unregularized and unconstrained. Trusts the harness and TLC.')


def fvalues(rng, codes):
    """Float value of each code >= 1: increasing, of very different kinds."""
    m = max(codes + [1])
    k = rng.randrange(6)
    if k == 0:
        v = [float(i) for i in range(m + 1)]
    elif k == 1:     # neighbouring floats
        o = ord_of(rng.choice([0.0, 1.0, -1.0, 1e30, 3e-39, 16777216.0]))
        return [{'ord': o + i} for i in range(m + 1)]
    elif k == 2:
        v = sorted(set(f32(rng.uniform(-1e-3, 1e-3)) for _ in range(4 * m + 8)))[:m + 1]
    elif k == 3:
        v = [-1e30, -1e10, -1.0, -1e-30, 0.0, 1e-30, 1.0, 1e10, 1e30, 2e30, 3e30, 3.4e38][:m + 1]
        v = [f32(x) for x in v] if len(v) == m + 1 else [float(i) for i in range(m + 1)]
    elif k == 4:
        v = sorted(set(f32(rng.gauss(0, 1e6)) for _ in range(4 * m + 8)))[:m + 1]
    else:
        v = [1e9 + 64.0 * i for i in range(m + 1)]
    return v


def column(rng, t, codes):
    if t == 'str':
        names = ['__missing__'] + ['s%d' % i for i in range(1, 60)]
        return {'n': 'f', 't': 'str', 'v': [names[c] for c in codes]}
    v = fvalues(rng, codes)
    return {'n': 'f', 't': 'bkt', 'v': [None if c == 0 else v[c] for c in codes]}


def problem(rng, big=False):
    n = rng.choice([1, 2, 3, 4, 6, 8, 12, 16])
    t = rng.choice(['str', 'bkt'])
    m = rng.choice([1, 2, 3, 5, 8])
    codes = [rng.choice([0] * rng.randrange(0, 3) + list(range(1, m + 1))) for _ in range(n)]
    case = {'col': column(rng, t, codes)}
    if rng.random() < .1 and t == 'bkt':
        case['col']['budget'] = rng.choice([1, 2, 3])
    gs = rng.choice([[-1, 1], [-4, -3, -2, -1, 0, 1, 2, 3, 4], [0], [0, 1], [-2, 2]])
    hs = rng.choice([[1], [1, 2], [0, 1], [1, 2, 3, 4], [0]]) if rng.random() < .9 else [0, 4]
    case['g'] = [rng.choice(gs) for _ in range(n)]
    case['h'] = [rng.choice(hs) for _ in range(n)]
    case['w'] = [rng.choice([1] if rng.random() < .5 else [0, 1, 2, 3]) for _ in range(n)]
    rows = list(range(n))
    if rng.random() < .3:
        rows = rng.sample(rows, rng.randrange(0, n + 1))
    case['rows'] = rows
    case['lam4'] = rng.choice([0, 0, 1, 4, 12])
    case['minh4'] = rng.choice([0, 0, 0, 4, 6, 12])
    case['ming4'] = rng.choice([0, 0, 1, 4, 10])
    return case


def run(ctx):
    ctx.model('SplitsMC', ctx.n('SplitsMC_bkt.cfg', 'SplitsMC_bkt_deep.cfg'), workers=8)
    ctx.model('SplitsMC', ctx.n('SplitsMC_str.cfg', 'SplitsMC_str_deep.cfg'), workers=8)
    rng = ctx.rng
    cases = []
    for g in ctx.generate('SplitsGen'):
        r = g['rows']
        codes = [x['c'] for x in r]
        for t in ('str', 'bkt'):
            cases.append({'col': column(rng, t, codes), 'g': [x['g'] for x in r], 'h': [x['h'] for x in r],
                          'w': [1] * len(r), 'rows': list(range(len(r))), 'lam4': rng.choice([0, 0, 2]),
                          'minh4': rng.choice([0, 0, 4]), 'ming4': rng.choice([0, 0, 2])})
    cases += [problem(rng) for _ in range(ctx.n(2500, 30000))]
    from boostgen import scaled
    for _ in range(ctx.n(60, 600)):   # many rows and values
        c = problem(rng)
        c['cols'] = [c['col']]
        scaled(rng, c)
        del c['cols']
        c['col'].pop('budget', None)
        cases.append(c)
    ctx.conform('split', 'SplitsTrace', cases, cfg='Stateless.cfg', label='split problems')
