"""Checkpoint scores are the scores of the forest cut at that tree."""
import evalgen

TECHNIQUE = ('TLA+ specifications Evaluate (files required) and EvalLoop (the loop writing them, all checkpoint lists within bounds, with termination), model-checked by TLC; '
             'files written by the real code for random lists, forests and obstacles validated by TLC (EvaluateTrace)')
NOTE = ('Design: all lists of up to 3 (4) points in -1..4 (5) for forests of up to 3 (4) trees. Code: random forests, lists with repetitions, disorder, numbers outside 1..size, blocked files, missing directories; '
        'values compared to the six digits printed; evaluation intervals -1..12 for forests up to 30 trees. Trusts the harness and TLC.')


def case(rng):
    c = evalgen.world(rng, rng.choice([1, 4, 12]), 2, kmax=7)
    ops = []
    for _ in range(rng.randrange(1, 5)):
        fi = rng.randrange(len(c['forests']))
        c['forests'][fi] = dict(c['forests'][fi], exact=True)
        k = len(c['forests'][fi]['trees'])
        r = rng.random()
        pts = [rng.choice([1, k, k + 1, rng.randrange(-2, k + 4), rng.randrange(1, k + 1) if k else 1]) for _ in range(rng.randrange(0, 6))]
        if r < .3:
            pts = list(range(1, k + 1))
            rng.shuffle(pts)
        op = {'op': 'files', 'table': rng.randrange(2), 'forest': fi, 'points': pts, 'threads': rng.choice([1, 2, 4])}
        r = rng.random()
        if r < .12 and k and c['tables'][op['table']]['ids']:
            op['blocked'] = sorted(set(rng.randrange(0, k + 2) for _ in range(rng.choice([1, 2]))))
        elif r < .17:
            op['deep'] = True
        elif r < .5:
            op['exists'] = True
        ops.append(op)
    c['ops'] = ops
    return c


def run(ctx):
    rng = ctx.rng
    ctx.model('EvalLoopMC', ctx.n('EvalLoopMC.cfg', 'EvalLoopMC_deep.cfg'), workers=4)
    cases = []
    for _ in range(ctx.n(900, 9000)):
        c = case(rng)
        # the values in files are checked in units, so scores have to be exact
        for i, f in enumerate(c['forests']):
            if f['exact']:
                from_ = evalgen.forests(rng, c['tables'][0]['cols'], 1, max(1, len(f['trees'])))
                while not from_[0]['exact']:
                    from_ = evalgen.forests(rng, c['tables'][0]['cols'], 1, max(1, len(f['trees'])))
                f['trees'] = from_[0]['trees'] if any(isinstance(t['s'], dict) for t in f['trees']) else f['trees']
        cases.append(c)
    for c in rng.sample(cases, ctx.n(16, 160)):
        evalgen.large(rng, c)
    pts = [{'op': 'points', 'interval': i, 'size': s} for i in range(-1, 13) for s in range(0, 31)]
    cases.append({'tables': [], 'forests': [], 'ops': pts})
    cases.append({'tables': [], 'forests': [], 'ops': [{'op': 'points', 'interval': rng.choice([0, 1, 7, 100, 2147483647]), 'size': rng.choice([1, 99, 100, 101, 1000])} for _ in range(40)]})
    ctx.conform('eval', 'EvaluateTrace', cases, cfg='Stateless.cfg', label='checkpoints')
