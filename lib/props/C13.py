"""Prediction is the sum of the leaves each row reaches."""
import evalgen

TECHNIQUE = ('TLA+ specifications Routing/Evaluate (leaf reached, sum of scores) and WorkSplit (slices given to tasks, all schedules); recorded predictions of the real code on random stores and forests, '
             'with several thread counts and under controlled schedules, validated by TLC (EvaluateTrace: every row identity keeps one exact score)')
NOTE = ('Random forests of up to 6 trees of depth up to 4, permuted, sampled and repeated rows, repeated predictions with other forests in between, 1 to 9 threads, and controlled schedules with race detection. '
        'Scores are compared exactly for dyadic forests (1e-4 units) and bit for bit between executions for all. Trusts the harness and TLC.')


def case(rng, controlled=False):
    c = evalgen.world(rng, 5 if controlled else rng.choice([3, 12, 40]), 2 if controlled else 3, kmax=3 if controlled else 5)
    ops = []
    for _ in range(rng.choice([2, 3]) if controlled else rng.randrange(2, 9)):
        ops.append({'op': 'score', 'table': rng.randrange(len(c['tables'])), 'forest': rng.randrange(len(c['forests'])),
                    'threads': rng.choice([2, 3]) if controlled else rng.choice([1, 2, 3, 5, 9]), 'junk': rng.choice([0, 0, 1, 50])})
    c['ops'] = ops
    return c


def misfit(rng):
    """A forest that does not fit the store: no predictions, an error."""
    c = case(rng)
    t = rng.choice(c['tables'])
    r = rng.random()
    if t['cols'] and r < .5:
        k = rng.randrange(len(t['cols']))
        t['cols'] = t['cols'][:k] + t['cols'][k + 1:]
    elif t['cols']:
        x = rng.choice(t['cols'])
        x = dict(x, v=list(x['v']))
        if x['t'] == 'str':
            x['t'] = rng.choice(['raw', 'bkt'])
            x['v'] = [1.0 for _ in x['v']]
        else:
            x['t'] = rng.choice(['str', 'raw'])
            if x['t'] == 'str':
                x['v'] = ['s1' for _ in x['v']]
        t['cols'] = [y if y['n'] != x['n'] else x for y in t['cols']]
    t['ids'] = [i + 1000 * (1 + rng.randrange(1000)) for i in t['ids']] if t['cols'] else []
    return c


def run(ctx):
    rng = ctx.rng
    ctx.model('WorkSplit', workers=8)
    cases = [case(rng) for _ in range(ctx.n(700, 8000))] + [evalgen.large(rng, case(rng)) for _ in range(ctx.n(16, 160))] + [misfit(rng) for _ in range(ctx.n(150, 1500))]
    ctx.conform('eval', 'EvaluateTrace', cases, cfg='Stateless.cfg', label='predictions')
    cases = []
    for _ in range(ctx.n(60, 900)):
        c = case(rng, True)
        c.update(strategy=rng.choice(['random', 'pct']), p_sync=rng.choice([.1, .3]), p_mem=rng.choice([0, .01, .05]), seed=rng.randrange(10 ** 6), runs=ctx.n(6, 20))
        cases.append(c)
    ctx.conform('eval', 'EvaluateTrace', cases, variant='sched', cfg='Stateless.cfg', label='predictions under controlled schedules', case_seconds=60)
