"""The number of threads does not change what is computed."""
from boostgen import training

TECHNIQUE = ('TLA+ specification WorkSplit (division of work among workers, all interleavings) model-checked by TLC; the real training, losses and evaluation run with '
             'many thread counts, TLC (RunsTrace) requiring all runs of one input to coincide')
NOTE = ('Design: up to 5 (6) items, 5 slices, 2 (3) workers, all interleavings. Code: thread counts 1 to 64, including more threads than rows, groups, features; also 3000 rows; forests and scores compared '
        'bit by bit for integer gradients, first-iteration constants and gradients of built-in losses in units of 1e-5. Trusts the harness and TLC.')
THREADS = [1, 2, 3, 5, 16, 40]


def groups(rng, n):
    k = rng.choice([1, 2, 4])
    return {'n': 'grp', 't': 'str', 'v': ['q%d' % rng.randrange(k) for _ in range(n)]}


def builtin(rng, nmax=25):
    c = training(rng, nmax, 1)
    del c['iters']
    n = len(c['w'])
    c['loss'] = rng.choice(['mse', 'logloss', 'huberized_hinge', 'auc', 'pairwise_logloss', 'gbrank', 'lambdamart'])
    c['cfg']['num_trees'] = 1
    c['cfg']['pair_sampling_rate'] = rng.choice([1, 4])
    c['cfg']['pair_weight_by_delta_target'] = rng.random() < .4
    c['cfg']['equal_group_weight'] = rng.random() < .4
    c['lam4'] = 4
    if rng.random() < .6:
        c['cols'].append(groups(rng, n))
        c['cfg']['group_column'] = 'grp'
    if c['loss'] in ('mse', 'gbrank', 'lambdamart', 'auc', 'pairwise_logloss'):
        c['y'] = [rng.choice([0, 1, 2, 3, -1.5]) for _ in range(n)]
    return c


def regrow(rng, c, n):
    """The same training with n rows."""
    k = len(c['w'])
    pick = [rng.randrange(k) for _ in range(n)]
    for x in c['cols']:
        if x['n'] == 'grp':
            x['v'] = ['q%d' % rng.randrange(rng.choice([5, 300])) for _ in range(n)]
        elif x['t'] == 'str':
            x['v'] = ['s%d' % rng.randrange(9) for _ in range(n)]
        else:
            x['v'] = [rng.randrange(50) + .5 for _ in range(n)]
    for x in ('w', 'y'):
        c[x] = [c[x][i] for i in pick] if x == 'w' else [rng.choice([-1, 1]) for _ in pick]
    for it in c.get('iters', []):
        it['g'] = [rng.choice([-3, -1, 0, 1, 2]) for _ in pick]
        it['h'] = [rng.choice([1, 1, 2]) for _ in pick]
    c['cfg']['num_leaves'] = rng.choice([4, 8, 16])


def run(ctx):
    ctx.model('WorkSplit', ctx.n('WorkSplit.cfg', 'WorkSplit_deep.cfg'), workers=8)
    rng = ctx.rng
    cases = []
    for _ in range(ctx.n(260, 3000)):
        c = training(rng, 30, 3)
        if rng.random() < .4:
            c['cfg']['example_sampling_rate'] = rng.choice([.3, .7])
        if rng.random() < .3:
            c['cfg']['feature_sampling_rate'] = rng.choice([.3, .7])
        cases.append(c)
    for _ in range(ctx.n(260, 3000)):
        cases.append(builtin(rng))
    large = []
    for k in range(ctx.n(16, 150)):      # more rows, groups and features than any number of threads divides evenly
        c = training(rng, 2, 2) if k % 2 else builtin(rng, 2)
        n = rng.choice([999, 2049, 3001])
        regrow(rng, c, n)
        large.append(c)
    cases += large
    for c in cases:
        c['runs'] = [{'threads': t} for t in [1] + rng.sample(THREADS[1:], 3)]
    ctx.conform('threads', 'RunsTrace', cases, cfg='Stateless.cfg', label='the same input with several thread counts')
