"""Boosting: each step sees exactly the forest built so far."""
from boostgen import training, table, scaled, forest

TECHNIQUE = ('TLA+ state machine Boosting (constant, base trees, trees, running function values) model-checked by TLC; recorded trainings of the real code '
             '(every function value shown to the loss, every constant, every tree) replayed through the machine by TLC (BoostingTrace, with Trees/Splits for each fitted tree)')
NOTE = ('Design: 2 rows, up to 3 (4) iterations, 4 base forests, 2 learning rates, divergence, termination. Code: random trainings of up to 10 rows, 4 iterations, base forests, '
        'all learning/sampling settings with scripted integer gradients and constants, built-in losses in a recording wrapper, diverging losses; values compared in units of 1e-4. '
        'Trusts the harness and TLC.')


def run(ctx):
    ctx.model('BoostingMC', ctx.n('BoostingMC.cfg', 'BoostingMC_deep.cfg'), workers=8)
    rng = ctx.rng
    cases = []
    for _ in range(ctx.n(500, 6000)):
        cases.append(training(rng))
    for _ in range(ctx.n(30, 300)):
        c = training(rng, 5, 3)
        c['cfg']['example_sampling_rate'] = rng.choice([.3, .5, .8])
        if rng.random() < .5:
            c['cfg']['feature_sampling_rate'] = rng.choice([.3, .6])
        cases.append(c)
    for _ in range(ctx.n(30, 200)):   # diverging
        c = training(rng)
        rng.choice(c['iters'])['c'] = rng.choice(['nan', 'inf', '-inf'])
        cases.append(c)
    for _ in range(ctx.n(80, 600)):   # built-in losses
        c = training(rng, 10, 5)
        del c['iters']
        c['loss'] = rng.choice(['mse', 'logloss', 'huberized_hinge', 'auc', 'pairwise_logloss', 'gbrank', 'lambdamart'])
        c['lam4'] = rng.choice([1, 4])
        c['cfg']['num_trees'] = rng.randrange(1, 6)
        c['cfg']['pair_sampling_rate'] = rng.choice([1, 5])
        c['cfg']['example_sampling_rate'] = rng.choice([1, .6])
        cases.append(c)
    for _ in range(ctx.n(150, 1500)):  # numbers at the edge of what a score can hold
        c = training(rng)
        big = rng.choice([1e37, 1e38, 3e38, 1e39, 1e39, 1e100])
        for it in c['iters']:
            k = len(it['g'])
            i, j = rng.randrange(k), rng.randrange(k)
            if rng.random() < .7:
                it['g'][i] = big
            if rng.random() < .7:
                it['g'][j] = -big
        if rng.random() < .2:
            rng.choice(c['iters'])['c'] = rng.choice([3e38, -1e38, 1e40])
        c['blow'] = c['huge'] = True
        c['minh4'] = rng.choice([0, 0, 0, 4])
        cases.append(c)
    for _ in range(ctx.n(10, 60)):
        c = training(rng)
        c['blow'], c['huge'] = True, False
        cases.append(c)
    for _ in range(ctx.n(4, 20)):     # nothing to train on
        c = training(rng)
        for k in c['cols']:
            k['v'] = []
        c['w'] = c['y'] = []
        for it in c['iters']:
            it['g'] = it['h'] = []
        cases.append(c)
    for _ in range(ctx.n(6, 60)):     # many trees
        c = training(rng, 6, 2)
        c['iters'] = [rng.choice(c['iters']) for _ in range(rng.choice([20, 70, 130]))]
        c['cfg']['num_trees'] = len(c['iters'])
        if c['shrink8'] == 8:
            c['shrink8'] = 1
        cases.append(c)
    for _ in range(ctx.n(24, 240)):   # many rows
        c = scaled(rng, training(rng, 10, 3))
        if c.get('base'):
            c['base'] = forest(rng, c['cols'])
        cases.append(c)
    ctx.conform('boost', 'BoostingTrace', cases, cfg='Stateless.cfg', label='recorded trainings')
