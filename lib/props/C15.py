"""Training is reproducible: same inputs, seed and threads give the same model."""
from boostgen import training
from props.C16 import builtin, regrow

TECHNIQUE = ('TLA+ specification WorkSplit (slices, workers, all interleavings, results independent of them) model-checked by TLC; the real training repeated with free-running threads, after other trainings, '
             'and under controlled schedules with race detection, TLC (RunsTrace) requiring all runs of one input to coincide bit by bit')
NOTE = ('Code: all losses, sampling of rows, features and pairs, 1 to 16 threads; free-running repetitions and controlled schedules (random and priority based, switching at every synchronization and some memory accesses) '
        'of small trainings. Forests and predictions compared bit for bit. Trusts the harness and TLC.')


def case(rng, nmax, itmax, controlled=False):
    if rng.random() < .35:
        c = training(rng, nmax, itmax)
    else:
        c = builtin(rng, nmax)
        c['cfg']['num_trees'] = rng.randrange(1, itmax + 1)
    c['cfg']['num_leaves'] = rng.choice([2, 3, 5])
    if rng.random() < .5:
        c['cfg']['example_sampling_rate'] = rng.choice([.3, .7])
    if rng.random() < .4:
        c['cfg']['feature_sampling_rate'] = rng.choice([.3, .7])
    if rng.random() < .4:
        c['cfg']['pair_sampling_rate'] = rng.choice([.3, 2.5])
    c['same_threads'] = True
    t = rng.choice([2, 3]) if controlled else rng.choice([1, 2, 3, 8, 16])
    if controlled:
        c['runs'] = [{'threads': t}] + [{'threads': t, 'strategy': rng.choice(['random', 'pct']), 'p_sync': rng.choice([.05, .2, .5]),
                                          'p_mem': rng.choice([0, 0, .01, .05]), 'seed': rng.randrange(10 ** 6)} for _ in range(4)]
    else:
        c['runs'] = [{'threads': t, 'before': rng.choice([0, 0, 1, 2]), 'reuse': rng.random() < .3} for _ in range(4)]
    return c


def run(ctx):
    rng = ctx.rng
    ctx.model('WorkSplit', ctx.n('WorkSplit.cfg', 'WorkSplit_deep.cfg'), workers=8)
    cases = [case(rng, 40, 4) for _ in range(ctx.n(300, 4000))]
    ctx.conform('threads', 'RunsTrace', cases, cfg='Stateless.cfg', label='the same training again')
    cases = [case(rng, 2, 2) for _ in range(ctx.n(16, 150))]
    for c in cases:
        regrow(rng, c, rng.choice([999, 2049, 3001]))
    ctx.conform('threads', 'RunsTrace', cases, cfg='Stateless.cfg', label='the same large training again')
    cases = [case(rng, 8, 2, True) for _ in range(ctx.n(90, 1200))]
    ctx.conform('threads', 'RunsTrace', cases, variant='sched', cfg='Stateless.cfg', label='the same training under controlled schedules', case_seconds=100)
