"""Sampling and work division: sorted subsets at the given rate, exact covers."""
TECHNIQUE = ('TLA+ specifications Sampling (selection by the shared generator: exact counts of every subset, reproducibility after a seed) and WorkSplit (division, workers, all interleavings) model-checked by TLC; '
             'histories of seeding, sampling and dividing generated by TLC and at random run on the real code, every answer validated by TLC (SamplingTrace); joint frequencies of whole subsets compared with the specified counts')
NOTE = ('Sizes to 200000, rates from 2^-60 to 1, up to 3000 workers. Every division of 0..60 items among 1..40 workers. Frequencies of all joint outcomes of up to 6 items (also across consecutive draws and seeds) within 7 standard deviations. '
        'Trusts the harness and TLC.')
NS = [0, 1, 2, 3, 5, 8, 13, 40, 100]
RATES = [0, 2 ** -60, .001, .1, .25, .3, .5, .7, .75, .9, .999, 1 - 2 ** -53, 1, 1]


def run(ctx):
    rng = ctx.rng
    ctx.model('WorkSplit', ctx.n('WorkSplit.cfg', 'WorkSplit_deep.cfg'), workers=8)
    ctx.model('Sampling', ctx.n('Sampling.cfg', 'Sampling_deep.cfg'), workers=8)
    cases = [{'ops': [{'op': 'divide', 'n': n, 'k': k} for k in range(1, 41)]} for n in range(61)]
    for _ in range(ctx.n(300, 4000)):
        ops, scripts = [], []
        for _ in range(rng.randrange(2, 5)):
            seed = rng.choice([0, 1, 42, -1, 2 ** 31 - 1, -2 ** 31])
            script = rng.choice(scripts)[:] if scripts and rng.random() < .6 else \
                [rng.choice(['f', (rng.choice(NS), rng.choice(RATES)), (rng.choice(NS), rng.choice(RATES))]) for _ in range(rng.randrange(1, 5))]
            if rng.random() < .3:
                script = script[:rng.randrange(1, len(script) + 1)]
            scripts.append(script)
            ops.append({'op': 'reseed', 'seed': seed if rng.random() < .5 else 42})
            for s in script:
                while rng.random() < .4:
                    ops.append(other(rng))
                ops.append({'op': 'foreign'} if s == 'f' else {'op': 'sample', 'n': s[0], 'rate': s[1]})
        cases.append({'ops': ops})
    for _ in range(ctx.n(40, 400)):
        big = rng.choice([257, 1000, 65536, 10 ** 6, 2 ** 31 - 1, 2 ** 30])
        cases.append({'ops': [{'op': 'divide', 'n': big, 'k': rng.choice([1, 2, 7, 64, 320, 3000])}, other(rng, 1500)]})
    ctx.conform('samp', 'SamplingTrace', cases, cfg='Stateless.cfg', label='histories')
    stat = []
    for n, draws in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (4, 1), (1, 4), (2, 3), (3, 2), (6, 1), (5, 1)):
        for num, den in ((1, 2), (1, 4), (3, 4)) + (((1, 10), (9, 10), (3, 10)) if n * draws <= 4 else ()):
            stat.append({'seed': rng.randrange(10 ** 6), 'n': n, 'draws': draws, 'num': num, 'den': den, 'reps': 40000, 'reseed': rng.random() < .2})
    for rate in (1, 10, 100, 250, 500, 632, 900, 990, 999):
        for n in (200000, 20000) + ((500000,) if ctx.thorough else ()):
            stat.append({'seed': rng.randrange(10 ** 6), 'large': n, 'rate': rate})
    for ppm in (20, 100, 1000, 999000, 999900, 999980):
        stat.append({'seed': rng.randrange(10 ** 6), 'millions': ctx.n(5, 100), 'ppm': ppm})
    if ctx.thorough:
        stat = [dict(s, seed=rng.randrange(10 ** 6)) for s in stat for _ in range(8)]
    ctx.conform('sampstat', 'SamplingTrace', stat, cfg='Stateless.cfg', label='frequencies')


def other(rng, nmax=60):
    n, k = rng.randrange(nmax), rng.randrange(1, 40)
    return rng.choice([{'op': 'all', 'n': n}, {'op': 'divide', 'n': n, 'k': k}, {'op': 'dslice', 'n': n, 'k': k, 'off': rng.randrange(4), 'rest': rng.randrange(4)}])
