"""Worker pool: every task runs exactly once, and destruction waits for all."""
TECHNIQUE = ('TLA+ specifications ThreadPool/ThreadPoolClient (what callers see) and ThreadPoolImpl (mutex, condition variable, spurious wake-ups) with TLC-checked refinement and liveness; '
             'the real pool is run under a controlled scheduler (exhaustive up to a number of preemptions, PCT, random; spurious wake-ups injected) on systems of tasks generated from the '
             'specification and every execution is validated against ThreadPool by TLC, which infers the hidden queue steps')
NOTE = ('Design: up to 4 tasks, 3 workers, 2 submitters, all interleavings, refinement and liveness under fairness. Code: all systems of up to 3 tasks and 3 workers with waiting relations, every schedule '
        'with at most 1-2 preemptions for the small ones, random and PCT schedules (also preempting at memory accesses) for larger ones; deadlocks, crashes, threads left over and data races are rejected. '
        'Schedules interleave at synchronisation operations and instrumented memory accesses of sequentially consistent executions. Trusts the scheduler, the harness and TLC.')


def system(rng, n, w):
    """random systems that always can end: waiting relations only while fewer tasks block than workers"""
    tasks = [{} for _ in range(n)]
    k = rng.choice([1, 1, 2, 3])
    subs = [[] for _ in range(k)]
    kids = rng.random() < .4
    for i in range(1, n + 1):
        if kids and i > 1 and rng.random() < .4:
            j = rng.randrange(1, i)
            tasks[j - 1].setdefault('sub', []).append(i)
        else:
            subs[rng.randrange(k)].append(i)
    top = {i for s in subs for i in s}
    # a blocked task holds its worker; at most w - 1 of them keep one worker going
    free = [i for i in range(1, n + 1)]
    for i in rng.sample(free, min(len(free), rng.randrange(0, w))):
        c = [j for j in range(1, n + 1) if j != i and j in top and i in top]
        if c:
            j = rng.choice(c)
            if not tasks[j - 1].get('started'):
                tasks[i - 1]['started'] = [j]
    # cycles of waiting for a start are harmless: both have started by then
    for t in tasks:
        if rng.random() < .3:
            t['points'] = rng.randrange(1, 4)
    for s in subs:
        done = []
        out = []
        for i in s:
            out.append(i)
            if rng.random() < .2 and not any(t.get('started') for t in tasks):
                out.append(-i)
        s[:] = out
    return {'workers': w, 'tasks': tasks, 'submit': subs, 'await': rng.random() < .5, 'points': rng.randrange(0, 4)}


def run(ctx):
    for c in ctx.n('abcd', 'abcdefgh'):
        ctx.model('ThreadPoolMC', 'ThreadPoolMC_%s.cfg' % c, workers=8, timeout=850)
    gen = ctx.generate('ThreadPoolGen', ctx.n('ThreadPoolGen.cfg', 'ThreadPoolGen_deep.cfg'))
    rng = ctx.rng
    cases = []
    for g in (rng.sample(gen, 700) if len(gen) > 700 else gen):
        n = len(g['started'])
        c = {'workers': g['workers'], 'tasks': [{'started': a, 'ended': b} for a, b in zip(g['started'], g['ended'])],
             'submit': [list(range(1, n + 1))], 'await': rng.random() < .5}
        size = n * g['workers']
        if size <= ctx.n(3, 6):
            c.update(strategy='dfs', preemptions=ctx.n(1, 2), spurious=rng.choice([0, 1]), runs=ctx.n(6000, 60000), max_traces=ctx.n(150, 600))
        else:
            c.update(strategy=rng.choice(['pct', 'random']), spurious=rng.choice([0, 0, 3]), seed=rng.randrange(10 ** 6), runs=ctx.n(60, 400),
                     depth=rng.choice([1, 2, 3, 5]), p_sync=rng.choice([.1, .3, .6]), max_traces=ctx.n(15, 60))
        cases.append(c)
    for _ in range(ctx.n(120, 800)):
        c = system(rng, rng.randrange(1, 9), rng.choice([1, 2, 3, 5]))
        c.update(strategy=rng.choice(['pct', 'random', 'random']), spurious=rng.choice([0, 0, 1, 4]), seed=rng.randrange(10 ** 6),
                 runs=ctx.n(60, 300), depth=rng.choice([1, 2, 3, 5, 8]), p_sync=rng.choice([.1, .3, .6]),
                 p_mem=rng.choice([0, 0, .02, .2]), max_traces=ctx.n(12, 40))
        cases.append(c)
    ctx.conform('pool', 'ThreadPoolTrace', cases, variant='sched', label='controlled schedules', case_seconds=120)
