"""Lazily loaded columns are loaded consistently under concurrent access."""
import flatgen

TECHNIQUE = ('TLA+ specifications FlatStore (each request takes effect at one moment) and LazyStoreImpl (look up, read outside the mutex, insert, fetch) with TLC-checked refinement; the real store '
             'is run with several threads under a controlled scheduler and TLC infers the moments of effect of every recorded execution')
NOTE = ('Design: 2 threads with 2 requests and 3 threads with 1 request over 3 names (two lengths, one unreadable). Code: 2 to 4 threads, up to 4 requests each, up to 4 names in up to 3 directories, '
        'all schedules with one preemption for the small ones, else random and PCT schedules, also preempting at memory accesses; data races, dangling or incomplete columns, deadlocks and crashes are rejected. '
        'Trusts the scheduler, the harness and TLC.')


def system(rng, small):
    names = rng.sample(['a', 'b', 'c', 'd'], rng.choice([1, 2, 3] if small else [1, 2, 3, 4]))
    lens = rng.choice([[3], [2, 3], [1, 2, 3], [0, 2]])
    dirs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        d = {}
        for n in names:
            if rng.random() < .8:
                d[n] = flatgen.flatfile(rng, rng.choice(lens)) if rng.random() < .9 else flatgen.make(['# dtype=junk', '1'], True)
        dirs.append(d)
    k = 2 if small else rng.choice([2, 2, 3, 4])
    hot = rng.random() < .5
    th = []
    for _ in range(k):
        th.append([{'n': names[0] if hot and rng.random() < .6 else rng.choice(names + ['zz'][:rng.random() < .1]),
                    'want': rng.choice(['any', 'any', 'any', 'str', 'raw', 'bkt'])} for _ in range(rng.randrange(1, 3 if small else 5))])
    return {'dirs': dirs, 'threads': th, 'seed': rng.randrange(10 ** 6)}


def run(ctx):
    ctx.model('LazyStoreMC', 'LazyStoreMC.cfg', workers=8)
    ctx.model('LazyStoreMC', 'LazyStoreMC_three.cfg', workers=8)
    if ctx.thorough:
        ctx.model('LazyStoreMC', 'LazyStoreMC_deep.cfg', workers=8, timeout=850)
    rng = ctx.rng
    cases = []
    for _ in range(ctx.n(40, 300)):
        c = system(rng, True)
        c.update(strategy='dfs', preemptions=rng.choice(ctx.n([1], [1, 2])), runs=ctx.n(3000, 20000), max_traces=ctx.n(60, 200))
        cases.append(c)
    for _ in range(ctx.n(200, 1500)):
        c = system(rng, False)
        c.update(strategy=rng.choice(['pct', 'random', 'random']), runs=ctx.n(60, 200), depth=rng.choice([1, 2, 3, 5]),
                 p_sync=rng.choice([.1, .3, .6]), p_mem=rng.choice([0, 0, .01, .1]), max_traces=ctx.n(20, 50))
        cases.append(c)
    ctx.conform('flat', 'FlatStoreTrace', cases, variant='sched', label='controlled schedules', post=flatgen.post, case_seconds=120)
