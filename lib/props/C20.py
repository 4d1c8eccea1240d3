"""Pointwise losses: constant step balances the gradients, rows are independent."""
import pointgen

TECHNIQUE = ('TLA+ design model PointConst (bracketed Newton iteration on the huberized hinge over a grid, every problem of a few rows: balance, bracketing and termination) model-checked by TLC; '
             'random problems in several equivalent forms (row order, split weights, rows of weight zero, threads, junk) computed by the real losses, every call validated by TLC against PointLossTrace/Losses, also under controlled schedules')
NOTE = ('Problems of up to 12 rows (some of 60, some repeated up to 16384 times with up to 100000 rows of weight zero), targets -1/1 (any for MSE), weights 0 to 3, scores from balanced to biased by 10 and far out, up to two calls on one object. Everything in units of 1e-4; logistic values and '
        'logarithms come from tables computed with the C library. Trusts those, the harness and TLC. Problems of one class have no best constant under logistic loss and are only checked for sign and range.')


def run(ctx):
    rng = ctx.rng
    ctx.model('PointConst', ctx.n('PointConst.cfg', 'PointConst_deep.cfg'), workers=8)
    ctx.conform('point', 'PointLossTrace', [pointgen.case(rng) for _ in range(ctx.n(2500, 25000))], cfg='Stateless.cfg', label='calls', post=pointgen.post)
    ctx.conform('point', 'PointLossTrace', [pointgen.case(rng, 60) for _ in range(ctx.n(80, 800))], cfg='Stateless.cfg', label='larger calls', post=pointgen.post)
    ctx.conform('point', 'PointLossTrace', [pointgen.scaled(rng) for _ in range(ctx.n(60, 500))], cfg='Stateless.cfg', label='calls on large instances', post=pointgen.post, case_seconds=60)
    cases = []
    for _ in range(ctx.n(150, 2000)):
        c = pointgen.case(rng, 8)
        c.update(seed=rng.randrange(10 ** 6), strategy=rng.choice(['random', 'pct']), p_sync=rng.choice([.1, .3]), p_mem=rng.choice([0, .02, .1]))
        for r in c['runs']:
            r['threads'] = rng.choice([2, 3])
        cases.append(c)
    ctx.conform('point', 'PointLossTrace', cases, variant='sched', case_seconds=100, cfg='Stateless.cfg', label='calls under controlled schedules', post=pointgen.post)
