"""Pairwise gradients: opposite, group-local, weighted as configured."""
import pairgen

TECHNIQUE = ('TLA+ specification PairLossTrace/Losses/PairGroup (groups, pairs, weights, discounts, sums of contributions) and PairLossMC (accumulation by workers on disjoint groups, all draws and interleavings) model-checked by TLC; '
             'every pair drawn, its weight and ranks and the resulting gradients of all five pairwise losses recorded and validated by TLC, also under controlled schedules')
NOTE = ('Random problems of up to 12 rows, 5 groups (some with 280 groups, some with ranks up to 130), weights 0 to 2, several iterations on the same output vector (with junk in it), losses initialized twice, 1 to 8 threads. In units of 1e-4; logistic values and logarithms '
        'come from tables computed with the C library. Trusts those, the harness and TLC.')


def run(ctx):
    rng = ctx.rng
    ctx.model('PairLossMC', ctx.n('PairLossMC.cfg', 'PairLossMC_deep.cfg'), workers=8)
    ctx.conform('pair', 'PairLossTrace', [pairgen.case(rng) for _ in range(ctx.n(2000, 20000))], cfg='Stateless.cfg', label='iterations', post=pairgen.post)
    ctx.conform('pair', 'PairLossTrace', [pairgen.case(rng, 40) for _ in range(ctx.n(40, 400))], cfg='Stateless.cfg', label='larger iterations', post=pairgen.post)
    ctx.conform('pair', 'PairLossTrace', [pairgen.long_group(rng) for _ in range(ctx.n(24, 240))], cfg='Stateless.cfg', label='iterations with ranks beyond a hundred', post=pairgen.post)
    ctx.conform('pair', 'PairLossTrace', [pairgen.many_groups(rng) for _ in range(ctx.n(24, 200))], cfg='Stateless.cfg', label='iterations over hundreds of groups', post=pairgen.post)
    cases = []
    for _ in range(ctx.n(150, 2000)):
        c = pairgen.case(rng, 8)
        c.update(threads=rng.choice([2, 3]), strategy=rng.choice(['random', 'pct']), p_sync=rng.choice([.1, .3]), p_mem=rng.choice([0, .02, .1]))
        cases.append(c)
    ctx.conform('pair', 'PairLossTrace', cases, variant='sched', case_seconds=100, cfg='Stateless.cfg', label='iterations under controlled schedules', post=pairgen.post)
