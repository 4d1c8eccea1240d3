"""Pair sampling draws exactly the ordered pairs of a group, uniformly."""
import pairgen
from floats import ord_of

TECHNIQUE = ('TLA+ specification PairGroup (ordered pairs, ranks, and the numbering of pairs used for drawing), the numbering model-checked as a bijection by TLC; '
             'groups built, re-ranked and sampled by the real code, and iterations of the real losses, validated by TLC (PairGroupTrace, PairLossTrace)')
NOTE = ('Design: all target multisets of up to 5 (7) rows, all re-rankings of up to 3 rows. Code: random groups with ties, negative and infinite targets, single rows, groups with more than 2^32 pairs; '
        'uniformity within seven standard deviations. Trusts the harness and TLC.')


def group(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8, 12])
    total = n + rng.randrange(0, 4)
    pool = rng.choice([[0, 1], [1], [0, 1, 2, 3], [-1.5, 0, -0.0, 2, 1e30], [{'ord': 2139095040}, {'ord': -2139095040}, 0], list(range(40)), [{'ord': 1}, {'ord': 2}, 0]])
    y = [rng.choice(pool) for _ in range(total)]
    rows = rng.sample(range(total), n)
    c = {'y': y, 'rows': rows, 'seed': rng.randrange(10 ** 6), 'f': []}
    for _ in range(rng.randrange(0, 5)):
        fp = rng.choice([[0], [0, 1], [-5, -1.5, 0, .125, 3, 1e6], list(range(50))])
        c['f'].append([rng.choice(fp) for _ in range(total)])
    o = [v['ord'] if isinstance(v, dict) else ord_of(float(v)) for v in y]
    p = sum(1 for a in rows for b in rows if o[a] > o[b])
    c['draws'] = p * 300
    return c


def big(rng):
    b = rng.choice([[64, 64], [100, 28, 80], [4, 4, 120], [128, 64], [8, 8, 8, 8, 8, 8], [4, 100]])
    return {'blocks': b, 'cut': rng.choice([1, 2, 4]), 'draws': 100000, 'seed': rng.randrange(10 ** 6)}


def run(ctx):
    rng = ctx.rng
    ctx.model('PairGroupMC', ctx.n('PairGroupMC.cfg', 'PairGroupMC_deep.cfg'), workers=8)
    ctx.conform('group', 'PairGroupTrace', [group(rng) for _ in range(ctx.n(500, 6000))], cfg='Stateless.cfg', label='groups')
    ctx.conform('biggroup', 'PairGroupTrace', [big(rng) for _ in range(ctx.n(10, 60))], cfg='Stateless.cfg', label='large groups', case_seconds=60)
    cases = []
    for _ in range(ctx.n(60, 600)):
        c = pairgen.case(rng, 10)
        c['totals'] = rng.choice([300, 1000])
        c['rate8'] = rng.choice([2, 8, 16])
        c['fs'] = c['fs'][:1]
        cases.append(c)
    ctx.conform('pair', 'PairLossTrace', cases, cfg='Stateless.cfg', label='draws over many iterations', post=pairgen.post)
    ctx.conform('pair', 'PairLossTrace', [pairgen.case(rng) for _ in range(ctx.n(200, 2000))], cfg='Stateless.cfg', label='iterations of losses', post=pairgen.post)
    ctx.conform('pair', 'PairLossTrace', [pairgen.many_groups(rng) for _ in range(ctx.n(16, 150))], cfg='Stateless.cfg', label='iterations over hundreds of groups', post=pairgen.post)
