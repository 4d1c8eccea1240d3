"""Models are portable: JSON round trip and other data keep their meaning."""
import evalgen
from boostgen import training

TECHNIQUE = ('TLA+ specification Evaluate/Routing (a forest is a function of strings and numbers only); forests with arbitrary float bits and strings written to JSON, read back and evaluated by the real code '
             'on stores listing rows and categories in other orders, everything validated by TLC (EvaluateTrace; TreesTrace for trained models)')
NOTE = ('Random forests with any finite float bits, infinite thresholds, quotes, backslashes, non-ASCII text; tables permuted, sampled, with categories unknown to either side. '
        'Trained models may carry no internal indices (BoostingTrace). Trusts the harness and TLC.')


def case(rng):
    c = evalgen.world(rng, rng.choice([3, 12]), 3, odd=True)
    nf = len(c['forests'])
    ops = []
    for k in range(nf):
        for t in range(3):
            if rng.random() < .6:
                ops.append({'op': 'score', 'table': t, 'forest': k, 'threads': 2})
    for _ in range(rng.randrange(1, 4)):
        ops.append({'op': 'json', 'forest': rng.randrange(nf), 'meta': rng.choice(['', 'x', '{"a":1}', 'line\nline', 'é"\\'])})
        nf += 1
        for t in range(3):
            if rng.random() < .7:
                ops.append({'op': 'score', 'table': t, 'forest': nf - 1, 'threads': 2})
    c['ops'] = ops
    return c


def chain(rng, depth):
    """A tree of the given number of splits, each below the one before."""
    t = {'s': .5}
    for i in range(depth):
        leaf = {'s': float(i)}
        t = {'s': 0, 'f': 'f0', 'th': float(i), 'gain': 1, 'mr': False, 'l': leaf, 'r': t}
        if rng and rng.random() < .5:
            t['l'], t['r'] = t['r'], t['l']
    return t


def deep(trees):
    return {'tables': [{'ids': [0, 1, 2, 3], 'cols': [{'n': 'f0', 't': 'bkt', 'v': [0, 7.5, 50.5, 100]}]}], 'forests': [{'trees': trees, 'exact': True}],
            'ops': [{'op': 'score', 'table': 0, 'forest': 0, 'threads': 2}, {'op': 'json', 'forest': 0, 'meta': ''},
                    {'op': 'score', 'table': 0, 'forest': 1, 'threads': 2}]}


def run(ctx):
    rng = ctx.rng
    cases = [case(rng) for _ in range(ctx.n(700, 8000))]
    ctx.conform('eval', 'EvaluateTrace', cases, cfg='Stateless.cfg', label='round trips and other stores')
    ctx.conform('eval', 'EvaluateTrace', [deep([chain(None, 63)]), deep([chain(None, 100)])], cfg='Stateless.cfg', label='trees too deep to be written')
    cases = [deep([chain(rng, d) for d in rng.sample(range(30, 63), 3)] + [chain(rng, 62)]) for _ in range(5)]
    ctx.conform('eval', 'EvaluateTrace', cases, cfg='Stateless.cfg', label='deep trees')
    cases = [training(rng) for _ in range(ctx.n(150, 1500))]
    ctx.conform('boost', 'BoostingTrace', cases, cfg='Stateless.cfg', label='trained models carry no encodings')
