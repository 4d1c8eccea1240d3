"""Columns accept rows only until they are finalized."""
from props.C05 import values, divide
from floats import ord_of, NAN

TECHNIQUE = 'TLA+ state machine ColumnLife model-checked by TLC; one history per transition of its state graph plus random histories replayed on the real columns, every step validated by TLC'
NOTE = ('Design: all histories over 4 batches and up to 4 rows. Code: a history per transition, random histories of up to 12 calls, and divisions of the same rows into batches compared with each other. '
        'Trusts the harness projection and TLC.')


def run(ctx):
    ctx.model('ColumnLifeMC')
    cases = []
    for h in ctx.histories('ColumnLifeMC', 'ColumnLifeGen.cfg'):
        for o in h['ops']:
            if 'b' in o and h['kind'] == 'bkt':
                o['b'] = [ord_of(x * .5) if x < 3 else NAN for x in o['b']]
        h['budget'] = 50
        cases.append(h)
    rng = ctx.rng
    for _ in range(ctx.n(200, 3000)):
        kind = rng.choice(['str', 'bkt'])
        budget = rng.choice([1, 2, 5, 50])
        ops = []
        built = fin = False
        p = rng.choice([.1, .3])
        for _ in range(rng.randrange(3, 13)):
            x = rng.random()
            if x < p:
                ops.append({'op': 'fin'})
                fin = built = True
            elif x < p + .1 and kind == 'bkt' and (fin or not built):
                ops.append({'op': 'build'})
                built = True
            else:
                n = rng.choice([0, 1, 3, 10, 150])
                ops.append({'op': 'add', 'b': [rng.randrange(6) for _ in range(n)] if kind == 'str' else values(rng, n) if n else []})
        # the random sizes may start the buckets early, so no further build before the end
        if kind == 'bkt':
            ops = [o for i, o in enumerate(ops) if o['op'] != 'build' or any(q['op'] == 'fin' for q in ops[:i])
                   or sum(len(q.get('b', ())) for q in ops[:i]) <= 100 * budget]
        cases.append({'kind': kind, 'budget': budget, 'ops': ops})
    ctx.conform('collife', 'ColumnLifeTrace', cases, label='life cycles')
    div = []
    for _ in range(ctx.n(200, 2500)):
        kind = rng.choice(['str', 'bkt'])
        budget = rng.choice([1, 2, 3, 8, 100])
        n = rng.choice([0, 1, 2, 5, 30, 99, 100, 101, 205, 400])
        rows = [rng.randrange(0, 12) for _ in range(n)] if kind == 'str' else (values(rng, n) if n else [])
        ds = [[n]] + [[len(x) for x in divide(rng, rows, rng.randrange(2, 6))] for _ in range(4)]
        if n and n <= 100:
            ds.append([1] * n)
        div.append({'kind': kind, 'budget': budget, 'rows': rows, 'divs': ds})
    ctx.conform('coldiv', 'ColumnDivTrace', div, cfg='Stateless.cfg', label='divisions into batches')
