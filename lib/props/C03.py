"""Data store integrity: one call history per transition of DataStore.tla, plus long random histories."""
TECHNIQUE = 'TLA+ specification DataStore checked exhaustively by TLC; one call history per transition of its state graph plus random histories run on the real store, every observed state validated by TLC'
NOTE = ('Design: all histories over 4 names, 3 types, 4 row counts. Code: a history for every transition of the 3-name model and '
        'long random histories over 6 names; after every call the whole observable state must be a step of the specification. '
        'Trusts the harness projection and TLC.')


def run(ctx):
    ctx.model('DataStore')
    hist = ctx.histories('DataStoreGen')
    names = ['a', 'b', 'c']
    cases = [{'names': names, 'ops': h} for h in hist]
    rng = ctx.rng
    big = ['a', 'b', 'c', 'd', 'e', '__missing__']
    for _ in range(ctx.n(60, 1500)):
        r0 = rng.choice([0, 1, 2, 3])
        ops = []
        for _ in range(rng.randrange(5, 40)):
            if rng.random() < 0.7:
                ops.append({'op': 'add', 'n': rng.choice(big), 't': rng.choice(['str', 'bkt', 'raw']),
                            'r': r0 if rng.random() < 0.75 else rng.randrange(4)})
            else:
                ops.append({'op': 'del', 'n': rng.choice(big)})
        cases.append({'names': big, 'ops': ops})
    ctx.conform('store', 'DataStoreTrace', cases, label='DataStore call histories')
