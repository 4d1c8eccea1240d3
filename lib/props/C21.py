"""Invalid input is refused with an error, never with a crash or a bogus model."""
import valgen

TECHNIQUE = ('TLA+ model Validation of what every entry point accepts (configurations, data, forests, texts), its requests enumerated exhaustively by TLC (ValidationGen: every single and pairwise defect) and replayed as sessions '
             'into the real library; every outcome is judged by TLC against ValidationTrace')
NOTE = ('Defects in one or two fields at a time, at random points of sessions of 12 calls followed by a sound training whose forest is compared with one of a fresh process state. Bounded in data size (24 rows). JSON texts from a grammar with '
        'mutations; texts protobuf itself is lenient about are judged only for not crashing. Trusts protobuf, the harness and TLC.')


def good(rng):
    return {'trees': rng.choice([1, 2, 3]), 'leaves': rng.choice([2, 3, 5]), 'ex': rng.choice(['one', 'half']), 'ft': rng.choice(['one', 'half']),
            'loss': rng.choice(['mse', 'logloss', 'huberized_hinge', 'auc', 'pairwise_logloss', 'gbrank', 'lambdamart']), 'pair': 'two', 'group': rng.choice(['none', 'str']),
            'features': 'good', 'base': rng.choice(['none', 'good']), 'target': 'binary'}


def run(ctx):
    rng = ctx.rng
    ctx.model('Validation', ctx.n('Validation_quick.cfg', 'Validation.cfg'), workers=8)
    reqs = ctx.generate('ValidationGen')
    rng.shuffle(reqs)
    cases = []
    while reqs:
        calls = []
        for _ in range(12):
            if reqs:
                calls.append(dict(reqs.pop(), at=rng.randrange(24)))
            if rng.random() < .1:
                calls.append({'eval': rng.choice(['none', 'good', 'gone', 'othertype', 'nosplit', 'raw', 'broken']), 'at': rng.randrange(24)})
        calls.append({'again': good(rng)})
        cases.append({'calls': calls, 'threads': rng.choice([1, 2, 5])})
    ctx.conform('val', 'ValidationTrace', cases, cfg='Stateless.cfg', label='sessions', post=valgen.post)
    texts = [{'calls': [valgen.text(rng) for _ in range(8)]} for _ in range(ctx.n(200, 3000))]
    ctx.conform('val', 'ValidationTrace', texts, cfg='Stateless.cfg', label='texts', post=valgen.post)
