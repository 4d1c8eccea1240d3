"""Requests and JSON texts for mode "val" (C21)."""
import json

CONFIG = {'numTrees': [0, 1, 7, -3, 2147483647], 'numLeaves': [2, 100], 'shrinkage': [.5, .125, 0], 'minGain': [0, 1e-9, .1, -2.5], 'l2Lambda': [1, .3], 'minHessian': [2.5],
          'exampleSamplingRate': [.5, 1], 'featureSamplingRate': [.25], 'evalInterval': [10], 'lossFunc': ['mse', 'logloss', '', 'x y"z\\', '\u00e9\n\u2028'],
          'pairSamplingRate': [20, .75], 'pairWeightByDeltaTarget': [True, False], 'lambdamartDcgBase': [1.5], 'equalGroupWeight': [True], 'floatFeature': [[], ['a'], ['a', 'b c', '\u4e2d']],
          'categoricalFeature': [['q']], 'weightColumn': ['w'], 'targetColumn': ['t'], 'binarizeTarget': [True], 'groupColumn': ['g'], 'additionalFloatColumn': [['z']], 'additionalStringColumn': [['y', 'y']]}


def snake(k):
    return ''.join('_' + c.lower() if c.isupper() else c for c in k)


def obj(rng):
    ks = rng.sample(list(CONFIG), rng.randrange(0, 6))
    return {k: rng.choice(CONFIG[k]) for k in ks}


def tree(rng, depth):
    t = {'score': rng.choice([0, .5, -3, 1e-5, 123456.75])}
    if depth and rng.random() < .8:
        t['split'] = {'feature': rng.choice(['x', 's', 'long name']), 'gain': rng.choice([0, 2.5])}
        if rng.random() < .5:
            t['split']['floatSplit'] = {'threshold': rng.choice([.5, -2, 0]), 'missingToRightChild': rng.random() < .5}
        else:
            t['split']['catSplit'] = {'category': rng.sample(['a', 'b', '', '\u00e9'], rng.randrange(0, 4))}
        t['leftChild'] = tree(rng, depth - 1)
        t['rightChild'] = tree(rng, depth - 1)
    return t


def text(rng):
    if rng.random() < .5:
        typ, o = 'config', obj(rng)
        sent = {(snake(k) if rng.random() < .5 else k): v for k, v in o.items()}
    else:
        typ, o = 'forest', {'tree': [tree(rng, rng.choice([0, 1, 2, 3])) for _ in range(rng.randrange(0, 3))]}
        sent = o
    t = json.dumps(sent, ensure_ascii=rng.random() < .5, indent=rng.choice([None, None, 1])).encode()
    want = 'ok'
    r = rng.random()
    if r < .55:
        want = 'no'
        k = rng.randrange(9)
        if k == 0:
            t = t[:rng.randrange(1, len(t))]
        elif k == 1:
            t = t[:-1].rstrip() + ((b',' if sent else b'') + b'"nosuchfield": 1}')
        elif k == 2 and typ == 'config':
            t = t[:-1].rstrip() + ((b',' if sent else b'') + b'"num_trees": ' + rng.choice([b'"abc"', b'{}', b'1.5', b'2147483648', b'1x', b'"1e"']) + b'}')
        elif k == 3:
            t = t + rng.choice([b'}', b'{}', b' x', b',', b'"'])
        elif k == 4:
            t = rng.choice([b'', b'[]', b'5', b'"x"', b'nothing', b'{,}', b'{"num_trees"}', b'{"tree"}', b'<xml/>', b'{]', b'\x00', b'num_trees: 3'])
            if t == b'5' or t == b'"x"' or t == b'[]':
                want = 'any' if t == b'[]' else want
        elif k == 5 and b':' in t:
            i = rng.choice([i for i in range(len(t)) if t[i:i + 1] == b':'])
            t = t[:i] + b'=' + t[i + 1:]
        elif k == 6 and typ == 'forest':
            t = rng.choice([b'{"tree": [{"split": "x"}]}', b'{"tree": [{"leftChild": 3}]}', b'{"tree": [5]}', b'{"tree": [{"score": "abc"}]}', b'{"tree": [{"split": {"floatSplit": {"threshold": "low"}}}]}', b'{"tree": [{"score": 1e400}]}'])
        elif k == 7:
            t = t[:-1].rstrip() + ((b',' if sent else b'') + b'"meta_info": "\xff\xfe"}') if typ == 'forest' else t[:-1].rstrip() + ((b',' if sent else b'') + b'"loss_func": "\xc3("}')
        else:
            t = t[1:]
    return {'text': t.hex(), 'type': typ, 'want': want, 'exp': json.dumps(o)}


def covers(exp, got):
    if isinstance(exp, dict):
        return isinstance(got, dict) and all((k in got and covers(v, got[k])) or (k not in got and not v) for k, v in exp.items())
    if isinstance(exp, list):
        return isinstance(got, list) and len(exp) == len(got) and all(covers(a, b) for a, b in zip(exp, got))
    if isinstance(exp, float) and isinstance(got, (int, float)):
        return abs(exp - got) <= 1e-6 * abs(exp)
    return exp == got


def post(case, evs):
    k = 0
    for e, q in zip(evs, case['calls']):
        if e['e'] == 'Json':
            e['equal'] = e['ok'] and covers(json.loads(q['exp']), json.loads(e['back'].encode('latin1').decode()))
            if q['want'] == 'any':
                e['want'] = 'ok' if e['ok'] else 'no'
                e['equal'] = True
            del e['back']
            e['text'] = bytes.fromhex(q['text']).decode('latin1')[:200] if not e['ok'] or q['want'] == 'no' else ''
    return evs
