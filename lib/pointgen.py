"""Pointwise problems for mode "point"."""
import math, re, struct


def hexd(s):
    return struct.unpack('>d', bytes.fromhex(s))[0]


def clamp(x, m=10 ** 9):
    if x != x:
        return -m - 1
    return int(round(max(-m, min(m, x))))


def case(rng, nmax=12):
    n = rng.choice(range(1, nmax + 1))
    loss = rng.choice(['mse', 'logloss', 'huberized_hinge'])
    if loss == 'mse':
        y = [rng.choice([0, 1, -1.5, 3, 10.25, 100]) for _ in range(n)]
    else:
        y = [rng.choice([-1, 1]) for _ in range(n)]
        if rng.random() < .15:
            y = [y[0]] * n
    w = [rng.choice([1, 1, 2, 3, .5, .25, 0]) if rng.random() < .5 else 1 for _ in range(n)]
    kind = rng.random()
    if kind < .6:
        fp = [k / 8 for k in range(-24, 25)]
    elif kind < .7:
        fp = [0]
    elif kind < .8:
        b = rng.choice([3, -3, 6, -6, 10, -10])
        fp = [b, b + .25, b + 1]
    elif kind < .9:
        fp = [-1000, 1000, 5, -5, 0] if loss != 'mse' else [-1000, 1000]
    else:
        fp = [-1, 1, .5, -.5, 0]
    f = [rng.choice(fp) for _ in range(n)]
    runs = []
    ids = list(range(n))
    calls = [f] if rng.random() < .6 else [f, [rng.choice(fp) for _ in range(n)]]

    def run(sel, ws):
        return {'ids': sel, 'y': [y[i] for i in sel], 'w': ws, 'fs': [[c[i] for i in sel] for c in calls], 'threads': rng.choice([1, 2, 3, 7]),
                'junk': rng.choice([0, 0, len(sel), len(sel) + 2]), 'c': rng.choice([0, 3, -1e9]), 'quiet': rng.random() < .2}
    runs.append(run(ids, w))
    for _ in range(rng.choice([1, 2, 3])):
        sel, ws = [], []
        for i in ids:
            left = w[i]
            if rng.random() < .2 and w[i] == 0:
                continue                      # without the row of weight zero
            while left > 1 and rng.random() < .6:
                sel.append(i)
                ws.append(1)
                left -= 1
            sel.append(i)
            ws.append(left)
            if rng.random() < .15:
                sel.append(i)
                ws.append(0)
        o = list(range(len(sel)))
        rng.shuffle(o)
        if not o:
            continue
        runs.append(run([sel[k] for k in o], [ws[k] for k in o]))
    return {'loss': loss, 'runs': runs}


def scaled(rng):
    """The runs after the first on a large instance: every row repeated, rows of weight zero added."""
    c = case(rng, 8)
    for r in c['runs'][1:]:
        r['scale'] = {'m': rng.choice([64, 1024, 4096, 16384]), 'fill': rng.choice([0, 500, 20000, 100000]), 'blocked': rng.random() < .5, 'first': rng.random() < .5}
        r['junk'] = rng.choice([0, 3, 1000])
    return c


def said(e):
    """The progress message: the loss in units of 1e-4, the reduction in units of 1e-2 percent."""
    t = e.pop('msg')
    m = re.fullmatch(r'loss=([^,]+),reduced=([^,%]+)%', t)
    num = [None, None]
    for i in (0, 1):
        try:
            num[i] = float(m.group(i + 1))
        except (AttributeError, ValueError):
            m = None
    e['said'] = t != ''
    e['readable'] = m is not None
    e['finite'] = m is not None and math.isfinite(num[0])
    e['red_finite'] = m is not None and math.isfinite(num[1])
    e['loss_said'] = clamp(num[0] * 1e4) if e['finite'] else -1
    e['red_said'] = clamp(num[1] * 1e2, 1999999) if e['red_finite'] else 0


def post(case, evs):
    for e in evs:
        if e['e'] != 'Point':
            continue
        c = hexd(e['const'])
        f = [hexd(x) for x in e['f']]
        e['m'] = [clamp((x + c) * 1e4) for x in f]
        e['s'] = []
        e['lrow'] = []
        for x, y in zip(f, e['y']):
            z = (x + c) * (1 if y > 0 else -1)
            e['lrow'].append(clamp(1e4 * (math.log1p(math.exp(-z)) if z > -500 else -z)))
            e['s'].append(clamp(1e4 / (1 + math.exp(z)) if z < 700 else 0))
        e['const'] = clamp(c * 1e4)
        e['g'] = [clamp(hexd(x) * 1e4) for x in e['g']]
        e['h'] = [clamp(hexd(x) * 1e4) for x in e['h']]
        said(e)
        del e['f']
    return evs
