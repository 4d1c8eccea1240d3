"""Python sessions (C24, C26)."""
import json
import struct
from floats import ord_of, f32, NAN
NAMES = ['a', 'b', 'c', 'd', 'y', 'long name', 'é']
FV = [ord_of(f32(x)) for x in (0.0, 1.0, -1.0, .5, 2.25, 3.0, -7.5, 100.0, 1e-3, 12345.0)] + [NAN]
SV = ['x', 'y', 'zz', 'é', 'a b', '10', 'X', '__missing__']


def vec(rng, t, n):
    if t == 'str':
        pool = rng.sample(SV, rng.randrange(1, 5))
    else:
        pool = rng.sample(FV, rng.randrange(1, 6))
    return [rng.choice(pool) for _ in range(n)]


def kind(rng):
    return rng.choice(['bkt', 'bkt', 'str', 'raw'])


def text_tree(rng, cols, depth, whole):
    """A tree as JSON, and as the nodes it stands for."""
    sc = rng.choice([0, 1, -2, 3]) if whole else rng.choice([0, .5, -1.25, 3])
    j = {'score': sc}
    nd = {'l': 0, 'r': 0, 's': int(sc * 10000), 'k': 'none', 'f': '', 'th': 0, 'mr': False, 'cats': [], 'gain': 0, 'nint': 0}
    out = [nd]
    if depth and cols and rng.random() < .8:
        n, (t, v) = rng.choice(cols)
        g = rng.choice([1, 2.5, 7])
        sp = {'feature': n, 'gain': g}
        nd.update(f=n, gain=int(g * 10000))
        if t == 'str':
            cats = rng.sample(SV, rng.randrange(1, 4))
            sp['catSplit'] = {'category': cats}
            nd.update(k='cat', cats=cats)
        else:
            th = rng.choice([0.5, 1, 2.25, -1, 50])
            mr = rng.random() < .5
            sp['floatSplit'] = {'threshold': th, 'missingToRightChild': mr}
            nd.update(k='flt', th=ord_of(float(th)), mr=mr)
        j['split'] = sp
        for side, key in (('leftChild', 'l'), ('rightChild', 'r')):
            c, cn = text_tree(rng, cols, depth - 1, whole)
            j[side] = c
            o = len(out)
            nd[key] = o + 1
            for x in cn:
                x = dict(x)
                for q in ('l', 'r'):
                    x[q] = x[q] + o if x[q] else 0
                out.append(x)
    return j, out


def text_forest(rng, table, whole=True):
    cols = sorted((n, c) for n, c in table.items() if c[0] in ('bkt', 'str'))
    ts = [text_tree(rng, cols, rng.choice([0, 0, 1, 2, 3]), whole) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    need = set((x['f'], 'str' if x['k'] == 'cat' else 'bkt') for _, t in ts for x in t if x['k'] != 'none')
    return json.dumps({'tree': [j for j, _ in ts]}), [t for _, t in ts], need


class Shadow:
    """What the generator believes the stores to hold; it only steers the choices."""
    def __init__(self, rng, rows=None):
        self.rng, self.s, self.h, self.f, self.ops = rng, {}, {}, {}, []
        self.rows = rng.choice([0, 1, 2, 4, 5, 6, 12]) if rows is None else rows

    def do(self, **o):
        self.ops.append(o)
        return o

    def table(self, s):
        return self.s.get(s, {})

    def n(self, s):
        t = self.table(s)
        return len(next(iter(t.values()))[1]) if t else 0

    def store(self):
        return self.rng.choice(sorted(self.s)) if self.s else None

    # -------- stores
    def cols(self, rows, kmax=4):
        rng = self.rng
        out = []
        for n in rng.sample(NAMES, rng.randrange(1, kmax + 1)):
            t = 'raw' if n == 'y' and rng.random() < .8 else kind(rng)
            out.append({'n': n, 't': t, 'v': vec(rng, t, rows)})
        return out

    def fill(self, s, cols):
        self.s[s] = {c['n']: (c['t'], c['v']) for c in cols}

    def step_new(self):
        rng = self.rng
        s = rng.randrange(1, 4)
        r = rng.random()
        if r < .25:
            self.do(op='new', s=s)
            self.s[s] = {}
        elif r < .65:
            cols = sorted(self.cols(self.rows), key=lambda c: 'bsr'.index({'bkt': 'b', 'str': 's', 'raw': 'r'}[c['t']]))
            bad = rng.random() < .2 and len(cols) > 1
            if bad:
                i = rng.randrange(1, len(cols))
                cols[i] = dict(cols[i], v=cols[i]['v'] + cols[i]['v'][:1] + (['x'] if cols[i]['t'] == 'str' else [0]))
            self.do(op='fromdict', s=s, cols=cols)
            if not bad:
                self.fill(s, cols)
        else:
            self.load('fromtsvs', s)

    def load(self, op, s):
        rng = self.rng
        k = max(1, self.rows)
        cols = self.cols(k)
        # in files, strings keep their text; an empty or missing float is not written here
        o = {'op': op, 's': s, 'cols': cols, 'cuts': [rng.randrange(100) for _ in range(rng.choice([0, 0, 1, 2]))]}
        if rng.random() < .3:
            o.update(bad=rng.choice(['float', 'width', 'file', 'column']), at=rng.randrange(100), kind=rng.choice(['bkt', 'raw', 'str']))
            if o['bad'] == 'float' and not any(c['t'] != 'str' for c in cols):
                o['bad'] = 'column'
            if o['bad'] == 'width' and len(cols) == 1:    # an empty line is no row
                o['bad'] = 'file'
        self.ops.append(o)
        if 'bad' not in o:
            self.fill(s, cols)

    def step_store(self):
        rng = self.rng
        s = self.store()
        t = self.table(s)
        r = rng.random()
        if r < .35:
            n = rng.choice(NAMES)
            k = self.n(s) if t and rng.random() < .8 else self.rows if rng.random() < .7 else rng.randrange(0, 7)
            ty = kind(rng)
            v = vec(rng, ty, k)
            self.do(op='add', s=s, n=n, t=ty, v=v)
            if n not in t and (not t or k == self.n(s)):
                self.s[s] = dict(t)
                self.s[s][n] = (ty, v)
        elif r < .4:
            self.do(op='addbad', s=s, n=rng.choice(NAMES), t=kind(rng), k=rng.choice([0, 1, self.n(s)]))
        elif r < .55:
            n = rng.choice(sorted(t) if t and rng.random() < .8 else NAMES)
            self.do(op='erase', s=s, n=n)
            self.s[s] = {x: c for x, c in t.items() if x != n}
        elif r < .6:
            self.do(op='clear', s=s)
            self.s[s] = {}
        elif r < .68:
            self.load('load', s)
        elif r < .76:
            to = rng.randrange(1, 4)
            self.do(op='copy', s=s, to=to)
            self.s[to] = dict(t)
        elif r < .92:
            to = rng.randrange(1, 4)
            n = self.n(s)
            hi = n + (1 if rng.random() < .25 else 0)
            lo = -1 if rng.random() < .1 else 0
            idx = [rng.randrange(lo, hi) for _ in range(rng.randrange(0, 7))] if hi > lo else []
            form = rng.choice(['list', 'list', 'range', 'int', 'tuple'])
            if form == 'int':
                idx = [rng.randrange(lo, hi)] if hi > lo else [0]
            if form in ('tuple', 'range'):
                a = rng.randrange(0, n + 1)
                b = rng.randrange(a, hi + 1) if hi >= a else a
                idx = list(range(a, b))
                form = 'list' if not idx else form
            self.do(op='slice', s=s, to=to, idx=idx, form=form)
            if not t:
                self.s[to] = {}
            elif all(0 <= i < n for i in idx):
                self.s[to] = {x: (ty, [v[i] for i in idx]) for x, (ty, v) in t.items()}
        else:
            self.do(op='dropstore', s=s)
            del self.s[s]

    # -------- handles
    def step_handle(self):
        rng = self.rng
        s = self.store()
        t = self.table(s)
        r = rng.random()
        if r < .4 or not self.h:
            n = rng.choice(sorted(t) if t and rng.random() < .9 else NAMES)
            h = rng.randrange(1, 4)
            if rng.random() < .3:
                ty = t[n][0] if n in t and rng.random() < .6 else kind(rng)
                self.do(op='tget', s=s, n=n, t=ty, h=h)
                good = n in t and t[n][0] == ty
            else:
                self.do(op='get', s=s, n=n, h=h)
                good = n in t
            if good:
                self.h[h] = t[n]
            return
        h = rng.choice(sorted(self.h))
        n = len(self.h[h][1])
        if r < .6:
            self.do(op='at', h=h, i=rng.choice([0, n - 1, n, -1, -n, rng.randrange(-2, n + 3), 2 ** 31 - 1, -2 ** 31]))
        elif r < .75:
            self.do(op='reprh', h=h)
        elif r < .85:
            if self.h[h][0] == 'bkt':
                self.do(op='buckets', h=h)
        elif r < .93:
            self.do(op='churn', k=rng.choice([1, 5]))
        else:
            self.do(op='drophandle', h=h)
            del self.h[h]
        if rng.random() < .2 and s is not None:
            self.do(op='type', s=s, n=rng.choice(NAMES))

    # -------- models
    def features(self, s):
        t = self.table(s)
        return [n for n in t if t[n][0] in ('bkt', 'str')]

    def step_train(self):
        rng = self.rng
        s = self.store()
        t, n = self.table(s), self.n(s)
        fs = [f for f in self.features(s) if rng.random() < .8] or self.features(s)
        if rng.random() < .08:
            fs = fs + ['nosuch']
        if rng.random() < .05:
            fs = []
        if rng.random() < .05:
            fs = fs + [x for x in t if t[x][0] == 'raw'][:1]
        lam4, minh4, ming4, shrink8 = rng.choice([0, 0, 1, 4]), rng.choice([0, 0, 4]), rng.choice([0, 0, 1]), rng.choice([8, 8, 4, 1])
        cfg = {'num_trees': rng.choice([1, 1, 2, 3]), 'num_leaves': rng.choice([1, 2, 3, 4, 8]), 'shrinkage': shrink8 / 8., 'l2_lambda': lam4 / 4.,
               'min_hessian': minh4 / 4., 'min_gain': ming4 / 4., 'loss_func': rng.choice(['mse', 'mse', 'mse', 'logloss']), 'target_column': ''}
        o = {'op': 'train', 's': s, 'f': rng.randrange(1, 4), 'features': fs, 'cfg': cfg, 'threads': rng.choice([1, 2, 3]),
             'lam4': lam4, 'minh4': minh4, 'ming4': ming4, 'shrink8': shrink8}
        if rng.random() < .5:
            o['iw'] = [rng.choice([1, 1, 2, 3]) for _ in range(n)]
            o['w'] = [ord_of(float(x)) for x in o['iw']]
        bf = [f for f in sorted(self.f) if self.f[f] <= set(t.items() and [(x, t[x][0]) for x in t])]
        if bf and rng.random() < .4:
            o['base'] = rng.choice(bf)
        elif self.f and rng.random() < .1:
            o['base'] = rng.choice(sorted(self.f))
        raws = [x for x in t if t[x][0] == 'raw' and not any(v == NAN for v in t[x][1])]
        if cfg['loss_func'] == 'logloss' or rng.random() < .7 or not raws:
            if cfg['loss_func'] == 'logloss':
                o['iy'] = [rng.choice([-1, 1]) for _ in range(n)]
                if n and len(set(o['iy'])) == 1:
                    o['iy'][0] = -o['iy'][0]
                if n == 1:
                    cfg['loss_func'] = 'mse'
                cfg['l2_lambda'], o['lam4'] = 1., 4
            else:
                o['iy'] = self.targets(n, o.get('iw'))
            o['y'] = [ord_of(float(x)) for x in o['iy']]
            if rng.random() < .1:
                cfg['target_column'] = rng.choice(NAMES)
        else:
            cfg['target_column'] = rng.choice(raws) if rng.random() < .8 else rng.choice(NAMES)
            if cfg['target_column'] in t and any(v == NAN for v in t[cfg['target_column']][1]) and t[cfg['target_column']][0] == 'raw':
                cfg['target_column'] = raws[0]
        if rng.random() < .06 and 'y' in o:
            o['y'] = o['y'] + o['y'][:1] + [0]
            o.pop('iy')
        if rng.random() < .05 and 'w' in o:
            o['w'] = o['w'][:-1] + [0, 0]
            o.pop('iw')
        if rng.random() < .04:
            cfg['loss_func'] = 'nosuch'
        if rng.random() < .2:
            cfg['feature_sampling_rate'] = .5
            o['seed'] = rng.randrange(5)
        elif rng.random() < .1:
            o['seed'] = rng.randrange(5)
        self.ops.append(o)
        if n and fs and set(fs) <= set(self.features(s)) and cfg['loss_func'] != 'nosuch':
            need = set((x, t[x][0]) for x in fs)
            if 'base' in o:
                need |= self.f[o['base']]
            self.f[o['f']] = need
        if rng.random() < .3:       # the same again, also after a copy
            o2 = dict(o, f=rng.randrange(1, 4))
            if rng.random() < .5 and s is not None:
                to = rng.randrange(1, 4)
                if to != s:
                    self.do(op='copy', s=s, to=to)
                    self.s[to] = dict(t)
                    o2['s'] = to
            if o.get('base') == o2['f'] or o['f'] == o.get('base'):
                return
            self.ops.append(o2)
            if o['f'] in self.f:
                self.f[o2['f']] = self.f[o['f']]

    def targets(self, n, w):
        """Whole numbers whose weighted mean is whole, mostly."""
        rng = self.rng
        w = w or [1] * n
        c = rng.randrange(-3, 4)
        d = [0] * n
        for _ in range(n):
            if n < 2:
                break
            i, j = rng.sample(range(n), 2)
            k = rng.choice([-2, -1, 1, 2])
            d[i] += k * w[j]
            d[j] -= k * w[i]
        return [c + x for x in d]

    def step_forest(self):
        s = self.store()
        text, want, need = text_forest(self.rng, self.table(s), self.rng.random() < .7)
        f = self.rng.randrange(1, 4)
        self.do(op='forest', f=f, text=text, want=want)
        self.f[f] = need

    def step_model(self):
        rng = self.rng
        f = rng.choice(sorted(self.f))
        s = self.store()
        fit = [x for x in sorted(self.s) if self.f[f] <= set((n, self.s[x][n][0]) for n in self.s[x])]
        if fit and rng.random() < .85:
            s = rng.choice(fit)
        r = rng.random()
        if r < .45:
            self.do(op='predict', f=f, s=s)
        elif r < .65:
            fs = [f] + [x for x in sorted(self.f) if rng.random() < .4]
            fs = fs[:2]
            k = rng.random()
            ps = [[rng.randrange(1, 3 if k < .8 else 7) for _ in range(rng.randrange(1, 4))] for _ in fs]
            if k > .97:
                ps[0][0] = 0
            o = self.do(op='check', fs=fs, s=s, points=ps)
            if rng.random() < .5:
                o.update(junk=sorted(set(rng.randrange(0, 8) for _ in range(4))), junkrows=self.n(s))
        elif r < .75:
            self.do(op='files', f=f, s=s, points=[rng.randrange(-1, 6) for _ in range(rng.randrange(0, 4))])
        elif r < .88:
            to = rng.randrange(1, 4)
            self.do(op='reload', f=f, to=to)
            self.f[to] = self.f[f]
        else:
            self.do(op='importance', f=f)


def session(rng, steps=None):
    sh = Shadow(rng)
    sh.step_new()
    for _ in range(steps or rng.randrange(6, 22)):
        r = rng.random()
        if not sh.s or r < .1:
            sh.step_new()
        elif r < .4:
            sh.step_store()
        elif r < .6:
            sh.step_handle()
        elif r < .75:
            sh.step_train() if rng.random() < .75 else sh.step_forest()
        elif r < .97:
            if sh.f:
                sh.step_model()
            else:
                sh.step_train()
        else:
            sh.do(op='bogus', k=rng.randrange(13), s=sh.store())
    return {'names': NAMES + ['nosuch'], 'ops': sh.ops}


def models(rng):
    """Sessions about training: a sound table first."""
    sh = Shadow(rng, rng.choice([2, 4, 5, 6, 9]))
    cols = [{'n': n, 't': t, 'v': vec(rng, t, sh.rows)} for n, t in (('a', 'bkt'), ('b', 'str'), ('c', 'bkt'), ('y', 'raw'))]
    cols[3]['v'] = [ord_of(float(rng.randrange(-3, 4))) for _ in range(sh.rows)]
    cols = sorted(cols, key=lambda c: ['bkt', 'str', 'raw'].index(c['t']))
    sh.do(op='fromdict', s=1, cols=cols)
    sh.fill(1, cols)
    for _ in range(rng.randrange(4, 14)):
        r = rng.random()
        if r < .35 or not sh.f:
            sh.step_train() if rng.random() < .75 else sh.step_forest()
        elif r < .75:
            sh.step_model()
        elif r < .8:
            sh.step_handle()
        else:
            sh.step_store()
        if not sh.s:
            sh.step_new()
    return {'names': NAMES + ['nosuch'], 'ops': sh.ops}


def history(rng, h):
    """A history of the model, with values."""
    out = []
    for o in h:
        o = dict(o)
        if o['op'] == 'add':
            k = o.pop('k')
            o['v'] = [ord_of(float(i + 1)) for i in range(k)] if o['t'] != 'str' else ['r%d' % (i + 1) for i in range(k)]
        if o['op'] == 'slice':
            o['form'] = 'list'
        out.append(o)
        if o['op'] in ('erase', 'clear', 'dropstore'):
            out.append({'op': 'churn', 'k': 2})
    return {'names': ['a', 'b'], 'ops': out}


def plain(o):
    return struct.unpack('<f', struct.pack('<I', o if o >= 0 else (-o) | 0x80000000))[0] if o != NAN else float('nan')


def frame(rng, rows):
    cols = []
    for n in rng.sample(NAMES, rng.randrange(0, 5)):
        t = rng.choice(['num', 'num', 'str'])
        v = vec(rng, t, rows)
        cols.append({'n': n, 't': t, 'v': v, 'text': [str(plain(x)) for x in v] if t == 'num' else v})
    if cols and rng.random() < .1:
        c = rng.choice(cols)
        c['v'] = c['v'] + vec(rng, c['t'], 1)
        c['text'] = [str(plain(x)) for x in c['v']] if c['t'] == 'num' else c['v']
    over = [[n, rng.choice(['string', 'float', 'raw_float', 'bucketized_float', 'other'])] for n in rng.sample(NAMES, rng.randrange(0, 4))]
    return cols, over


def displays(rng):
    """Sessions about what Python shows: a sound table and models first."""
    sh = Shadow(rng, rng.choice([1, 2, 4, 5, 9]))
    cols = [{'n': n, 't': t, 'v': vec(rng, t, sh.rows)} for n, t in (('a', 'bkt'), ('b', 'str'), ('long name', 'bkt'), ('c', 'str'), ('y', 'raw'))]
    cols = sorted(cols, key=lambda c: ['bkt', 'str', 'raw'].index(c['t']))
    sh.do(op='fromdict', s=1, cols=cols)
    sh.fill(1, cols)
    sh.step_forest()
    for _ in range(rng.randrange(4, 12)):
        r = rng.random()
        f = rng.choice(sorted(sh.f)) if sh.f else None
        s = sh.store()
        if not sh.s:
            sh.step_new()
        elif f is None or r < .12:
            sh.step_forest() if rng.random() < .7 else sh.step_train()
        elif r < .25:
            sh.do(op='todf', s=s)
        elif r < .4:
            c, over = frame(rng, sh.rows)
            s = rng.randrange(1, 4)
            sh.do(op='fromdf', s=s, cols=c, over=over)
            if len(set(len(x['v']) for x in c)) < 2:
                def ty(x):
                    o = dict(over).get(x['n'])
                    return 'str' if x['t'] == 'str' or o == 'string' else 'raw' if o in ('float', 'raw_float') else 'bkt'
                sh.s[s] = {x['n']: (ty(x), x['text'] if ty(x) == 'str' else x['v']) for x in c}
        elif r < .58:
            sh.do(op='viz', f=f, i=rng.choice([0, 0, 1, 2, -1, -2, 5]))
        elif r < .68:
            sh.do(op='chart', f=f)
        elif r < .92:
            fit = [x for x in sorted(sh.s) if sh.f[f] <= set((n, sh.s[x][n][0]) for n in sh.s[x])]
            s = rng.choice(fit) if fit and rng.random() < .9 else s
            t = sh.table(s)
            want = sorted(n for n, _ in sh.f[f] if n in t and t[n][0] != 'raw')
            n = rng.choice(want) if want and rng.random() < .85 else rng.choice(sorted(t) + ['nosuch'])
            if n in t and not t[n][1]:
                continue
            kd = 'str' if n in t and t[n][0] == 'str' else 'flt'
            pool = SV if kd == 'str' else [x for x in FV if x != NAN]
            o = sh.do(op='pdp', f=f, s=s, n=n, kind=kd, x=[rng.choice(pool) for _ in range(rng.randrange(1, 7))])
            if rng.random() < .5:
                o['x0'] = rng.choice(pool + ([] if kd == 'str' else [NAN]))
        else:
            sh.step_store()
    return {'names': NAMES + ['nosuch'], 'ops': sh.ops}
