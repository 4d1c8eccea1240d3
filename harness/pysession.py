#!/opt/veriftools/pyvenv/bin/python3
"""Runs sessions of Python calls on the gbdt package: pysession.py MODE IN OUT START
$VERIF_PYLIB holds libgbdt.so, $VERIF_REPO the package.  One line per event; floats as order preserving integers."""
import collections, gc, hashlib, json, math, os, re, shutil, signal, struct, sys, tempfile, types
NAN = 2147483647


def setup():
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.environ['VERIF_PYLIB'])
    six = types.ModuleType('six')
    six.text_type = str
    sys.modules['six'] = six
    import libgbdt
    stub = types.ModuleType('gbdt._libgbdt')
    stub.libgbdt = libgbdt
    for n in ('init_logging', 'BucketizedFloatColumn', 'StringColumn', 'RawFloatColumn'):
        setattr(stub, n, getattr(libgbdt, n))
    sys.modules['gbdt._libgbdt'] = stub
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    import gbdt
    return gbdt, libgbdt


def ord_of(x):
    if math.isnan(x):
        return NAN
    try:
        b = struct.unpack('<i', struct.pack('<f', x))[0]
    except OverflowError:
        return NAN - 1
    return b if b >= 0 else -(b & 0x7fffffff)


def val_of(o):
    if o == NAN:
        return float('nan')
    return struct.unpack('<f', struct.pack('<I', o if o >= 0 else (-o) | 0x80000000))[0]


def fixed(x, unit=10000):
    x = float(x)
    if not math.isfinite(x):
        return NAN
    return max(-2 * 10 ** 9, min(2 * 10 ** 9, int(round(x * unit))))


def nodes(t, out=None):
    """A tree of the JSON model as a sequence of nodes, as the specifications read them."""
    out = [] if out is None else out
    i = len(out)
    nd = {'l': 0, 'r': 0, 's': fixed(t.get('score', 0)), 'k': 'none', 'f': '', 'th': 0, 'mr': False, 'cats': [], 'gain': 0, 'nint': 0}
    out.append(nd)
    sp = t.get('split')
    if sp:
        nd['f'] = sp.get('feature', '')
        nd['gain'] = min(50000000, fixed(sp.get('gain', 0)))
        if 'floatSplit' in sp:
            nd['k'] = 'flt'
            th = sp['floatSplit'].get('threshold', 0)
            nd['th'] = ord_of(float(th))
            nd['mr'] = sp['floatSplit'].get('missingToRightChild', False)
        elif 'catSplit' in sp:
            nd['k'] = 'cat'
            nd['cats'] = list(sp['catSplit'].get('category', []))
    if 'leftChild' in t:
        nd['l'] = len(out) + 1
        nodes(t['leftChild'], out)
    if 'rightChild' in t:
        nd['r'] = len(out) + 1
        nodes(t['rightChild'], out)
    return out


def hexof(forest):
    m = json.loads(str(forest))
    return hashlib.md5(json.dumps(m.get('tree', []), sort_keys=True).encode()).hexdigest()[:12], m


class Session:
    def __init__(self, gbdt, lib, scratch):
        self.g, self.lib, self.tmp = gbdt, lib, scratch
        self.stores, self.handles, self.forests = {}, {}, {}
        self.kinds = {lib.BucketizedFloatColumn: 'bkt', lib.StringColumn: 'str', lib.RawFloatColumn: 'raw'}

    # ------------------------------------------------------------ observation
    def column(self, h):
        t = self.kinds[type(h)]
        v = list(h)
        if len(v) != len(h):
            t = 'length'
        return {'n': str(h), 't': t, 'v': v if t == 'str' else [ord_of(x) for x in v]}

    def shown(self):
        ss = []
        for i, d in sorted(self.stores.items()):
            cols = [self.column(d[n]) for n in sorted(d.cols())]
            ss.append({'id': i, 'len': len(d), 'repr': repr(d), 'cols': cols, 'keys': sorted(d.keys()),
                       'bkt': sorted(d.bucketized_float_cols()), 'raw': sorted(d.raw_float_cols()), 'str': sorted(d.string_cols()),
                       'has': [n for n in self.names if n in d]})
        hs = [dict(self.column(h), id=i) for i, h in sorted(self.handles.items())]
        fs = [{'id': i, 'hex': hexof(f)[0]} for i, f in sorted(self.forests.items())]
        return {'stores': ss, 'handles': hs, 'forests': fs}

    # ------------------------------------------------------------ operations
    def value(self, t, v):
        return [x if t == 'str' else val_of(x) for x in v]

    def adder(self, d, t):
        return {'bkt': d.add_bucketized_float_col, 'raw': d.add_raw_float_col, 'str': d.add_string_col}[t]

    def new(self, o):
        self.stores[o['s']] = self.g.DataStore(self.lib.DataStore())

    def add(self, o):
        self.adder(self.stores[o['s']], o['t'])(o['n'], self.value(o['t'], o['v']))

    def addbad(self, o):
        """Values of another kind than the column's."""
        v = [3 for _ in range(o['k'])] if o['t'] == 'str' else ['x' for _ in range(o['k'])]
        v = v or 7
        self.adder(self.stores[o['s']], o['t'])(o['n'], v)

    def erase(self, o):
        self.stores[o['s']].erase(o['n'])

    def clear(self, o):
        self.stores[o['s']]._data_store.clear()

    def tsv(self, o):
        """The TSV of the columns, as blocks; defects as asked for."""
        cols, k = o['cols'], (len(o['cols'][0]['v']) if o['cols'] else 0)
        def cell(c, i):
            if c['t'] == 'str':
                return c['v'][i]
            return repr(val_of(c['v'][i]))
        head = [c['n'] for c in cols]
        body = [[cell(c, i) for c in cols] for i in range(k)]
        bad = o.get('bad')
        if bad == 'float' and body:
            j = [j for j, c in enumerate(cols) if c['t'] != 'str']
            if j:
                body[o['at'] % k][j[0]] = '1.5x'
        if bad == 'width' and body:
            body[o['at'] % k].pop()
        text = ['\t'.join(r) for r in body]
        cut = sorted(x % (k + 1) for x in o['cuts'])
        parts, a = [], 0
        for c in cut + [k]:
            parts.append(text[a:c])
            a = c
        blocks = ['\n'.join(['\t'.join(head)] + parts[0])] + ['\n'.join(p) for p in parts[1:]]
        files = []
        for b in blocks:
            p = os.path.join(self.tmp, 'b%d.tsv' % len(os.listdir(self.tmp)))
            with open(p, 'w') as f:
                f.write(b + '\n' if b else '')
            files.append(p)
        if bad == 'file':
            files[o['at'] % len(files)] += '.gone'
        args = {'bkt': [], 'raw': [], 'str': []}
        for c in cols:
            args[c['t']].append(c['n'])
        if bad == 'column':
            args[o['kind']].append('nosuch')
        return files, dict(bucketized_float_cols=args['bkt'], string_cols=args['str'], raw_float_cols=args['raw'])

    def load(self, o):
        f, a = self.tsv(o)
        self.stores[o['s']]._data_store.load_tsv(f, **a)

    def fromtsvs(self, o):
        f, a = self.tsv(o)
        self.stores[o['s']] = self.g.DataLoader.from_tsvs(f, **a)

    def fromdict(self, o):
        a = {'bkt': collections.OrderedDict(), 'raw': collections.OrderedDict(), 'str': collections.OrderedDict()}
        for c in o['cols']:
            a[c['t']][c['n']] = self.value(c['t'], c['v'])
        self.stores[o['s']] = self.g.DataLoader.from_dict(bucketized_float_cols=a['bkt'], string_cols=a['str'], raw_float_cols=a['raw'])

    def copy(self, o):
        self.stores[o['to']] = self.stores[o['s']].copy()

    def slice(self, o):
        i = o['idx']
        d = self.stores[o['s']]
        f = o.get('form', 'list')
        self.stores[o['to']] = d[i] if f == 'list' else d[i[0]] if f == 'int' else d[(i[0], i[-1] + 1)] if f == 'tuple' else d.slice(i)

    def get(self, o):
        self.handles[o['h']] = self.stores[o['s']][o['n']]

    def tget(self, o):
        d = self.stores[o['s']]._data_store
        self.handles[o['h']] = {'bkt': d.get_bucketized_float_col, 'raw': d.get_raw_float_col, 'str': d.get_string_col}[o['t']](o['n'])

    def type(self, o):
        return {'type': {'bucketized_float': 'bkt', 'raw_float': 'raw', 'string': 'str'}[self.stores[o['s']]._data_store.get_column_type(o['n'])]}

    def at(self, o):
        h = self.handles[o['h']]
        x = h[o['i']]
        return {'x': x if isinstance(x, str) else ord_of(x)}

    def reprh(self, o):
        h = self.handles[o['h']]
        r = repr(h)
        k = self.kinds[type(h)]
        pre = {'bkt': 'BucketizedFloatColumn([', 'raw': 'FloatColumn([', 'str': 'StringColumn(['}[k]
        if not r.startswith(pre) or not r.endswith('])'):
            return {'v': [], 'more': False, 'shape': False}
        r = r[len(pre):-2]
        more = r.endswith(' ...')
        r = r[:-4] if more else r
        v = r.split(',') if r else []
        v = [x[1:-1] if x[:1] == x[-1:] == '"' else '?' + x for x in v] if k == 'str' else [ord_of(float(x)) for x in v]
        return {'v': v, 'more': more, 'shape': True}

    def buckets(self, o):
        return {'b': [[ord_of(a), ord_of(b)] for a, b in self.handles[o['h']].buckets()]}

    def dropstore(self, o):
        del self.stores[o['s']]
        gc.collect()

    def drophandle(self, o):
        del self.handles[o['h']]
        gc.collect()

    def churn(self, o):
        """Unrelated allocations, which reuse whatever has been freed."""
        d = self.lib.DataStore()
        for i in range(o['k']):
            d.add_string_col('junk%d' % i, ['junk'] * 40)
            d.add_raw_float_col('jonk%d' % i, [9.0] * 40)
            d.add_bucketized_float_col('jank%d' % i, [9.0, 8.0] * 20)

    # ------------------------------------------------------------ models
    def described(self, f):
        h, m = hexof(f)
        return {'hex': h, 'trees': [nodes(t) for t in m.get('tree', [])], 'meta': bool(m.get('metaInfo'))}

    def train(self, o):
        cfg = dict(o['cfg'])
        keep = json.dumps(cfg, sort_keys=True)
        kw = {}
        if 'y' in o:
            kw['y'] = [val_of(x) for x in o['y']]
        if 'w' in o:
            kw['w'] = [val_of(x) for x in o['w']]
        if 'seed' in o:
            kw['random_seed'] = o['seed']
        if 'base' in o:
            kw['base_forest'] = self.forests[o['base']]
        keepy = json.dumps([kw.get('y'), kw.get('w')])
        try:
            f = self.g.train(self.stores[o['s']], cfg, features=list(o['features']), num_threads=o['threads'], **kw)
        finally:
            same = json.dumps(cfg, sort_keys=True) == keep and json.dumps([kw.get('y'), kw.get('w')]) == keepy
            d = self.stores[o['s']]
            self.extra = {'cfgsame': same, 'order': [n for n in d.bucketized_float_cols() + d.string_cols() if n in o['features']]}
        self.forests[o['f']] = f
        return self.described(f)

    def forest(self, o):
        """A forest from a JSON text."""
        f = self.g.Forest(o['text'])
        self.forests[o['f']] = f
        return self.described(f)

    def reload(self, o):
        f = self.g.Forest(str(self.forests[o['f']]))
        self.forests[o['to']] = f
        return self.described(f)

    def predict(self, o):
        r = self.forests[o['f']].predict(self.stores[o['s']])
        return {'scores': [fixed(x) for x in r], 'hexs': [float(x).hex() for x in r]}

    def check(self, o):
        for p in o.get('junk', []):
            with open(os.path.join(tempfile.gettempdir(), 'forest.%d.score' % p), 'w') as f:
                f.write('777\n' * o.get('junkrows', 3))
        try:
            gens = [self.forests[f].predict_at_checkpoints(self.stores[o['s']], list(ps)) for f, ps in zip(o['fs'], o['points'])]
            got = [[] for _ in gens]
            live = list(range(len(gens)))
            while live:
                for k in list(live):
                    try:
                        p, v = next(gens[k])
                        got[k].append({'p': p, 'v': [fixed(x) for x in v]})
                    except StopIteration:
                        live.remove(k)
        finally:
            for p in o.get('junk', []):
                try:
                    os.unlink(os.path.join(tempfile.gettempdir(), 'forest.%d.score' % p))
                except OSError:
                    pass
        return {'got': got}

    def files(self, o):
        d = os.path.join(self.tmp, 'out%d' % len(os.listdir(self.tmp)))
        os.mkdir(d)
        self.forests[o['f']]._forest.predict_and_output(self.stores[o['s']]._data_store, list(o['points']), d)
        got = []
        for n in sorted(os.listdir(d)):
            p = n.split('.')
            got.append({'p': int(p[1]) if len(p) == 3 and p[0] == 'forest' and p[2] == 'score' and p[1].isdigit() else -1,
                        'v': [fixed(float(l)) for l in open(os.path.join(d, n)) if l.strip()]})
        return {'got': got}

    def importance(self, o):
        f = self.forests[o['f']]
        return {'imp': [{'f': n, 'v': fixed(v, 1000000)} for n, v in f.feature_importance()], 'features': list(f.features())}

    def bogus(self, o):
        """Arguments of the wrong kind."""
        k = o['k']
        if k == 0:
            self.g.Forest(17)
        elif k == 1:
            self.g.Forest('{"tree": [')
        elif k == 2:
            list(self.forests.values())[0]._forest.predict(None)
        elif k == 3:
            list(self.forests.values())[0]._forest.predict_and_output(None, [1], self.tmp)
        elif k == 4:
            self.lib.train(None, y=[1.0], config='{}')
        elif k == 5:
            self.lib.train(self.stores[o['s']]._data_store, y=[], config='{"targetColumn": "nosuch"}')
        elif k == 6:
            self.lib.train(self.stores[o['s']]._data_store, y=[], config='{}')
        elif k == 7:
            self.lib.train(self.stores[o['s']]._data_store, y=[], config='{"numTrees": ')
        elif k == 8:
            self.stores[o['s']]['nosuch']
        elif k == 9:
            self.stores[o['s']]._data_store.get_column_type('nosuch')
        elif k == 10:
            self.stores[o['s']]._data_store.get_raw_float_col('nosuch')
        elif k == 11:
            list(self.forests.values())[0]._forest.predict_and_output(self.lib.DataStore(), [1], self.tmp)
        elif k == 12:
            list(self.forests.values())[0].predict(self.g.DataStore(self.lib.DataStore()))

    # ------------------------------------------------------------ displays (C26)
    def todf(self, o):
        pd = types.ModuleType('pandas')
        pd.DataFrame = dict
        sys.modules['pandas'] = pd
        try:
            df = self.stores[o['s']].to_df()
        finally:
            del sys.modules['pandas']
        return {'frame': [{'n': n, 'v': [x if isinstance(x, str) else ord_of(x) for x in df[n]]} for n in sorted(df)]}

    def fromdf(self, o):
        pd = types.ModuleType('pandas')
        class Frame(collections.OrderedDict):
            def select_dtypes(self, include=None, exclude=None):
                def num(n):
                    return any(c['n'] == n and c['t'] != 'str' for c in o['cols'])
                return Frame((n, v) for n, v in self.items() if num(n) == (include is not None))
        pd.DataFrame = Frame
        df = Frame((c['n'], self.value(c['t'], c['v'])) for c in o['cols'])
        sys.modules['pandas'] = pd
        try:
            self.stores[o['s']] = self.g.DataLoader.from_df(df, type_overrides=dict(o['over']))
        finally:
            del sys.modules['pandas']

    def viz(self, o):
        class Digraph(object):
            def __init__(self, format=None):
                self.n, self.e = {}, []
            def node(self, name, label=None, color=None):
                self.n[name] = label
            def edge(self, a, b):
                self.e.append([a, b])
        m = types.ModuleType('graphviz')
        m.Digraph = Digraph
        sys.modules['graphviz'] = m
        try:
            v = self.g.ForestVisualizer(self.forests[o['f']])
            n = v.num_trees()
            g = v.visualize_tree(o['i'])
        finally:
            del sys.modules['graphviz']
        m = json.loads(str(self.forests[o['f']]))['tree']
        def ths(t):      # thresholds in thousandths, in the order of nodes()
            r = [fixed(t.get('split', {}).get('floatSplit', {}).get('threshold', 0), 1000)]
            for k in ('leftChild', 'rightChild'):
                if k in t:
                    r += ths(t[k])
            return r
        def read(label):
            d = {'leaf': True, 's': 0, 'k': 'none', 'f': '', 'th': 0, 'mr': False, 'cats': []}
            x = label.split('\\n')
            d['s'] = fixed(float(x[-1]))
            if len(x) > 1:
                d['leaf'] = False
                q = re.match(r'^(.*) (<=\*|\*<=) (-?[0-9.]+)$', x[0], re.S)
                c = re.match(r'^(.*) in \{(.*)\}$', x[0], re.S)
                if q:
                    d.update(k='flt', f=q.group(1), mr=q.group(2) == '<=*', th=fixed(float(q.group(3)), 1000))
                elif c:
                    d.update(k='cat', f=c.group(1), cats=c.group(2).split(', ') if c.group(2) else [])
            return d
        return {'num': n, 'nodes': [dict(read(g.n[k]), name=k) for k in sorted(g.n)], 'edges': sorted(g.e),
                'ths': ths(m[o['i'] if o['i'] >= 0 else len(m) + o['i']])}

    def chart(self, o):
        rec, plt = self.plots()
        try:
            self.forests[o['f']].feature_importance_bar_chart()
        finally:
            del sys.modules['matplotlib'], sys.modules['matplotlib.pyplot']
        def one(n):
            return [r for r in rec if r[0] == n][0][1]
        ind, val = one('barh')[:2]
        return {'ind': [int(x) for x in ind], 'ticks': [int(x) for x in one('set_yticks')[0]],
                'imp': [{'f': f, 'v': fixed(v, 1000000)} for f, v in zip(one('set_yticklabels')[0], val)]}

    def plots(self):
        """Stand-ins for matplotlib which record what is drawn."""
        import numpy
        rec = []
        class Any(object):
            def __getattr__(self, name):
                def f(*a, **k):
                    if name in ('plot', 'bar', 'fill_between', 'set_xticklabels', 'barh', 'set_yticks', 'set_yticklabels'):
                        rec.append((name, a, k))
                    return (self, self) if name == 'subplots' else self
                return f
        plt = Any()
        mpl = types.ModuleType('matplotlib')
        mpl.pyplot = plt
        sys.modules['matplotlib'] = mpl
        sys.modules['matplotlib.pyplot'] = plt
        return rec, plt

    def pdp(self, o):
        rec, plt = self.plots()
        kw = {}
        kind = o['kind']
        cv = (lambda x: x) if kind == 'str' else val_of
        if 'x0' in o:
            kw['x0'] = cv(o['x0'])
        keep = list(o['x'])
        try:
            self.g.plot_partial_dependency(self.forests[o['f']], self.stores[o['s']], o['n'], [cv(x) for x in o['x']], **kw)
        finally:
            del sys.modules['matplotlib'], sys.modules['matplotlib.pyplot']
        def nums(v):      # what is no number becomes a large one
            return [max(-10 ** 9, min(10 ** 9, fixed(float(x)))) for x in v]
        if keep != o['x'] or not rec:
            raise RuntimeError('changed')
        if kind == 'str':
            bar = [r for r in rec if r[0] == 'bar'][0]
            lab = [r for r in rec if r[0] == 'set_xticklabels'][0]
            y, e = nums(bar[1][1]), nums(bar[2]['yerr'])
            return {'px': list(lab[1][0]), 'mean': y, 'lo': [fixed((a - 1.96 * b) / 10000.) for a, b in zip(y, e)], 'hi': [fixed((a + 1.96 * b) / 10000.) for a, b in zip(y, e)]}
        pl = [r for r in rec if r[0] == 'plot'][0]
        fb = [r for r in rec if r[0] == 'fill_between'][0]
        return {'px': [ord_of(float(x)) for x in pl[1][0]], 'mean': nums(pl[1][1]), 'lo': nums(fb[1][1]), 'hi': nums(fb[1][2])}

    # ------------------------------------------------------------ loop
    def run(self, case, emit):
        self.names = case['names']
        emit({'e': 'Open'})
        for o in case['ops']:
            self.extra = {}
            # operations on objects that do not exist are not part of a session
            if ('s' in o and o['op'] not in ('new', 'fromtsvs', 'fromdict', 'fromdf') and o['s'] not in self.stores) or \
               ('h' in o and o['op'] not in ('get', 'tget') and o['h'] not in self.handles) or \
               ('f' in o and o['op'] not in ('train', 'forest') and o['f'] not in self.forests) or \
               ('base' in o and o['base'] not in self.forests) or any(f not in self.forests for f in o.get('fs', [])) or \
               (o['op'] == 'bogus' and o['k'] in (2, 3, 11, 12) and not self.forests):
                continue
            ev = {k: v for k, v in o.items() if k != 'op'}
            ev['e'] = o['op']
            try:
                ev.update(getattr(self, o['op'])(o) or {})
                ev['ok'] = True
            except Exception as x:
                ev['ok'] = False
                ev['exc'] = type(x).__name__ + ': ' + str(x)[:80]
            ev.update(self.extra)
            ev.update(self.shown())
            emit(ev)


def main():
    mode, src, dst, start = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    gbdt, lib = setup()
    scratch = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    tmp = os.path.join(scratch, 'tmp')
    os.mkdir(tmp)
    tempfile.tempdir = tmp
    lib.init_logging(scratch)
    with open(src) as f:
        cases = [json.loads(l) for l in f]
    with open(dst, 'a') as out:
        for i in range(start, len(cases)):
            signal.alarm(int(os.environ.get('VERIF_CASE_SECONDS', '20')))
            sc = os.path.join(scratch, 'case')
            os.mkdir(sc)
            evs = []
            Session(gbdt, lib, sc).run(cases[i], evs.append)
            gc.collect()
            signal.alarm(0)
            for e in evs:
                e['c'] = i
                out.write(json.dumps(e) + '\n')
            out.flush()
            shutil.rmtree(sc)
    signal.alarm(60)
    shutil.rmtree(scratch, ignore_errors=True)
    os._exit(0)


if __name__ == "__main__":
    main()
