"""Runs of the command line program (C25)."""
from floats import ord_of, f32, NAN
from pygen import SV
FVALS = [0.0, 1.0, -1.0, .5, 2.25, 3.0, -7.5, 100.0, 1e-3, 12345.0]
PAIR = ['auc', 'pairwise_logloss', 'gbrank', 'lambdamart']
TEXT = [s for s in SV if not s.startswith('#')]


def col(n, t, v, i=None):
    return {'n': n, 't': t, 'v': v, 'i': i or []}


def whole(n, t, i):
    return col(n, t, [ord_of(float(x)) for x in i], i)


def table(rng, rows):
    def flt():
        pool = [ord_of(f32(x)) for x in rng.sample(FVALS, rng.randrange(1, 6))] + ([NAN] if rng.random() < .4 else [])
        return [rng.choice(pool) for _ in range(rows)]
    def txt(k):
        pool = rng.sample(TEXT, k)
        return [rng.choice(pool) for _ in range(rows)]
    w = [rng.choice([1, 1, 2, 3]) for _ in range(rows)]
    # whole numbers whose mean, by these weights, is whole
    y = [rng.randrange(-3, 4)] * rows
    for _ in range(rows):
        i, j, k = rng.randrange(rows), rng.randrange(rows), rng.choice([-2, -1, 1, 2])
        if i != j:
            y[i] += k * w[j]
            y[j] -= k * w[i]
    u = [rng.randrange(-3, 4)] * rows
    for _ in range(rows // 2):
        i, j, k = rng.randrange(rows), rng.randrange(rows), rng.choice([-2, -1, 1, 2])
        u[i] += k
        u[j] -= k
    z = [rng.choice([-1, 1]) for _ in range(rows)]
    if rows > 1 and len(set(z)) == 1:
        z[0] = -z[0]
    cs = [col('a', 'bkt', flt()), col('b', 'str', txt(rng.randrange(1, 5))), col('c', 'bkt', flt()), col('d e', 'str', txt(2)),
          whole('y', 'raw', y), whole('u', 'raw', u), whole('z', 'raw', z), whole('w', 'raw', w), col('g', 'str', txt(rng.choice([1, 2])))]
    rng.shuffle(cs)
    return cs


def tables(rng):
    rows = rng.choice([2, 3, 4, 6, 9])
    t1 = table(rng, rows)
    t2 = table(rng, rng.choice([1, 2, 5, 8]))
    t3 = [dict(c) for c in t1]
    for c in rng.sample(t3, 2):       # the same with other types or names
        if c['t'] == 'str' or rng.random() < .5:
            c['n'] += "'"
        else:
            c['t'] = 'raw' if c['t'] == 'bkt' else 'bkt'
    return [t1, t2, t3]


def config(rng, tabs, cautious=False):
    lam4, minh4, ming4, shrink8 = rng.choice([0, 0, 1, 4]), rng.choice([0, 0, 4]), rng.choice([0, 0, 1]), rng.choice([8, 8, 4, 1])
    loss = rng.choice(['mse'] * 5 + ['logloss', 'huberized_hinge'] + PAIR)
    fl, ct = [x for x in ('a', 'c') if rng.random() < .8], [x for x in ('b', 'd e', 'g') if rng.random() < .5]
    if not fl + ct:
        fl = ['a']
    rng.shuffle(fl)
    binz = rng.random() < .15
    c = {'num_trees': rng.choice([1, 1, 2, 3, 5]), 'num_leaves': rng.choice([1, 2, 3, 4, 8]), 'shrinkage': shrink8 / 8., 'l2_lambda': lam4 / 4.,
         'min_hessian': minh4 / 4., 'min_gain': ming4 / 4., 'loss_func': loss, 'target_column': rng.choice(['y', 'y', 'u']),
         'weight_column': rng.choice(['', 'w']), 'group_column': '', 'float_feature': fl, 'categorical_feature': ct,
         'additional_float_column': [x for x in ('z', 'w') if rng.random() < .2], 'additional_string_column': [x for x in ('b', 'g') if rng.random() < .2],
         'binarize_target': binz, 'eval_interval': rng.choice([0, 0, 1, 2, 3, -1]), 'example_sampling_rate': 1, 'feature_sampling_rate': 1,
         'pair_sampling_rate': 1, 'pair_weight_by_delta_target': rng.random() < .3, 'equal_group_weight': rng.random() < .3, 'lambdamart_dcg_base': 2}
    if c['target_column'] == 'u' and rng.random() < .7:
        c['weight_column'] = ''
    if loss in ('logloss', 'huberized_hinge') and rng.random() < .9:
        c['target_column'] = rng.choice(['z', 'z', 'y'])
        c['binarize_target'] = c['target_column'] == 'y' or binz
    if loss in PAIR and rng.random() < .7:
        c['group_column'] = 'g'
    if loss not in ('mse',):
        c['l2_lambda'], lam4 = 1., 4
    x = {'lam4': lam4, 'minh4': minh4, 'ming4': ming4, 'shrink8': shrink8, 'exact': True, 'settings': True}
    r = rng.random()
    if r < .1:
        c[rng.choice(['example_sampling_rate', 'feature_sampling_rate'])] = .75
        x['exact'] = False
    return c, x


def spoil(rng, c, x):
    """Settings no training accepts."""
    k, v = rng.choice([('num_trees', 0), ('num_trees', -1), ('num_leaves', 0), ('num_leaves', -2), ('example_sampling_rate', 0), ('example_sampling_rate', 1.5),
                       ('feature_sampling_rate', 0), ('feature_sampling_rate', -1), ('example_sampling_rate', 'NaN')])
    c[k] = v
    x['settings'] = False


def misfit(rng, c):
    """Data the configuration does not fit."""
    r = rng.randrange(9)
    if r == 0:
        c['target_column'] = rng.choice(['', 'nosuch', 'b'])
    elif r == 1:
        c['weight_column'] = rng.choice(['nosuch', 'g'])
    elif r == 2:
        c['group_column'] = rng.choice(['nosuch', 'y'])
    elif r == 3:
        c['float_feature'] = c['float_feature'] + ['nosuch']
    elif r == 4:
        c['categorical_feature'] = c['categorical_feature'] + ['nosuch']
    elif r == 5:
        c['float_feature'], c['categorical_feature'] = [], []
    elif r == 6:
        c['float_feature'] = c['float_feature'] + [c['target_column']]
    elif r == 7:
        c['additional_string_column'] = ['nosuch']
    else:
        c['additional_float_column'] = ['nosuch']
    # texts read as numbers are another matter
    if c['target_column'] == 'b':
        c['categorical_feature'] = sorted(set(c['categorical_feature'] + ['b']))
    if c['weight_column'] == 'g':
        c['categorical_feature'] = sorted(set(c['categorical_feature'] + ['g']))
    if c['group_column'] == 'y':
        c['target_column'] = 'y'


def used(c, kinds):
    out = []
    if 'flt' in kinds:
        out += c['float_feature']
    if 'cat' in kinds:
        out += c['categorical_feature']
    if 'raw' in kinds:
        out += [n for n in (c['target_column'], c['weight_column']) if n]
    if 'grp' in kinds:
        out += [n for n in (c['group_column'],) if n]
    return out


def clash(c):
    fl, raw = set(c['float_feature']), set([c['target_column'], c['weight_column']] + c['additional_float_column'])
    st = set(c['categorical_feature'] + [c['group_column']] + c['additional_string_column']) - {''}
    return fl & raw or fl & st or raw & st


def run(rng, op, fmt, defect, frm=None, name=None, tab=1, cfg=None):
    c, x = cfg or config(rng, None)
    c, x = dict(c), dict(x)
    o = {'op': op, 'fmt': fmt, 'table': tab, 'cfg': c, 'at': rng.randrange(60), 'threads': rng.choice([1, 2, 4]), 'dir': rng.choice(['1', '1', '2']),
         'cuts': [rng.randrange(100) for _ in range(rng.choice([0, 0, 1, 2]))], 'camel': rng.random() < .5}
    o.update(x)
    if rng.random() < .15:
        o['seed'] = rng.randrange(4)
    if op == 'train':
        o['name'] = name or rng.choice(['forest', 'm', 'n'])
        if frm:
            o['base'] = frm
    else:
        o['model'] = frm
    d = defect
    if d == 'settings' and op == 'train':
        spoil(rng, c, o)
        d = ''
    elif d in ('settings',):
        d = ''
    elif d == 'loss':
        c['loss_func'] = rng.choice(['nosuch', '', 'MSE'])
        d = ''
    elif d == 'misfit':
        if op == 'train' or rng.random() < .5:
            misfit(rng, c)
        else:
            o['table'] = 3
        d = ''
    if d in ('float', 'column', 'rows', 'dtype', 'datadir', 'width'):
        if op == 'test' and fmt == 'flat' or clash(c):
            d = 'datagone'
        elif d == 'float':
            # the text must be a number somewhere
            o['on'] = rng.choice(used(c, ('flt', 'raw')))
        elif d == 'dtype':
            o['on'] = rng.choice(used(c, ('flt', 'cat', 'raw', 'grp')))
            o['at'] = rng.choice([0, 1, 2, 3] + ([4, 5] if o['on'] in used(c, ('raw',)) else []))
        else:
            o['on'] = rng.choice(used(c, ('flt', 'cat', 'raw', 'grp')))
    o['defect'] = d
    return o


def finish(tabs, ops):
    """No losses which need both classes on one of them only; short rows lack a column which is used."""
    for o in ops:
        c = o['cfg']
        if o['defect'] == 'width':
            o['on'] = [k['n'] for k in tabs[o['table'] - 1] if k['n'] in used(c, ('flt', 'cat', 'raw', 'grp'))][-1]
        if c['loss_func'] in ('logloss', 'huberized_hinge') and c['binarize_target']:
            for k in tabs[o['table'] - 1]:
                if k['n'] == c['target_column'] and (not k['i'] or len(set(i > 0 for i in k['i'])) < 2):
                    c['loss_func'] = 'mse'
    return {'tables': tabs, 'ops': ops}


def history(rng, h):
    """A history of the model, with tables and settings."""
    tabs = tables(rng)
    ops = []
    ok = {}
    for r in h:
        frm = ['1', r['from']] if r['from'] else None
        d = '' if r['defect'] == 'none' else r['defect']
        cfg = config(rng, None)
        if r['op'] == 'train':
            cfg[0]['loss_func'] = cfg[0]['loss_func'] if rng.random() < .5 else 'mse'
        if r is not h[-1] or not d:
            # what continues or tests a model has the same columns
            cfg[0]['float_feature'] = ['a', 'c']
            cfg[0]['categorical_feature'] = ['b', 'd e', 'g']
        o = run(rng, r['op'], r['fmt'], d, frm, r['name'] or None, rng.choice([1, 1, 2]), cfg)
        o['dir'] = '1'
        ops.append(o)
    return finish(tabs, ops)


DEFECTS = ['mode', 'noconfig', 'noout', 'nomodel', 'configgone', 'configdir', 'configempty', 'configsyntax', 'configtype', 'nodata', 'datagone', 'datadir',
           'float', 'width', 'column', 'rows', 'dtype', 'modelgone', 'modeldir', 'modelempty', 'modelsyntax', 'loss', 'settings', 'misfit',
           'outgone', 'outfile', 'full', 'isdir', 'fullimps', 'isdirimps', 'fullscore', 'isdirscore']


def suits(d, op, fmt, frm):
    if d.startswith('model'):
        return bool(frm)
    if d in ('full', 'isdir', 'fullimps', 'isdirimps', 'loss', 'settings'):
        return op == 'train'
    if d in ('fullscore', 'isdirscore', 'nomodel'):
        return op == 'test'
    if d in ('float', 'width'):
        return fmt == 'tsv'
    if d in ('rows', 'dtype'):
        return fmt == 'flat' and op == 'train'
    return True


def session(rng, steps):
    tabs = tables(rng)
    ops, models = [], []
    same = config(rng, None)
    for k in range(steps):
        op = 'train' if not models or rng.random() < .5 else 'test'
        fmt = rng.choice(['tsv', 'flat'])
        frm = rng.choice(models) if models and (op == 'test' or rng.random() < .3) else None
        d = ''
        if rng.random() < .25:
            d = rng.choice(DEFECTS)
            if not suits(d, op, fmt, frm):
                d = ''
        cfg = config(rng, None)
        if rng.random() < .4:
            cfg = same
        if op == 'test' or frm:
            cfg[0]['float_feature'] = ['a', 'c']
            cfg[0]['categorical_feature'] = ['b', 'd e', 'g']
        o = run(rng, op, fmt, d, frm, None, rng.choice([1, 1, 1, 2]), cfg)
        ops.append(o)
        if op == 'train':
            if not o['defect'] and o['settings'] and [o['dir'], o['name']] not in models:
                models.append([o['dir'], o['name']])
            if not o['defect'] and rng.random() < .35:      # the same again, otherwise
                o2 = dict(o, cfg=dict(o['cfg']), fmt=rng.choice(['tsv', 'flat']), dir=rng.choice(['1', '2']), cuts=[rng.randrange(100) for _ in range(rng.randrange(3))], camel=rng.random() < .5)
                o2['name'] = rng.choice(['forest', 'm', 'n'])
                if o2.get('base') != [o2['dir'], o2['name']] and o2.get('base') != [o['dir'], o['name']]:
                    ops.append(o2)
        elif rng.random() < .3:
            ops.append(dict(o, cfg=dict(o['cfg']), fmt=rng.choice(['tsv', 'flat']), dir=rng.choice(['1', '2']), defect='', table=o['table'] if o['table'] != 3 else 1, threads=rng.choice([1, 4])))
    return finish(tabs, ops)
