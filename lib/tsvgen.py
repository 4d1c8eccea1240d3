"""Random TSV blocks and their abstract lines."""
from flatgen import line, shorten
NUMS = ['1', '2.5', '-3', '0.125', '1e3', '-1.5e-3', '100000', '7', '8.75', '+4', '.5', ' 3', 'inf']
NANS = ['NAN', 'nan', 'NaN', '?', '_', '-', '*']
JUNK = ['', 'abc', '1x', 'NA', 'null', '1,5', '--', '1 ', 'Nan?']
TEXT = ['a', 'b', 'cc', '', 'é', ' a', 'x y', '__missing__', '#', '7', 'nan']


def field(text):
    f = line(text)
    return {'t': f['t'], 'num': f['num'], 'x': f['x']}


def block_text(rows, nl, eol):
    t = nl.join('\t'.join(r) for r in rows)
    return t + nl if eol and rows else t


def case(rng, small=False):
    ncol = rng.randrange(1, 7)
    names = rng.sample(['f%d' % i for i in range(12)], ncol)
    kinds = [rng.choice(['num', 'str']) for _ in names]
    want = []
    for n, k in zip(names, kinds):
        if rng.random() < .15:
            continue
        if k == 'num':
            want.append({'n': n, 'as': rng.choice(['float', 'float', 'addfloat', 'target', 'weight'])})
        else:
            want.append({'n': n, 'as': rng.choice(['cat', 'cat', 'group', 'addstr'])})
    seen = set()
    want = [w for w in want if w['as'] not in ('target', 'weight', 'group') or w['as'] not in seen and not seen.add(w['as'])]
    if want and rng.random() < .15:      # the same column twice, mostly as the same type
        w = rng.choice(want)
        str_ = {'cat': 'addstr', 'addstr': 'cat', 'group': 'cat', 'float': 'float', 'addfloat': 'addfloat', 'target': 'addfloat', 'weight': 'addfloat'}[w['as']]
        want.append({'n': w['n'], 'as': str_ if rng.random() < .7 else rng.choice(['addstr', 'addfloat', 'float'])})
    rng.shuffle(want)
    bad = rng.random() < .3
    if bad and rng.random() < .2:
        want.append({'n': 'nope', 'as': rng.choice(['float', 'cat', 'addfloat', 'addstr'])})
    nb = rng.choice([1, 2, 3, 5] if not small else [1, 2, 3])
    blocks, files = [], []
    crlf = rng.random() < .1
    nl = '\r\n' if crlf else '\n'
    for b in range(nb):
        rows = []
        for _ in range(rng.choice([0, 1, 2, 5, 12] if not small else [0, 1, 2])):
            r = [rng.choice(NANS) if k == 'num' and rng.random() < .15 else rng.choice(NUMS) if k == 'num' else rng.choice(TEXT) for k in kinds]
            if rng.random() < .1:
                r += ['extra']
            rows.append(r)
        if bad and rows and rng.random() < .3:
            r = rng.choice(rows)
            if rng.random() < .5:
                r[rng.randrange(len(r))] = rng.choice(JUNK)
            else:
                del r[rng.randrange(len(r)):]
                if not r:
                    r.append('a')
        if rng.random() < .2:
            rows.insert(rng.randrange(len(rows) + 1), [])
        if b == 0:
            rows = [[n + rng.choice(['', '', ' ', '  ']) if rng.random() < .2 else n for n in names]] + rows
        # a line of one empty field is an empty line
        rows = [r if r != [''] else [] for r in rows]
        eol = rng.random() < .7
        kind = 'file' if rng.random() > (.05 if bad else 0) else rng.choice(['missing', 'dir'])
        files.append({'kind': kind, 'text': block_text(rows, nl, eol)})
        blocks.append({'kind': kind, 'lines': [[field(x) for x in r] for r in rows] if kind == 'file' else []})
    if rng.random() < .01:
        blocks, files = [], []
    return {'files': files, 'blocks': blocks, 'header': names, 'want': want}


def post(c, evs):
    for e in evs:
        if e.get('e') == 'Load':
            e.update(blocks=c['blocks'], header=c['header'], want=c['want'])
            e.setdefault('cols', [])
            e.setdefault('ncols', 0)
            e.setdefault('nrows', 0)
    return evs


def bulk_case(rng):
    """Every data line is written many times."""
    c = case(rng, True)
    total = sum(len(b['lines']) for b in c['blocks'])
    m = rng.choice([700, 3000, 13200, 66000 // max(1, total) + 1])
    for i, f in enumerate(c['files']):
        if f['kind'] != 'file':
            continue
        nl = '\r\n' if '\r' in f['text'] else '\n'
        eol = f['text'].endswith(nl)
        rows = f['text'].split(nl)
        if eol:
            rows.pop()
        head, body = (rows[:1], rows[1:]) if i == 0 else ([], rows)
        f['text'] = nl.join(head + [r for r in body for _ in range(m)]) + (nl if eol else '')
    c['rep'] = m
    return c


def post_bulk(c, evs):
    evs = post(c, evs)
    m = c['rep']
    for e in evs:
        for x in e.get('cols', []):
            for k in ('rows', 'rows2'):
                x[k] = shorten(x[k], m)
        if e.get('e') == 'Load' and e['nrows'] % m == 0:
            e['nrows'] //= m
    return evs


def wide_case(rng):
    """Many columns, many blocks, long fields."""
    k = rng.choice([30, 130, 300])
    names = ['f%d' % i for i in range(k)]
    rng.shuffle(names)
    kinds = [rng.choice(['num', 'str']) for _ in names]
    want = [{'n': n, 'as': rng.choice(['float', 'addfloat']) if t == 'num' else rng.choice(['cat', 'addstr'])}
            for n, t in zip(names, kinds) if rng.random() < .6]
    rng.shuffle(want)
    nb = rng.choice([1, 3, 20, 80])
    blocks, files = [], []
    for b in range(nb):
        rows = []
        for _ in range(rng.choice([0, 1, 2])):
            rows.append([rng.choice(NANS) if t == 'num' and rng.random() < .1 else rng.choice(NUMS) if t == 'num' else
                         rng.choice(TEXT) if rng.random() < .97 else 'v' * rng.choice([300, 1030, 5000, 70000]) for t in kinds])
        if b == 0:
            rows = [names] + rows
        files.append({'kind': 'file', 'text': block_text(rows, '\n', rng.random() < .7)})
        blocks.append({'kind': 'file', 'lines': [[field(x) for x in r] for r in rows]})
    return {'files': files, 'blocks': blocks, 'header': names, 'want': want}
