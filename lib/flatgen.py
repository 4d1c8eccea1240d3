"""Random flat files and the abstract lines the specification reads."""
import ctypes
from floats import ord_of, NAN
_strtof = ctypes.CDLL(None).strtof
_strtof.restype = ctypes.c_float
_strtof.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_void_p)]


def number(b):
    """(is the whole text a number, its ordinal or missing)"""
    buf = ctypes.create_string_buffer(b)
    base = ctypes.addressof(buf)
    p = ctypes.c_void_p()
    v = _strtof(base, ctypes.byref(p))
    ok = len(b) > 0 and p.value == base + len(b)
    return ok, (NAN if not ok or v != v else ord_of(v))


def line(text):
    b = text.encode('utf8')
    num, x = number(b)
    return {'t': b.decode('latin1'), 'x': x, 'num': num, 'hash': text.startswith('#')}


HEADS = {'str': '# dtype=strings', 'raw': '# dtype=raw_floats', 'bkt': '# dtype=bucketized_floats'}
NUMS = ['1', '2.5', '-3', '0.125', '1e3', '-1.5e-3', '100000', '3.4e38', '7', '8', '9.75', '+4', '.5', '5.']
ODD = ['', 'nan', 'NaN', 'abc', '1x', '?', '-', 'x1', '1 2', '1,5', '--1', 'n/a', '__missing__', '0x', '1e', 'é', '2.5 ', 'a b', '\t', 'a\tb', '1#2', ' ']


def make(rows, eol, crlf=False):
    """lines -> file; crlf: lines end with carriage return and line feed"""
    nl = '\r\n' if crlf else '\n'
    text = nl.join(rows)
    if eol and rows:
        text += nl
    return {'text': text, 'lines': [line(r) for r in rows], 'eol': eol}


def flatfile(rng, n, typ=None):
    typ = typ or rng.choice(['str', 'raw', 'bkt'])
    rows = []
    odd = rng.choice([0, .1, .5])
    comments = rng.choice([0, 0, .2])
    for i in range(n):
        if rng.random() < comments:
            rows.append(rng.choice(['#', '# a comment', '#5', '# dtype=strings']))
        rows.append(rng.choice(ODD) if rng.random() < odd else rng.choice(NUMS) if typ != 'str' or rng.random() < .2 else rng.choice(['a', 'b', 'cc', 'd-%d' % i]))
    if rng.random() < comments:
        rows.append('# the end')
    eol = rng.random() < .6
    if not eol and rows and rows[-1] == '':
        eol = True if rng.random() < .7 else False
        if not eol:
            rows[-1] = 'z'
    return make([HEADS[typ]] + rows, eol, rng.random() < .15)


def post(case, evs):
    dirs = [{k: {'lines': f['lines'], 'eol': f['eol']} for k, f in d.items()} for d in case['dirs']]
    if case.get('nodir') is not None:
        dirs[case['nodir']] = {}
    for e in evs:
        if e.get('e') == 'Open':
            e['dirs'] = dirs
    return evs


def shorten(v, m):
    """m equal entries in a row stand for one; unchanged if they are not all alike"""
    if len(v) % m == 0 and all(v[i] == v[i - i % m] for i in range(len(v))):
        return v[::m]
    return v


def bulk(rng):
    """A file whose data lines are all written many times."""
    typ = rng.choice(['str', 'raw', 'bkt'])
    f = flatfile(rng, rng.choice([1, 2, 5, 9]), typ)
    m = rng.choice([700, 4000, 13200, 66000 // max(1, len(f['lines']) - 1) + 1])
    nl = '\r\n' if '\r' in f['text'] else '\n'
    rows = f['text'].split(nl)
    if f['eol']:
        rows.pop()
    f['text'] = nl.join(x for r in rows for x in ([r] if r.startswith('#') else [r] * m)) + (nl if f['eol'] else '')
    return f, m


def bulk_case(rng):
    f, m = bulk(rng)
    return {'dirs': [{'a': f}], 'rep': m, 'threads': [[{'n': 'a', 'want': 'any'}] * 2]}


def post_bulk(case, evs):
    evs = post(case, evs)
    m = case['rep']
    for e in evs:
        for x in e.get('cols', []) + [e]:
            for k in ('rows', 'rows2'):
                if k in x:
                    x[k] = shorten(x[k], m)
        if 'nrows' in e and e['nrows'] % m == 0:
            e['nrows'] //= m
    return evs


def wide_case(rng):
    """Many columns of one table."""
    k, n = rng.choice([40, 120]), rng.choice([1, 3])
    names = ['col%d' % i for i in range(k)]
    d = {x: flatfile(rng, n) for x in names if rng.random() < .97}
    reqs = [{'n': rng.choice(names), 'want': 'any'} for _ in range(2 * k)]
    return {'dirs': [d], 'threads': [reqs]}


def long_lines(rng):
    n = rng.choice([1, 4])
    d = {}
    for t in ['str', 'raw', 'bkt']:
        rows = [HEADS[t]]
        if rng.random() < .5:
            rows.append('#' + 'c' * rng.choice([100, 1030, 5000, 70000]))
        for _ in range(n):
            k = rng.choice([127, 255, 256, 1023, 1024, 1025, 4096, 8200, 33000, 66000])
            rows.append(rng.choice('abz') * k if t == 'str' else '1' + '.' + '0' * k if rng.random() < .5 else '0' * k + '2.5')
        d[t] = make(rows, rng.random() < .5)
    return {'dirs': [d], 'threads': [[{'n': t, 'want': 'any'} for t in d]]}
