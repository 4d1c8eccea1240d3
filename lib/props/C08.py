"""Flat files load with the declared type, from the first directory having them."""
import flatgen
from flatgen import make, HEADS

TECHNIQUE = ('TLA+ specifications FlatFile (meaning of a file) and FlatStore (sequence of requests); random directories of files are loaded by the real store and TLC validates every request')
NOTE = ('Random directories, headers, comments, line ends, malformed numbers, missing files and directories, typed lookups of the wrong type and lengths that differ, lines repeated up to 66000 times (equal neighbours brought back to one before TLC sees them), 120 columns, lines of 66000 characters; all in one thread. '
        'Whether a text is a number is decided by the C library (strtof) in the generator. Trusts that, the harness and TLC.')


def case(rng):
    names = ['a', 'b', 'c', 'd', 'e'][:rng.randrange(1, 6)]
    n = rng.choice([0, 1, 2, 5, 9, 30])
    dirs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        d = {}
        for x in names:
            r = rng.random()
            if r < .75:
                d[x] = flatgen.flatfile(rng, n if rng.random() < .85 else rng.choice([0, 1, n + 1, n + 7]))
            elif r < .82:
                h = rng.choice(['# dtype=string', '#dtype=strings', 'dtype=strings', '', '# dtype=raw_floats ', '# dtype=Strings', '1', ' # dtype=strings'])
                d[x] = make([h] + ['1'] * n, True)
            elif r < .85:
                d[x] = make([HEADS[rng.choice(['str', 'raw', 'bkt'])]], rng.random() < .5)
            elif r < .87:
                d[x] = make([], True)
        dirs.append(d)
    c = {'dirs': dirs}
    if len(dirs) > 1 and rng.random() < .1:
        c['nodir'] = rng.randrange(len(dirs))
    c['threads'] = [[{'n': rng.choice(names + ['nope']), 'want': rng.choice(['any', 'any', 'any', 'str', 'raw', 'bkt'])} for _ in range(rng.randrange(1, 9))]]
    return c


def run(ctx):
    rng = ctx.rng
    ctx.model('LazyStoreMC', 'LazyStoreMC.cfg', workers=8)
    cases = [case(rng) for _ in range(ctx.n(900, 12000))]
    # many distinct strings and numbers
    for n in ctx.n([300, 70000], [300, 5000, 66000, 140000]):
        rows = ['k%d' % i for i in range(n)]
        cases.append({'dirs': [{'a': make([HEADS['str']] + rows[:600], True), 'b': make([HEADS['raw']] + ['%d.5' % i for i in range(min(n, 600))], False)}],
                      'threads': [[{'n': 'a', 'want': 'any'}, {'n': 'b', 'want': 'any'}]]})
    ctx.conform('flat', 'FlatStoreTrace', cases, label='directories', post=flatgen.post)
    ctx.conform('flat', 'FlatStoreTrace', [flatgen.bulk_case(rng) for _ in range(ctx.n(16, 150))], label='files of many lines', post=flatgen.post_bulk, case_seconds=60)
    ctx.conform('flat', 'FlatStoreTrace', [flatgen.wide_case(rng) for _ in range(ctx.n(6, 40))] + [flatgen.long_lines(rng) for _ in range(ctx.n(12, 100))],
                label='many columns, long lines', post=flatgen.post, case_seconds=60)
