"""String columns reproduce every row exactly."""
TECHNIQUE = 'TLA+ specification StringColumn (dictionary encoding) model-checked by TLC; exhaustive small stimuli generated by TLC and large columns around every storage width run on the real column, every column shown validated by TLC'
NOTE = ('Design: all sequences of up to 6 strings out of 4. Code: all sequences of up to 4 strings out of 3 in all divisions into 3 batches, '
        'random columns with arbitrary bytes, and columns of 254..257 and 65534..65537 distinct strings. Trusts the harness string table and TLC.')
ODD = ['', ' ', '__missing__', '__missing__ ', '_missing_', 'a', 'A', 'a ', ' a', 'a\tb', '\u00e9', '"', '\\', ',', '0', '00', '1', '1.0', 'nan', 'NaN', 'NA', 'null',
       'x' * 300, 'x' * 301, '\u4e2d\u6587', "'", '\x01', 'true', '#', '-0']


def run(ctx):
    ctx.model('StringColumn')
    cases = ctx.generate('StringColumnGen')
    rng = ctx.rng
    for _ in range(ctx.n(150, 2000)):
        pool = [rng.choice(ODD) if rng.random() < .6 else 'w%d' % rng.randrange(40) for _ in range(rng.randrange(1, 12))]
        cases.append({'b': [[rng.choice(pool) for _ in range(rng.randrange(0, 12))] for _ in range(rng.randrange(0, 5))]})
    ctx.conform('strcol', 'StringColumnTrace', cases, cfg='Stateless.cfg', label='small columns')
    big = []
    sizes = [254, 255, 256, 257, 300, 511, 65534, 65535, 65536, 65537]
    if ctx.thorough:
        sizes += [65538, 70000, 131073, 1000, 253, 512, 513]
    for k in sizes:
        for miss in ((0, 1) if k < 1000 or ctx.thorough else (rng.randrange(2),)):
            ids = list(range(1, k + 1))      # k distinct strings besides "__missing__"
            if miss:
                ids.insert(rng.randrange(len(ids)), 0)
            extra = [rng.choice(ids) for _ in range(min(300, k))]
            rows = ids + extra
            if rng.random() < .5:
                rng.shuffle(rows)
            cut = sorted(rng.sample(range(len(rows)), 2))
            big.append({'b': [rows[:cut[0]], rows[cut[0]:cut[1]], rows[cut[1]:]]})
    ctx.conform('strcol', 'StringColumnTrace', big, cfg='Stateless.cfg', label='storage widths')
