"""Loading TSV blocks equals concatenating them, for any thread timing."""
import tsvgen

TECHNIQUE = ('TLA+ specifications TsvLoad (meaning of a list of blocks) and TsvPipeline (reading and appending by workers, all interleavings) with TLC; random blocks are loaded by the real store with '
             'several thread counts and under a controlled scheduler, every outcome validated by TLC')
NOTE = ('Design: 3 blocks, 3 columns, 2 workers, all interleavings. Code: up to 5 blocks of up to 12 rows and 7 columns in every role, malformed and short rows, missing blocks, directories, duplicates, empty lines, '
        'CRLF; lines repeated up to 66000 times (equal neighbours brought back to one before TLC sees them), up to 300 columns, 80 blocks, fields of 70000 characters; 1 to 16 threads on real timing and 1 to 3 threads under random and PCT schedules (also at memory accesses, with race detection). Whether a text is a number is decided by strtof in the generator.')


def run(ctx):
    ctx.model('TsvPipeline', workers=8)
    ctx.model('TsvPipeline', 'TsvPipeline_bad.cfg', workers=8)
    rng = ctx.rng
    cases = []
    for _ in range(ctx.n(900, 12000)):
        c = tsvgen.case(rng)
        c.update(threads=rng.sample([1, 2, 3, 7, 16], 2))
        cases.append(c)
    ctx.conform('tsv', 'TsvLoadTrace', cases, cfg='Stateless.cfg', label='blocks', post=tsvgen.post)
    for kind, n, post, label in ((tsvgen.bulk_case, ctx.n(24, 200), tsvgen.post_bulk, 'blocks of many lines'), (tsvgen.wide_case, ctx.n(16, 150), tsvgen.post, 'many columns, blocks and long fields')):
        cases = []
        for _ in range(n):
            c = kind(rng)
            c.update(threads=rng.sample([1, 2, 3, 7, 16], 2))
            cases.append(c)
        ctx.conform('tsv', 'TsvLoadTrace', cases, cfg='Stateless.cfg', label=label, post=post, case_seconds=60)
    cases = []
    for _ in range(ctx.n(150, 1200)):
        c = tsvgen.case(rng, True)
        c.update(threads=rng.choice([[1], [2], [2, 3]]), strategy=rng.choice(['pct', 'random']), runs=ctx.n(12, 60), seed=rng.randrange(10 ** 6),
                 p_sync=rng.choice([.1, .4]), p_mem=rng.choice([0, 0, .01]), depth=rng.choice([1, 3, 5]))
        cases.append(c)
    ctx.conform('tsv', 'TsvLoadTrace', cases, variant='sched', cfg='Stateless.cfg', label='blocks under controlled schedules', post=tsvgen.post, case_seconds=120)
