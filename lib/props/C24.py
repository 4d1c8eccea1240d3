"""Python sessions."""
import pygen

TECHNIQUE = ('TLA+ state machine PySession (stores, column handles, failing calls) model-checked by TLC; one history per transition of its state graph and random sessions with training, prediction and models '
             'run through the real Python package, every observed state and forest validated by TLC (PySessionTrace, which uses Evaluate, Boosting and Trees)')
NOTE = ('Design: two stores, one handle, two names, two types. Code: sessions of up to 25 calls over three stores, handles and forests; after every call all stores, handles and forests are shown. Freed memory is overwritten (MALLOC_PERTURB_). '
        'Trainings with whole-number targets are checked tree by tree, others for shape, repeatability and prediction. pandas and six are stand-ins. Trusts the harness, pybind11 and TLC.')


def run(ctx):
    rng = ctx.rng
    ctx.model('PySessionMC', workers=8)
    hs = ctx.histories('PySessionMC', 'PySessionGen.cfg')
    rng.shuffle(hs)
    cases = [pygen.history(rng, h) for h in hs[:ctx.n(1000, 20000)]]
    ctx.conform('py', 'PySessionTrace', cases, variant='py', cfg='Stateless.cfg', label='histories of the model')
    cases = [pygen.session(rng) for _ in range(ctx.n(500, 8000))] + [pygen.models(rng) for _ in range(ctx.n(500, 8000))]
    ctx.conform('py', 'PySessionTrace', cases, variant='py', cfg='Stateless.cfg', label='sessions')
