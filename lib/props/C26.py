"""What Python shows of data and models."""
import pygen

TECHNIQUE = ('random sessions of conversions and drawings run through the real Python package with stand-ins for pandas, graphviz and matplotlib; every frame, drawing and curve validated by TLC against the stores and forests of PySession '
             '(PySessionTrace: TypeOf, NamesFrom, Change, Spread, with Evaluate)')
NOTE = ('Data frames in both directions with type overrides, tree drawings, the importance chart and partial dependency plots, over sessions of up to 14 calls; all stores and forests are shown after every call. '
        'pandas, graphviz and matplotlib are not installed: stand-ins record the calls, so what those packages do with them is trusted. Trusts the harness, numpy, pybind11 and TLC.')


def run(ctx):
    rng = ctx.rng
    cases = [pygen.displays(rng) for _ in range(ctx.n(1400, 20000))]
    ctx.conform('py', 'PySessionTrace', cases, variant='py', cfg='Stateless.cfg', label='displays')
