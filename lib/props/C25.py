"""The command line program."""
import cligen

TECHNIQUE = ('TLA+ state machine Cli (stages of a run, defects, files left) model-checked by TLC; one history per transition of its state graph and random sequences of runs '
             'made with the real program, every file left validated by TLC (CliTrace, which uses Evaluate, Boosting and Trees)')
NOTE = ('Design: two models, two data sets, ten kinds of defects, one per stage and more. Code: sequences of train, continue and test over TSV blocks and flat files, 32 kinds of defects; after every run all models and '
        'scores of all directories are compared with what the runs so far must have left. Trainings with whole-number targets are checked tree by tree, others for shape and repeatability '
        'across formats, file cuts and directories. Processes killed in the middle of a run are not covered. Trusts the harness and TLC.')


def run(ctx):
    rng = ctx.rng
    ctx.model('CliMC', workers=8)
    ctx.model('CliMC', 'CliMC_two.cfg', workers=8)
    ctx.model('CliMC', 'CliMC_live.cfg', workers=4)
    hs = ctx.histories('CliMC', 'CliGen.cfg')
    cases = [cligen.history(rng, h) for h in hs for _ in range(ctx.n(1, 15))]
    ctx.conform('cli', 'CliTrace', cases, variant='cli', cfg='Stateless.cfg', label='histories of the model')
    cases = [cligen.session(rng, rng.randrange(3, 8)) for _ in range(ctx.n(450, 8000))]
    ctx.conform('cli', 'CliTrace', cases, variant='cli', cfg='Stateless.cfg', label='sequences of runs')
