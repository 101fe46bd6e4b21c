"""P08: parent and child records."""
import p06, p07
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('refine', ['refinement'])
    n = 400 if ctx.thorough else 45
    scen = p06.scenarios(ctx.rng, n, ctx.thorough) + p07.scenarios(ctx.rng, n, ctx.thorough, 3)
    ctx.validate('Refinement_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p08', args=['links']))
