"""P27: physical groups of Gmsh files are attributed exactly."""
import p26
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('gmsh', ['io'], flags='-D_GLIBCXX_ASSERTIONS')
    n = 400 if ctx.thorough else 80
    groups = ctx.drive(exe, p26.scenarios(ctx, n, True) + p26.replay_model(ctx, 600 if ctx.thorough else 80, True), 'p27')
    ctx.validate('Gmsh_Trace', 'Trace.cfg', groups)
