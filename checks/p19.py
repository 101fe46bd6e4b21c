"""P19: Lagrangian reference elements."""
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('reffe', ['uscalfe'])
    ctx.mc('LagrangeModel', 'LagrangeModel.cfg', workers=4)
    scen = [(f'{r}{p}{s}', [f'lagr {s} {p} {r}']) for r in ('seg', 'tria', 'quad') for p in (1, 2, 3) for s in 'rc']
    scen += [(f'pt{p}', [f'point r {p}']) for p in (1, 2, 3)]
    ctx.validate('RefFE_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p19'))
