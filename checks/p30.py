"""P30: reference element tables are mutually consistent."""
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('refel', ['mesh_hybrid2d'])
    ctx.mc('RefElTablesModel', 'RefElTablesModel.cfg')
    scen = [(f'k{k}', [f'ref {k}']) for k in range(4)]
    R = range(5 if ctx.thorough else 4)
    for k in range(4):   # each query alone: an illegal one ends the process
        for c in R:
            scen.append((f'n{k}{c}', [f'num {k} {c}']))
            for i in range(6):
                scen.append((f's{k}{c}{i}', [f'sub {k} {c} {i}']))
                for rc in R:
                    for ri in (range(6) if ctx.thorough else (0, 1, 2, 4)):
                        scen.append((f'u{k}{c}{i}{rc}{ri}', [f'subsub {k} {c} {i} {rc} {ri}']))
    groups = ctx.drive(exe, scen, 'p30')
    ctx.validate('RefElTables_Trace', 'Trace.cfg', groups)
