"""P12: uniform dof handlers."""
import asmgen
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('assemble', ['assemble', 'mesh_hybrid2d'])
    for k in (1, 2):
        ctx.mc('DofModel', f'DofModel{"deep" if ctx.thorough else ""}{k}.cfg', workers='6')
    r = ctx.rng
    scen = []
    for i in range(400 if ctx.thorough else 60):
        L = asmgen.mesh(r, big=i % 4 == 0, huge=i == 1)
        for q in range(6):
            L.append(asmgen.udof(r, q, 4))
        L += ['dof 6 u 1 2 1 4 1', 'dof 7 u 1 1 0 1 1', 'dof 8 u 0 3 -1 2 0', 'dof 9 u 2 5 3 1 2']
        scen.append((f'm{i}', L))
    ctx.validate('Assemble_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p12'))
