"""P13: dynamic dof handlers."""
import asmgen
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('assemble', ['assemble', 'mesh_hybrid2d'])
    for k in (1, 2):
        ctx.mc('DofModel', f'DofModel{"deep" if ctx.thorough else ""}{k}.cfg', workers='6')
    r = ctx.rng
    scen = []
    for i in range(400 if ctx.thorough else 60):
        L = asmgen.mesh(r, big=i % 4 == 0, huge=i == 1)
        for q in range(6):
            L.append(asmgen.ddof(r, q))
        L += ["dof 6 d 1 1 1 3 1 2", "dof 7 d 3 0 1 2 4 0 3 1 2 2 0 5", "dof 8 d 1 0 1 2 1 0"]
        scen.append((f'm{i}', L))
    ctx.validate('Assemble_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p13'))
