"""P17: exactness of quadrature rules."""
LEVEL = 'model_checking'
NOTE = 'Exhaustive over all element types and requested degrees up to the bound; exactness is decided on the full Bernstein basis of the announced degree with 1e-12 relative resolution.'
NAMED = ('TriaMid TriaP1O2 TriaEdgeMid TriaP3O3 TriaP7O6 TriaP6O4 QuadMid QuadP1O2 QuadEdgeMid QuadP4O2 QuadP4O4 '
         'Nodalseg Nodaltria Nodalquad').split()


def run(ctx):
    from vlib import build
    exe, _ = build('quad', ['quad'])
    scen = [('named', [f'named {n}' for n in NAMED])]
    mx = dict(seg=300, tria=110, quad=90) if ctx.thorough else dict(seg=80, tria=60, quad=40)
    for r, m in mx.items():
        for d in range(m + 1):
            scen.append((f'{r}{d}', [f'rule {r} {d}']))
    if not ctx.thorough:  # samples of higher degrees
        for r, ds in dict(seg=[99, 100, 101, 127, 128, 129, 151, 199, 200, 256], tria=[63, 64, 65, 80, 97], quad=[47, 48, 55, 64]).items():
            scen += [(f'{r}{d}', [f'rule {r} {d}']) for d in ds]
    scen.append(('gauss', [f'jacobi leg {n} 0 0' for n in range(1, 40 if ctx.thorough else 25)]
                 + [f'jacobi jac {n} {a} {b}' for n in range(1, 33) for a in (0, 1) for b in (0, 1)]))
    ctx.validate('Quad_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p17'))
