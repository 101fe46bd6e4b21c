"""P10: geometries of sub-entities and of children."""
import geogen
from p09 import PATS
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('geo', ['refinement'])
    rng = ctx.rng
    scen = []
    for ty in geogen.TYPES:
        nv = geogen.NV[ty]
        nsub = {1: [1], 2: [1, 2], 3: [1, 3, 3], 4: [1, 4, 4]}[nv]
        cases = []
        for p in PATS[nv]:
            if p == 'nil':
                continue
            for a in ([-1] if p in ('copy', 'regular', 'barycentric') or nv <= 2 else []) + (list(range(nv)) if nv > 2 else []):
                for cd in range(len(nsub)):
                    cases.append(f'child {p} {a} {cd}')
        for d in geogen.dims(ty):
            for i in range(40 if ctx.thorough else 6):
                L = [f'unit {rng.choice([0, 0, 0, -10, -24, -40, 12, 30])}', geogen.line(rng, ty, d)]
                L += [f'sub {cd} {k}' for cd in range(len(nsub)) for k in range(nsub[cd])]
                L += cases if (i < 3 or ctx.thorough) else rng.sample(cases, min(len(cases), 12))
                scen.append((f'{ty}.{d}.{i}', L))
    ctx.validate('Geometry_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p10'))
