"""P11: mapping, Jacobian, metric quantities."""
import geogen
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('geo', ['refinement'])
    rng = ctx.rng
    scen = []
    for ty in geogen.TYPES:
        for d in geogen.dims(ty):
            for i in range(120 if ctx.thorough else 16):
                L = [f'unit {rng.choice([0, 0, 0, -10, -24, -40, 12, 30])}', geogen.line(rng, ty, d)]
                full = [(a, b) for a in range(0, 13) for b in range(0, 13) if geogen.NV[ty] != 3 or a + b <= 12]
                L.append('ev ' + geogen.points(rng, ty, rng.choice([1, 2, 5, 12]), 1))
                L.append('ev ' + geogen.points(rng, ty, 1, 1))
                L.append('met ' + geogen.points(rng, ty, rng.choice([1, 3, 6]), 6))
                if rng.random() < .2:
                    L.append('ev')      # no points at all
                scen.append((f'{ty}.{d}.{i}', L))
    ctx.validate('Geometry_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p11'))
