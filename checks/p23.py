"""P23: integration of mesh functions over selected entities, essential conditions."""
import femgen as fg
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('fem', ['uscalfe', 'mesh_hybrid2d'])
    r = ctx.rng
    scen = []
    for i in range(1500 if ctx.thorough else 160):
        kind = 'affine' if i % 2 else 'jit'
        L, B = fg.mesh(r, kind, big=i % 5 == 0)
        L[0] += f' {r.choice([0, 0, 0, -8, -20, -36, 10, 25])}'
        for _ in range(8):
            cd = r.choice([0, 0, 0, 1, 1, 2])
            d = r.randint(0, 2)
            mask = r.choice([fg.mask(r), fg.mask(r), '1 1', '1 0', '2 0 1', '3 0 1 1'])
            how = r.randrange(3) if cd < 2 else 1
            # bilinear cells: the integration element is linear in each variable
            deg = d + (1 if kind == 'jit' and cd == 0 else 0) + r.choice([0, 0, 1, 3, 8])
            L.append(f'int {r.choice(["d", "d", "c", "v", "vd", "m", "cm", "m2", "md", "m3", "mr"])} {cd} {how} {deg} {mask} {fg.poly(r, d, B)}')
        spaces = [(f'lagr {p}', p) for p in (1, 2, 3) if r.random() < .6]
        p = r.randint(1, 6)
        spaces.append((f'hier {p} {r.randrange(2)}', p))
        low, top = r.choice([(1, 3), (1, 5), (2, 4), (3, 5)])
        spaces.append((f'hierf {fg.degrees(r, top, low)} {fg.degrees(r, top, low)}', low))
        m, b = 4, 4
        for q, (s, deg) in enumerate(spaces):
            L.append(f'space {q} {s}')
            for _ in range(2):
                d = deg
                while d > 0 and (B * b) ** d * d > 1e9:
                    d -= 1
                L.append(f'ess {q} {m} {b} {r.choice([fg.mask(r), fg.mask(r), "1 1", "1 0"])} {fg.poly(r, d, B * b)}')
        scen.append((f'{kind}{i}', L))
    ctx.validate('FESpace_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p23'))
