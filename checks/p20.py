"""P20: finite element spaces: continuity, values, reproduction of polynomials."""
import femgen as fg
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('fem', ['uscalfe', 'mesh_hybrid2d'])
    r = ctx.rng
    ctx.mc('LagrangeModel', 'LagrangeModel.cfg', workers='6')
    scen = []
    for i in range(1200 if ctx.thorough else 110):
        kind = ['affine', 'affine', 'jit', 'curved'][i % 4]
        L, B = fg.mesh(r, kind, big=i % 5 == 0)
        L[0] += f' {r.choice([0, 0, 0, -8, -20, -36, 10, 25])}'
        # (base of the scale, points per direction): coordinates at these points are multiples of 1/b
        m, b = {'affine': (4, 4), 'jit': (4, 16), 'curved': (2, 16)}[kind]
        if kind == 'affine' and r.random() < .2:
            m, b = 2, 2
        spaces = []
        for p in (1, 2, 3):
            if r.random() < .5:
                spaces.append((f'lagr {p}', p))
        p = (r.randint(1, 9) if r.random() < .9 else r.randint(10, 14)) if kind == "affine" else r.randint(1, 6)
        spaces.append((f'hier {p} {r.randrange(2)}', p))
        low, top = r.choice([(1, 3), (1, 6), (2, 4), (3, 5), (1, 8)])
        if kind != 'affine':
            top = min(top, 5)
        spaces.append((f'hierf {fg.degrees(r, top, low)} {fg.degrees(r, top, low)}', low))
        for q, (s, deg) in enumerate(spaces):
            L.append(f'space {q} {s}')
            for _ in range(2):
                L.append(f'fe {q} {r.choice([4, 4, 6, 3])} {fg.ints(r, r.choice([7, 11, 13]))}')
            # highest polynomial degree the cells reproduce
            d = deg // 2 if kind == 'curved' else deg
            cap = 2e8 if deg < 7 else 2e7 if deg < 10 else 5e5  # the values of the functions of high degree are less accurate
            while d > 0 and (B * b) ** d * d > cap:
                d -= 1
            for e in sorted({d, r.randint(0, d)}):
                L.append(f'proj {q} {m} {b} {int(kind != "curved")} {fg.poly(r, e, B * b, 1.2 * cap)}')
            L.append(f'projsel {q} {fg.mask(r)}')
        scen.append((f'{kind}{i}', L))
    ctx.validate('FESpace_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p20'))
