"""P25: transfer and prolongation on mesh hierarchies."""
import hiergen
LEVEL = 'model_checking'


def scenarios(r, n, thorough):
    scen = []
    for i in range(n):
        order = r.choice([1, 1, 1, 2])
        nx, ny = r.choice([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2)])
        steps = r.choice([1, 2, 2, 3] + ([3, 4] if thorough else [])) if nx * ny == 1 else r.choice([1, 2])
        kinds = [r.choice(['regular', 'marked', 'marked', 'barycentric']) for _ in range(steps)]
        while sum(k == 'barycentric' for k in kinds) > 1 or (steps > 2 and kinds.count('barycentric')):
            kinds[kinds.index('barycentric')] = r.choice(['regular', 'marked'])
        L = hiergen.base(r, nx, ny, 1, order, curved=.5, holes=r.choice([0, .3]), triaonly=r.random() < .3, quadonly=r.random() < .2)
        L.append('H')
        for k in kinds:
            if k == 'marked':
                L.append(f'mark {r.choice([10, 25, 50, 80])} {r.randrange(10**6)}')
            L.append('ref ' + k)
        for _ in range(2 if steps < 3 else 1):
            L.append(f'tr {r.randrange(5)} {r.randrange(5)} {r.choice([1, 2, 2, 3])}')
        if steps > 1:
            L.append(f'tr 0 {steps} 2')
        for _ in range(2):
            kc, kf = r.choice([('lagr', 'lagr'), ('lagr', 'hier'), ('hier', 'hier'), ('hier', 'lagr')])
            p = r.randint(1, 3)
            q = r.choice([p, p + 1, 2 * p])
            if kf == 'lagr':
                q = min(q, 3)
                p = min(p, q)
            L.append(f'pro {r.randrange(4)} {kc} {p} {kf} {q} {r.randrange(2)} {r.randrange(10**6)}')
        scen.append((f't{i}', L))
    return scen


def deep(r, n):
    """long chains of levels, with few cells"""
    scen = []
    for i in range(n):
        steps = r.choice([4, 4, 5])
        L = hiergen.base(r, 1, 1, 1, 1, curved=.3, holes=0, triaonly=r.random() < .5, quadonly=r.random() < .4)
        L.append('H')
        for k in range(steps):
            if k and r.random() < .8 or k > 2:
                L.append(f'mark {r.choice([3, 6, 10])} {r.randrange(10**6)}')
                L.append('ref marked')
            else:
                L.append('ref regular')
        L.append(f'tr 0 {steps} 1')
        L.append(f'tr {r.choice([0, 1])} {r.choice([4, steps])} 2')
        scen.append((f'd{i}', L))
    return scen


def run(ctx):
    from vlib import build
    exe, _ = build('transfer', ['uscalfe', 'refinement'])
    scen = scenarios(ctx.rng, 700 if ctx.thorough else 80, ctx.thorough) + deep(ctx.rng, 80 if ctx.thorough else 8)
    ctx.validate('Transfer_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p25'))
