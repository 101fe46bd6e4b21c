"""P06: uniform refinement."""
import hiergen
LEVEL = 'model_checking'


def scenarios(rng, n, thorough, again=True):
    scen = []
    for i in range(n):
        order = rng.choice([1, 1, 2])
        nx, ny = rng.choice([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2), (3, 3)] if thorough else []))
        steps = rng.choice([1, 1, 2, 2, 3]) if nx * ny == 1 else rng.choice([1, 1, 2])
        if thorough and nx * ny <= 2:
            steps = rng.choice([1, 2, 3])
        if order == 2:
            steps = min(steps, 2)
        kinds = [rng.choice(['regular', 'regular', 'barycentric', 'default']) for _ in range(steps)]
        # exact coordinates: denominators 4 (bilinear), 12 (barycenter) per level,
        # second order 32 and 288
        unit = 1
        for k in kinds:
            unit *= (12 if k == 'barycentric' else 4) if order == 1 else (288 if k == 'barycentric' else 32)
        if unit > 4000 and order == 2:
            kinds = kinds[:1]
            unit = 288 if kinds[0] == 'barycentric' else 32
        conv = rng.random() < .25 and len(set(kinds)) == 1 and kinds[0] != 'default'
        L = hiergen.base(rng, nx, ny, unit, order, dangling=not conv, holes=rng.choice([0, .3]))
        if conv:
            L.append(f'GEN {len(kinds)} {kinds[0]}')
        else:
            L.append('H')
            for k in kinds:
                if rng.random() < .3:
                    L.append(f'mark 40 {rng.randrange(1000)}')   # marks do not matter here
                L.append('ref ' + k)
        if again:
            L.append(f'again {rng.randrange(4)}')
        scen.append((f'u{i}', L))
    return scen


def run(ctx):
    from vlib import build
    exe, _ = build('refine', ['refinement'])
    scen = scenarios(ctx.rng, 600 if ctx.thorough else 90, ctx.thorough)
    # many steps
    for i in range(4 if ctx.thorough else 2):
        n = 5 if i % 2 else 4
        kinds = ctx.rng.sample(['regular'] * (n - 1) + ['default'], n)
        L = hiergen.base(ctx.rng, 1, 1, 4 ** n, 1, dangling=False, triaonly=i % 2 == 0, quadonly=i % 2 == 1)
        scen.append((f'deep{i}', L + ['H'] + ['ref ' + k for k in kinds]))
    L = hiergen.base(ctx.rng, 1, 1, 12 ** 3 if not ctx.thorough else 12 ** 4, 1, dangling=False, triaonly=True)
    scen.append(('deepb', L + ['H'] + ['ref barycentric'] * (4 if ctx.thorough else 3)))
    ctx.validate('Refinement_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p06'))
