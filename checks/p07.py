"""P07: local refinement."""
import hiergen
LEVEL = 'model_checking'


def scenarios(rng, n, thorough, maxsteps=4):
    scen = []
    for i in range(n):
        order = rng.choice([1, 1, 1, 2])
        nx, ny = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)] + ([(3, 3), (4, 4)] if thorough else []))
        steps = rng.randint(1, 2 if order == 2 else maxsteps)
        kinds = [rng.choice(['marked'] * 8 + ['regular', 'barycentric']) for _ in range(steps)]
        if nx * ny > 2:
            kinds = [k if k == 'marked' else 'marked' for k in kinds]
        unit = 1
        for k in kinds:
            unit *= (12 if k == 'barycentric' else 4) if order == 1 else (288 if k == 'barycentric' else 32)
        if order == 2 and unit > 4000:
            kinds = kinds[:1]
            unit = 288 if kinds[0] == 'barycentric' else 32
        L = hiergen.base(rng, nx, ny, unit, order, holes=rng.choice([0, .3]), quadonly=rng.random() < .15, triaonly=rng.random() < .3)
        L.append('H')
        for k in kinds:
            for _ in range(rng.choice([0, 1, 1, 1, 1, 1, 2])):  # the last call of MarkEdges counts, no call: nothing marked
                L.append(f'mark {rng.choice([0, 4, 10, 25, 50, 80, 100])} {rng.randrange(10**6)}')
            L.append('ref ' + k)
        L.append(f'again {rng.randrange(5)}')
        scen.append((f'm{i}', L))
    return scen


def model_scenarios(ctx, num):
    """Histories chosen by TLC simulation of the model of adaptive refinement."""
    scen = []
    for k in range(3):
        for i, b in enumerate(ctx.behaviours('RefinementModel', f'Refinement_Gen{k}.cfg', num, 5)):
            L = [f'M 2 0 64 1']
            for ev in b:
                if ev['a'] == 'base':
                    L += [f'P {p[0]} {p[1]}' for p in ev['pts']]
                    L += [('T ' if len(c) == 3 else 'Q ') + ' '.join(map(str, c)) + ' 1' for c in ev['cells']]
                    L += ['B', 'H']
                elif ev['a'] == 'mark':
                    L += ['markc ' + ' '.join(f'{p[0]} {p[1]}' for p in ev['at']), 'ref marked']
                else:
                    L += ['ref regular']
            scen.append((f'g{k}.{i}', L))
    return scen


def chains(rng, n, steps):
    """Fans of triangles in which splitting one spoke propagates through all triangles, in any numbering."""
    import math
    scen = []
    for i in range(n):
        m = [14, 30, 50, 22][i % 4]
        unit = 4 ** steps
        th = 5.8 / m
        # the spokes grow, so that the outer spoke of each triangle is its longest side
        pts = [(0, 0)] + [(round(150 * 1.04 ** k * math.cos(th * k)), round(150 * 1.04 ** k * math.sin(th * k))) for k in range(m + 1)]
        tri = [(0, k + 1, k + 2) for k in range(m)]
        tri = [t[j:] + t[:j] for t in tri for j in [rng.randrange(3)]]
        if i % 3 == 0:
            tri.reverse()
        elif i % 3 == 1:
            rng.shuffle(tri)
        perm = list(range(len(pts)))
        rng.shuffle(perm)
        inv = {p: k for k, p in enumerate(perm)}
        L = [f'M 2 0 {unit} 1'] + [f'P {pts[p][0] * unit} {pts[p][1] * unit}' for p in perm]
        L += ['T ' + ' '.join(str(inv[v]) for v in t) + ' 0' for t in tri] + ['B', 'H']
        L += [f'markc {pts[1][0] * unit // 2} {pts[1][1] * unit // 2}', 'ref marked']
        for _ in range(steps - 1):
            L += [f'mark 1 {rng.randrange(10**6)}', 'ref marked']
        scen.append((f'chain{i}', L))
    return scen


def run(ctx):
    from vlib import build
    exe, _ = build('refine', ['refinement'])
    for k in range(3):
        ctx.mc('RefinementModel', f'Refinement_MC{k}.cfg', workers=8)
        if ctx.thorough:
            ctx.mc('RefinementModel', f'Refinement_MCdeep{k}.cfg', workers=8, timeout=3600)
    scen = model_scenarios(ctx, 300 if ctx.thorough else 40)
    if not ctx.thorough:
        scen = ctx.rng.sample(scen, min(len(scen), 250))
    scen += scenarios(ctx.rng, 800 if ctx.thorough else 90, ctx.thorough)
    scen += chains(ctx.rng, 12, 2) + chains(ctx.rng, 20, 3) if ctx.thorough else chains(ctx.rng, 4, 1)
    ctx.validate('Refinement_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p07'))
