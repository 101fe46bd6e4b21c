"""P01: mesh factory topology and numbering."""
import math
import gen
LEVEL = 'model_checking'


def hist_lines(h, check=1):
    L = [f'M 2 {check}']
    for c in h:
        if c['op'] == 'P':
            L.append('P %d %d' % (c['n'][0], c['n'][1]))
        elif c['op'] == 'B':
            L.append('B')
        else:
            L.append(c['op'] + ' ' + ' '.join(map(str, c['n'])) + ' ' + str(c['g']))
    return L


def run(ctx):
    from vlib import build
    exe, _ = build('mesh', ['mesh_hybrid2d'])
    ctx.mc('MeshFactory_Gen', 'MeshFactory_MC.cfg')
    beh = ctx.behaviours('MeshFactory_Gen', 'MeshFactory_Gen.cfg', 2000 if ctx.thorough else 150, 60)
    scen = [(f'beh{i}', hist_lines(h)) for i, h in enumerate(beh)]
    n = 400 if ctx.thorough else 60
    for i in range(n):
        L = [f'unit {ctx.rng.choice([0, 0, -20, -40, 30])}', f'M 2 {ctx.rng.choice([0, 1])}']
        for r in range(ctx.rng.choice([1, 1, 2, 3])):
            nx, ny = ctx.rng.choice([(1, 1), (2, 1), (1, 3), (3, 2), (4, 4), (6, 5)])
            p, c = gen.lattice_mesh(ctx.rng, nx, ny)
            L += gen.script(ctx.rng, p, c, edgefrac=ctx.rng.choice([0, .3, .7, 1]), header=False)
        scen.append((f'rnd{i}', L))
    for i in range(4 if ctx.thorough else 2):  # more than 256 nodes, edges and cells, a large mesh after a small one and vice versa
        L = ['M 2 1']
        for nx, ny in ([(2, 2), (17, 16)], [(19, 15), (2, 1)])[i % 2]:
            p, c = gen.lattice_mesh(ctx.rng, nx, ny)
            L += gen.script(ctx.rng, p, c, edgefrac=ctx.rng.choice([0, .6]), header=False)
        scen.append((f'big{i}', L))
    # very large meshes (beyond 16 bit numbers), sampled
    for i, (nx, ny) in enumerate([(260, 261), (40, 1700), (300, 300), (9000, 8)] + ([(700, 500), (2, 40000)] if ctx.thorough else [])):
        r = ctx.rng
        nn = (nx + 1) * (ny + 1)
        a = next(x for x in iter(lambda: r.randint(1, 2_000_000_000 // nn), None) if math.gcd(x, nn) == 1)
        if i % 2 == 0:  # neighbouring numbers
            a = 1
        m, K = 1 if i == 2 else r.choice([0, 1, 2, 3, 7]), r.choice([0, 1, nx // 2])
        sq = []
        for _ in range(8):
            x, y = r.randrange(nx - 1), r.choice([0, r.randrange(ny - 1)])
            sq += [(x, y), (x + 1, y), (x, y + 1)]
        sq = sorted(set(sq + [(0, 0), (nx - 1, ny - 1)]))
        scen.append((f'huge{i}', [f'BIG {nx} {ny} {a} {r.randrange(1000)} {m} {K} ' + ' '.join(f'{x} {y}' for x, y in sq)]))
    groups = ctx.drive(exe, scen, 'p01')
    ctx.validate('MeshFactory_Trace', 'Trace.cfg', groups)
