"""P02: geometries of mesh entities are consistent."""
import gen
LEVEL = 'model_checking'


def scenario(rng, dim, big=False):
    nx, ny = (17, 16) if big else rng.choice([(1, 1), (2, 1), (2, 2), (3, 2), (4, 3)])
    p, cells = gen.lattice_mesh(rng, nx, ny, step=48, flip=True)
    if dim == 3:
        p = [(x, y, rng.randint(-20, 20)) for x, y in p]
    # every side gets a midpoint, straight or bent
    mids = {}
    for a, b in gen.all_edges(cells):
        m = [(p[a][k] + p[b][k]) // 2 if (p[a][k] + p[b][k]) % 2 == 0 else (p[a][k] + p[b][k] + 1) // 2 for k in range(dim)]
        if rng.random() < .7:
            m = [x + rng.randint(-3, 3) for x in m]
        mids[frozenset((a, b))] = m
    mode = rng.choice(['mixed', 'none', 'o2', 'o1', 'mixed', 'mixed'])
    ents_e, ents_c = [], []
    for a, b in gen.all_edges(cells):
        if rng.random() < rng.choice([0, .5, 1]):
            if rng.random() < .5:
                a, b = b, a
            g = rng.choice([0, 1, 2])
            if g == 2:
                ents_e.append(f'E {a} {b} 2 ' + ' '.join(map(str, mids[frozenset((a, b))])))
            else:
                ents_e.append(f'E {a} {b} {g}')
    for c in cells:
        g = dict(none=[0], o1=[1], o2=[2], mixed=[0, 1, 2], o12=[1, 2])[mode]
        g = rng.choice(g)
        s = ('T ' if len(c) == 3 else 'Q ') + ' '.join(map(str, c)) + f' {g}'
        if g == 2:
            for a, b in gen.sides(c):
                s += ' ' + ' '.join(map(str, mids[frozenset((a, b))]))
        ents_c.append(s)
    m = []
    while ents_e or ents_c:
        src = ents_e if (ents_e and (not ents_c or rng.random() < .5)) else ents_c
        m.append(src.pop(0))
    return [f'unit {rng.choice([0, 0, 0, 0, -12, -30, -45, 14, 40])}', f'M {dim} 1'] + ['P ' + ' '.join(map(str, q)) for q in p] + m + ['B']


def para(rng):
    """meshes of parallelograms given as such"""
    nx, ny = rng.choice([(1, 1), (2, 1), (2, 3)])
    ax, ay, bx, by = rng.choice([(24, 0, 0, 24), (24, 8, -8, 32), (16, 40, -24, 8), (24, -8, 8, 24)])
    ix = lambda i, j: i * (ny + 1) + j
    L = [f'unit {rng.choice([0, 0, -12, -30, -45, 14, 40])}', 'M 2 1'] + [f'P {i*ax+j*bx} {i*ay+j*by}' for i in range(nx + 1) for j in range(ny + 1)]
    for i in range(nx):
        for j in range(ny):
            v = [ix(i, j), ix(i + 1, j), ix(i + 1, j + 1), ix(i, j + 1)]
            k = rng.randrange(4)
            v = v[k:] + v[:k]
            L.append('Q ' + ' '.join(map(str, v)) + f' {rng.choice([0, 1, 3])}')
    return L + ['B']


def run(ctx):
    from vlib import build
    exe, _ = build('mesh', ['mesh_hybrid2d'])
    n = 600 if ctx.thorough else 120
    scen = [(f'r{i}', scenario(ctx.rng, 3 if i % 5 == 4 else 2)) for i in range(n)]
    scen += [(f'p{i}', para(ctx.rng)) for i in range(n // 6)]
    scen += [('big', scenario(ctx.rng, 2, True))]
    groups = ctx.drive(exe, scen, 'p02', args=['geo'])
    ctx.validate('MeshGeometry_Trace', 'Trace.cfg', groups)
