"""P33: skeleton of the mesh (signs, normals, inflow), essential conditions, error estimators."""
import gen
import femgen as fg
LEVEL = 'model_checking'


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def simple(p):
    """polygon with nonzero corners that does not cross itself"""
    n = len(p)
    c = [cross(p[i - 1], p[i], p[(i + 1) % n]) for i in range(n)]
    if n == 3:
        return c[0] != 0
    pos, neg = sum(x > 0 for x in c), sum(x < 0 for x in c)
    return pos + neg == 4 and (pos >= 3 or neg >= 3)


def mesh(r, big):
    while True:
        nx, ny = r.choice([(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2), (3, 3)] if big else []))
        step = r.choice([1, 2, 3, 4])
        pts, cells = gen.lattice_mesh(r, nx, ny, step=step, jitter=0)
        j = (step + 1) // 2 if step > 1 else 0
        if r.random() < .7:
            pts = [(x + r.randint(-j, j), y + r.randint(-j, j)) for x, y in pts]
        if r.random() < .3:
            pts = [(-y, x) for x, y in pts]
        if r.random() < .3:
            pts = [(x - 2, y - 3) for x, y in pts]
        if all(simple([pts[k] for k in c]) for c in cells):
            return gen.script(r, pts, cells, edgefrac=r.choice([0, .4, 1]), check=0)


def poly(r, d):
    ts = {}
    for _ in range(r.choice([1, 2, 3])):
        i = r.randint(0, d)
        ts[(i, r.randint(0, d - i))] = r.choice([-2, -1, 1, 2, 3])
    return f'{len(ts)} ' + ' '.join(f'{c} {i} {j}' for (i, j), c in sorted(ts.items()))


def run(ctx):
    from vlib import build
    exe, _ = build('skeleton', ['uscalfe', 'mesh_hybrid2d', 'dpg'])
    r = ctx.rng
    scen = []
    for i in range(1500 if ctx.thorough else 150):
        L = mesh(r, i % 3 == 0)
        L[0] += f' {r.choice([0, 0, 0, -8, -20, -36, 10, 25])}'
        L.append('skel')
        for nv in (3, 4):
            n = r.randint(1, 4)
            L.append(f'bqr {nv} {n} ' + ' '.join(f'{r.randint(0, 16)} {r.choice([-3, 1, 2, 5, 8, 16])}' for _ in range(n)))
        for _ in range(3):
            d = r.choice([0, 0, 1, 2])
            L.append(f'flow {poly(r, d)} {poly(r, d)}')
        comps = [('t', r.randint(1, 3)), ('f', r.randint(0, 3))]
        for _ in range(r.choice([0, 1, 2])):
            comps.append((r.choice('lht'), r.randint(1, 2)))
        if r.random() < .3:
            comps[0] = ('h', comps[0][1])
        order = list(range(len(comps)))
        r.shuffle(order)
        cs = [comps[k] for k in order]
        tc, fc = order.index(0), order.index(1)
        L.append(f'space {len(cs)} ' + ' '.join(f'{k} {d}' for k, d in cs))
        for _ in range(2):
            L.append(f'ess {tc} {fc} {comps[0][1]} {comps[1][1]} {fg.mask(r)} {fg.mask(r)} {poly(r, r.choice([0, 1, 2]))} {poly(r, r.choice([0, 1, 2]))}')
        L.append(f'est {r.choice([0, 1, 1])} {r.randint(0, 6)} {len(cs)} ' + ' '.join(str(r.choice([-1, 0, 2, 5])) for _ in cs))
        L.append(f'est {r.choice([1, 2]) if i % 4 == 0 else 1} {r.randint(0, 6)} {len(cs)} ' + ' '.join(str(r.choice([0, 1, 3])) for _ in cs))
        scen.append((f's{i}', L))
    ctx.validate('Skeleton_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p33'))
