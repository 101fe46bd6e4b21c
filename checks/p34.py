"""P34: element matrices and vectors of DPG methods, broken and trace elements."""
import gen
LEVEL = 'model_checking'


def gmesh(r, big):
    nx, ny = r.choice([(1, 1), (2, 1), (1, 2)] + ([(2, 2), (3, 1)] if big else []))
    pts, cells = gen.lattice_mesh(r, nx, ny, step=1, jitter=0)
    s = r.choice([0, 0, 1, -1])
    sx, sy = r.choice([1, 2]), r.choice([1, 1, 2])
    pts = [(sx * x + s * y, sy * y) for x, y in pts]
    if r.random() < .5:
        pts = [(-y, x) for x, y in pts]
    d = r.choice([0, 0, -1, 1])
    pts = [(x + d, y - d) for x, y in pts]
    L = gen.script(r, pts, cells, edgefrac=r.choice([0, .4, 1]), check=0, geo=r.choice([None, None, 0, 1]))
    L[0] += f' {r.choice([0, 0, 0, -8, -20, -36, 10, 25])}'
    return L


def poly(r, d):
    ts = {}
    for _ in range(r.choice([1, 1, 2])):
        i = r.randint(0, d)
        ts[(i, r.randint(0, d - i))] = r.choice([-2, -1, 1, 2, 3])
    return f'{len(ts)} ' + ' '.join(f'{c} {i} {j}' for (i, j), c in sorted(ts.items()))


def term(r, tr, te):
    """a term for a random pair of components"""
    a, b = r.randrange(len(tr)), r.randrange(len(te))
    k = tr[a][0]
    kind = 'flux' if k == 'f' else 'trace' if k == 't' else r.choice(['diff', 'reac', 'conv', 'conv', 'trace'])
    o = f'{kind} {a} {b} '
    d = r.choice([0, 0, 1])
    if kind == 'diff':
        return o + (f's {r.choice([1, 2, -1])}' if r.random() < .4 else 'm ' + ' '.join(str(r.randint(-2, 3)) for _ in range(4)))
    if kind == 'reac':
        return o + poly(r, r.choice([0, 1, 2]))
    if kind == 'flux':
        return o + poly(r, d)
    if kind == 'trace':
        return o + poly(r, d) + ' ' + poly(r, d)
    return o + ' '.join(poly(r, d) if r.random() < .7 else '0' for _ in range(4))


def run(ctx):
    from vlib import build
    exe, _ = build('dpgforms', ['uscalfe', 'mesh_hybrid2d', 'dpg'])
    r = ctx.rng
    scen = []
    for i in range(1200 if ctx.thorough else 110):
        L = (['complex'] if i % 5 == 4 else []) + gmesh(r, i % 3 == 0)
        tr = [(r.choice('hltff'), 0)] + [(r.choice('hltf'), 0) for _ in range(r.choice([0, 1, 2]))]
        tr = [(k, r.randint(0 if k in 'lf' else 1, 3 if k in 'tf' else 2)) for k, _ in tr]
        te = [(r.choice('llh'), r.randint(1, 2)) for _ in range(r.choice([1, 1, 2]))]
        if r.random() < .2:
            te[0] = ('l', r.choice([0, 3]))
        L.append(f'space 0 {len(tr)} ' + ' '.join(f'{k} {d}' for k, d in tr))
        L.append(f'space 1 {len(te)} ' + ' '.join(f'{k} {d}' for k, d in te))
        for n in (1, 2, 3):
            L.append(f'mat {n} ' + ' '.join(term(r, tr, te) for _ in range(n)))
        for n in (1, 2):
            L.append(f'vec {n} ' + ' '.join(f'{r.randrange(len(te))} {poly(r, r.choice([0, 1, 2]))}' for _ in range(n)))
        L.append(f'dpg {r.choice([0, 1, 1])} {r.randint(0, 6)} {len(tr)} ' + ' '.join(str(r.choice([-1, 0, 1, 4])) for _ in tr))
        scen.append((f's{i}', L))
    scen.append(('wrap', [f'wrap {k} {nv} {d}' for k in 'lt' for nv in (2, 3, 4) for d in range(4) if k == 'l' or (d > 0 and nv > 2)]))
    ctx.validate('DpgForms_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p34'))
