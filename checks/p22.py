"""P22: element matrices and vectors."""
import gen
import femgen as fg
LEVEL = 'model_checking'


def gmesh(r, dim, big):
    nx, ny = r.choice([(1, 1), (2, 1), (1, 2)] + ([(2, 2), (3, 1)] if big else []))
    pts, cells = gen.lattice_mesh(r, nx, ny, step=1, jitter=0)
    s = r.choice([0, 0, 1, -1])
    sx, sy = r.choice([1, 2, 3]), r.choice([1, 1, 2, 3])
    pts = [(sx * x + s * y, sy * y) for x, y in pts]
    if r.random() < .5:
        pts = [(-y, x) for x, y in pts]
    if dim == 3:
        k = r.randrange(4)
        pts = [[(x, 0, y), (1, x, y), (x, y, -1), (y, 2, x)][k] for x, y in pts]
    else:
        d = r.choice([0, 0, -1, 1])
        pts = [(x + d, y - d) for x, y in pts]
    return gen.script(r, pts, cells, edgefrac=r.choice([0, .4, 1]), check=0, dim=dim, geo=r.choice([None, None, 0, 1]))


def gpoly(r, d, dim):
    """random polynomial of degree d in dim variables with small coefficients"""
    ts = {}
    for _ in range(r.choice([1, 1, 2, 3])):
        e = [0] * dim
        for _ in range(r.randint(0, d)):
            e[r.randrange(dim)] += 1
        ts[tuple(e)] = r.choice([-2, -1, 1, 2, 3])
    return f'{len(ts)} ' + ' '.join(f'{c} ' + ' '.join(map(str, e)) for e, c in sorted(ts.items()))


def alpha(r, dim):
    u = r.random()
    if u < .4:
        return f's {r.choice([1, 2, -1, 3])}'
    return 'm ' + ' '.join(str(r.randint(-2, 3)) for _ in range(dim * dim))


def run(ctx):
    from vlib import build
    exe, _ = build('locmat', ['uscalfe', 'mesh_hybrid2d'])
    r = ctx.rng
    scen = []
    none = '0'
    for i in range(900 if ctx.thorough else 90):
        dim = 3 if i % 5 == 4 else 2
        L = gmesh(r, dim, i % 3 == 0)
        L[0] += f' {r.choice([0, 0, 0, -8, -20, -36, 10, 25])}'
        deg = r.choice([1, 2, 3])
        cx = lambda: int(r.random() < .2)
        if i % 3 < 2:
            L.append(f'space lagr {deg}')
            a = alpha(r, dim)
            c = cx() if dim == 2 else 0
            L.append(f'rd rd {c} {2 * deg} {a} {gpoly(r, r.choice([0, 0, 1, 2]), dim)}')
            L.append(f'rd rdq {0} {2 * deg + 2} {alpha(r, dim)} {gpoly(r, r.choice([1, 2]), dim)}')
            L.append(f'load us {cx()} {2 * deg} {gpoly(r, r.choice([0, 1, 2]), dim)}')
            L.append(f'load usq 0 {deg + 2} {gpoly(r, 2, dim)}')
            L.append(f'edge um {cx()} {2 * deg} {fg.mask(r)} {gpoly(r, r.choice([0, 1, 2]), dim)}')
            L.append(f'edge umq 0 {2 * deg + 2} {fg.mask(r)} {gpoly(r, 2, dim)}')
            L.append(f'edge ul {cx()} {2 * deg} {fg.mask(r)} {gpoly(r, r.choice([0, 1, 2]), dim)}')
            L.append(f'edge ulq 0 {deg + 2} {fg.mask(r)} {gpoly(r, 2, dim)}')
            if deg == 1 and dim == 2:
                L.append(f'rd lap 0 2 s 1 {none}')
                L.append(f'load lin 0 2 {gpoly(r, 0, dim)}')
                L.append(f'load lin 0 2 {gpoly(r, 1, dim)}')
        elif r.random() < .6:
            deg = r.randint(1, 4)
            L.append(f'space hier {deg}')
        else:
            lo = r.choice([1, 2])
            deg = lo
            L.append(f'space hierf {lo} {fg.degrees(r, lo + 2, lo)} {fg.degrees(r, lo + 2, lo)}')
        c = cx() if dim == 2 else 0
        L.append(f'rd diff {c} {2 * deg} {alpha(r, dim)} {none}')
        L.append(f'rd mass {cx()} {2 * deg} s 0 {gpoly(r, r.choice([0, 0, 1, 2]), dim)}')
        L.append(f'load fe {cx()} {2 * deg} {gpoly(r, r.choice([0, 1, 2]), dim)}')
        L.append(f'edge fm {cx()} {2 * deg} {fg.mask(r)} {gpoly(r, r.choice([0, 1, 2]), dim)}')
        L.append(f'edge fl {cx()} {2 * deg} {fg.mask(r)} {gpoly(r, r.choice([0, 1, 2]), dim)}')
        scen.append((f's{i}', L))
    ctx.validate('LocalForms_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p22'))
