"""P36: discrete problems reproduce every solution contained in their space."""
import gen
from p33 import cross, simple
from p35 import tri_mesh
LEVEL = 'model_checking'


# polynomials: {(i, j): c}
def clean(p):
    return {k: v for k, v in p.items() if v}


def add(*ps):
    r = {}
    for p in ps:
        for k, v in p.items():
            r[k] = r.get(k, 0) + v
    return clean(r)


def mul(p, q):
    r = {}
    for (a, b), v in p.items():
        for (c, d), w in q.items():
            r[(a + c, b + d)] = r.get((a + c, b + d), 0) + v * w
    return clean(r)


def neg(p):
    return {k: -v for k, v in p.items()}


def dx(p):
    return clean({(i - 1, j): v * i for (i, j), v in p.items() if i})


def dy(p):
    return clean({(i, j - 1): v * j for (i, j), v in p.items() if j})


def out(p):
    return f'{len(p)} ' + ' '.join(f'{v} {i} {j}' for (i, j), v in sorted(p.items())) if p else '0'


def rnd(r, d, lo=-3, hi=3):
    """polynomial of degree exactly d"""
    p = {}
    i = r.randint(0, d)
    p[(i, d - i)] = r.choice([-2, -1, 1, 2])
    for _ in range(r.randint(0, 4)):
        k = r.randint(0, d)
        a = r.randint(0, k)
        if a + (k - a) < d:
            p[(a, k - a)] = r.randint(lo, hi)
    return clean(p)


def even(r, c, d):
    """even powers, constant term c"""
    p = {(0, 0): c}
    if d >= 2:
        for t in ((2, 0), (0, 2)):
            if r.random() < .5:
                p[t] = 1
    return clean(p)


def mesh(r, big):
    """convex cells, neighbours on different sides of their common edge"""
    while True:
        nx, ny = r.choice([(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2), (3, 3)] if big else []))
        step = r.choice([1, 2, 2, 3]) if not big else r.choice([1, 2])
        pts, cells = gen.lattice_mesh(r, nx, ny, step=step, jitter=0, holes=r.choice([0, .15]))
        j = 1 if step > 1 else 0
        if r.random() < .7:
            pts = [(x + r.randint(-j, j), y + r.randint(-j, j)) for x, y in pts]
        if r.random() < .3:
            pts = [(-y, x) for x, y in pts]
        if r.random() < .3:
            pts = [(x - 2, y - 3) for x, y in pts]
        ok, side = True, {}
        for c in cells:
            n = len(c)
            q = [cross(pts[c[k - 1]], pts[c[k]], pts[c[(k + 1) % n]]) for k in range(n)]
            ok = ok and (min(q) > 0 or max(q) < 0)
            for k in range(n):
                a, b, z = c[k], c[(k + 1) % n], c[(k + 2) % n]
                e = (min(a, b), max(a, b), cross(pts[min(a, b)], pts[max(a, b)], pts[z]) > 0)
                ok = ok and e not in side
                side[e] = 1
        if ok:
            return pts, cells, side


def parts(cells):
    """cells connected through edges: lists of edge sets"""
    groups = []
    for c in cells:
        es = {frozenset(s) for s in gen.sides(c)}
        same = [g for g in groups if g & es]
        groups = [g for g in groups if not g & es] + [set().union(es, *same)]
    return groups


def conditions(r, cells, side, kinds, inner=False, anchor='D'):
    """condition of every boundary edge; anchor: at least one such edge per connected part"""
    bnd = {frozenset(e[:2]) for e in side if (e[0], e[1], not e[2]) not in side}
    k = {e: r.choice(kinds) for e in bnd}
    if anchor:
        for g in parts(cells):
            if not any(k.get(e) in tuple(anchor) for e in g):
                k[r.choice(sorted(g & bnd, key=sorted))] = anchor[0]
    if inner:
        for e in {frozenset(x[:2]) for x in side} - bnd:
            if r.random() < .15:
                k[e] = 'D'
    return ['nobc'] + ['bc {} {} '.format(*sorted(e)) + v for e, v in sorted(k.items(), key=lambda x: sorted(x[0]))]


def galerkin(r, cells, side, deg=4):
    lag = r.random() < .5
    p = r.choice([1, 2, 3]) if lag else r.choice([1, 2, 2, 3, 4])
    p2 = p if lag or r.random() < .4 else p + r.choice([1, 2, 3])
    k = min(deg, r.choice([p, p, p, max(0, p - 1), 1]))
    u = rnd(r, k)
    k = max([i + j for i, j in u] or [0])
    d, g = p - k + 2, p - k
    eta = r.choice([0, 1, 2, 5])
    if r.random() < .15:   # projection
        a11 = a12 = a21 = a22 = {}
        ga = even(r, r.randint(1, 3), g)
    else:
        z = r.random()
        if z < .35:        # scalar
            a11 = a22 = even(r, r.randint(1, 4), 0 if r.random() < .4 else d)
            a12 = a21 = {}
        elif z < .7:       # constant tensor, not necessarily symmetric
            a11, a22 = {(0, 0): r.randint(2, 5)}, {(0, 0): r.randint(2, 5)}
            a12, a21 = clean({(0, 0): r.randint(-2, 2)}), clean({(0, 0): r.randint(-1, 1)})
        else:
            a11, a22 = even(r, r.randint(2, 4), d), even(r, r.randint(2, 4), d)
            a12, a21 = clean({(0, 0): r.randint(-2, 2)}), clean({(0, 0): r.randint(-1, 1)})
        ga = r.choice([{}, {}, even(r, r.randint(0, 3), g)])
    need = ga.get((0, 0), 0) == 0
    bc = conditions(r, cells, side, r.choice(['D', 'DN', 'DNR', 'NR', 'N', 'DR']), r.random() < .3, ('DR' if eta else 'D') if need else '')
    fx = add(mul(a11, dx(u)), mul(a12, dy(u)))
    fy = add(mul(a21, dx(u)), mul(a22, dy(u)))
    f = add(neg(dx(fx)), neg(dy(fy)), mul(ga, u))
    return bc + [f'bvp {"l" if lag else "h"} {p} {p2} {r.randint(0, 1)} {r.randint(0, 2)} {eta} ' + ' '.join(map(out, (u, a11, a12, a21, a22, ga, f, fx, fy)))]


def affine(pts, cells):
    return all(len(c) == 3 or all(pts[c[0]][k] + pts[c[2]][k] == pts[c[1]][k] + pts[c[3]][k] for k in (0, 1)) for c in cells)


def dpg(r, cells, side, weak, aff):
    # test spaces have degree at most three; on general quadrilaterals only even sums of degrees are integrated exactly
    p, dp = r.choice(([(0, 2), (1, 2)] + aff * [(0, 3), (1, 2), (1, 1), (2, 1)]) if weak else [(1, 2), (1, 2)] + aff * [(2, 1), (1, 1)])
    while True:
        u = rnd(r, r.choice([p, max(0, p - 1)]))
        k = max([i + j for i, j in u] or [0])
        al = {(0, 0): r.randint(1, 3)}
        if not weak:
            al = even(r, r.randint(1, 3), p - k)
        b = r.choice([0, 0, 1])
        if weak:
            bx, by = ({}, {}) if r.random() < .4 else (rnd(r, min(b, p - k)), rnd(r, 0))
        else:
            bx, by = ({}, {}) if r.random() < .4 else (rnd(r, min(b, p - k + 1)), rnd(r, 0))
        ga = r.choice([{}, {(0, 0): r.randint(1, 3)}])
        fx, fy = mul(al, dx(u)), mul(al, dy(u))
        if weak:
            fx, fy = add(fx, neg(mul(bx, u))), add(fy, neg(mul(by, u)))
            f = add(neg(dx(fx)), neg(dy(fy)), mul(ga, u))
        else:
            f = add(neg(dx(fx)), neg(dy(fy)), mul(bx, dx(u)), mul(by, dy(u)), mul(ga, u))
        lim = p if weak else p - 1
        if all(i + j <= lim for q in (fx, fy) for i, j in q):
            break
    free = ga and not bx and not by
    bc = conditions(r, cells, side, r.choice(['D', 'DN'] + (['N'] if free else [])), False, '' if free else 'D')
    return bc + [f'dpg {int(weak)} {p} {dp} ' + ' '.join(map(out, (u, al, bx, by, ga, f, fx, fy)))]


def run(ctx):
    from vlib import build
    exe, _ = build('solvers', ['uscalfe', 'dpg', 'stokes', 'refinement', 'mesh_hybrid2d'])
    r = ctx.rng
    scen = []
    for i in range(1500 if ctx.thorough else 150):
        pts, cells, side = mesh(r, i % 5 == 0)
        L = gen.script(r, pts, cells, edgefrac=r.choice([0, .4, 1]), check=0)
        for _ in range(4):
            L += galerkin(r, cells, side)
        L += dpg(r, cells, side, False, affine(pts, cells))
        if len(cells) <= 8:
            L += dpg(r, cells, side, True, affine(pts, cells))
        if i % 3 == 0:
            L += gen.script(r, [(4 * x, 4 * y) for x, y in pts], cells, edgefrac=r.choice([0, .4, 1]), check=0)
            L.append(f'refine {r.choice([0, 1, 2, 3])}')
            for _ in range(2):
                L += [x for x in galerkin(r, cells, side, 2) if x.startswith('bvp')]
        if i % 2 == 0:
            tp, tc, _, ts = tri_mesh(r, False, True)
            L += gen.script(r, tp, tc, edgefrac=r.choice([0, .4, 1]), check=0)
            L.append(f'flow {r.choice([1, 8, 20, 80])} {r.randint(0, 1)} {r.randint(-3, 3)} {r.randint(-3, 3)} {r.randint(-3, 3)} {r.randint(-3, 3)}')
        scen.append((f's{i}', L))
    ctx.validate('Solvers_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p36'))
