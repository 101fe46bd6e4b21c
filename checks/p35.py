"""P35: interior penalty DG method for Stokes flow (projects/ipdg_stokes)."""
from math import gcd
import gen
from p33 import cross, simple
LEVEL = 'model_checking'


def tri_mesh(r, big, full):
    """Triangles with integer corners; (points, cells, common multiple of the doubled areas)"""
    while True:
        nx, ny = r.choice([(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2), (3, 3)] if big else []))
        step = r.choice([1, 2, 3])
        pts, cells = gen.lattice_mesh(r, nx, ny, step=step, jitter=0, triaonly=True, holes=0 if full else .15)
        j = (step + 1) // 2 if step > 1 else 0
        if r.random() < .7:
            pts = [(x + r.randint(-j, j), y + r.randint(-j, j)) for x, y in pts]
        if r.random() < .3:
            pts = [(-y, x) for x, y in pts]
        if r.random() < .3:
            pts = [(x - 2, y - 3) for x, y in pts]
        if not all(len(c) == 3 and simple([pts[k] for k in c]) for c in cells):
            continue
        # no overlaps: neighbours on different sides of their common edge
        side = {}
        ok = True
        for c in cells:
            for k in range(3):
                a, b, z = c[k], c[(k + 1) % 3], c[(k + 2) % 3]
                s = cross(pts[min(a, b)], pts[max(a, b)], pts[z]) > 0
                e = (min(a, b), max(a, b), s)
                ok = ok and e not in side
                side[e] = 1
        D = 1
        for c in cells:
            a = abs(cross(*[pts[k] for k in c]))
            D = D * a // gcd(D, a)
        if ok and D <= 600:
            return pts, cells, D, side


def egcd(a, b):
    if b == 0:
        return (abs(a), (a > 0) - (a < 0), 0)
    g, x, y = egcd(b, a % b)
    return g, y, x - (a // b) * y


def flow_data(r, pts, side):
    """Dirichlet data whose total flux over the boundary vanishes: fluxes are differences of a potential"""
    bnd = [e for e in side if (e[0], e[1], not e[2]) not in side]
    L = 1
    for a, b, _ in bnd:
        g = gcd(pts[b][0] - pts[a][0], pts[b][1] - pts[a][1])
        L = L * g // gcd(L, g)
    psi = {n: L * r.choice([-2, -1, 0, 1, 2, 3]) for e in bnd for n in e[:2]}
    out = []
    for a, b, left in bnd:
        dx, dy = pts[b][0] - pts[a][0], pts[b][1] - pts[a][1]
        # outer normal times length: (dy, -dx) if the cell is on the left of a -> b; flux psi(b) - psi(a) either way
        g, x, y = egcd(dy, -dx)
        d = (psi[b] - psi[a]) // g
        k = r.randint(-2, 2)
        gx, gy = x * d + k * dx // g, y * d + k * dy // g
        assert gx * dy - gy * dx == psi[b] - psi[a]
        out.append(f'dir {a} {b} {gx} {gy}')
    return out


def run(ctx):
    from vlib import build
    exe, _ = build('stokes', ['stokes', 'mesh_hybrid2d'])
    r = ctx.rng
    scen = []
    for i in range(1500 if ctx.thorough else 150):
        flow = i % 2 == 0
        pts, cells, D, side = tri_mesh(r, i % 5 == 0, flow or r.random() < .5)
        L = gen.script(r, pts, cells, edgefrac=r.choice([0, .4, 1]), check=0)
        L.append('nrm')
        f = lambda: ' '.join(str(r.randint(-3, 3)) for _ in range(6))
        sys = lambda w: f'sys {w} {D} {r.choice([1, 2, 8, 20, 80])} {r.choice([0, 1])} {r.choice([1, 1, 2, 4])} {f()}'
        if flow:
            L += flow_data(r, pts, side)
            L.append(sys(1))
        else:
            for a, b, _ in side:
                if r.random() < .8:
                    L.append(f'dir {a} {b} {r.randint(-3, 3)} {r.randint(-3, 3)}')
        L.append(sys(0))
        for _ in range(2):
            L.append(f'vel {r.randint(0, 20)} {r.randint(1, 4)}')
            L.append(f'norm {r.randint(0, 20)} {r.choice([0, 1, 2, 2])} {r.choice([2, 2, 3, 4])} {r.choice([2, 3, 4])}')
        L.append(f'norm {r.randint(0, 20)} 0 0 0')
        L.append(f'norm {r.randint(0, 20)} 0 1 1')
        L.append(f'curl {r.randint(0, 20)}')
        scen.append((f's{i}', L))
    for nr in (1, 2, 3):
        for na in (3, 4, 5, 6, 7, 8, 12):
            r0 = r.randint(800, 3000)
            r1 = r0 + nr * r.randint(300, 2000)
            S = r.choice([1000, 2000, 8000])
            L = [f'annulus {nr} {na} {r0} {r1} {r.randint(-5000, 5000)} {r.randint(-5000, 5000)} {S} {r.choice([0, 1, 1])}', 'nrm']
            scen.append((f'a{nr}.{na}', L[:1]))
    ctx.validate('Stokes_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p35'))
