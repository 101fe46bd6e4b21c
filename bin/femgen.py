"""Inputs for the finite element drivers: small integer meshes (no oracle)."""
import gen


def mesh(rng, kind='affine', big=False, edgefrac=None, nonly=None):
    """kind: affine (parallelograms, triangles), jit (bilinear quads), curved. Returns (lines, max |coordinate|)"""
    nx, ny = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2), (3, 3)] if big else []))
    kw = dict(step=1, jitter=0)
    if kind != 'affine':
        kw = dict(step=4, jitter=0)
    if nonly:
        kw[nonly] = True
    pts, cells = gen.lattice_mesh(rng, nx, ny, **kw)
    if kind == 'affine':
        s = rng.choice([0, 0, 1, -1, 2])
        t = rng.choice([0, 1]) if s == 0 else 0
        pts = [(x + s * y, y + t * x) for x, y in pts]
    elif kind == 'jit':
        pts = [(x + rng.choice([-1, 0, 0, 1]), y + rng.choice([-1, 0, 0, 1])) for x, y in pts]
    dx, dy = rng.choice([0, 0, -1]), rng.choice([0, 0, -1])
    pts = [(x + dx, y + dy) for x, y in pts]
    if edgefrac is None:
        edgefrac = rng.choice([0, .3, .7, 1])
    if kind != 'curved':
        L = gen.script(rng, pts, cells, edgefrac=edgefrac, check=0)
    else:
        # second order cells of size 16, midpoints moved by one
        pts = [(4 * x, 4 * y) for x, y in pts]
        mid = {}
        for a, b in gen.all_edges(cells):
            mid[frozenset((a, b))] = tuple((pts[a][k] + pts[b][k]) // 2 + rng.choice([-1, 0, 0, 1]) for k in (0, 1))
        L = ['M 2 0'] + [f'P {x} {y}' for x, y in pts]
        for c in cells:
            ms = ' '.join(f'{mid[frozenset(s)][0]} {mid[frozenset(s)][1]}' for s in gen.sides(c))
            L.append(('T ' if len(c) == 3 else 'Q ') + ' '.join(map(str, c)) + ' 2 ' + ms)
        L.append('B')
    return L, max(max(abs(x), abs(y)) for x, y in pts)


def poly(rng, d, B, cap=1.2e9, exact=False):
    """random polynomial of degree d: terms 'n c i j ...' with sum |c| B^d * d < cap"""
    mons = [(i, j) for i in range(d + 1) for j in range(d + 1 - i)]
    top = [m for m in mons if sum(m) == d]
    n = rng.randint(1, 4)
    use = {rng.choice(top)} | {rng.choice(mons) for _ in range(n - 1)}
    lim = max(1, int(cap / (max(B, 1) ** d * max(d, 1) * len(use))))
    m = min(3, lim)
    return f'{len(use)} ' + ' '.join(f'{rng.choice([-1, 1]) * rng.randint(1, m)} {i} {j}' for i, j in sorted(use))


def mask(rng):
    n = rng.choice([1, 2, 3, 5, 7])
    p = rng.choice([.3, .5, .8])
    return f'{n} ' + ' '.join(str(int(rng.random() < p)) for _ in range(n))


def ints(rng, n, lo=-9, hi=9):
    return f'{n} ' + ' '.join(str(rng.randint(lo, hi)) for _ in range(n))


def degrees(rng, top, low=1):
    n = rng.choice([1, 2, 3, 5])
    return f'{n} ' + ' '.join(str(rng.randint(low, top)) for _ in range(n))
