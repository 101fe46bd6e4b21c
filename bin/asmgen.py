"""Inputs for the assemble driver (P12-P16)."""
import gen


def mesh(rng, big=False, huge=False):
    nx, ny = (17, 16) if huge else rng.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)] + ([(4, 4), (5, 3)] if big else []))
    p, c = gen.lattice_mesh(rng, nx, ny)
    return gen.script(rng, p, c, edgefrac=rng.choice([0, .3, .7, 1]), check=0)


def udof(rng, i, maxn=4):
    lay = [rng.choice([-1, 0, 1, 1, 2, 3][:maxn + 2]) for _ in range(2)] + [rng.choice([-1, 0, 0, 1, 2, 4]) for _ in range(2)]
    return f'dof {i} u ' + ' '.join(map(str, lay)) + f' {rng.choice([0, 1, 1, 2])}'


def ddof(rng, i):
    s = f'dof {i} d'
    for k in range(3):
        n = rng.choice([1, 2, 3, 5, 7])
        s += f' {n} ' + ' '.join(str(rng.choice([0, 0, 1, 1, 2, 3])) for _ in range(n))
    return s


def num(rng, cplx=False):
    return f'{rng.randint(-4, 4)} {rng.randint(-3, 3) if cplx else 0}'


def vec(rng, n, cplx=False):
    return f'{n} ' + ' '.join(num(rng, cplx) for _ in range(n))


def nums(rng, n, cplx=False):
    return ' '.join(num(rng, cplx) for _ in range(n))


def from_hist(h, ident, tail=True):
    """Behaviour of TripletModel -> driver lines."""
    n = lambda v: f'{v[0]} {v[1]}'
    L = ['scalar c']
    k = 0
    for o in h:
        if o[0] == 'new': L.append(f'cnew {ident} {o[1]} {o[2]}')
        elif o[0] == 'add': L.append(f'cadd {ident} {o[1]} {o[2]} {n(o[3])}')
        elif o[0] == 'zero': L.append(f'czero {ident}')
        elif o[0] == 'zerop': L.append(f'czerop {ident} {o[1]} {o[2]} {o[3]}')
        elif o[0] == 'get': L.append(f'cget {ident}')
        elif o[0] == 'mul':
            L.append(f'cmul {ident} {n(o[1])} {len(o[2])} ' + ' '.join(map(n, o[2])))
        elif o[0] == 'fix':
            k += 1
            L.append(f'cfix {ident} {o[1]} {k % 2} {len(o[2])} ' + ' '.join(map(str, o[2])) + ' ' + ' '.join(map(n, o[3])) + ' ' + ' '.join(map(n, o[4])))
    return L + [f'cget {ident}']


def coo_ops(rng, ident, nops, cplx, dims, fix=0.0):
    """Random history on one matrix. Keeps track of the size only (to give vectors a legal length)."""
    r, c = dims
    L = [f'cnew {ident} {r} {c}']
    for _ in range(nops):
        u = rng.random()
        if u < .45:
            grow = rng.random() < .1
            i, j = rng.randrange(r + (3 if grow else 0)), rng.randrange(c + (3 if grow else 0))
            r, c = max(r, i + 1), max(c, j + 1)
            L.append(f'cadd {ident} {i} {j} {num(rng, cplx)}')
        elif u < .48: L.append(f'czero {ident}')
        elif u < .56:
            L.append(f'czerop {ident} {rng.choice(["row", "col", "or", "and", "lt", "all", "none"])} {rng.randrange(r)} {rng.randrange(c)}')
        elif u < .70: L.append(f'cmul {ident} {num(rng, cplx)} {vec(rng, c + rng.choice([0, 0, 2]), cplx)}')
        elif u < .84:
            L.append(f'cmul2 {ident} {num(rng, cplx)} {vec(rng, c + rng.choice([0, 0, 2]), cplx)} {vec(rng, r + rng.choice([0, 0, 2]), cplx)}')
        else: L.append(f'cget {ident}')
    return L + [f'cget {ident}'], (r, c)


def fixline(rng, ident, n, cplx, kind=None):
    p = rng.choice([0, .2, .5, 1])
    fl = ' '.join(str(int(rng.random() < p)) for _ in range(n))
    return (f'cfix {ident} {kind or rng.choice(["flag", "alt", "lse"])} {rng.randrange(2)} {n} {fl} '
            f'{nums(rng, n, cplx)} {nums(rng, n, cplx)}')
