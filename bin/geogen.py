"""Random geometry objects (inputs only)."""
TYPES = ['point', 'seg1', 'seg2', 'tria1', 'tria2', 'quad1', 'quad2', 'para', 'para3']
NV = dict(point=1, seg1=2, seg2=2, tria1=3, tria2=3, quad1=4, quad2=4, para=4, para3=4)
DEN = dict(point=1, seg1=12, seg2=144, tria1=12, tria2=144, quad1=144, quad2=1728, para=144, para3=144)


def cross(o, p, q):
    return (p[0] - o[0]) * (q[1] - o[1]) - (p[1] - o[1]) * (q[0] - o[0])


def obj(rng, ty, dim, m=2):
    """Nodes: corners multiples of 4, |x| <= 4m; returns list of nodes."""
    nv = NV[ty]
    r = lambda: 4 * rng.randint(-m, m)
    while True:
        if nv == 1:
            pl = [(r(), r())]
            break
        if nv == 2:
            pl = [(r(), r()), (r(), r())]
            if pl[0][0] != pl[1][0]:
                break
        elif nv == 3:
            pl = [(r(), r()) for _ in range(3)]
            if cross(*pl) != 0:
                break
        else:
            pl = [(r(), r()) for _ in range(4)]
            if ty.startswith('para'):
                pl[3] = (pl[0][0] + pl[2][0] - pl[1][0], pl[0][1] + pl[2][1] - pl[1][1])
            t = [cross(pl[i], pl[(i + 1) % 4], pl[(i + 2) % 4]) for i in range(4)]
            if all(x > 0 for x in t) or all(x < 0 for x in t):
                break
    if dim == 1:
        n = [(p[0],) for p in pl]
    elif dim == 2:
        n = [tuple(p) for p in pl]
    else:
        A, B = rng.randint(-1, 1), rng.randint(-1, 1)
        o = list(range(3))
        rng.shuffle(o)
        n = []
        for p in pl:
            z = A * p[0] + B * p[1]
            if ty in ('quad1', 'quad2') and rng.random() < .5:
                z += 4 * rng.randint(-1, 1)
            q = (p[0], p[1], z)
            n.append(tuple(q[i] for i in o))
    if ty.endswith('2'):
        k = 1 if nv == 2 else nv
        for i in range(k):
            a, b = n[i], n[(i + 1) % nv]
            n.append(tuple((x + y) // 2 + (rng.choice([-2, 0, 0, 2]) if rng.random() < .6 else 0) for x, y in zip(a, b)))
    return n


def line(rng, ty, dim, m=2):
    return f'obj {ty} {dim} {DEN[ty]} ' + ' '.join(str(x) for p in obj(rng, ty, dim, m) for x in p)


def dims(ty):
    return {1: [1, 2, 3], 2: [1, 2, 3], 3: [2, 3], 4: [2, 3]}[NV[ty]]


def points(rng, ty, n, lattice):
    """lattice: multiples allowed (of 1/12)"""
    r = []
    for _ in range(n):
        while True:
            a, b = rng.randrange(0, 13, lattice), rng.randrange(0, 13, lattice)
            if NV[ty] == 3 and a + b > 12:
                continue
            if NV[ty] == 2:
                b = 0
            if NV[ty] == 1:
                a = b = 0
            break
        r += [a, b]
    return ' '.join(map(str, r))
