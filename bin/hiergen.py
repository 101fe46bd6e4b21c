"""Generators of mesh hierarchies: lines for the driver refine.cc."""
import gen


def base(rng, nx, ny, unit, order, curved=0.5, dangling=True, **kw):
    """Lines M..B H for a random hybrid mesh, all shapes of the given order."""
    p, c = gen.lattice_mesh(rng, nx, ny, step=12, **kw)
    if dangling and rng.random() < .15 and order == 1:      # dangling edge
        p = p + [(-30, -30), (-20, -26)]
    L = [f'M 2 0 {unit} {order} {rng.choice([0, 0, 0, -9, -20, -40, 10, 30])}']
    L += [('P ' if rng.random() < .8 else 'PG ') + f'{x * unit} {y * unit}' for x, y in p]
    if order == 1:
        for a, b in gen.all_edges(c):
            if rng.random() < .3:
                a, b = (a, b) if rng.random() < .5 else (b, a)
                L.append(f'E {a} {b} 1')
        if len(p) > 2 and p[-1] == (-20, -26):
            L.append(f'E {len(p)-2} {len(p)-1} 1')
        L += [('T ' if len(q) == 3 else 'Q ') + ' '.join(map(str, q)) + f' {rng.choice([0, 1])}' for q in c]
    else:
        mid = {}
        for a, b in gen.all_edges(c):
            mx, my = (p[a][0] + p[b][0]) * unit // 2, (p[a][1] + p[b][1]) * unit // 2
            if rng.random() < curved:
                mx += rng.randint(-1, 1) * unit
                my += rng.randint(-1, 1) * unit
            mid[frozenset((a, b))] = (mx, my)
        for a, b in gen.all_edges(c):
            if rng.random() < .3:
                a, b = (a, b) if rng.random() < .5 else (b, a)
                m = mid[frozenset((a, b))]
                L.append(f'E {a} {b} 2 {m[0]} {m[1]}')
        for q in c:
            ms = [mid[frozenset(s)] for s in gen.sides(q)]
            L.append(('T ' if len(q) == 3 else 'Q ') + ' '.join(map(str, q)) + ' 2 ' + ' '.join(f'{x} {y}' for x, y in ms))
    return L + ['B']
