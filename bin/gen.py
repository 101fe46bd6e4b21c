"""Random generators of hybrid meshes (inputs only, no oracle)."""

def lattice_mesh(rng, nx, ny, step=24, holes=0.1, ptria=0.5, jitter=0.3, flip=True, perm=True, quadonly=False, triaonly=False):
    """Returns (points, cells): integer coordinates, cells as vertex tuples."""
    pts = {}
    for i in range(nx + 1):
        for j in range(ny + 1):
            q = max(1, step // 12)
            jx = rng.randint(-2, 2) * q if rng.random() < jitter else 0
            jy = rng.randint(-2, 2) * q if rng.random() < jitter else 0
            pts[(i, j)] = (i * step + jx, j * step + jy)
    cells = []
    for i in range(nx):
        for j in range(ny):
            if rng.random() < holes:
                continue
            a, b, c, d = (i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)
            u = rng.random()
            if triaonly or (not quadonly and u < ptria):
                if rng.random() < .5:
                    cells += [(a, b, c), (a, c, d)]
                else:
                    cells += [(a, b, d), (b, c, d)]
            else:
                cells.append((a, b, c, d))
    if not cells:
        cells = [((0, 0), (1, 0), (1, 1), (0, 1))]
    used = sorted({p for c in cells for p in c})
    if perm:
        rng.shuffle(used)
        rng.shuffle(cells)
    ix = {p: k for k, p in enumerate(used)}
    out = []
    for c in cells:
        v = [ix[p] for p in c]
        if perm:
            k = rng.randrange(len(v))
            v = v[k:] + v[:k]
            if flip and rng.random() < .4:
                v = v[::-1]
        out.append(tuple(v))
    return [pts[p] for p in used], out


def sides(c):
    return [(c[i], c[(i + 1) % len(c)]) for i in range(len(c))]


def all_edges(cells):
    s = {}
    for c in cells:
        for a, b in sides(c):
            s.setdefault(frozenset((a, b)), (a, b))
    return list(s.values())


def script(rng, pts, cells, edgefrac=0.3, geo=None, check=1, dim=2, interleave=True, header=True):
    """Lines for the drivers. geo: None -> random choice of 0/1 for cells."""
    lines = [f'M {dim} {check}'] if header else []
    for p in pts:
        lines.append(('P ' if rng.random() < .8 else 'PG ') + ' '.join(map(str, p)))
    ent = []
    for a, b in all_edges(cells):
        if rng.random() < edgefrac:
            if rng.random() < .5:
                a, b = b, a
            ent.append(f'E {a} {b} 1')
    for c in cells:
        g = rng.choice([0, 1]) if geo is None else geo
        ent.append(('T ' if len(c) == 3 else 'Q ') + ' '.join(map(str, c)) + f' {g}')
    if interleave:
        # keep relative order of cells and of edges, interleave randomly
        e = [x for x in ent if x[0] == 'E']
        c = [x for x in ent if x[0] != 'E']
        rng.shuffle(e)
        m = []
        while e or c:
            src = e if (e and (not c or rng.random() < len(e) / (len(e) + len(c)))) else c
            m.append(src.pop(0))
        ent = m
    return lines + ent + ['B']
