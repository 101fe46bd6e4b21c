"""P03: ill-formed meshes are refused, well-formed ones accepted."""
import gen
LEVEL = 'model_checking'


def to_lines(h, check):
    L = [f'M 2 {check}']
    for c in h:
        if c['op'] == 'P':
            L.append('P %d %d' % tuple(c['n']))
        elif c['op'] == 'B':
            L.append('B')
        else:
            L.append(f"X {c['op']} " + ' '.join(map(str, c['n'])))
    return L


def mutate(rng, pts, cells, check):
    """one defect (or none) in a random mesh"""
    k = rng.choice(['none', 'dup', 'dup', 'loop', 'range', 'cellrange', 'isolated', 'loose', 'diagonal', 'arity', 'cellloop'])
    E = []
    for a, b in gen.all_edges(cells):
        if rng.random() < .4:
            E.append([a, b] if rng.random() < .5 else [b, a])
    C = [list(c) for c in cells]
    P = list(pts)
    ty = {2: 'E', 3: 'T', 4: 'Q'}
    calls = [('E', e) for e in E] + [(ty[len(c)], c) for c in C]
    rng.shuffle(calls)
    n = len(P)
    ins = rng.randrange(len(calls) + 1)
    if k == 'dup':
        e = rng.choice(E) if E else list(gen.all_edges(cells)[0])
        if not E:
            calls.insert(ins, ('E', e))
        calls.insert(rng.randrange(len(calls) + 1), ('E', e if rng.random() < .5 else e[::-1]))
    elif k == 'loop':
        v = rng.randrange(n)
        calls.insert(ins, ('E', [v, v]))
    elif k == 'range':
        calls.insert(ins, ('E', rng.sample([rng.randrange(n), n + rng.randrange(3)], 2)))
    elif k == 'cellrange':
        c = list(rng.choice(cells))
        c[rng.randrange(len(c))] = n + rng.randrange(2)
        calls.insert(ins, (ty[len(c)], c))
    elif k == 'isolated':
        P.append((997, 991))
    elif k == 'loose':
        P += [(997, 991), (993, 951)]
        calls.insert(ins, ('E', [n, n + 1]))
    elif k == 'diagonal':  # joins nodes of the mesh, but no side of a cell need join them
        calls.insert(ins, ('E', rng.sample(range(n), 2)))
    elif k == 'arity':
        c = list(rng.choice(cells))
        t = ty[len(c)]
        c = c[:-1] if rng.random() < .5 else c + [c[0]]
        calls.insert(ins, (t, c))
    elif k == 'cellloop':
        c = list(rng.choice(cells))
        j = rng.randrange(len(c))
        c[(j + 1) % len(c)] = c[j]
        calls.insert(ins, (ty[len(c)], c))
    q = list(range(len(P)))  # the nodes in any order
    rng.shuffle(q)
    P = [P[q.index(i)] for i in range(len(P))]
    calls = [(t, [q[v] if v < len(q) else v for v in w]) for t, w in calls]
    return [f'M 2 {check}'] + ['P %d %d' % p for p in P] + ['X %s ' % t + ' '.join(map(str, v)) for t, v in calls] + ['B']


def run(ctx):
    from vlib import build
    exe, _ = build('mesh', ['mesh_hybrid2d'])
    ctx.mc('MeshFactory_Gen', 'MeshFactory_MC.cfg')
    beh = ctx.behaviours('MeshFactory_Gen', 'MeshFactory_GenF.cfg', 3000 if ctx.thorough else 400, 40)
    scen = [(f'beh{i}', to_lines(h, 1)) for i, h in enumerate(beh)]
    n = 1500 if ctx.thorough else 200
    for i in range(n):
        nx, ny = ctx.rng.choice([(1, 1), (2, 1), (2, 2), (3, 2)])
        p, c = gen.lattice_mesh(ctx.rng, nx, ny)
        scen.append((f'mut{i}', mutate(ctx.rng, p, c, ctx.rng.choice([0, 1, 1]))))
    groups = ctx.drive(exe, scen, 'p03', args=['try'])
    nab = sum(1 for _, e in groups if e and e[-1].get('e') == 'abort')
    ctx.notes['refused'] = nab
    ctx.notes['built'] = len(groups) - nab
    ctx.validate('MeshFactory_Trace', 'Trace.cfg', groups)
