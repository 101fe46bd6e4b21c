"""P05: incidence counts, boundary flags, mesh data sets."""
import gen
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    rng = ctx.rng
    exe, _ = build('meshutils', ['mesh_utils'])
    scen = []
    for i in range(400 if ctx.thorough else 80):
        L = ['M 2 0']
        for rep in range(rng.choice([1, 2])):
            nx, ny = rng.choice([(1, 1), (2, 1), (3, 3), (4, 2), (5, 5)] if i else [(17, 17)])
            p, c = gen.lattice_mesh(rng, nx, ny, holes=rng.choice([0, .15, .4]), quadonly=rng.random() < .2, triaonly=rng.random() < .2)
            if rng.random() < .2:  # edges and nodes outside of any cell
                p = p + [(500, 500), (520, 500), (540, 560)]
                n = len(p)
                S = gen.script(rng, p, c, header=False)
                S.insert(len(S) - 1, f'E {n-3} {n-2} 1')
                if rng.random() < .5:
                    S.insert(len(S) - 1, f'E {n-1} {rng.randrange(n-3)} 1')
            else:
                S = gen.script(rng, p, c, header=False)
            L += S + ['counts']
            for _ in range(3):
                a, b, z = rng.randint(-3, 3), rng.randint(-3, 3), rng.choice(p)
                L.append(f'sel {a} {b} {a * z[0] + b * z[1] + rng.randint(-30, 30)}')
            for q in rng.sample(c, min(len(c), 4)):  # lines which pass close to the center of a cell
                a, b = rng.randint(-9, 9), rng.randint(-9, 9)
                t = sum(a * p[v][0] + b * p[v][1] for v in q)
                L.append(f'sel {a} {b} {t // len(q) + rng.randint(0, 1)}')
            ids = []
            for k in range(rng.randint(1, 5)):
                t = rng.choice(['newc', 'newa', 'newb'])
                cd = rng.randint(0, 2)
                v = rng.choice([0, 7, -3]) if t != 'newb' else rng.randint(0, 1)
                L.append(f'newa {k} {v}' if t == 'newa' else f'{t} {k} {cd} {v}')
                ids.append((k, t, cd))
            for _ in range(rng.randint(0, 15)):
                k, t, cd = rng.choice(ids)
                if rng.random() < .6:
                    kk = cd if t != 'newa' else rng.randint(0, 2)
                    L.append(f'set {k} {kk} {rng.randrange(50)} {rng.randrange(2) if t == "newb" else rng.randrange(100)}')
                else:
                    L.append(f'get {k}')
            L += [f'get {k}' for k, _, _ in ids]
        scen.append((f'r{i}', L))
    groups = ctx.drive(exe, scen, 'p05')
    ctx.validate('MeshUtils_Trace', 'Trace.cfg', groups)
