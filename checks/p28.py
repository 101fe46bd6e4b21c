"""P28: vtk files describe the mesh and the data which were handed to the writer."""
import json, os, shutil
import femgen, gen, vtkread
LEVEL = 'model_checking'
MDS = ['char', 'uchar', 'int', 'uint', 'float', 'double', 'v2f', 'v2d', 'v3f', 'v3d', 'vXf', 'vXd']
RAW = MDS[:6] + ['short', 'ushort', 'long', 'ulong', 'v3f', 'v3d']
LIM = {'char': (-128, 127), 'uchar': (0, 255), 'short': (-2**15, 2**15 - 1), 'ushort': (0, 2**16 - 1),
       'int': (-2**31, 2**31 - 1), 'uint': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1), 'ulong': (0, 2**64 - 1)}


def numbers(rng, t, n):
    """(scale, values)"""
    if t in LIM:
        lo, hi = LIM[t]
        return 1, [rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(max(lo, -9), 9), 0]) for _ in range(n)]
    if t in ('float', 'v2f', 'v3f', 'vXf'):
        sc, m = rng.choice([(1, 10**6), (1000, 10**6), (7, 10**5), (10**9, 10**6), (10**15, 1000), (4096, 2**20)])
    else:
        sc, m = rng.choice([(1, 10**9), (10**6, 10**12), (7, 10**12), (10**12, 10**13), (10**15, 10**3), (3, 10**6)])
    return sc, [rng.choice([0, m, -m, rng.randint(-m, m), rng.randint(-m, m), rng.randint(-9, 9)]) for _ in range(n)]


def name(rng):
    return rng.choice('abcdefg') + rng.choice(['', '', '_1', '%20x', 'X.y', '-z'])


def mds(rng, kind, n):
    t = rng.choice(MDS)
    rows = {'v2': 2, 'v3': 3, 'vX': rng.choice([2, 3, 3, 4, 6])}.get(t[:2], 1)
    ur = rows if t[:2] != 'vX' else rng.choice([2, 3, 5])
    sc, v = numbers(rng, t, n * rows + ur)
    mask = [int(rng.random() < rng.choice([1, .7, .2])) for _ in range(n)]
    return (f'md {kind} {t} {name(rng)} {sc} {rows} {ur} ' + ' '.join(map(str, v[n * rows:])) + f' {n} '
            + ' '.join(map(str, mask)) + ' ' + ' '.join(map(str, v[:n * rows])))


def mf(rng, kind, curved):
    t = rng.choice(MDS)
    rows = {'v2': 2, 'v3': 3, 'vX': rng.choice([2, 3])}.get(t[:2], 1)
    k = [rng.randint(-50, 50)] + [rng.randint(-3, 3) for _ in range(3)]
    return f'mf {kind} {t} {name(rng)} {rows} ' + ' '.join(map(str, k))


def surface(rng, L):
    """lifts a planar script to a surface in space: z affine in x and y for straight cells"""
    a, b, c = rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(-3, 3)
    out = []
    for l in L:
        w = l.split()
        if w[0] == 'P':
            x, y = int(w[1]), int(w[2])
            l = f'P {x} {y} {a * x + b * y + c}'
        elif w[0] in 'ETQ':
            nv = {'E': 2, 'T': 3, 'Q': 4}[w[0]]
            g = w[nv + 1]
            if g == '2':
                m = list(map(int, w[nv + 2:]))
                mm = []
                for i in range(0, len(m), 2):
                    mm += [m[i], m[i + 1], a * m[i] + b * m[i + 1] + c]
                l = ' '.join(w[:nv + 2] + [str(x) for x in mm])
        out.append(l)
    return out


def mesh(rng, big=False):
    kind = rng.choice(['affine', 'jit', 'curved'])
    L, _ = femgen.mesh(rng, kind, big=big)
    nn = sum(l[0] == 'P' for l in L)
    cells = [tuple(map(int, l.split()[1:(4 if l[0] == 'T' else 5)])) for l in L if l[0] in 'TQ']
    ne = len(gen.all_edges(cells))
    dim = 3 if rng.random() < .3 else 2
    if dim == 3:
        L = surface(rng, L)
    S = rng.choice([1, 7, 10, 4096, 1000, 10**6])
    L[0] = f'M {dim} 0 {S}'
    return L, nn, ne, len(cells), kind == 'curved'


def scenarios(ctx, n):
    rng = ctx.rng
    out = []
    for i in range(n):
        L, nn, ne, nc, curved = mesh(rng, ctx.thorough)
        for k in range(3):
            codim = int(rng.random() < .3)
            order = [1, 2, 3, 1 + (3 * i + k) % 10][rng.choice([0, 1, 2, 3, 3, 3])]
            L.append(f'open {codim} {order}')
            ops = []
            for _ in range(rng.choice([0, 1, 3, 5])):
                u = rng.random()
                if u < .35:
                    kind = rng.choice('pc') if order == 1 else 'c'
                    ops.append(mds(rng, kind, nn if kind == 'p' else (nc, ne)[codim]))
                elif u < .75:
                    ops.append(mf(rng, rng.choice('pc'), curved))
                elif u < .9:
                    t = rng.choice(['int', 'float', 'double'])
                    sc, v = numbers(rng, t, rng.choice([0, 1, 2, 5]))
                    ops.append(f'gd {t} {name(rng)} {sc} ' + ' '.join(map(str, v)))
                else:
                    ops.append(f'bin {int(rng.random() < .7)}')
            if rng.random() < .4:
                ops.insert(rng.randint(0, len(ops)), 'bin 1')
            L += ops + ['close']
        out.append((f's{i}', L))
    return out


def raws(ctx, n):
    rng = ctx.rng
    out = []
    for i in range(n):
        L = []
        for _ in range(4):
            h = rng.choice(['x', 'title%20of%20the%20file', 'a%0ab', 'h' * rng.choice([255, 256, 257]), '%20', '"q"'])
            if '"' in h:
                h = 'q'
            L.append(f'raw {rng.choice(["ascii", "binary"])} {h}')
            np_ = rng.choice([0, 1, 3, 6])
            sc, v = numbers(rng, 'float', 3 * np_)
            L.append(f'rp {sc} ' + ' '.join(map(str, v)))
            nc = rng.choice([0, 1, 2, 4])
            cells = [[rng.randrange(max(np_, 1)) for _ in range(rng.choice([1, 2, 3, 4, 9]))] for _ in range(nc)]
            nt = nc if rng.random() < .85 else rng.choice([0, nc + 1])
            L.append(f'rc {nc} ' + ' '.join(f'{len(c)} ' + ' '.join(map(str, c)) for c in cells) + ' '
                     + ' '.join(str(rng.choice([1, 3, 5, 9, 21, 22, 68, 69, 70, 74])) for _ in range(nt)))
            for k in range(rng.choice([0, 1, 2, 4])):
                t = rng.choice(['int', 'float', 'double'])
                s, v = numbers(rng, t, rng.choice([0, 1, 3]))
                L.append(f'rf {t} g{k} {s} ' + ' '.join(map(str, v)))
            for k in range(rng.choice([0, 1, 2, 5])):
                t, kind = rng.choice(RAW), rng.choice('pc')
                n_ = np_ if kind == 'p' else nc
                if rng.random() < .06:
                    n_ += rng.choice([-1, 1]) if n_ else 1
                s, v = numbers(rng, t, n_ * (3 if t[0] == 'v' else 1))
                L.append(f'rd {kind} {t} d{k} {rng.choice(["default", "table"])} {s} ' + ' '.join(map(str, v)))
            L.append('rw')
        out.append((f'r{i}', L))
    return out


def replay_model(ctx, num):
    """sequences of operations generated from the specification, for the mesh of the model"""
    M = ['M 2 0 7', 'P 0 0', 'P 12 2', 'P 10 14', 'P 24 0', 'P 26 12', 'E 0 1 1', 'E 1 2 1', 'E 0 2 1', 'E 1 3 1', 'E 3 4 1',
         'E 2 4 1', 'T 0 1 2 0', 'Q 1 3 4 2 0', 'B']
    seen, out = set(), []
    for b in ctx.behaviours('VtkModel', 'VtkGen.cfg', num, 17):
        if tuple(b[:-2]) not in seen:  # the last operation has several variants
            seen.add(tuple(b[:-2]))
            out.append((f'm{len(out)}', M + b))
    return out


def attach(groups):
    """adds the contents of the files to the events"""
    for _, ev in groups:
        sc, cur = {}, 1
        for e in ev:
            if e['e'] == 'open':
                sc, cur = {'g': {}, 'p': {}, 'c': {}}, int(e['sc'])
            elif e['e'] == 'gd' and e['ok']:
                sc['g'][e['name']] = int(e['sc'])
            elif e['e'] in ('md', 'mf') and e['ok']:
                sc[e['kind']][e['name']] = int(e['sc']) if e['type'] not in LIM else 1
            elif e['e'] == 'close':
                e['file'] = vtkread.read(e['path'], cur, sc['g'], sc['p'], sc['c'])
                os.unlink(e['path']) if os.path.exists(e['path']) else None
            elif e['e'] == 'raw':
                s = [{d['name']: int(d['sc']) for d in e[k]} for k in ('fd', 'pd', 'cd')]
                e['file'] = vtkread.read(e['path'], int(e['sc']), *s) if e['ok'] else dict(ok=False)
                os.unlink(e['path']) if os.path.exists(e['path']) else None
    return groups


def run(ctx):
    from vlib import build
    exe, _ = build('vtk', ['io', 'mesh_utils'], flags='-D_GLIBCXX_ASSERTIONS')
    d = os.path.join(ctx.work, 'vtk')
    os.makedirs(d, exist_ok=True)
    ctx.mc('VtkModel', 'VtkModeldeep.cfg' if ctx.thorough else 'VtkModel.cfg', workers=6, timeout=850)
    n = 300 if ctx.thorough else 60
    groups = attach(ctx.drive(exe, scenarios(ctx, n) + raws(ctx, 100 if ctx.thorough else 20)
                              + replay_model(ctx, 150 if ctx.thorough else 25), 'p28', args=[d]))
    ctx.validate('Vtk_Trace', 'Trace.cfg', groups)
