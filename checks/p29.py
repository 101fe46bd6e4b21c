"""P29: text output of meshes (MATLAB, matplotlib, TikZ) describes the mesh."""
import json, os
import exportread, femgen, hiergen
LEVEL = 'model_checking'
NAMES = ['m', 'x', 'mesh', 'form', 'mesh.m', 'a.x', 'b.csv', 'csv', 'ab', 'xm', 'f.', 'data.m.txt', 'sub.d/mesh', 'sub.d/form.m',
         'sub.d/m', 'file_m', 'a.csv.m', 'abc', 'longer_name.csv', 'sub.d/q.csv']


def base(rng, big):
    L, _ = femgen.mesh(rng, rng.choice(['affine', 'jit', 'curved']), big=big)
    S = rng.choice([1, 4, 10, 100, 7])
    L[0] = f'M 2 0 {S}'
    return L, S


def scenarios(ctx, n):
    rng = ctx.rng
    out, S = [], {}
    for i in range(n):
        L, s = base(rng, True)
        for _ in range(3):
            L.append(f'{rng.choice(["ml", "mp"])} {rng.choice(NAMES)}')
        for _ in range(3):
            sel = 'all' if rng.random() < .4 else 'sel ' + ' '.join(f'{(q := rng.choice([1, 1, 2, 3]))} {rng.randrange(q)}' for _ in range(3))
            L.append(f'tz {rng.choice(NAMES + ["none/t.txt"])} {rng.randrange(128)} {sel}')
        out.append((f's{i}', L))
        S[f's{i}'] = s
    for i in range(n // 2):
        L = hiergen.base(rng, rng.choice([1, 2]), rng.choice([1, 1, 2]), 1, rng.choice([1, 1, 2]))
        s = rng.choice([1, 10, 3])
        L[0] = f'M 2 0 {s}'
        L.append('H')
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            L.append('R ' + rng.choice(['regular', 'barycentric', 'marked 3 1', 'marked 2 0', 'marked 5 4', 'marked 1 0']))
            if sum(x in ('R regular', 'R barycentric') for x in L) > 1:
                break
        lev = sum(x[:2] == 'R ' for x in L)
        L += [f'hl {rng.choice(["h", "mh", "sub.d/hier", "a.m"])}', f'h1 {rng.randint(0, lev)} {rng.choice(NAMES)}']
        out.append((f'h{i}', L))
        S[f'h{i}'] = s
    return out, S


def run(ctx):
    from vlib import build
    exe, _ = build('export', ['io', 'refinement', 'mesh_utils'], flags='-D_GLIBCXX_ASSERTIONS')
    d = os.path.join(ctx.work, 'export')
    os.makedirs(d, exist_ok=True)
    out = ctx.mc('ExportModel', 'ExportModel.cfg', workers=4, timeout=300)
    if ctx.thorough:
        ctx.mc('ExportModel', 'ExportModeldeep.cfg', workers=6, timeout=800)
    names = sorted({json.loads(json.loads(l)[3:])[0] for l in out.splitlines() if l.startswith('"BEH')})
    scen, S = scenarios(ctx, 200 if ctx.thorough else 40)
    M = ['M 2 0 1', 'P 0 0', 'P 1 0', 'P 0 1', 'P 1 1', 'T 0 1 2 0', 'T 1 3 2 0', 'B']
    for i in range(0, len(names), 20):
        scen.append((f'n{i}', M + [f'{op} {nm}' for nm in names[i:i + 20] for op in ('ml', 'mp')]))
        S[f'n{i}'] = 1
    groups = ctx.drive(exe, scen, 'p29', args=[d])
    for nm, ev in groups:
        for e in ev:
            if 'dir' in e:
                exportread.attach(e, e['e'], S[nm])
    ctx.validate('Export_Trace', 'Trace.cfg', groups)
