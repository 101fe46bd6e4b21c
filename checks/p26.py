"""P26: Gmsh files are read into exactly the mesh they describe."""
import json, os
import gmshgen as G
LEVEL = 'model_checking'
S = 4


def put(ctx, name, data):
    d = os.path.join(ctx.work, 'msh')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + '.msh')
    open(p, 'wb').write(data)
    return p


def scenarios(ctx, n, q=False):
    rng = ctx.rng
    out = []
    for i in range(n):
        dim = 3 if i % 4 == 3 else 2
        nodes, P, E, C, chk = G.describe(rng, dim)
        nm = G.names(rng)
        L = []
        for v in (2, 4):
            F = G.v2(rng, nodes, P, E, C, nm, rng.random() < .6) if v == 2 else G.v4(rng, nodes, P, E, C, nm)
            modes = ['text', 'le', 'be'] if not q else [rng.choice(['text', 'le', 'be'])]
            js = json.dumps(F)
            for m in modes:
                p = put(ctx, f's{i}_{v}{m}', G.render(rng, F, S, m, rng.random() < .4))
                L += ['file ' + js, f'read {p} {dim} {chk}']
                if q:
                    L += G.queries(rng, nm)
        out.append((f's{i}', L))
    return out


def replay_model(ctx, num, q=False):
    """files written by the specification"""
    ctx.mc('GmshModel', 'GmshModeldeep.cfg' if ctx.thorough else 'GmshModel.cfg', workers=6, timeout=800)
    out = []
    for i, b in enumerate(ctx.behaviours('GmshModel', 'GmshGen.cfg', num, 12)):
        L = []
        for v in ('f2', 'f4'):
            js = json.dumps(b[v])
            for m in ('text', 'le', 'be'):
                p = put(ctx, f'm{i}_{v}{m}', G.render(ctx.rng, b[v], S, m, False))
                L += ['file ' + js, f'read {p} 2 {b["chk"]}']
                if q:
                    L.append('is 1 2 3 4')
        out.append((f'm{i}', L))
    return out


def run(ctx):
    from vlib import build
    exe, _ = build('gmsh', ['io'], flags='-D_GLIBCXX_ASSERTIONS')
    n = 240 if ctx.thorough else 50
    groups = ctx.drive(exe, scenarios(ctx, n) + replay_model(ctx, 400 if ctx.thorough else 60), 'p26')
    groups = [(nm, [e for e in ev if e['e'] != 'phys']) for nm, ev in groups]
    ctx.validate('Gmsh_Trace', 'Trace.cfg', groups)
