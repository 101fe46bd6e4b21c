"""P15: assembly."""
import asmgen
LEVEL = 'model_checking'


def act(r):
    n = r.choice([1, 2, 3, 5])
    a = [int(r.random() < .7) for _ in range(n)]
    return f'{n} ' + ' '.join(map(str, a))


def run(ctx):
    from vlib import build
    exe, _ = build('assemble', ['assemble', 'mesh_hybrid2d'])
    ctx.mc('DofModel', 'DofModel1.cfg', workers='6')
    r = ctx.rng
    scen = []
    for i in range(300 if ctx.thorough else 60):
        L = asmgen.mesh(r, huge=i == 1)
        L += [asmgen.udof(r, 0, 3), asmgen.udof(r, 1, 3), asmgen.ddof(r, 2), 'dof 3 u 1 0 0 0 1', 'dof 4 u 1 1 0 1 1']
        pairs = [(3, 3), (4, 3), (r.choice([0, 1, 2]), 4), (3, r.choice([0, 2])), (4, 4)]
        for q in range(r.choice([2, 3])):
            tr, te = pairs[(i + q) % 5]
            k = r.choice([0, 0, 1, 2])
            ex = r.choice([0, 0, 1, 2])
            if tr == te and r.random() < .5:
                L.append(f'mat {q} new1 {k} {tr} {te} {r.randrange(11)} {ex} {act(r)}')
            else:
                L.append(f'mat {q} new {k} {tr} {te} {r.randrange(11)} {ex} {act(r)}')
            for _ in range(r.randrange(3)):
                L.append(f'mat {q} add {r.choice([0, 1, 2])} {tr} {te} {r.randrange(11)} {r.choice([0, 1])} {act(r)}')
        for q in range(3):
            te = r.choice([0, 1, 2, 3, 4])
            L.append(f'vec {q} new {r.choice([0, 0, 1, 2])} {te} {r.randrange(11)} {r.choice([0, 1])} {act(r)}')
            for _ in range(r.randrange(3)):
                L.append(f'vec {q} add {r.choice([0, 1, 2])} {te} {r.randrange(11)} {r.choice([0, 1])} {act(r)}')
        scen.append((f'm{i}', L))
    ctx.validate('Assemble_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p15'))
