"""P24: arithmetic of mesh functions."""
import subprocess
import femgen as fg
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('mfarith', ['mesh_hybrid2d', 'mesh_utils'], parts=6)
    ctx.mc('MeshFunctionsModel', 'MeshFunctionsModeldeep.cfg' if ctx.thorough else 'MeshFunctionsModel.cfg', workers=4)
    n = int(subprocess.run([exe, 'count'], capture_output=True, text=True).stdout)
    r = ctx.rng
    todo = [k for _ in range(60 if ctx.thorough else 5) for k in range(n)]
    r.shuffle(todo)
    scen = []
    i = 0
    while todo:
        L, _ = fg.mesh(r, r.choice(['affine', 'jit']), big=i % 4 == 0)
        for _ in range(60):
            if not todo:
                break
            np = r.choice([1, 1, 2, 3, 4, 5, 7])
            pts = ' '.join(f'{r.randint(0, 4)} {r.randint(0, 4)}' for _ in range(np))
            par = ' '.join(' '.join(str(r.randint(0, 6)) for _ in range(5)) + f' {r.randint(1, 3)} {r.randint(1, 3)}' for _ in range(3))
            L.append(f'ev {todo.pop()} {r.choice([0, 0, 1, 1, 2])} {r.randrange(30)} {np} {pts} {par}')
        scen.append((f'm{i}', L))
        i += 1
    ctx.validate('MeshFunctions_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p24'))
