"""P37: Strang splitting for the Fisher/KPP equation (projects/fisher_kpp)."""
import gen
from math import isqrt
from p33 import poly
from p35 import tri_mesh
from p36 import mesh
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    ctx.mc('SplittingModel', 'SplittingModeldeep.cfg' if ctx.thorough else 'SplittingModel.cfg')
    exe, _ = build('fisher', ['uscalfe', 'fisher'], only={'fisher': ['strangsplitting.cc']})
    r = ctx.rng
    scen = []
    for i in range(1200 if ctx.thorough else 120):
        pts, cells, D, side = tri_mesh(r, i % 5 == 0, False)
        whole = all(isqrt(q) ** 2 == q for a, b, s in side if (a, b, not s) not in side
                    for q in [(pts[a][0] - pts[b][0]) ** 2 + (pts[a][1] - pts[b][1]) ** 2])
        L = gen.script(r, pts, cells, edgefrac=r.choice([0, .4, 1]), check=0)
        for _ in range(2):
            L.append(f'gal {D} {r.choice([0, 1, 2, 3])} {r.choice([0, 1, 2]) if whole else 0} {r.choice([-1, 0, 1, 2])}')
        ints = lambda lo, hi: (lambda n: f'{n} ' + ' '.join(str(r.randint(lo, hi)) for _ in range(n)))(r.randint(1, 5))
        for _ in range(6):
            z = r.random()
            q, k = (0, r.randint(1, 2)) if z < .3 else (r.randint(1, 8), 0) if z < .5 else (r.randint(1, 8), r.randint(1, 3))
            m = r.choice([1, 2, 3, 4, 5] if q else [1, 2, 3, 4])
            L.append(f'evo {m} {r.choice([1, 2, 4, 8])} {q} {k} {ints(1, 3)} {ints(0, 12)}')
        L.append(f'diff {r.randint(1, 6)} {r.choice([1, 4, 10])} {r.choice([1, 2, 5])} {ints(0, 9)}')
        pts, cells, _ = mesh(r, i % 5 == 0)
        L += gen.script(r, pts, cells, edgefrac=r.choice([0, .4, 1]), check=0)
        for _ in range(3):
            L.append(f'int {r.choice([0, 0, 1])} {r.choice([3, 4, 5])} {r.randint(0, 2)} {poly(r, r.choice([0, 1, 2, 2]))}')
        scen.append((f's{i}', L))
    ctx.validate('FisherKPP_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p37'))
