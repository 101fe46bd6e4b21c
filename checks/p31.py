"""P31: product spaces."""
import asmgen
LEVEL = 'model_checking'


def comps(r, n):
    return [(k, r.randint(1, 3) if k in 'ht' else r.randint(0, 3)) for k in (r.choice('hlft') for _ in range(n))]


def lay(r):
    return ' '.join(str(r.choice(v)) for v in ([-1, 0, 1, 1, 2], [-1, 0, 1, 2, 3], [-1, 0, 1, 3], [-1, 0, 1, 2]))


def prov(r, ntr, nte):
    n = r.choice([1, 2, 3])
    act = ' '.join(str(int(r.random() < .8)) for _ in range(n))
    return (f'{r.randrange(ntr)} ' if ntr else '') + f'{r.randrange(nte)} {r.randint(0, 10)} {n} {act}'


def scenario(r, i):
    L = asmgen.mesh(r, big=i % 10 == 9)
    small = i % 10 != 9
    L.append('scalar ' + 'rc'[i % 2])
    for q in range(3):
        n = r.choice([1, 2, 3, 4])
        L.append(f'pdof {q} {n} ' + ' '.join(lay(r) for _ in range(n)))
    cs = []
    for q in range(3):
        c = comps(r, r.choice([1, 2, 2, 3, 4] if small else [2]))
        if not small:
            c = [(k, min(p, 1)) for k, p in c]
        cs.append(c)
        L.append(f'space {q} {len(c)} ' + ' '.join(f'{k} {p}' for k, p in c))
        for j, (k, p) in enumerate(c):
            L.append(f'cspace {q} {j}')
        for _ in range(2):
            k = r.choice('hlft')
            L.append(f"uspace {k} {r.randint(1, 3) if small else 1} {r.choice([1, 2, 3, 4, 5, 6, 7, 7, 0])}")
        L.append(f'badcomp {q} {r.choice([0, 1, 100])}')
    if small:
        for _ in range(4):
            tr, te, k = r.randrange(3), r.randrange(3), r.choice([0, 0, 1])
            n = r.choice([0, 1, 2, 3, 5])
            L.append(f'pmat {k} {tr} {te} {n} ' + ' '.join(prov(r, len(cs[tr]), len(cs[te])) for _ in range(n)))
            n = r.choice([0, 1, 2, 4])
            L.append(f'pvec {k} {te} {n} ' + ' '.join(prov(r, 0, len(cs[te])) for _ in range(n)))
    return (f's{i}', L)


def run(ctx):
    from vlib import build
    exe, _ = build('product', ['dpg', 'mesh_hybrid2d'])
    ctx.mc('ProductModel', 'ProductModeldeep.cfg' if ctx.thorough else 'ProductModel.cfg', workers='6')
    r = ctx.rng
    ctx.validate('Product_Trace', 'Trace.cfg', ctx.drive(exe, [scenario(r, i) for i in range(250 if ctx.thorough else 40)], 'p31'))
