"""P21: hierarchic reference elements."""
import itertools
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('reffe', ['uscalfe'])
    r = ctx.rng
    L = [f'hier r seg {p}' for p in range(1, 31 if ctx.thorough else 25)]
    top = 10 if ctx.thorough else 7
    # equal degrees, all orientations
    for p in range(1, top):
        ors = list(itertools.product((1, -1), repeat=3))
        for o in ors:
            L.append(f'hier r tria {p} {p} {p} {p} ' + ' '.join(map(str, o)))
        oq = list(itertools.product((1, -1), repeat=4))
        for o in oq if p <= 4 else r.sample(oq, 3):
            L.append(f'hier r quad {p} {p} {p} {p} {p} ' + ' '.join(map(str, o)))
    # samples of high degrees
    for p in (8, 9, 10, 11, 12, 13, 14, 16) if not ctx.thorough else range(10, 21):
        L.append(f'hier r tria {p} {p} {p} {p} ' + ' '.join(str(r.choice((1, -1))) for _ in range(3)))
        if p <= 12:
            L.append(f'hier r quad {p} {p} {p} {p} {p} ' + ' '.join(str(r.choice((1, -1))) for _ in range(4)))
    # different degrees: all small ones for the triangle, samples otherwise
    for d in itertools.product((1, 2, 3), repeat=4) if not ctx.thorough else itertools.product((1, 2, 3, 4), repeat=4):
        o = [r.choice((1, -1)) for _ in range(3)]
        L.append('hier r tria ' + ' '.join(map(str, d)) + ' ' + ' '.join(map(str, o)))
    for k in range(1500 if ctx.thorough else 60):
        n = 3 + k % 2
        m = 7 if k % 4 else 9
        d = [r.randint(1, m) for _ in range(n + 1)]
        if n == 4 and not ctx.thorough:
            d = [min(x, 6) for x in d]
        o = [r.choice((1, -1)) for _ in range(n)]
        L.append(f'hier r {"tria" if n == 3 else "quad"} ' + ' '.join(map(str, d)) + ' ' + ' '.join(map(str, o)))
    scen = [(f'h{i}', [x]) for i, x in enumerate(L)]
    ctx.validate('RefFE_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p21'))
