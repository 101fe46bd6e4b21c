"""P18: quadrature rule cache."""
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('quad', ['quad'])
    ctx.mc('QuadCacheModel', 'QuadCacheModel.cfg')
    beh = ctx.behaviours('QuadCacheModel', 'QuadCacheGen.cfg', 300 if ctx.thorough else 20, 30)
    r = ctx.rng
    r.shuffle(beh)
    scen = [(f'beh{i}', [f'get {k} {d}' for k, d in h]) for i, h in enumerate(beh[:600 if ctx.thorough else 60])]
    for i in range(150 if ctx.thorough else 30):
        L = []
        m = r.choice([3, 10, 55])
        for _ in range(r.choice([10, 40, 80])):
            L.append(f'get {r.choice(["seg", "tria", "quad"])} {r.randint(0, m)}')
            if r.random() < .02:
                L.append('move')
        scen.append((f'h{i}', L))
    # few rules of small degree, then rules of (much) higher degree, then the small ones again
    for i in range(60 if ctx.thorough else 12):
        ref = r.choice(['seg', 'tria', 'quad'])
        top = [70, 140, 260, 40][i % 4] if ref == 'seg' else [70, 90, 130, 40][i % 4]
        low = [r.randint(0, 9) for _ in range(3)]
        L = [f'get {ref} {d}' for d in low + [r.randint(20, 60), top, r.randint(0, top)] + low]
        if ctx.thorough and i % 5 == 0:
            L += [f'get seg {600 + i}', 'get seg 1', f'get seg {low[0]}']
        scen.append((f'high{i}', L))
    scen.append(('up', [f'get {k} {d}' for k in ('seg', 'tria', 'quad') for d in range(55)] + ['get tria 3', 'get seg 3', 'get quad 0']))
    scen.append(('down', [f'get {k} {d}' for d in reversed(range(60)) for k in ('seg', 'tria', 'quad')]))
    ctx.validate('Quad_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p18'))
