"""P09: refinement patterns of the reference elements (complete enumeration)."""
LEVEL = 'model_checking'
NOTE = ('Complete: every element type, pattern and anchor is enumerated, each listing is checked by TLC to be a tiling of the reference element, and the '
        'specification table itself is model checked (RefPat_MC).')
PATS = {1: ['nil', 'copy'], 2: ['nil', 'copy', 'split'],
        3: ['nil', 'copy', 'bisect', 'trisect', 'trisect_left', 'quadsect', 'regular', 'barycentric'],
        4: ['nil', 'copy', 'split', 'bisect', 'trisect', 'quadsect', 'threeedge', 'regular', 'barycentric']}


def run(ctx):
    from vlib import build
    exe, _ = build('refpat', ['refinement'])
    ctx.mc('RefPat_MC', 'RefPat_MC.cfg')
    full, one = [], []
    for nv, ps in PATS.items():
        for p in ps:
            free = p in ('nil', 'copy', 'regular', 'barycentric') or (nv == 2)
            for a in ([-1] if free else []) + (list(range(nv)) if nv > 2 else []):
                one.append((nv, p, a))
                full.append(f'pat {nv} {p} {a}')
    scen = [('complete', full + ['all'])]
    # objects re-used for one pattern after another
    for i in range(60 if ctx.thorough else 10):
        seq = [ctx.rng.choice(one) for _ in range(30)]
        scen.append((f'reuse{i}', [f'{ctx.rng.choice(["set","set","pat"])} {nv} {p} {a}' for nv, p, a in seq]))
    # lattice polygons that are and are not parallelograms
    for i in range(20 if ctx.thorough else 4):
        ls = []
        for _ in range(80):
            n = ctx.rng.choice([3, 4, 4, 4, 4, 5])
            P = [(ctx.rng.randrange(5), ctx.rng.randrange(5)) for _ in range(n)]
            if n >= 4 and ctx.rng.random() < .6:
                P[3] = (P[0][0] + P[2][0] - P[1][0], P[0][1] + P[2][1] - P[1][1])
                if ctx.rng.random() < .4:
                    k = ctx.rng.randrange(4)
                    P[k] = (P[k][0] + ctx.rng.choice([-1, 0, 1]), P[k][1] + ctx.rng.choice([-1, 1]))
            ls.append(f'para {n} ' + ' '.join(f'{x} {y}' for x, y in P))
        scen.append((f'para{i}', ls))
    ctx.validate('RefPat_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p09'))
