"""P04: structured mesh builders."""
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('meshutils', ['mesh_utils'])
    scen = []
    mx = 9 if ctx.thorough else 6
    boxes = [(0, 0, 1, 1), (-3, 2, 5, 7), (1, -4, 4, 9), (10, 10, 11, 30)]
    for kind in ('tria', 'quad'):
        for nx in range(0, mx):
            for ny in range(0, mx):
                b = ctx.rng.choice(boxes)
                scen.append((f'{kind}{nx}x{ny}', [f'TP {kind} {nx} {ny} {b[0]} {b[1]} {b[2]} {b[3]} {ctx.rng.randint(0,1)} {ctx.rng.choice([1,1,2])} {ctx.rng.choice([0,0,-9,-20,-40,10,30])}']))
        for b in [(0, 0, 0, 1), (0, 0, 1, 0), (2, 0, 1, 1), (0, 2, 1, 1)]:
            scen.append((f'{kind}empty', [f'TP {kind} 2 2 {b[0]} {b[1]} {b[2]} {b[3]} 1 1']))
        for nx, ny in [(1, 17), (17, 1), (11, 8), (300, 1), (2, 140), (17, 18)] + ([(1, 600), (31, 37)] if ctx.thorough else []):
            b = ctx.rng.choice(boxes)
            scen.append((f'{kind}{nx}x{ny}', [f'TP {kind} {nx} {ny} {b[0]} {b[1]} {b[2]} {b[3]} 0 1']))
    for nx in ([3, 4, 5, 6, 7, 8, 12] if ctx.thorough else [3, 4, 6, 7, 8]):
        for ny in ([3, 4, 5, 6, 8, 9, 12] if ctx.thorough else [3, 4, 5, 6, 8]):
            b = ctx.rng.choice([(0, 0, 2, 5), (-1, 1, 3, 9), (0, 0, 3, 4)])
            scen.append((f'torus{nx}x{ny}', [f'TP torus {nx} {ny} {b[0]} {b[1]} {b[2]} {b[3]} 1 {ctx.rng.choice([1,2])} {ctx.rng.choice([0,0,-10,-30,20])}']))
    for nx, ny in [(3, 100), (140, 3), (17, 16)]:
        scen.append((f'torus{nx}x{ny}', [f'TP torus {nx} {ny} 0 0 {2 * nx} {3 * ny} 1 1']))
    scen.append(('torus0', ['TP torus 0 4 0 0 1 1 1 1', 'TP torus 4 0 0 0 1 1 1 1', 'TP torus 4 4 0 0 0 1 1 1', 'TP torus 4 4 0 1 1 1 1 1']))
    groups = ctx.drive(exe, scen, 'p04')
    ctx.validate('Structured_Trace', 'Trace.cfg', groups)
