"""P16: fixing solution components."""
import asmgen
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('assemble', ['assemble', 'mesh_hybrid2d'])
    ctx.mc('TripletModel', 'TripletModeldeep.cfg' if ctx.thorough else 'TripletModel.cfg', workers='6', timeout=900)
    r = ctx.rng
    beh = ctx.behaviours('TripletModel', 'TripletGen.cfg', 1500 if ctx.thorough else 150, 20)
    scen = [(f'beh{i}', asmgen.from_hist(h, 1)) for i, h in enumerate(beh) if any(o[0] == 'fix' for o in h)]
    for i in range(400 if ctx.thorough else 100):
        cplx = i % 2 == 0
        n = r.randint(1, 8)
        L = ['scalar ' + ('c' if cplx else 'r'), f'cnew 1 {n} {n}']
        for _ in range(r.randint(0, 3 * n)):
            a, b = r.randrange(n), r.randrange(n)
            for _ in range(r.choice([1, 1, 2])):
                L.append(f'cadd 1 {a} {b} {asmgen.num(r, cplx)}')
        L.append('ccopy 1 2 0')
        L.append('ccopy 1 3 0')
        for q, kind in enumerate(['flag', 'alt', 'lse']):
            L.append(asmgen.fixline(r, q + 1, n, cplx, kind))
            L.append(f'cget {q + 1}')
        L.append(asmgen.fixline(r, 1, n, cplx))
        L.append('cadd 1 0 0 2 0')
        L.append('cget 1')
        scen.append((f'f{i}', L))
    ctx.validate('Assemble_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p16'))
