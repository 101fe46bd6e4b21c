"""P14: triplet matrices."""
import asmgen
LEVEL = 'model_checking'


def run(ctx):
    from vlib import build
    exe, _ = build('assemble', ['assemble', 'mesh_hybrid2d'])
    ctx.mc('TripletModel', 'TripletModeldeep.cfg' if ctx.thorough else 'TripletModel.cfg', workers='6', timeout=900)
    r = ctx.rng
    beh = ctx.behaviours('TripletModel', 'TripletGen.cfg', 1500 if ctx.thorough else 150, 20)
    scen = [(f'beh{i}', asmgen.from_hist(h, 1)) for i, h in enumerate(beh)]
    for i in range(400 if ctx.thorough else 80):
        cplx = i % 2 == 0
        L = ['scalar ' + ('c' if cplx else 'r')]
        a, d = asmgen.coo_ops(r, 1, r.choice([10, 30, 60]), cplx, (r.randint(1, 6), r.randint(1, 6)))
        L += a + [f'ccopy 1 2 {i % 4 // 2}', f'cadd 1 0 0 {asmgen.num(r, cplx)}', 'cget 2', 'cadd 2 0 0 3 0', 'cget 1', 'cget 2']
        scen.append((f'h{i}', L))
    ctx.validate('Assemble_Trace', 'Trace.cfg', ctx.drive(exe, scen, 'p14'))
