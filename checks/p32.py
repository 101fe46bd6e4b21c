"""P32: timers accumulate exactly the time spent running."""
LEVEL = 'model_checking'


def scenario(rng):
    L, made = [], set()
    au = False
    for _ in range(rng.choice([20, 40, 80])):
        r = rng.random()
        if r < .35:
            L.append(f'adv {rng.choice([0, 1, 7, 1000, 3599])} {rng.choice([0, 1, 50])} {rng.choice([0, 2, 9])}')
        elif r < .42 or not made:
            i = rng.randrange(3)
            L.append(f'new {i} {rng.randrange(3)}')
            made.add(i)
        elif r < .46:
            i, j = rng.randrange(3), rng.choice(sorted(made))
            L.append(f'copy {i} {j}')
            made.add(i)
        elif r < .72:
            L.append(f'{rng.choice(["start", "stop", "stop", "resume", "resume"])} {rng.choice(sorted(made))}')
        elif r < .9:
            L.append(f'q {rng.choice(sorted(made))}')
        elif not au:
            L.append(f'auto {rng.randrange(3)}')
            au = True
        else:
            o = rng.choice(['aq', 'report', 'del'])
            L.append(o)
            au = o != 'del'
    return L + [f'q {i}' for i in sorted(made)]


def run(ctx):
    from vlib import build
    exe, _ = build('timer', ['base'])
    ctx.mc('TimerModel', 'TimerModeldeep.cfg' if ctx.thorough else 'TimerModel.cfg', workers=6)
    scen = []
    for i, b in enumerate(ctx.behaviours('TimerModel', 'TimerGen.cfg', 4000 if ctx.thorough else 500, 18)):
        L, made = [], False
        for o in b:
            L.append(' '.join(map(str, o)))
            made |= o[0] == 'new'
            if made:
                L.append('q 0')
        scen.append((f'm{i}', L))
    n = 2000 if ctx.thorough else 300
    scen += [(f'r{i}', scenario(ctx.rng)) for i in range(n)]
    groups = ctx.drive(exe, scen, 'p32')
    ctx.validate('Timer_Trace', 'Trace.cfg', groups)
