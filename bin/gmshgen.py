"""Renders abstract Gmsh files (see spec/GmshFile.tla) as bytes, and generates
random ones. No oracle here: what a file means is defined in GmshFile.tla."""
import struct

NN = {15: 1, 1: 2, 8: 3, 2: 3, 9: 6, 3: 4, 16: 8, 10: 9}
DIM = {15: 0, 1: 1, 8: 1, 2: 2, 9: 2, 3: 2, 16: 2, 10: 2}
COM = '$Comments\nwritten by hand, 3 < 4\n second line\n$EndComments\n'


def num(rng, x, S):
    v = x / S
    k = rng.random()
    if k < .6:
        return '%.16g' % v
    if k < .8:
        return '%.17e' % v
    return '%.6f' % v if v * 2 ** 6 == int(v * 2 ** 6) else '%.16g' % v


def names_txt(F):
    if not F['names'] and not F.get('emptynames'):
        return ''
    return '$PhysicalNames\n%d\n' % len(F['names']) + ''.join(
        '%d %d "%s"\n' % (n['d'], n['nr'], n['s']) for n in F['names']) + '$EndPhysicalNames\n'


def render2(rng, F, S, mode, com=False):
    """mode: text, le, be"""
    b = bytearray()
    w = lambda s: b.extend(s.encode())
    e = '<' if mode == 'le' else '>'
    w('$MeshFormat\n2.2 %d 8\n' % (mode != 'text'))
    if mode != 'text':
        b.extend(struct.pack(e + 'i', 1))
        w('\n')
    w('$EndMeshFormat\n')
    if com:
        w(COM)
    w(names_txt(F))
    w('$Nodes\n%d\n' % len(F['nodes']))
    for n in F['nodes']:
        x = list(n['x']) + [0] * (3 - len(n['x']))
        if mode == 'text':
            w('%d %s\n' % (n['t'], ' '.join(num(rng, c, S) for c in x)))
        else:
            b.extend(struct.pack(e + 'i3d', n['t'], *[c / S for c in x]))
    if mode != 'text':
        w('\n')
    w('$EndNodes\n')
    if com and rng.random() < .5:
        w(COM)
    w('$Elements\n%d\n' % len(F['els']))
    i = 0
    while i < len(F['els']):
        el = F['els'][i]
        k = 1
        if mode != 'text':   # blocks of elements of one type and number of tags
            while i + k < len(F['els']) and F['els'][i + k]['k'] == el['k'] and \
                    len(F['els'][i + k]['part']) == len(el['part']) and rng.random() < .7:
                k += 1
            b.extend(struct.pack(e + '3i', el['k'], k, 2 + len(el['part'])))
        for f in F['els'][i:i + k]:
            tags = [f['ph'], f['el']] + f['part']
            if mode == 'text':
                w(' '.join(map(str, [f['t'], f['k'], len(tags)] + tags + f['n'])) + '\n')
            else:
                b.extend(struct.pack(e + '%di' % (1 + len(tags) + len(f['n'])), f['t'], *tags, *f['n']))
        i += k
    if mode != 'text':
        w('\n')
    w('$EndElements\n')
    if com:
        w(COM)
    if F.get('periodic'):
        w('$Periodic\n1\n1 1 2\n2\n%d %d\n%d %d\n$EndPeriodic\n' % ((F['nodes'][0]['t'], F['nodes'][1]['t']) * 2))
    return bytes(b)


def render4(rng, F, S, mode, com=False):
    b = bytearray()
    w = lambda s: b.extend(s.encode())
    e = '<' if mode == 'le' else '>'
    T = mode == 'text'
    line = []

    def i(*v):
        if T:
            line.extend(map(str, v))
        else:
            b.extend(struct.pack(e + '%di' % len(v), *v))

    def z(*v):
        if T:
            line.extend(map(str, v))
        else:
            b.extend(struct.pack(e + '%dQ' % len(v), *v))

    def d(*v):
        if T:
            line.extend(num(rng, c, S) for c in v)
        else:
            b.extend(struct.pack(e + '%dd' % len(v), *[c / S for c in v]))

    def nl():
        if T:
            w(' '.join(line) + '\n')
            line.clear()

    def end(s):
        if not T:
            w('\n')
        w(s + '\n')
    w('$MeshFormat\n4.1 %d 8\n' % (not T))
    if not T:
        b.extend(struct.pack(e + 'i', 1))
        w('\n')
    w('$EndMeshFormat\n')
    if com:
        w(COM)
    w(names_txt(F))

    def entities(tabs, part):
        z(*[len(t) for t in tabs])
        nl()
        for dim, t in enumerate(tabs):
            for en in t:
                i(en['t'])
                if part:
                    i(en['pd'], en['pt'])
                    z(len(en['parts']))
                    i(*en['parts'])
                box = [rng.randint(-9, 9) for _ in range(3 if dim == 0 else 6)]
                d(*box)
                z(len(en['ph']))
                i(*en['ph'])
                if dim > 0:
                    z(len(en['bd']))
                    i(*en['bd'])
                nl()
    w('$Entities\n')
    entities(F['ents'], False)
    end('$EndEntities')
    if com and rng.random() < .5:
        w(COM)
    if F.get('pents'):
        w('$PartitionedEntities\n')
        z(2)
        nl()
        gh = F.get('ghost', [])
        z(len(gh))
        nl()
        for g in gh:
            i(*g)
            nl()
        entities(F['pents'], True)
        end('$EndPartitionedEntities')
    tags = [n['t'] for nb in F['nblocks'] for n in nb['nodes']]
    w('$Nodes\n')
    z(len(F['nblocks']), len(tags), min(tags), max(tags))
    nl()
    for nb in F['nblocks']:
        i(nb['d'], nb['t'], 0)
        z(len(nb['nodes']))
        nl()
        for n in nb['nodes']:
            z(n['t'])
            nl()
        for n in nb['nodes']:
            d(*(list(n['x']) + [0] * (3 - len(n['x']))))
            nl()
    end('$EndNodes')
    et = [x['t'] for eb in F['eblocks'] for x in eb['els']]
    w('$Elements\n')
    z(len(F['eblocks']), len(et), min(et), max(et))
    nl()
    for eb in F['eblocks']:
        i(DIM[eb['k']], eb['t'], eb['k'])
        z(len(eb['els']))
        nl()
        for x in eb['els']:
            z(x['t'], *x['n'])
            nl()
    end('$EndElements')
    if com:
        w(COM)
    if F.get('periodic'):
        a, c = tags[0], tags[-1]
        w('$Periodic\n')
        z(2)
        nl()
        i(1, 1, 2)
        z(0)
        nl() if not T else None
        z(1)
        nl()
        z(a, c)
        nl()
        i(0, 1, 2)
        z(16)
        d(*[S if k % 5 == 0 else 0 for k in range(16)])
        nl()
        z(1)
        nl()
        z(c, a)
        nl()
        end('$EndPeriodic')
    if F.get('ghostels'):
        w('$GhostElements\n')
        z(1)
        nl()
        z(et[0])
        i(1)
        z(1)
        i(2)
        nl()
        end('$EndGhostElements')
    return bytes(b)


# ---- random descriptions ------------------------------------------------------
def tagger(rng, n):
    k = rng.choice(['plain', 'shuffle', 'sparse', 'offset'])
    if k == 'plain':
        return list(range(1, n + 1))
    if k == 'shuffle':
        t = list(range(1, n + 1))
        rng.shuffle(t)
        return t
    lo = 1 if k == 'sparse' else rng.choice([10, 100, 5000])
    return rng.sample(range(lo, lo + rng.choice([2, 5, 40]) * n + 5), n)


def describe(rng, dim, dangling=None, size=None):
    """nodes [(tag, x)], elements [(type, [tags])] of a random mesh"""
    import gen
    nx, ny = size or rng.choice([(1, 1), (2, 1), (2, 2), (3, 2)])
    p, cells = gen.lattice_mesh(rng, nx, ny, step=48, flip=True)
    z = (lambda: rng.randint(-20, 20)) if dim == 3 else None
    pos = [list(q) + ([z()] if z else []) for q in p]
    nmain = len(pos)
    mode = rng.choice(['o1', 'o2', 'mixed'])
    mids = {}

    def mid(a, b):
        k = frozenset((a, b))
        if k not in mids:
            m = [(pos[a][i] + pos[b][i]) // 2 for i in range(dim)]
            if rng.random() < .7:
                m = [x + rng.randint(-3, 3) for x in m]
            mids[k] = len(pos)
            pos.append(m)
        return mids[k]

    def centre(c):
        pos.append([sum(pos[v][i] for v in c) // len(c) for i in range(dim)])
        return len(pos) - 1
    o = lambda: {'o1': 1, 'o2': 2, 'mixed': rng.choice([1, 2])}[mode]
    E, C, P = [], [], []
    for a, b in gen.all_edges(cells):
        if rng.random() < rng.choice([.2, .6, 1]):
            if rng.random() < .5:
                a, b = b, a
            E.append((1, [a, b]) if o() == 1 else (8, [a, b, mid(a, b)]))
    for c in cells:
        c = list(c)
        if o() == 1:
            C.append((2 if len(c) == 3 else 3, c))
        else:
            ms = [mid(a, b) for a, b in gen.sides(c)]
            if len(c) == 3:
                C.append((9, c + ms))
            elif rng.random() < .5:
                C.append((16, c + ms))
            else:
                C.append((10, c + ms + [centre(c)]))
    chk = 1
    if dangling if dangling is not None else rng.random() < .15:
        chk = 0
        for _ in range(rng.randint(1, 2)):
            pos.append([500 + rng.randint(0, 99)] + [rng.randint(0, 99) for _ in range(dim - 1)])
            E.append((1, rng.choice([[rng.randrange(nmain), len(pos) - 1], [len(pos) - 1, rng.randrange(nmain)]])))
    for _ in range(rng.choice([0, 0, 1, 3])):   # nodes nothing but points refer to
        pos.append([rng.randint(-99, 99) for _ in range(dim)])
        P.append((15, [len(pos) - 1])) if rng.random() < .6 else None
    for v in rng.sample(range(len(pos)), min(len(pos), rng.choice([0, 2, 5]))):
        if (15, [v]) not in P:
            P.append((15, [v]))
    rng.shuffle(E)
    rng.shuffle(C)
    rng.shuffle(P)
    tg = tagger(rng, len(pos))
    order = list(range(len(pos)))
    if rng.random() < .7:
        rng.shuffle(order)
    nodes = [dict(t=tg[v], x=pos[v]) for v in order]
    tr = lambda L: [(k, [tg[v] for v in n]) for k, n in L]
    return nodes, tr(P), tr(E), tr(C), chk


NAMES = ['a', 'b', 'air', 'contact wall', 'inlet', 'Γ1', 'x-y_z', '1', '$', 'end', 'in']


def names(rng):
    r, seen = [], set()
    pal, nrs = NAMES[:5] + NAMES[6:], [1, 2, 3, 7, 40]
    if rng.random() < .5:   # the same names and numbers in several dimensions
        pal, nrs = rng.sample(pal, 2), rng.sample(nrs, rng.choice([2, 4]))
    for _ in range(rng.choice([0, 1, 3, 6, 10])):
        d, nr, s = rng.randrange(3), rng.choice(nrs), rng.choice(pal)
        if (d, nr) in seen or (d, s) in seen:
            continue
        seen |= {(d, nr), (d, s)}
        r.append(dict(d=d, nr=nr, s=s))
    return r


def groups(rng):
    return rng.choice([[1], [2], [3], [7], [40], [1, 2], [2, 7, 3], [40, 1], []])


def ets(rng, n):
    return list(range(1, n + 1)) if rng.random() < .5 else rng.sample(range(1, 9 * n + 1), n)


def v2(rng, nodes, P, E, C, nm, interleave=True, ph=None):
    """ph: optional function element -> groups"""
    L = []
    src = [list(x) for x in (P, E, C)]
    if interleave:
        while any(src):
            s = rng.choice([x for x in src if x])
            L.append(s.pop(0))
    else:
        L = sum(src, [])
    els = []
    for q in L:
        g = (ph(q) if ph else groups(rng)) or [0]
        for x in g:
            els.append(dict(k=q[0], n=q[1], ph=x, el=rng.randint(1, 9),
                            part=[] if rng.random() < .7 else rng.choice([[1, 3], [2, 1, -2]])))
    for e, t in zip(els, ets(rng, len(els))):
        e['t'] = t
    return dict(v=2, nodes=nodes, els=els, names=nm, periodic=rng.random() < .2)


def v4(rng, nodes, P, E, C, nm):
    part = rng.random() < .25
    tabs = []
    for d in range(4):
        k = rng.randint(1, 3) if d < 3 else 0
        tabs.append([dict(t=t, ph=groups(rng), bd=[rng.randint(-3, 3) for _ in range(rng.randint(0, 3))])
                     for t in rng.sample(range(1, 12), k)])
    ptabs = []
    if part:
        for d in range(4):
            ptabs.append([dict(t=t, pd=d, pt=rng.choice(tabs[d])['t'], parts=rng.choice([[1], [2], [1, 2]]),
                               ph=groups(rng), bd=[rng.randint(-3, 3) for _ in range(rng.randint(0, 2))])
                          for t in rng.sample(range(1, 20), rng.randint(1, 3) if d < 3 else 0)])
    use = ptabs if part else tabs
    blocks = {}
    for d, L in enumerate((P, E, C)):
        for k, n in L:
            en = rng.choice(use[d])['t']
            blocks.setdefault((k, en), []).append(dict(n=n))
    bl = [dict(k=k, t=en, els=v) for (k, en), v in blocks.items()]
    rng.shuffle(bl)
    n = sum(len(b['els']) for b in bl)
    tg = iter(ets(rng, n))
    for b in bl:
        for e in b['els']:
            e['t'] = next(tg)
    nb, rest = [], list(nodes)
    while rest:
        k = rng.randint(0, len(rest)) if len(nb) < 3 else len(rest)
        d = rng.randrange(3)
        nb.append(dict(d=d, t=rng.choice(use[d])['t'], nodes=rest[:k]))
        rest = rest[k:]
    return dict(v=4, ents=tabs, pents=ptabs, nblocks=nb, eblocks=bl, names=nm,
                ghost=[[1, 2]] if part and rng.random() < .5 else [], periodic=rng.random() < .2,
                ghostels=part and rng.random() < .5)


def queries(rng, nm):
    q = ['is 0 1 2 3 7 40 5']
    for s in sorted({n['s'] for n in nm} | {'absent', 'a', 'air'}):
        for c in (-1, 0, 1, 2):
            q.append(f'n2n {c} {s}')
    for k in (1, 2, 3, 7, 40, 41):
        for c in (-1, 0, 1, 2):
            q.append(f'r2n {c} {k}')
    return q + ['pe 0', 'pe 1', 'pe 2']


def render(rng, F, S, mode, com):
    return (render2 if F['v'] == 2 else render4)(rng, F, S, mode, com)
