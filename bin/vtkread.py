"""Reader for legacy vtk files (unstructured grids), text and binary, written
from the description of the format. Numbers are returned as strings of
integers after scaling ("off" if the scaled number is no integer)."""
import struct
from fractions import Fraction

FMT = {'char': 'b', 'unsigned_char': 'B', 'short': 'h', 'unsigned_short': 'H', 'int': 'i', 'unsigned_int': 'I',
       'long': 'q', 'unsigned_long': 'Q', 'float': 'f', 'double': 'd'}
INTS = {k: v for k, v in FMT.items() if v not in 'fd'}
RANGE = {'b': (-128, 127), 'B': (0, 255), 'h': (-2**15, 2**15 - 1), 'H': (0, 2**16 - 1), 'i': (-2**31, 2**31 - 1),
         'I': (0, 2**32 - 1), 'q': (-2**63, 2**63 - 1), 'Q': (0, 2**64 - 1)}


class Bad(Exception):
    pass


class Reader:
    def __init__(self, data):
        self.d, self.p = data, 0

    def line(self):
        i = self.d.find(b'\n', self.p)
        if i < 0:
            raise Bad('line expected')
        s = self.d[self.p:i]
        self.p = i + 1
        return s.decode('latin1')

    def skip(self):
        while self.p < len(self.d) and self.d[self.p:self.p + 1] in b' \t\r\n':
            self.p += 1

    def word(self):
        self.skip()
        i = self.p
        while self.p < len(self.d) and self.d[self.p:self.p + 1] not in b' \t\r\n':
            self.p += 1
        return self.d[i:self.p].decode('latin1')

    def peek(self):
        q = self.p
        w = self.word()
        self.p = q
        return w

    def expect(self, w):
        x = self.word()
        if x != w:
            raise Bad(f'{w} expected, got {x[:40]}')

    def count(self):
        w = self.word()
        if not w.isdigit():
            raise Bad(f'number expected, got {w[:40]}')
        return int(w)

    def data(self, n, t):
        if t not in FMT:
            raise Bad(f'type {t}')
        f = FMT[t]
        if self.binary:
            if self.d[self.p:self.p + 1] != b'\n':  # data starts after the end of the line
                raise Bad('end of line expected')
            self.p += 1
            sz = struct.calcsize('>' + f) * n
            if self.p + sz > len(self.d):
                raise Bad('end of file')
            r = list(struct.unpack(f'>{n}{f}', self.d[self.p:self.p + sz]))
            self.p += sz
            return r
        r = []
        for _ in range(n):
            w = self.word()
            try:
                x = int(w) if f not in 'fd' else float(w)
            except ValueError:
                raise Bad(f'{t} expected, got {w[:40]}')
            if f not in 'fd' and not RANGE[f][0] <= x <= RANGE[f][1]:
                raise Bad(f'{w} is no {t}')
            if f == 'f' and abs(x) < 3e38:
                x = struct.unpack('f', struct.pack('f', x))[0]
            r.append(x)
        return r


def scaled(x, sc):
    if isinstance(x, int):
        return str(x)
    if x != x or x in (float('inf'), float('-inf')):
        return 'off'
    v = Fraction(x) * sc
    r = round(v)
    return str(r) if abs(v - r) <= Fraction(1, 5) else 'off'


def attributes(r, n, scales):
    out = []
    while True:
        k = r.peek()
        if k == 'SCALARS':
            r.word()
            name, t = r.word(), r.word()
            comp = 1
            if r.peek().isdigit():
                comp = r.count()
            if comp != 1:
                raise Bad('components')
            r.expect('LOOKUP_TABLE')
            tab = r.word()
            v = [scaled(x, scales.get(name, 1)) for x in r.data(n, t)]
            out.append(dict(name=name, type=t, kind='S', tab=tab, v=v))
        elif k == 'VECTORS':
            r.word()
            name, t = r.word(), r.word()
            v = [scaled(x, scales.get(name, 1)) for x in r.data(3 * n, t)]
            out.append(dict(name=name, type=t, kind='V', tab='', v=v))
        else:
            return out


def read(path, sc, gs, ps, cs):
    """sc: scale of the coordinates; gs, ps, cs: name -> scale of the global, point and cell data"""
    try:
        return dict(ok=True, **read0(open(path, 'rb').read(), sc, gs, ps, cs))
    except (Bad, FileNotFoundError) as ex:
        return dict(ok=False, why=str(ex))


def read0(data, sc, gs, ps, cs):
    r = Reader(data)
    if r.line() != '# vtk DataFile Version 3.0':
        raise Bad('version')
    title = r.line()
    f = r.line()
    if f not in ('ASCII', 'BINARY'):
        raise Bad('format')
    r.binary = f == 'BINARY'
    r.expect('DATASET')
    r.expect('UNSTRUCTURED_GRID')
    r.expect('POINTS')
    n = r.count()
    r.expect('float')
    x = [scaled(v, sc) for v in r.data(3 * n, 'float')]
    pts = [[int(v) if v != 'off' and abs(int(v)) < 2 * 10**9 else 1999999999 for v in x[3 * i:3 * i + 3]] for i in range(n)]
    r.expect('CELLS')
    nc, size = r.count(), r.count()
    raw = r.data(size, 'int')
    cells, i = [], 0
    while i < size:
        cells.append(raw[i + 1:i + 1 + raw[i]])
        i += 1 + raw[i]
    if i != size or len(cells) != nc:
        raise Bad('size of the list of cells')
    r.expect('CELL_TYPES')
    nt = r.count()
    types = r.data(nt, 'int')
    fd, pd, cd, np_, ncd = [], [], [], -1, -1
    while True:
        k = r.word()
        if k == '':
            break
        if k == 'FIELD':
            r.word()
            m = r.count()
            for _ in range(m):
                name, comp, tup, t = r.word(), r.count(), r.count(), r.word()
                if comp != 1:
                    raise Bad('components')
                fd.append(dict(name=name, type=t, v=[scaled(v, gs.get(name, 1)) for v in r.data(tup, t)]))
        elif k == 'POINT_DATA':
            np_ = r.count()
            pd = attributes(r, np_, ps)
        elif k == 'CELL_DATA':
            ncd = r.count()
            cd = attributes(r, ncd, cs)
        else:
            raise Bad(f'keyword {k[:40]}')
    return dict(title=title, binary=r.binary, pts=pts, cells=cells, types=types, fd=fd, np=np_, pd=pd, nc=ncd, cd=cd)
