"""Readers for the text files written by writeMatlab, writeMatplotlib,
writeTikZ and WriteMatlabLevel."""
import os, re

SC = 1200


def num(s, sc):
    v = float(s) * sc
    return round(v) if abs(v) < 1.9e9 else 1999999999


def matlab(text, sc):
    """executes the assignments of a MATLAB function: arrays are maps from the row to the list of entries"""
    lines = [l.split('%')[0].strip() for l in text.split('\n')]
    lines = [l for l in lines if l]
    m = re.fullmatch(r'function \[([^\]]*)\] = (.*)\(\)', lines[0]) if lines else None
    if not m:
        return dict(ok=False, why='function expected')
    A = {}
    zero = {}
    for l in lines[1:]:
        for st in l.split(';'):
            st = st.strip()
            if not st:
                continue
            a = re.fullmatch(r'(\w+) = zeros\((\d+),(\d+)\)', st)
            b = re.fullmatch(r'(\w+) = \[\]', st)
            c = re.fullmatch(r'(\w+)\((\d+)(,:)?\) = (.*)', st)
            if a:
                A[a[1]] = {i + 1: ['0'] * int(a[3]) for i in range(int(a[2]))}
                zero[a[1]] = True
            elif b:
                A[b[1]] = {}
            elif c:
                v = c[4].strip()
                row = [x for x in re.split(r'[,\s]+', v.strip('[] ')) if x] if c[3] else [v]
                A.setdefault(c[1], {})[int(c[2])] = row
            else:
                return dict(ok=False, why='statement ' + st[:60])
    out = {}
    for k, v in A.items():
        n = max(v) if v else 0
        if any(i + 1 not in v for i in range(n)):
            return dict(ok=False, why='missing row of ' + k)
        try:
            if k in ('x', 'y'):
                out[k] = [num(v[i + 1][0], sc) for i in range(n)]
            else:
                out[k] = [[int(x) for x in v[i + 1]] for i in range(n)]
        except ValueError:
            return dict(ok=False, why='number expected in ' + k)
    ret = [x.strip() for x in m[1].split(',')]
    for k in ret:
        if k not in out:
            # an array without any row
            out[k] = []
    return dict(ok=True, fn=m[2], ret=ret, a=out)


def csv(text, sc):
    rows = []
    for l in text.split('\n'):
        w = [x.strip() for x in l.strip().rstrip(',').split(',')]
        if w == ['']:
            continue
        try:
            cd, ix = int(w[0]), int(w[1])
            rows.append([cd, ix] + ([num(x, sc) for x in w[2:]] if cd == 2 else [int(x) for x in w[2:]]))
        except (ValueError, IndexError):
            return dict(ok=False, why='line ' + l[:60])
    return dict(ok=True, rows=rows)


def tikz(text, sc):
    pre = '\\documentclass' in text and '\\begin{document}' in text and '\\end{document}' in text and '\\usepackage{tikz}' in text
    anypre = '\\documentclass' in text or '{document}' in text
    i, j = text.find('\\begin{tikzpicture}'), text.find('\\end{tikzpicture}')
    if i < 0 or j < i or text.count('{tikzpicture}') != 2:
        return dict(ok=False, why='tikzpicture')
    cmds = []
    for st in re.findall(r'\\draw(.*?);', text[i:j], re.S):
        m = re.match(r'\[([^\]]*)\]', st)
        opts = [x.strip() for x in m[1].split(',')] if m else []
        body = st[m.end():] if m else st
        pts, labels = [], []
        for t in re.finditer(r'\(\s*([-+.\deE]+)\s*,\s*([-+.\deE]+)\s*\)|node\s*(?:\[[^\]]*\])?\s*\{([^}]*)\}', body):
            if t[3] is not None:
                labels.append([len(pts), t[3]])
            else:
                pts.append([num(t[1], sc), num(t[2], sc)])
        kind = 'poly' if 'cycle' in body else 'line' if '--' in body else 'pos'
        cmds.append(dict(kind=kind, arrow='->' in opts, pts=pts, at=[x[0] for x in labels], labels=[x[1] for x in labels]))
    return dict(ok=True, pre=pre, anypre=anypre, cmds=cmds)


def attach(e, kind, S):
    """contents of all files of the event, in the order of e['files']"""
    f = {'ml': matlab, 'hl': matlab, 'h1': matlab, 'mp': csv, 'tz': tikz}[e['e']]
    e['c'] = []
    for n in e['files']:
        try:
            e['c'].append(f(open(os.path.join(e['dir'], n)).read(), S * SC))
        except UnicodeDecodeError:
            e['c'].append(dict(ok=False, why='encoding'))
    e.pop('dir')
