"""Infrastructure shared by all checks: build, drive, model check, evidence."""
import glob, json, os, random, re, shutil, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

# module -> (directory below REPO, modules it needs)
MODS = {
    'base': ('lib/lf/base', []),
    'geometry': ('lib/lf/geometry', ['base']),
    'mesh': ('lib/lf/mesh', ['geometry']),
    'mesh_hybrid2d': ('lib/lf/mesh/hybrid2d', ['mesh']),
    'mesh_utils': ('lib/lf/mesh/utils', ['mesh_hybrid2d']),
    'quad': ('lib/lf/quad', ['base']),
    'assemble': ('lib/lf/assemble', ['mesh']),
    'refinement': ('lib/lf/refinement', ['mesh_utils']),
    'fe': ('lib/lf/fe', ['assemble', 'quad', 'mesh_utils']),
    'uscalfe': ('lib/lf/uscalfe', ['fe']),
    'io': ('lib/lf/io', ['mesh_utils']),
    'dpg': ('projects/dpg', ['uscalfe']),
    'stokes_mesh': ('projects/ipdg_stokes/mesh', ['mesh_utils']),
    'stokes_post': ('projects/ipdg_stokes/post_processing', ['stokes_mesh', 'uscalfe']),
    'stokes': ('projects/ipdg_stokes/assemble', ['stokes_post', 'io']),
    'fisher': ('projects/fisher_kpp', ['uscalfe']),
}
# sources of a module which no driver needs and which need cmake configuration
EXCL = {'lib/lf/base/lehrfem_info.cc'}
# sources which need another module
NEEDS = {'lib/lf/refinement/refutils.cc': 'io'}
FLAGS = ('-std=gnu++20 -O0 -g0 -w -DBOOST_ENABLE_ASSERT_DEBUG_HANDLER '
         '-DBOOST_STACKTRACE_USE_NOOP -DFMT_SHARED -DLF_REDIRECT_ASSERTS '
         '-DSPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_TRACE -DSPDLOG_COMPILED_LIB '
         '-DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB')


class MachineryError(Exception):
    pass


def closure(mods):
    out = []

    def rec(m):
        for d in MODS[m][1]:
            rec(d)
        if m not in out:
            out.append(m)
    for m in mods:
        rec(m)
    return out


def build(driver, mods, only=None, parts=0, flags=''):
    """Compile harness/<driver>.cc against the current tree of REPO.
    only: optional dict module -> list of source basenames (to save time).
    parts: compile the driver in that many pieces (-DPART=0, 1, ...)
    flags: further compiler flags (objects are then kept apart)"""
    flags = (flags + ' ' + os.environ.get('VF_CXXFLAGS', '')).strip()  # VF_CXXFLAGS: development only (coverage)
    tag = 'r' + re.sub(r'\W', '_', REPO + flags)
    d = os.path.join(BUILD, tag)
    os.makedirs(d, exist_ok=True)
    st = ' '.join(f'-I{REPO}/projects/ipdg_stokes/{x}' for x in ('mesh', 'assemble', 'post_processing'))
    inc = f'-I{REPO}/lib -I{REPO}/projects -I{HARN} {st} -isystem /usr/include/eigen3'
    n = [f'cxxflags = {FLAGS} {flags} {inc}',
         'rule pch', '  command = g++ $cxxflags -MD -MF $out.d -x c++-header $in -o $out', '  depfile = $out.d', '  deps = gcc',
         'rule cc', '  command = g++ $cxxflags $part -include pch.h -MD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
         'rule link', f'  command = g++ {os.environ.get("VF_CXXFLAGS", "")} $in -o $out -lspdlog -lfmt -lpthread -ldl',
         f'build pch.h.gch: pch {HARN}/pch.h',
         f'rule cp', '  command = cp $in $out', f'build pch.h: cp {HARN}/pch.h']
    objs = []
    seen = set()
    for m in closure(mods):
        for src in sorted(glob.glob(f'{REPO}/{MODS[m][0]}/*.cc')):
            rel = os.path.relpath(src, REPO)
            if rel in EXCL or rel in seen or NEEDS.get(rel, m) not in closure(mods):
                continue
            if only and m in only and os.path.basename(src) not in only[m]:
                continue
            seen.add(rel)
            o = 'o_' + re.sub(r'[/.]', '_', rel) + '.o'
            n.append(f'build {o}: cc {src} | pch.h.gch pch.h')
            objs.append(o)
    do = ''
    for k in range(max(parts, 1)):
        n.append(f'build d_{driver}{k or ""}.o: cc {HARN}/{driver}.cc | pch.h.gch pch.h')
        do += f' d_{driver}{k or ""}.o'
        if parts:
            n.append(f'  part = -DPART={k}')
    exe = f'x_{driver}'
    n.append(f'build {exe}: link {do} {" ".join(objs)}')
    n.append(f'default {exe}')
    f = os.path.join(d, f'{driver}.ninja')
    txt = '\n'.join(n) + '\n'
    if not os.path.exists(f) or open(f).read() != txt:
        open(f, 'w').write(txt)
    t = time.time()
    p = subprocess.run(['ninja', '-C', d, '-f', f], capture_output=True, text=True)
    if p.returncode != 0:
        sys.stderr.write('\n'.join([x[:300] for x in (p.stdout + p.stderr).splitlines() if re.search('error|undefined', x)][:15]) + '\n')
        raise MachineryError(f'build of {driver} failed')
    return os.path.join(d, exe), time.time() - t


def tlc(module, cfg, env=None, args=(), timeout=600, workers='1', heap='2g', extra_cp=None, metadir=None):
    """Runs TLC, returns (rc, output)."""
    e = dict(os.environ)
    e.update(env or {})
    md = metadir or os.path.join(BUILD, 'tlc', f'{module}-{os.getpid()}-{random.getrandbits(40):x}')
    os.makedirs(md, exist_ok=True)
    cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', JAR, 'tlc2.TLC',
           '-config', cfg, '-workers', str(workers), '-metadir', md, '-noGenerateSpecTE', *args, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = str(x.stdout or '') + '\nTIMEOUT', -9
    shutil.rmtree(md, ignore_errors=True)
    return rc, out


def tlc_stats(out):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if not m:
        m2 = re.findall(r'([\d,]+) states checked', out)  # simulation mode
        return (int(m2[-1].replace(',', '')),) * 2 if m2 else (0, 0)
    g, dd = m[-1]
    return int(g.replace(',', '')), int(dd.replace(',', ''))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random(seed * 7919 + 17)
        self.t0 = time.time()
        self.work = os.path.join(BUILD, 'work', f'{prop}-{os.getpid()}')
        os.makedirs(self.work, exist_ok=True)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assume = []
        self.viol = []
        self.known_hits = []
        self.notes = {}

    # ---- model checking of a specification -------------------------------
    def mc(self, module, cfg, env=None, args=(), timeout=600, workers='4', heap='4g', simulate=False):
        rc, out = tlc(module, cfg, env, args, timeout, workers, heap)
        if rc != 0:
            sys.stderr.write(out[-5000:])
            raise MachineryError(f'TLC failed on model {module} ({cfg}), rc={rc}')
        g, d = tlc_stats(out)
        self.cov['states'] += d
        self.cov['transitions'] += g
        self.notes.setdefault('models', []).append(dict(module=module, cfg=cfg, states=d, transitions=g))
        return out

    def behaviours(self, module, cfg, num, depth, env=None, timeout=300, prefix='BEH'):
        """Generates behaviours from a specification by TLC simulation; the
        specification prints JSON lines "BEH<json>"."""
        out = self.mc(module, cfg, env, ['-simulate', f'num={num}', '-depth', str(depth), '-seed', str(self.seed)],
                      timeout, workers='1')
        r = []
        for l in out.splitlines():
            l = l.strip()
            if l.startswith('"' + prefix):
                r.append(json.loads(json.loads(l)[len(prefix):]))
        uniq, res = set(), []
        for b in r:
            k = json.dumps(b, sort_keys=True)
            if k not in uniq:
                uniq.add(k)
                res.append(b)
        return res

    # ---- driving the implementation --------------------------------------
    def drive(self, exe, scen, name, timeout=300, args=(), par=6):
        """scen: list of (name, [lines]). Returns list of (scenario name, [events])."""
        if not scen:
            return []
        chunks = [scen[i::par] for i in range(par) if scen[i::par]]
        env = dict(os.environ, MALLOC_PERTURB_='128')  # memory read before it is written shows up as huge numbers

        def one(ic):
            i, ch = ic
            sf = os.path.join(self.work, f'{name}.{i}.txt')
            of = os.path.join(self.work, f'{name}.{i}.ndjson')
            with open(sf, 'w') as f:
                for nm, lines in ch:
                    f.write(f'scenario {nm}\n' + '\n'.join(lines) + '\nend\n')
            try:
                p = subprocess.run([exe, sf, of, *args], capture_output=True, text=True, timeout=timeout, cwd=self.work, env=env)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -9
            evs = []
            if os.path.exists(of):
                for l in open(of, errors='replace'):
                    try:
                        evs.append(json.loads(l))
                    except ValueError:
                        evs.append({'e': 'garbled'})
            if rc != 0:
                evs.append({'e': 'driverdied', 'rc': rc})
            groups = []
            for e in evs:
                if e.get('e') == 'reset':
                    groups.append((e.get('name', ''), []))
                elif groups:
                    groups[-1][1].append(e)
                else:
                    groups.append(('?', [e]))
            return groups
        with cf.ThreadPoolExecutor(par) as ex:
            res = list(ex.map(one, enumerate(chunks)))
        return [g for r in res for g in r]

    # ---- trace validation -------------------------------------------------
    def validate(self, module, cfg, groups, chunk=None, par=6, heap='2g', timeout=600, maxviol=3, inputs=None):
        """Each group is one trace (list of events). Groups are packed into files
        separated by reset events; TLC decides acceptance. A rejected group is
        reported and the remaining ones of the file are re-checked."""
        groups = [(n, e) for n, e in groups if e]
        if not groups:
            raise MachineryError('no traces recorded for ' + module)
        bad = []

        def pack(gs, path):
            n = 0
            idx = []
            with open(path, 'w') as f:
                for gi, (nm, evs) in enumerate(gs):
                    f.write(json.dumps({'e': 'reset', 'name': nm}) + '\n')
                    n += 1
                    idx.append(n)
                    for e in evs:
                        f.write(json.dumps(e) + '\n')
                        n += 1
            return n, idx

        def run(gs, tag):
            viol, states, trans = [], 0, 0
            rest, k = gs, 0
            while rest:
                path = os.path.join(self.work, f'{module}.{tag}.{k}.ndjson')
                n, idx = pack(rest, path)
                rc, out = tlc(module, cfg, {'TRACE': path}, timeout=timeout, heap=heap)
                m = re.search(r'<<"TRACE_RESULT", (\d+), (\d+)>>', out)
                evalerr = m is None and re.search(
                    r'Attempted to|evaluat|is not in the domain|not enumerable|out of bound|Overflow|exceeds|Assert', out) \
                    and not re.search(r'OutOfMemory|StackOverflow|TIMEOUT|Parsing or semantic analysis failed|Semantic errors|Unknown operator', out) \
                    and re.search(r'^State \d+|^\d+: ', out, re.M)
                if evalerr:
                    # the specification is undefined on what the code returned
                    # (an observation of the wrong shape): not a behaviour of it
                    st = [int(x) for x in re.findall(r'^State (\d+)', out, re.M)] or \
                         [int(x) for x in re.findall(r'^(\d+): ', out, re.M)]
                    m = re.match(r'(\d+) (\d+)', f'{max(st) - 1} {n}')
                    rc = 0
                    self.notes.setdefault('undefined', []).append(out[-600:])
                if not m:
                    sys.stderr.write(out[-4000:])
                    # an evaluation error inside TLC is a machinery error
                    raise MachineryError(f'TLC gave no verdict for {module}: rc={rc}')
                g, d = tlc_stats(out)
                states += d
                trans += g
                acc, tot = int(m.group(1)), int(m.group(2))
                if tot != n:
                    raise MachineryError(f'{module}: trace length mismatch {tot} {n}')
                if acc >= n:
                    if rc != 0:
                        sys.stderr.write(out[-4000:])
                        raise MachineryError(f'TLC error for {module}: rc={rc}')
                    break
                # event acc+1 rejected
                pos = acc + 1
                gi = max(i for i in range(len(idx)) if idx[i] <= pos)
                ev = ([{'e': 'reset'}] + rest[gi][1])[pos - idx[gi]]
                viol.append((rest[gi], pos - idx[gi], ev))
                if len(viol) >= maxviol:
                    rest = []
                    break
                rest = rest[gi + 1:]
                k += 1
            return viol, states, trans

        nchunk = max(1, min(par, len(groups))) if chunk is None else max(1, -(-len(groups) // chunk))
        parts = [groups[i::nchunk] for i in range(nchunk)]
        with cf.ThreadPoolExecutor(par) as ex:
            for v, s, t in ex.map(lambda a: run(a[1], a[0]), enumerate(parts)):
                bad += v
                self.cov['states'] += s
                self.cov['transitions'] += t
        self.cov['traces_validated_against_impl'] += len(groups)
        self.notes.setdefault('trace_checks', []).append(
            dict(module=module, traces=len(groups), events=sum(len(e) for _, e in groups), rejected=len(bad)))
        if len(self.cov['samples']) < 6:
            nm, ev = groups[len(groups) // 2]
            self.cov['samples'].append(dict(module=module, trace=nm, events=[json.loads(clip(e)) for e in ev[:4]]))
        for (nm, evs), pos, ev in bad:
            self.violation(f'{module}: trace {nm} rejected at event {pos}: {json.dumps(ev)[:600]}',
                           dict(module=module, cfg=cfg, name=nm, events=evs, pos=pos))
        return bad

    def violation(self, msg, replay):
        # known findings: file known-findings.json entries with "match" regex on msg
        for k in known_findings():
            if k.get('status') == 'known' and k['property'] == self.prop and re.search(k['match'], msg):
                line = f'KNOWN-FINDING: property={self.prop} {k["what"]}'
                if line not in self.known_hits:
                    self.known_hits.append(line)
                return
        rd = os.path.join(VERIF, 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f'{self.prop}-{len(self.viol)}.ndjson')
        with open(path, 'w') as f:
            f.write(json.dumps({'e': 'info', 'msg': msg, 'module': replay.get('module'), 'name': replay.get('name'), 'pos': replay.get('pos')}) + '\n')
            for e in replay.get('events', []):
                f.write(json.dumps(e) + '\n')
        self.viol.append((msg, path))

    def finish(self, level):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=dict(self.cov, **self.notes),
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in known_findings():
            if k.get('status') == 'known' and k['property'] == self.prop:
                line = f'KNOWN-FINDING: property={self.prop} {k["what"]}'
                if line not in self.known_hits:
                    self.known_hits.append(line)
        for l in self.known_hits:
            print(l)
        for msg, path in self.viol:
            print(msg[:900])
            print(f'VIOLATION property={self.prop} replay={path}')
        if not os.environ.get('VF_KEEP'):
            shutil.rmtree(self.work, ignore_errors=True)
        print(f'{self.prop} {self.tier}: states={self.cov["states"]} transitions={self.cov["transitions"]} '
              f'traces={self.cov["traces_validated_against_impl"]} violations={len(self.viol)} wall={ev["wall_s"]}s')
        return 1 if self.viol else 0


def clip(e):
    s = json.dumps(e)
    return s if len(s) < 700 else json.dumps({'e': e.get('e'), 'clipped': s[:600]})


def known_findings():
    """known-findings.txt: lines
         known: property=<id> match=<regex without blanks> <what fails>
         fixed: property=<id> <commit> <what failed>"""
    p = os.path.join(VERIF, 'known-findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l.strip())
            if m:
                r.append(dict(status='known', property=m.group(1), match=m.group(2), what=m.group(3)))
    return r
