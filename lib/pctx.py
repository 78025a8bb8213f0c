"""Context of simulator-P checks: running plans, references, workloads, shrinking."""
import collections, glob, hashlib, os, random, re, sys, time
import core, gen, psimlib
from psimlib import Plan, Node, Server, Result, Broken, REPO

HOST = ('/repo/lib', '/repo/include', '/repo/src', '/usr/include', '/usr/local/include')
E = dict(EIO=5, ENOSPC=28, EDQUOT=122, EINTR=4, EACCES=13, EMFILE=24, ENFILE=23, ENOMEM=12, ENOENT=2, ENOTDIR=20,
         EISDIR=21, EAGAIN=11, EPIPE=32, EROFS=30, ELOOP=40, ENAMETOOLONG=36, EBADF=9, ECHILD=10, EFBIG=27, ESTALE=116,
         EPERM=1, ETXTBSY=26, ENOEXEC=8, ENXIO=6, EOVERFLOW=75)


class Dead(Result):
    """Stands in for a run the simulator could not finish."""

    def __init__(self, plan, why):
        self.nodes, self.execs, self.files, self.gone, self.mkdirs = [], [], {}, [], []
        self.trace, self.raw = b'', why.encode()
        self.trace_hash = self.sched_hash = self.cov_hash = 'dead'
        self.cov_edges = self.switches = self.gop = self.clock = 0
        for ph, p in enumerate(plan.phases):
            for i, n in enumerate(p['nodes']):
                r = psimlib.NodeResult()
                r.phase, r.id, r.end, r.code, r.msg = ph, i, 'broken', 0, why
                r.stat, r.fired, r.stdout, r.stderr, r.children = collections.defaultdict(int), [], b'', b'', []
                self.nodes.append(r)


class PCtx:
    def __init__(self):
        self.dir = psimlib.build()
        self.server = Server(self.dir, {'base': {}}, host=HOST)
        self.autos = {a: Server(self.dir, {'base': {}}, host=HOST, auto=a) for a in ('pattern', 'zero')}
        self.refs = collections.OrderedDict()
        self.stats = core.Stats()
        self.found = []
        self.deadline = None
        self.tier = 'quick'
        self.spec = None

    def close(self):
        self.server.stop()
        for s in self.autos.values():
            s.stop()

    # -- running -----------------------------------------------------
    def run(self, plan, timeout=60, auto=''):
        """auto: build of lacc whose uninitialised automatic variables hold a pattern or zero."""
        text = plan.text()
        server = self.autos[auto] if auto else self.server
        for attempt in (0, 1):
            try:
                r = server.run(text, timeout=timeout)
                break
            except Broken as e:
                r = Dead(plan, str(e))
                server.stop()
        st = self.stats
        if auto:
            st.faults['automatic-variables-' + auto] += 1
        st.runs += 1
        st.traces.add(r.trace_hash)
        st.cover.add(r.cov_hash)
        if r.switches:
            st.scheds.add(r.sched_hash)
        st.edges = max(st.edges, r.cov_edges)
        st.sim_seconds += r.gop / 50.0
        nodes = [n for ph in plan.phases for n in ph['nodes']]
        for n, nr in zip(nodes, r.nodes):
            for f, k in zip([('f', f) for f in n.faults] + [('p', f) for f in n.pfaults], nr.fired):
                if k:
                    f = f[1]
                    if isinstance(f[1], int) and isinstance(f[0], str) and len(f) >= 4:
                        name = '%s:%s' % (f[0], {0: core.errname(f[3]), 1: 'short', 3: 'kill'}.get(f[2], f[2]))
                    else:
                        name = 'path:%s' % core.errname(f[1])
                    st.faults[name] += k
            if nr.end == 'power':
                st.faults['power-loss'] += 1
            if 'stdoutfull' in n.opts and n.opts['stdoutfull'] >= 0:
                st.faults['stdout-full-at-byte'] += 1
            for k in ('rchunk', 'wchunk'):
                if n.opts.get(k):
                    st.faults['short-%ss' % {'r': 'read', 'w': 'write'}[k[0]]] += 1
            for k in ('fill', 'reuse', 'move', 'guard', 'place', 'stackfill', 'stackoff'):
                if k in n.opts:
                    st.faults['heap-personality' if not k.startswith('stack') else 'stack-garbage'] += 1
                    break
            if n.opts.get('ldsignal'):
                st.faults['linker-killed'] += 1
            if n.opts.get('ldexit'):
                st.faults['linker-fails'] += 1
        for o in plan.opts:
            if o[0] == 'quota':
                st.faults['disk-full-at-byte'] += 1
            elif o[0] == 'jump':
                st.faults['clock-jump'] += 1
        if r.switches:
            st.faults['context-switch'] += r.switches
        return r

    def ref(self, plan):
        p = strip(plan)
        k = hashlib.sha256(p.text()).digest()
        if k in self.refs:
            self.refs.move_to_end(k)
            return self.refs[k]
        r = self.run(p)
        self.refs[k] = r
        while len(self.refs) > 300:
            self.refs.popitem(last=False)
        return r

    # -- checking ----------------------------------------------------
    def check(self, kind, plan, meta=None, nontrivial=True):
        """Evaluate one case; record violations."""
        if self.deadline and time.time() > self.deadline:
            raise core.Stop()
        case = dict(kind=kind, plan=plan, meta=meta or {})
        self.last_run = None
        v = self.spec.evaluate(self, case)
        st = self.stats
        st.evaluations += 1
        st.kinds[kind] += 1
        if nontrivial and v is not None:
            h = self.last_run.trace_hash if self.last_run else hashlib.sha256(plan.text()).hexdigest()[:16]
            st.nontrivial.add((kind, h))
        if len(st.samples) < 2 and random.random() < .2:
            st.samples.append(sample(case))
        if v is None:
            st.counts['skipped'] += 1
            return
        for sig, msg in v:
            if len(self.found) < 6:
                self.found.append((case_json(case), sig, msg))
        return v


def sample(case):
    p = case['plan']
    out = dict(kind=case['kind'], meta={k: v for k, v in case['meta'].items() if len(str(v)) < 200})
    out['processes'] = []
    for ph in p.phases:
        for n in ph['nodes']:
            d = dict(argv=n.args)
            if n.faults:
                d['faults'] = n.faults
            if n.pfaults:
                d['path_faults'] = n.pfaults
            if n.opts:
                d['settings'] = n.opts
            if n.knobs:
                d['table_sizes'] = n.knobs
            out['processes'].append(d)
    if p.opts:
        out['world'] = p.opts
    out['files'] = {k: len(v[0] if isinstance(v, (tuple, list)) else v) for k, v in list(p.files.items())[:8]}
    sw = [s for ph in p.phases for s in ph['switches']]
    if sw:
        out['switches'] = sw[:20]
    return out


def case_json(case):
    return dict(kind=case['kind'], plan=case['plan'].to_json(), meta=case['meta'])


def case_from(j):
    return dict(kind=j['kind'], plan=Plan.from_json(j['plan']), meta=j['meta'])


def strip(plan):
    """The same commands on the same files with nothing going wrong."""
    p = plan.copy()
    p.opts = [o for o in p.opts if o[0] in ('clock',)]
    for ph in p.phases:
        ph['switches'] = []
        ph['opts'] = []
        for n in ph['nodes']:
            n.faults, n.pfaults, n.opts, n.knobs = [], [], {}, {}
    return p


# ---------------------------------------------------------------------
# Workloads

_corpus = None


def clockless(fs):
    """The clock moves on with every operation, so only C13 and C04 deal with files that show it."""
    return [f for f in fs if not uses_clock({f: open(f, 'rb').read()})]


def corpus():
    global _corpus
    if _corpus is None:
        fs = []
        for d in ('c89', 'c99', 'c11', 'asm', 'extensions'):
            fs += sorted(glob.glob(os.path.join(REPO, 'test', d, '*.c')))
        _corpus = clockless(fs)
    return _corpus


def lacc_sources():
    return clockless(sorted(glob.glob(os.path.join(REPO, 'src', '*', '*.c'))))


class WL:
    """A set of files and the sources among them that can be compiled."""

    def __init__(self, name, files, srcs, flags=(), cwd='/w'):
        self.name, self.files, self.srcs, self.flags, self.cwd = name, files, list(srcs), list(flags), cwd
        self.link = []      # further arguments when linking

    def plan(self, args, **kw):
        return Plan([Node(['lacc'] + list(args), cwd=self.cwd, **kw)], files=self.files)

    def mode_args(self, mode, src=None):
        src = src or self.srcs[0]
        base = os.path.splitext(os.path.basename(src))[0]
        f = list(self.flags)
        if mode == 'E':
            return f + ['-E', src]
        if mode == 'Eo':
            return f + ['-E', src, '-o', 'out.i']
        if mode == 'S':
            return f + ['-S', '-o', 'out.s', src]
        if mode == 'Sd':
            return f + ['-S', src]
        if mode == 'c':
            return f + ['-c', src, '-o', 'out.o']
        if mode == 'cd':
            return f + ['-c', src]
        if mode == 'dot':
            return f + ['-dot', src, '-o', 'out.dot']
        if mode == 'dotd':
            return f + ['-dot', src]
        if mode == 'multi-c':
            return f + ['-c'] + self.srcs
        if mode == 'multi-S':
            return f + ['-S'] + self.srcs
        if mode == 'multi-E':
            return f + ['-E'] + self.srcs
        if mode == 'link':
            return f + self.srcs[:1] + self.link + self.srcs[1:] + ['-o', 'prog']
        raise ValueError(mode)


MODES1 = ['E', 'Eo', 'S', 'Sd', 'c', 'cd', 'dot', 'dotd']


NEUTRAL = ['-w', '-g', '-pedantic', '-pipe', '-MD', '-MP', '-W', '-Wall', '-Wno-error', '-march=native', '-fvisibility=hidden', '-fstrict-aliasing',
           '-fno-strict-aliasing', '-ffast-math', '-fno-common', '-fcommon', '-fPIC', '-fno-PIC', '-x', '-I/nowhere', '-I/w/none/', '-O0', '-O1', '-O2', '-O3']


def dress(w, rng, p=.5):
    """Add command-line arguments whose effect shows in the output."""
    if rng.random() > p:
        return w
    w.files = dict(w.files)
    tail, flags = '', []
    for j in range(rng.choice([0, 1, 1, 2, 5])):
        nm = 'DX%d_' % j
        k = rng.randrange(6)
        if k == 0:
            flags += ['-D' + nm]
        elif k == 1:
            flags += ['-D', nm]
        elif k == 2:
            flags += ['-D%s=%d' % (nm, rng.randrange(1 << 20))]
        elif k == 3:
            flags += ['-D', '%s=(%s)' % (nm, ' + '.join(str(rng.randrange(99)) for _ in range(rng.choice([1, 3, 200]))))]
        elif k == 4:
            flags += ['-D%s=' % nm]
            tail += '#ifdef %s\nint %s pe%d;\n#endif\n' % (nm, nm, j)
        else:
            flags += ['-D%s(x)=((x) * %d)' % (nm, rng.randrange(99))]
            tail += '#ifdef %s\nint pf%d = %s(%d);\n#endif\n' % (nm, j, nm, rng.randrange(99))
        if k < 4:
            tail += '#ifdef %s\nlong pd%d = %s;\n#else\nint pn%d;\n#endif\n' % (nm, j, nm, j)
    for j in range(rng.choice([0, 0, 1, 2])):
        d = rng.choice(['', '', 'inc/', 'deep/dir/'])
        h = '%spre%d.h' % (d, j)
        w.files['/w/' + h] = ('#define PR%d_ %d\nextern int from_pre%d;\n' % (j, rng.randrange(1000), j)).encode()
        flags += ['-include', h]
        tail += '#ifdef PR%d_\nint pi%d = PR%d_;\n#else\nint pm%d;\n#endif\n' % (j, j, j, j)
    for j in range(rng.choice([0, 0, 1, 2])):
        d = 'sys%d' % j
        w.files['/w/%s/sh%d_.h' % (d, j)] = b'#define SH%d_ %d\n' % (j, rng.randrange(1000))
        flags += rng.choice([['-isystem', d], ['-I', d], ['-I' + d], ['-I/w/' + d], ['-I%s/' % d]])
        tail += '#include <sh%d_.h>\nint ps%d = SH%d_;\n' % (j, j, j)
    for _ in range(rng.choice([0, 0, 1, 3])):
        x = rng.choice(NEUTRAL)
        flags += [x, 'c'] if x == '-x' else [x]
    for _ in range(rng.choice([0, 0, 1, 4])):
        w.link.append(rng.choice(['-lm', '-L/opt/x', '-Wl,-rpath,/y', '-Wl,--as-needed', '-rdynamic', '-lc', '-shared']))
    for s in w.srcs:
        t = w.files[w.cwd + '/' + s]
        if t.endswith(b'\n') and tail:
            w.files[w.cwd + '/' + s] = t + tail.encode()
    w.flags = w.flags + flags
    return w


def wl_gen(rng, size=None, px=None, name='a', headers=None):
    size = size if size is not None else rng.choice([0.2, 0.5, 1, 1, 2, 4])
    fs = gen.tu(rng.getrandbits(48), name, size, px=px, headers=headers)
    files = {'/w/' + k: v.encode('latin-1') for k, v in fs.items()}
    flags = ['-I.', '-Iinc']
    if rng.random() < .5:
        flags.append('-O%d' % rng.randrange(4))
    if rng.random() < .2:
        flags.append(rng.choice(['-fno-PIC', '-fPIC', '-std=c89', '-std=c11']))
    return dress(WL('gen', files, [name + '.c'], flags), rng)


def wl_file(path, rng):
    with open(path, 'rb') as f:
        data = f.read()
    d = os.path.dirname(path)
    name = os.path.basename(path)
    flags = []
    std = os.path.basename(d)
    if std in ('c89', 'c99', 'c11'):
        flags.append('-std=' + std)
    if rng.random() < .4:
        flags.append('-O%d' % rng.randrange(4))
    files = {'/w/' + name: data}
    # private headers it includes by name
    todo = [data]
    seen = set()
    while todo:
        for m in re.findall(rb'#\s*include\s*["<]([^">\n]+)[">]', todo.pop()):
            m = m.decode('latin-1')
            p = os.path.join(d, m)
            if m not in seen and os.path.isfile(p) and '..' not in m:
                seen.add(m)
                with open(p, 'rb') as f:
                    h = f.read()
                files['/w/' + m] = h
                todo.append(h)
    if '/repo/src' in path or '/src/' in path:
        flags += ['-I/repo/include']
    return dress(WL(os.path.relpath(path, REPO), files, [name], flags), rng, .3)


def wl_corpus(rng):
    return wl_file(rng.choice(corpus()), rng)


def wl_lacc(rng):
    return wl_file(rng.choice(lacc_sources()), rng)


def wl_any(rng, p_gen=.55, p_lacc=.06):
    x = rng.random()
    if x < p_gen or not corpus():
        return wl_gen(rng)
    if x < p_gen + p_lacc:
        return wl_lacc(rng)
    return wl_corpus(rng)


def wl_multi(rng, n=None, shared_px=True):
    """Several generated sources that reuse each other's names."""
    n = n or rng.choice([2, 2, 3, 4])
    files, srcs = {}, []
    for i in range(n):
        nm = 's%d' % i
        fs = gen.tu(rng.getrandbits(48), nm, rng.choice([0.2, 0.5, 1]), px='a' if shared_px else None,
                    headers=rng.choice([0, 0, 1, 2]))
        files.update({'/w/' + k: v.encode('latin-1') for k, v in fs.items()})
        srcs.append(nm + '.c')
    return dress(WL('multi', files, srcs, ['-I.', '-Iinc'] + (['-O%d' % rng.randrange(4)] if rng.random() < .5 else [])), rng)


def uses_clock(files):
    return any(b'__DATE__' in d or b'__TIME__' in d for d in
               (x[0] if isinstance(x, (tuple, list)) else x for x in files.values()))


# ---------------------------------------------------------------------
# Shrinking a failing case

def _bytes(d):
    return d[0] if isinstance(d, (tuple, list)) else d


def shrink(ctx, case, sig, deadline):
    def bad(c):
        if time.time() > deadline:
            return False
        try:
            v = ctx.spec.evaluate(ctx, c)
        except Exception:
            return False
        return bool(v) and sig in [s for s, _ in v]

    def with_plan(f):
        p = best['plan'].copy()
        f(p)
        return dict(kind=best['kind'], plan=p, meta=best['meta'])

    best = case
    progress = True
    while progress and time.time() < deadline:
        progress = False
        # drop list elements: faults, path faults, switches, options, settings
        def lists(p):
            out = [p.opts]
            for ph in p.phases:
                out += [ph['switches'], ph['opts']]
                for n in ph['nodes']:
                    out += [n.faults, n.pfaults]
            return out
        for li in range(len(lists(best['plan']))):
            n = len(lists(best['plan'])[li])
            size = n
            while size >= 1 and time.time() < deadline:
                i = 0
                while i < len(lists(best['plan'])[li]):
                    def cut(p):
                        del lists(p)[li][i:i + size]
                    c = with_plan(cut)
                    if bad(c):
                        best = c
                        progress = True
                    else:
                        i += size
                size //= 2
        for pi, ph in enumerate(best['plan'].phases):
            for ni, n in enumerate(ph['nodes']):
                for attr in ('opts', 'knobs'):
                    for k in list(getattr(n, attr)):
                        c = with_plan(lambda p: getattr(p.phases[pi]['nodes'][ni], attr).pop(k, None))
                        if bad(c):
                            best = c
                            progress = True
                for a in list(n.args[1:]):
                    if a.startswith('-O') or a.startswith('-std') or a.startswith('-f'):
                        def rm(p):
                            if a in p.phases[pi]['nodes'][ni].args:
                                p.phases[pi]['nodes'][ni].args.remove(a)
                        c = with_plan(rm)
                        if bad(c):
                            best = c
                            progress = True
        # whole files, then lines of files
        if 'files' not in best['meta']:
            for path in list(best['plan'].files):
                c = with_plan(lambda p: p.files.pop(path, None))
                if bad(c):
                    best = c
                    progress = True
            for path in sorted(best['plan'].files, key=lambda x: -len(_bytes(best['plan'].files[x]))):
                d = best['plan'].files[path]
                ro = d[1] if isinstance(d, (tuple, list)) else 0
                lines = _bytes(d).split(b'\n') if isinstance(_bytes(d), bytes) else _bytes(d).encode('latin-1').split(b'\n')
                size = max(1, len(lines) // 2)
                while size >= 1 and time.time() < deadline:
                    i = 0
                    while i < len(lines) - 1:
                        cand = lines[:i] + lines[min(i + size, len(lines) - 1):]
                        if len(cand) == len(lines):
                            break

                        def put(p):
                            p.files[path] = (b'\n'.join(cand), ro)
                        c = with_plan(put)
                        if bad(c):
                            best = c
                            lines = cand
                            progress = True
                        else:
                            i += size
                    size //= 2
    return best
