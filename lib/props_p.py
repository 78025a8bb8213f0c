"""Properties C01-C16: case generators (units) and oracles (evaluators) over simulator P."""
import datetime, os, re, struct
import gen, scan, elfcmp
from pctx import *

WRITE_ERR = [E['ENOSPC'], E['EIO'], E['EDQUOT'], E['EFBIG'], E['EPIPE'], E['EROFS']]
READ_ERR = [E['EIO'], E['EISDIR'], E['EAGAIN'], E['ESTALE'], E['ENOMEM']]
OPEN_ERR = [E['EACCES'], E['EIO'], E['EMFILE'], E['ENFILE'], E['ENOMEM'], E['ELOOP'], E['EOVERFLOW'], E['EPERM'], E['ESTALE'],
            E['ENAMETOOLONG'], E['ENXIO']]


def nz(node):
    return node.code != 0 or node.end not in ('exit', '_exit')


def pick(rng, n, k):
    """Up to k indices below n: all of them if few, else ends, powers and a random sample."""
    if n <= k:
        return list(range(n))
    s = {0, 1, n - 1, n - 2}
    while len(s) < k:
        s.add(rng.randrange(n))
    return sorted(s)


def diff_outputs(ref, r, paths=None):
    for p in sorted(paths if paths is not None else ref.files):
        a, b = ref.files.get(p), r.files.get(p)
        if a != b:
            if b is None:
                return '%s is missing' % p
            if a is None:
                return '%s appeared' % p
            n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return '%s differs at byte %d (%d bytes, expected %d)' % (p, n, len(b), len(a))
    return None


def describe(node):
    return '%s, stderr %r' % (node.how(), node.stderr[:160].decode('latin-1'))


# ---------------------------------------------------------------------
# C01: exit status 0 means the whole output was written

def eval_C01(ctx, case):
    plan = case['plan']
    ref = ctx.ref(plan)
    rn = ref.nodes[0]
    if not rn.ok() or rn.stderr:
        return None
    r = ctx.last_run = ctx.run(plan)
    n = r.nodes[0]
    v = []
    mode = case['meta'].get('mode', '')
    if n.ok():
        d = diff_outputs(ref, r)
        if d is None and n.stdout != rn.stdout:
            d = 'standard output has %d bytes, expected %d' % (len(n.stdout), len(rn.stdout))
        if d:
            v.append(('C01:incomplete:' + mode, 'exit status 0, but ' + d))
    node = plan.phases[0]['nodes'][0]
    hard = False
    for f, k in zip(node.faults, n.fired):
        if k and f[2] == 0 and f[3] != E['EINTR'] and f[0] in ('write', 'closew', 'openw', 'sync'):
            hard = True
    for f, k in zip(node.pfaults, n.fired[len(node.faults):]):
        if k:
            hard = True
    if hard and n.ok() and not v:
        v.append(('C01:ignored:' + mode, 'exit status 0 although a write, flush or close of the output failed'))
    if n.failed() and not n.stderr:
        v.append(('C01:silent:' + mode, 'exit status %d without a message' % n.code))
    return v


def unit_C01(ctx, rng, i):
    if i % 5 == 4:
        w = wl_multi(rng)
        modes = ['multi-c', 'multi-S', 'multi-E', 'link']
    else:
        w = wl_any(rng)
        modes = MODES1 + ['link']
    if i % 9 == 0:
        modes = ['link']
    quick = ctx.tier == 'quick'
    for mode in rng.sample(modes, min(len(modes), 2) if quick else len(modes)):
        base = w.plan(w.mode_args(mode))
        ref = ctx.ref(base)
        n = ref.nodes[0]
        if not n.ok() or n.stderr:
            ctx.stats.counts['workloads rejected'] += 1
            continue
        meta = dict(mode=mode, workload=w.name)

        def go(kind, **kw):
            p = base.copy()
            nd = p.phases[0]['nodes'][0]
            nd.faults = kw.get('faults', [])
            nd.opts = kw.get('opts', {})
            nd.pfaults = kw.get('pfaults', [])
            p.opts += kw.get('world', [])
            ctx.check(kind, p, meta)

        bufsz = rng.choice([0, 0, 0, 64, 512, 1024, 65536])
        o = {'bufsz': bufsz} if bufsz else {}
        prof = base.copy()
        prof.phases[0]['nodes'][0].opts = dict(o)
        pn = ctx.run(prof).nodes[0]
        nw, nc, no = pn.stat['n_write'], pn.stat['n_closew'], pn.stat['n_openw']
        k = 6 if quick else 24
        for idx in pick(rng, nw, k):
            go('write-error', faults=[['write', idx, 0, rng.choice(WRITE_ERR), 0, rng.choice([0, 0, 1])]], opts=o)
        for idx in pick(rng, nw, 3 if quick else 8):
            go('write-eintr', faults=[['write', idx, 0, E['EINTR'], 0, 0]], opts=o)
            go('short-then-error', faults=[['write', idx, 1, rng.randrange(1, 64), 0, 0],
                                           ['write', idx + 1, 0, rng.choice(WRITE_ERR), 0, rng.choice([0, 1])]], opts=o)
        go('short-writes', opts=dict(o, wchunk=rng.choice([1, 7, 100, 1000]), seed=rng.getrandbits(30)))
        for idx in pick(rng, nc, 4):
            go('close-error', faults=[['closew', idx, 0, rng.choice([E['EIO'], E['ENOSPC'], E['EDQUOT']]), rng.choice([0, 1, 100, 10000]), 0]], opts=o)
        for idx in pick(rng, no, 3):
            go('open-error', faults=[['openw', idx, 0, rng.choice(OPEN_ERR + [E['ENOSPC'], E['EROFS'], E['ENOENT']]), 0, 0]], opts=o)
        total = sum(len(d) for d in ref.files.values()) if mode != 'link' else sum(
            len(d) for p, d in ref.files.items() if p.endswith('.o'))
        if total:
            qs = {0, 1, total - 1, total // 2} | {rng.randrange(total) for _ in range(k)} | {total, total + 100}
            for q in sorted(qs):
                go('disk-full', world=[['quota', q]], opts=o)
        if n.stdout:
            t = len(n.stdout)
            for q in sorted({0, 1, t - 1, t // 2, rng.randrange(t), t}):
                go('stdout-full', opts=dict(o, stdoutfull=q))


# ---------------------------------------------------------------------
# C02: exit status 0 means every input byte was read

def eval_C02(ctx, case):
    plan = case['plan']
    meta = case['meta']
    if 'absent' in meta:
        # A header that cannot be found is the same as a header that is not there.
        refp = strip(plan)
        for p in meta['absent']:
            refp.files.pop(p, None)
        ref = ctx.ref(refp)
    else:
        ref = ctx.ref(plan)
        if not ref.nodes[0].ok():
            return None
    rn = ref.nodes[0]
    r = ctx.last_run = ctx.run(plan)
    n = r.nodes[0]
    v = []
    if n.ok():
        d = None
        if not rn.ok():
            d = 'a run without that file fails'
        else:
            d = diff_outputs(ref, r)
            if d is None and n.stdout != rn.stdout:
                d = 'standard output differs'
        if d:
            v.append(('C02:wrong:' + case['kind'], 'exit status 0 after an input error, but ' + d))
        elif 'absent' not in meta:
            node = plan.phases[0]['nodes'][0]
            for f, k in zip(node.faults, n.fired):
                if k and f[0] == 'read' and f[2] == 0 and f[3] != E['EINTR']:
                    v.append(('C02:ignored:' + case['kind'], 'exit status 0 although a read failed'))
                    break
    if n.failed() and not n.stderr:
        v.append(('C02:silent', 'exit status %d without a message' % n.code))
    if 'absent' in meta and rn.ok() and n.failed():
        v.append(('C02:absent', 'fails where a run without the file succeeds'))
    return v


def wl_headers(rng):
    """Several directories offering different headers under the same names."""
    files = {}
    dirs = ['d%d' % i for i in range(rng.randrange(2, 5))]
    names = ['h%d.h' % i for i in range(rng.randrange(1, 4))]
    src = ''
    for d in dirs:
        for h in names:
            if rng.random() < .8:
                body = 'int %s_%s[%d] = {1};\n#define V_%s %d\n' % (d, h[:2], rng.randrange(1, 50), h[:2], rng.randrange(1000))
                if rng.random() < .3:
                    body = '/* %s */\n' % ('x' * rng.choice([10, 5000])) + body
                files['/w/%s/%s' % (d, h)] = body.encode()
    for h in names:
        if rng.random() < .3:
            files['/w/' + h] = b'int cwd_%s;\n#define V_%s 7\n' % (h[:2].encode(), h[:2].encode())
        src += '#include %s\n' % (('"%s"' if rng.random() < .5 else '<%s>') % h)
    for h in names:
        src += '#ifndef V_%s\n#define V_%s -1\n#endif\nint use_%s = V_%s;\n' % (h[:2], h[:2], h[:2], h[:2])
    flags = []
    if rng.random() < .3:
        files['/w/pre.h'] = b'int from_pre = 3;\n'
        flags += ['-include', 'pre.h']
    for d in dirs:
        flags += ['-isystem', d] if rng.random() < .25 else ['-I' + d]
    files['/w/m.c'] = (src + 'int main(void) { return 0; }\n').encode()
    return WL('headers', files, ['m.c'], flags)


# -- a model of the search for headers --------------------------------

INC = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*(["<])([^">\n]*)[">]', re.M)


class SearchError(Exception):
    pass


def search_model(files, args, errs, cwd='/w'):
    """Markers each source must show, in order; None from the first source that cannot be read on.
    errs: path -> errno of opening it."""
    dirs, late, pre, srcs, i = [], [], [], [], 0
    while i < len(args):
        a = args[i]
        for o, l in (('-isystem', late), ('-include', pre), ('-I', dirs)):
            if a == o:
                l.append(args[i + 1])
                i += 1
                break
            if a.startswith(o):
                l.append(a[len(o):])
                break
        else:
            if a == '-o':
                i += 1
            elif not a.startswith('-'):
                srcs.append(a)
        i += 1

    def full(p):
        return os.path.normpath(os.path.join(cwd, p))

    def there(p):
        f = full(p)
        e = errs.get(f)
        if e is not None:
            if e in (E['ENOENT'], E['ENOTDIR']):
                return False
            raise SearchError(f)
        return f in files

    def text(p):
        d = files[full(p)]
        return d[0] if isinstance(d, (tuple, list)) else d

    def search(name):
        for d in dirs + late:
            p = d.rstrip('/') + '/' + name
            if there(p):
                return p
        raise SearchError(name)

    def scan_file(p, out, depth=0):
        if depth > 50:
            raise SearchError('nesting')
        for line in text(p).split(b'\n'):
            m = re.match(rb'int (mk_\d+);', line)
            if m:
                out.append(m.group(1).decode())
            m = INC.match(line)
            if m:
                name = m.group(2).decode()
                if m.group(1) == b'"':
                    d = os.path.dirname(p)
                    q = os.path.join(d, name)
                    if not there(q):
                        q = search(name)
                else:
                    q = search(name)
                scan_file(q, out, depth + 1)

    res = []
    for s in srcs:
        out = []
        try:
            if not there(s):
                raise SearchError(s)
            for h in pre:
                scan_file(h if there(h) else search(h), out)
            scan_file(s, out)
        except SearchError:
            res.append(None)
            break
        res.append(out)
    return srcs, res


def eval_search(ctx, case):
    plan, meta = case['plan'], case['meta']
    node = plan.phases[0]['nodes'][0]
    errs = {f[0]: f[1] for f in node.pfaults}
    srcs, want = search_model(plan.files, node.args[1:], errs)
    r = ctx.last_run = ctx.run(plan)
    n = r.nodes[0]
    v = []
    fails = None in want
    if n.ok() and fails:
        return [('C02:search-accepted', 'exit status 0 although a file of %s cannot be found or read' % srcs[want.index(None)])]
    if n.end in ('exit', '_exit') and n.code and not fails:
        return [('C02:search-rejected', 'every file is there, yet ' + describe(n))]
    if not n.ok():
        return v
    if meta['mode'] == '-E':
        got = [m.decode() for m in re.findall(rb'mk_\d+', n.stdout)]
        exp = [m for w in want for m in w]
        if got != exp:
            k = next((j for j in range(min(len(got), len(exp))) if got[j] != exp[j]), min(len(got), len(exp)))
            v.append(('C02:search', 'header number %d read is %s, the search order selects %s' % (k, got[k:k + 1], exp[k:k + 1])))
        return v
    for s, w in zip(srcs, want):
        o = '/w/' + os.path.basename(s)[:-2] + {'-S': '.s', '-c': '.o'}[meta['mode']]
        got = {m.decode() for m in re.findall(rb'mk_\d+', r.files.get(o, b''))}
        if got != set(w):
            v.append(('C02:search', '%s: headers read are %s, the search order selects %s' % (s, sorted(got), sorted(set(w)))))
            break
    return v


def wl_search(rng):
    """Directories that offer different headers under the same names, and a tree of includes through them."""
    places = ['', 'a/', 'a/b/', 'i0/', 'i1/', 'i2/', 'i0/sub/', 'i1/sub/', 'a/sub/', 'sub/', 'sy/']
    used = rng.sample(places, rng.randrange(2, len(places) + 1))
    nh = rng.randrange(1, 6)
    names = ['h%d.h' % j for j in range(nh)]
    uid = [0]
    files = {}

    def body(lvl, here):
        uid[0] += 1
        lines = ['int mk_%d;' % uid[0]]
        for _ in range(rng.choice([0, 1, 1, 2]) if lvl >= 0 else rng.randrange(1, 5)):
            if lvl + 1 >= nh:
                break
            nm = names[rng.randrange(lvl + 1, nh)]
            nm = rng.choice(['', '', '', 'sub/', '../' if here else '', 'a/' if rng.random() < .3 else '']) + nm
            lines.insert(rng.randrange(len(lines) + 1), '#include ' + ('"%s"' if rng.random() < .65 else '<%s>') % nm)
        if rng.random() < .15:
            lines.insert(0, '/* %s */' % ('x' * 5000))
        return ('\n'.join(lines) + '\n').encode()

    for d in used:
        for j, h in enumerate(names):
            if rng.random() < .75:
                files['/w/' + d + h] = body(j, d)
    srcs = []
    for j in range(rng.choice([1, 1, 2, 3])):
        d = rng.choice(['', '', 'a/', 'a/b/', 'i0/', 'src/'])
        s = '%ss%d.c' % (d, j)
        files['/w/' + s] = body(-1, d)
        srcs.append(s)
    for d in ('a/', 'a/b/', 'i0/', 'i1/', 'sub/'):
        files.setdefault('/w/%skeep' % d, b'')
    flags = []
    for d in rng.sample(['i0', 'i1', 'i2', 'a', 'a/b', '.', 'sy', 'i0/', './i1', '/w/i2', 'nowhere', 'i0'], rng.randrange(0, 6)):
        flags += rng.choice([['-I' + d], ['-I', d], ['-I' + d], ['-isystem', d]])
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        flags += ['-include', rng.choice(names + ['i0/' + names[0], 'sub/' + names[-1]])]
    return files, srcs, flags


def unit_search(ctx, rng, quick):
    for _ in range(5 if quick else 15):
        for _ in range(8):
            files, srcs, flags = wl_search(rng)
            if None not in search_model(files, flags + ['-E'] + srcs, {})[1]:
                break
        mode = rng.choice(['-E', '-E', '-S', '-c'])
        args = ['lacc'] + flags + [mode] + srcs
        base = Plan([Node(args)], files=files)
        meta = dict(mode=mode)
        ctx.check('search', base, meta)
        hs = [p for p in files if p.endswith('.h')] + ['/w/' + s for s in srcs]
        _, want = search_model(files, args[1:], {})
        if None in want:
            continue
        for _ in range(5 if quick else 20):
            p = base.copy()
            pf = {}
            for h in rng.sample(hs, min(len(hs), rng.choice([1, 1, 2, 4]))):
                pf[h] = rng.choice([E['ENOENT'], E['ENOTDIR']]) if rng.random() < .6 else rng.choice(OPEN_ERR)
            p.phases[0]['nodes'][0].pfaults = [[h, e, 0] for h, e in pf.items()]
            ctx.check('search-faults', p, meta)


def eval_C02_all(ctx, case):
    return eval_search(ctx, case) if case['kind'].startswith('search') else eval_C02(ctx, case)


def unit_C02(ctx, rng, i):
    quick = ctx.tier == 'quick'
    if i % 4 == 2:
        return unit_search(ctx, rng, quick)
    w = wl_headers(rng) if i % 3 == 0 else (wl_multi(rng) if i % 7 == 1 else wl_any(rng))
    modes = ['multi-c', 'multi-S', 'multi-E'] if w.name == 'multi' else ['E', 'S', 'c', 'Eo']
    for mode in rng.sample(modes, 1 if quick else 2):
        base = w.plan(w.mode_args(mode))
        o = {}
        if rng.random() < .4:
            o['bufsz'] = rng.choice([1, 16, 128, 1000, 65536])
        if rng.random() < .2:
            o['rchunk'] = rng.choice([1, 10, 100])
            o['seed'] = rng.getrandbits(30)
        prof = base.copy()
        prof.phases[0]['nodes'][0].opts = dict(o)
        pn = ctx.run(prof).nodes[0]
        if not pn.ok():
            ctx.stats.counts['workloads rejected'] += 1
            continue
        meta = dict(mode=mode, workload=w.name)

        def go(kind, m=meta, **kw):
            p = base.copy()
            nd = p.phases[0]['nodes'][0]
            nd.faults = kw.get('faults', [])
            nd.opts = dict(o, **kw.get('opts', {}))
            nd.pfaults = kw.get('pfaults', [])
            ctx.check(kind, p, m)

        k = 10 if quick else 40
        for idx in pick(rng, pn.stat['n_read'], k):
            go('read-error', faults=[['read', idx, 0, rng.choice(READ_ERR), 0, rng.choice([0, 0, 1])]])
        for idx in pick(rng, pn.stat['n_read'], 3):
            go('read-eintr', faults=[['read', idx, 0, E['EINTR'], 0, 0]])
            go('short-read', faults=[['read', idx, 1, rng.randrange(1, 40), 0, 0]])
            go('short-then-error', faults=[['read', idx, 1, rng.randrange(1, 40), 0, 0], ['read', idx + 1, 0, E['EIO'], 0, 0]])
        for idx in pick(rng, pn.stat['n_openr'], k):
            go('open-error', faults=[['openr', idx, 0, rng.choice(OPEN_ERR + [E['EINTR']]), 0, rng.choice([0, 0, 0, 1])]])
        mx = pn.stat['maxopen']
        for lim in range(max(3, mx - 4), mx):
            go('descriptors', opts=dict(fdlimit=lim))
        hs = [p for p in w.files if p.endswith('.h')]
        rng.shuffle(hs)
        for h in hs[:4 if quick else 12]:
            go('unreadable-header', pfaults=[[h, rng.choice(OPEN_ERR), 0]])
            go('absent-header', m=dict(meta, absent=[h]), pfaults=[[h, rng.choice([E['ENOENT'], E['ENOTDIR']]), 0]])
        for s in w.srcs:
            go('unreadable-source', pfaults=[['/w/' + s, rng.choice(OPEN_ERR + [E['ENOENT']]), 0]])


# ---------------------------------------------------------------------
# C03: output does not depend on how input bytes arrive

def squash(b):
    return re.sub(rb'\s+', b' ', b).strip()


def lines_source(rng, name, hdrs, first=0):
    """Text that spreads over lines in every way C allows, with the line numbers it must show.
    Returns text, {marker: line}, line of a final #error or None."""
    out, want, line = [], {}, 1
    k = first

    def add(t):
        nonlocal line
        out.append(t)
        line += t.count('\n')

    def sp():
        return '\\\n' * rng.choice([0, 1, 1, 2, 3])

    todo = list(hdrs)
    n = rng.randrange(4, 14)
    for j in range(n):
        w = rng.choice([1, 1, 4, 40])
        c = rng.randrange(16)
        u = '%s_%d' % (name, j)
        if c == 0:
            add('\n' * rng.randrange(1, 6))
        elif c == 1:
            add('/* %s */ int a%s;\n' % (('c%s\n' % ('*' * rng.randrange(3))) * w, u))
        elif c == 2:
            add('int a%s; // %s%s\n' % (u, 'x ' * w, ''.join('y\\\n' for _ in range(rng.randrange(3)))))
        elif c == 3:
            add('int %sa%s%s = %s1%s2;\n' % (sp(), sp(), u, sp(), sp()))
        elif c == 4:
            add('char s%s[] = "a%sb%s%s";\n' % (u, sp(), 'z' * w * 20, sp()))
        elif c == 5:
            add('#define M%s(a, b) a \\\n + b%s\nint m%s = M%s(%s1,%s2%s)%s;\n' % (
                u, ' \\\n + 1' * rng.randrange(3), u, u, '\n' * rng.randrange(3), '\n' * rng.randrange(2), '\n' * rng.randrange(3), '\n' * rng.randrange(2)))
        elif c == 6:
            add('#if %s\n%s#else\n%s#endif\n' % (rng.choice('01'), 'int t%s;\n' % u * rng.randrange(3), 'int e%s; // %s\n' % (u, sp()) * rng.randrange(3)))
        elif c == 7:
            add('/%s*%s x%s*%s/ int a%s; /%s/ y%s\n' % (sp(), '\n' * rng.randrange(3), ' \\\n' * rng.randrange(2), sp(), u, sp(), sp()))
        elif c == 8:
            add('#define D%s 1 /* %s */ + 2 // %s\n' % (u, '\n' * rng.randrange(4), sp()))
        elif c == 9:
            add("int c%s = '%sa%s';\n" % (u, sp(), sp()))
        elif c == 10:
            add('%s int a%s%s/**/; /**/ /* \n */ /* \n\n */\n' % (sp(), u, sp()))
        elif c == 11:
            add('#%s define %sQ%s%s\n#un%sdef Q%s\n' % (sp(), sp(), u, sp(), sp(), u))
        elif c == 12 and todo:
            add('%s#include "%s"%s\n' % (rng.choice(['', '/* \n */ ', ' \\\n']), todo.pop(), rng.choice(['', ' // %s' % sp(), ' /* \n\n */', sp()])))
        elif c == 13:
            add('struct s%s\n{ int a;\n\n%s } ;\n' % (u, sp()))
        elif c == 14:
            add('/*%s*/\n' % ('p\n' * w))
        else:
            add(' ' * w + '\n')
        if rng.random() < .6:
            want['L%d' % k] = line
            add('int L%d = __LINE__;\n' % k)
            k += 1
    while todo:
        add('#include "%s"\n' % todo.pop())
    if rng.random() < .3:
        d = rng.randrange(1, 5000)
        add('#line %d\n' % d)
        line = d
        add('\n' * rng.randrange(3))
        add(rng.choice(['', '/* \n */\n', '// %s\n' % sp(), 'int z%s%s;\n' % (name, sp())]))
    want['L%d' % k] = line
    add('int L%d = __LINE__;\n' % k)
    return ''.join(out), want, line


def wl_lines(rng):
    files, want, first = {}, {}, 0
    hdrs = ['h%d.h' % j for j in range(rng.choice([0, 0, 1, 2]))]
    for h in hdrs:
        t, w, _ = lines_source(rng, h[:2], [], first)
        want.update(w)
        first += 100
        files['/w/' + h] = t.encode()
    t, w, line = lines_source(rng, 'm', hdrs, first)
    want.update(w)
    err = None
    if rng.random() < .5:
        t += rng.choice(['', '\n', '/* \n\n */\n', '// a\\\n b\n'])
        err = line + t[t.rindex('__LINE__;') + 10:].count('\n')
        t += '#error stop\n'
    files['/w/m.c'] = t.encode()
    return files, want, err


def eval_lines(ctx, case):
    plan, meta = case['plan'], case['meta']
    r = ctx.last_run = ctx.run(plan)
    n = r.nodes[0]
    if meta['err'] is not None:
        m = re.search(rb'\((.*), (\d+)\) error: .*stop', n.stderr)
        if n.end != 'exit' or not n.code or not m:
            return [('C03:lines:diagnostics', 'no message for the #error: ' + describe(n))]
        if int(m.group(2)) != meta['err']:
            return [('C03:lines:diagnostics', 'the #error on line %d is reported on line %s' % (meta['err'], m.group(2).decode()))]
        return []
    if not n.ok():
        return [('C03:lines:status', 'rejected: ' + describe(n))]
    got = {a.decode(): int(b) for a, b in re.findall(rb'\b(L\d+)\s*=\s*(\d+)', n.stdout)}
    for k, x in sorted(meta['want'].items()):
        if got.get(k) != x:
            return [('C03:lines:number', '__LINE__ of %s is %s, it is on line %d' % (k, got.get(k), x))]
    return []


def unit_lines(ctx, rng, quick):
    for _ in range(6 if quick else 20):
        files, want, err = wl_lines(rng)
        p = Plan([Node(['lacc', '-E', 'm.c'])], files=files)
        nd = p.phases[0]['nodes'][0]
        m = dict(mode='E', workload='lines', want=want, err=err)
        ctx.check('lines', p, m)
        for _ in range(2):
            p = p.copy()
            nd = p.phases[0]['nodes'][0]
            nd.knobs = dict(file_buffer=rng.choice([2, 3, 5, 8, 16, 31, 64, 100, 333]))
            nd.opts = dict(rchunk=rng.choice([1, 3, 50]), seed=rng.getrandbits(30)) if rng.random() < .5 else {}
            ctx.check('lines', p, m)


def eval_C03(ctx, case):
    plan, meta = case['plan'], case['meta']
    if case['kind'] == 'lines':
        return eval_lines(ctx, case)
    if case['kind'] in ('shift', 'splice', 'comment'):
        files = {k: v.encode('latin-1') for k, v in meta['files'].items()}
        rp = strip(plan)
        rp.files.update(files)
        ref = ctx.ref(rp)
    else:
        ref = ctx.ref(plan)
    rn = ref.nodes[0]
    r = ctx.last_run = ctx.run(plan)
    n = r.nodes[0]
    v = []
    E_ = meta['mode'] in ('E', 'Eo', 'multi-E')
    if case['kind'] in ('shift', 'splice', 'comment'):
        if not rn.ok() and case['kind'] != 'shift':
            return None
        if (n.end, n.code) != (rn.end, rn.code):
            return [('C03:%s:status' % case['kind'], 'ends with %s; unedited source: %s' % (describe(n), describe(rn)))]
        f = squash if E_ else (lambda x: x)
        if n.ok() and (f(n.stdout) != f(rn.stdout) or set(r.files) != set(ref.files) or
                       any(f(r.files[p]) != f(ref.files[p]) for p in ref.files)):
            v.append(('C03:%s:output' % case['kind'], 'output changes when the source is only %s (%s)' % (
                {'shift': 'shifted', 'splice': 'split by line continuations', 'comment': 'given extra comments'}[case['kind']],
                diff_outputs(ref, r) or 'standard output')))
        if case['kind'] == 'shift' and n.stderr != rn.stderr:
            v.append(('C03:shift:diagnostics', 'diagnostics change when the first line is indented: %r, was %r' % (n.stderr[:120], rn.stderr[:120])))
        return v
    if n.behaviour() != rn.behaviour():
        v.append(('C03:%s:behaviour' % case['kind'], 'with different read sizes or table sizes: %s; otherwise %s' % (describe(n), describe(rn))))
    elif diff_outputs(ref, r) or set(r.files) != set(ref.files):
        v.append(('C03:%s:output' % case['kind'], diff_outputs(ref, r) or 'other files written'))
    return v


def break_source(rng, b):
    """Introduce a syntax or preprocessing error somewhere."""
    lines = b.split(b'\n')
    k = rng.randrange(5)
    i = rng.randrange(max(1, len(lines) - 1))
    if k == 0:
        lines.insert(i, b'int 5bad;')
    elif k == 1:
        lines.insert(i, b'#error stop here')
    elif k == 2:
        lines.insert(i, b'int x_ = undeclared_thing + ;')
    elif k == 3:
        lines.insert(i, b'#include "no-such-header.h"')
    else:
        del lines[i]
    return b'\n'.join(lines)


def big_source(rng):
    """Exercises growth of every table: many names, long lines, long tokens, long lists."""
    k = rng.randrange(8)
    n = rng.choice([20, 100, 300, 1000])
    s = ''
    if k == 0:
        s = ''.join('int v%d = %d;\n' % (j, j) for j in range(n)) + 'int f(void) { return %s; }\n' % ' + '.join('v%d' % rng.randrange(n) for _ in range(n // 2 + 1))
    elif k == 1:
        s = '#define F(%s) %s\nint x = F(%s);\n' % (','.join('a%d' % j for j in range(n // 8 + 1)), '+'.join('(a%d)' % j for j in range(n // 8 + 1)), ','.join(str(j) for j in range(n // 8 + 1)))
    elif k == 2:
        s = 'char s[] = "%s";\nint t[] = {%s};\n' % ('abc\\n' * n, ', '.join(str(rng.randrange(1 << 30)) for _ in range(n)))
    elif k == 3:
        s = ''.join('#define M%d M%d + %d\n' % (j + 1, j, j) for j in range(n // 8 + 1)) + '#define M0 1\nint x = M%d;\n' % (n // 8)
    elif k == 4:
        s = 'int f(int a) {\n switch (a) {\n' + ''.join('  case %d: a += %d; break;\n' % (j * 3, j) for j in range(n)) + ' }\n return a;\n}\n'
    elif k == 5:
        s = ''.join('const char *p%d = "string number %d";\nstatic int q%d(void) { return %d; }\n' % (j, j, j, j) for j in range(n // 2)) + \
            ''.join('int r%d(void) { return q%d(); }\n' % (j, j) for j in range(n // 2))
    elif k == 6:
        d = min(n, 150)
        s = 'int f(int a) { return %s a %s; }\n' % ('(' * d, ' + 1)' * d) + ''.join('struct s%d { int m%d; struct s%d *p; };\n' % (j, j, max(0, j - 1)) for j in range(n // 2 + 1))
    else:
        nm = 'x' * rng.choice([30, 90, 126]) 
        s = 'int %s;\n' % nm + 'int a = 1' + ' + 1' * n + ';\n' + '#define %s_m 3 %s\nint b = %s_m;\n' % (nm, '+ 4' * n, nm)
        s += '/* %s */ int c;\n' % ('long comment ' * n) + 'int d; // %s\n' % ('y' * n * 4)
    w = wl_gen(rng, .3)
    src = s if rng.random() < .5 else None
    if src is None:
        body = list(w.files.items())
        w.files['/w/a.c'] = w.files['/w/a.c'] + s.encode()
        return w
    return WL('big', {'/w/a.c': s.encode()}, ['a.c'], [])


def unit_C03(ctx, rng, i):
    quick = ctx.tier == 'quick'
    if i % 7 == 6:
        return unit_lines(ctx, rng, quick)
    x = i % 6
    w = big_source(rng) if x in (0, 3) else (wl_multi(rng) if x == 5 else wl_any(rng))
    broken = False
    if rng.random() < .2 and w.name != 'multi':
        src = w.cwd + '/' + w.srcs[0]
        w.files = dict(w.files)
        w.files[src] = break_source(rng, w.files[src])
        broken = True
    modes = ['multi-c', 'multi-S', 'multi-E'] if w.name == 'multi' else ['E', 'S', 'c']
    mode = rng.choice(modes)
    base = w.plan(w.mode_args(mode))
    ref = ctx.ref(base)
    meta = dict(mode=mode, workload=w.name)
    if ref.nodes[0].ok():
        ctx.stats.counts['workloads accepted'] += 1
    else:
        ctx.stats.counts['workloads rejected'] += 1

    def go(kind, files=None, m=meta, opts=None, knobs=None):
        p = base.copy()
        if files:
            p.files.update(files)
        p.phases[0]['nodes'][0].opts = dict(opts or {})
        p.phases[0]['nodes'][0].knobs = dict(knobs or {})
        ctx.check(kind, p, m)

    for _ in range(3 if quick else 8):
        go('chunks', opts=dict(rchunk=rng.choice([1, 2, 3, 17, 100, 1000]), seed=rng.getrandbits(30),
                               bufsz=rng.choice([1, 2, 16, 100, 4096, 4097, 8192])))
    for _ in range(6 if quick else 20):
        kn = {}
        if rng.random() < .6:
            kn['file_buffer'] = rng.choice([2, 3, 4, 5, 7, 8, 16, 31, 64, 100, 127, 256, 1000, 4095, 4097, 65536])
        if rng.random() < .5:
            kn['array'] = rng.choice([1, 2, 3, 4, 7, 15, 17, 64, 1024, 10000])
        if rng.random() < .5:
            kn['hash'] = rng.choice([2, 4, 8, 32, 64, 1024, 16384])
        if rng.random() < .5:
            kn['strtab'] = rng.choice([2, 4, 8, 32, 256, 1024, 4096, 65536])
        if not kn:
            kn['file_buffer'] = rng.randrange(2, 300)
        o = {}
        if rng.random() < .3:
            o = dict(rchunk=rng.choice([1, 5, 50]), seed=rng.getrandbits(30))
        go('tables', opts=o, knobs=kn)
    if w.name == 'multi':
        return
    src = w.cwd + '/' + w.srcs[0]
    text = w.files[src]
    hdrs = [p for p in w.files if p.endswith('.h')]
    target = src if not hdrs or rng.random() < .7 else rng.choice(hdrs)
    text = w.files[target]
    if b'??' in text or not text:
        return
    m = dict(meta, files={target: text.decode('latin-1')})
    uses_line = any(t in b for b in w.files.values() for t in (b'__LINE__', b'assert', b'__COUNTER__'))
    # shift so that some byte falls just at a multiple of the buffer size
    for _ in range(4 if quick else 16):
        at = rng.randrange(len(text))
        buf = 4096 if rng.random() < .8 else rng.choice([512, 1024, 8192, 2048])
        want = rng.randrange(1, 4) * buf + rng.randrange(-3, 4)
        pad = want - at
        while pad < 4:
            pad += buf
        fill = b' ' * pad if rng.random() < .5 else b'/*' + b'*' * (pad - 4) + b'*/' if rng.random() < .5 else b'\t' * (pad - 1) + b' '
        go('shift', files={target: fill[:pad - 2] + b'  ' if fill[:1] != b'/' else fill + text[:0]} and {target: fill + text}, m=m)
    if broken or uses_line:
        return
    starts = scan.safe_line_starts(text)
    for _ in range(2 if quick else 8):
        out, last = bytearray(), 0
        for p in sorted(rng.sample(starts, min(len(starts), rng.randrange(1, 6)))):
            out += text[last:p]
            n = rng.choice([3, 60, 4090, 4096, 9000])
            out += rng.choice([b'/*' + b'c' * n + b'*/', b'\n' * min(n, 200), b'/* a\n' + b' * b\n' * (n // 5) + b'*/', b'//' + b'd' * n + b'\n', b' ' * n])
            last = p
        out += text[last:]
        go('comment', files={target: bytes(out)}, m=m)
    for _ in range(2 if quick else 8):
        cuts = [p for p in rng.sample(range(1, len(text)), min(len(text) - 1, rng.choice([1, 3, 10, 40])))]
        # and between the characters of what is more than one
        two = [q.start() + 1 for q in re.finditer(rb'/\*|\*/|//|##|->|\+\+|<<|>>|&&|\|\||[<>=!+*-]=|\.\.|\\.|[0-9][.0-9a-zA-Z]|[a-z_][a-z_]', text)]
        cuts = sorted(set(cuts + rng.sample(two, min(len(two), rng.choice([0, 1, 4, 20])))))
        out, last = bytearray(), 0
        for p in sorted(cuts):
            if text[p - 1] == 92 or text[p] in (10, 13):
                continue
            out += text[last:p] + b'\\\n' * rng.choice([1, 1, 1, 2, 3])
            last = p
        out += text[last:]
        go('splice', files={target: bytes(out)}, m=m)


# ---------------------------------------------------------------------
# C04: builds are reproducible

def eval_C04(ctx, case):
    ref = ctx.ref(case['plan'])
    r = ctx.last_run = ctx.run(case['plan'])
    v = []
    for n, rn in zip(r.nodes, ref.nodes):
        if n.behaviour() != rn.behaviour():
            v.append(('C04:behaviour', 'in another environment: %s (stdout %d bytes); plain run: %s (stdout %d bytes)' % (
                describe(n), len(n.stdout), describe(rn), len(rn.stdout))))
            break
    d = diff_outputs(ref, r, set(ref.files) | set(r.files))
    if d and not v:
        v.append(('C04:output', 'in another environment ' + d))
    return v


def env_noise(rng):
    names = ['PATH', 'HOME', 'LANG', 'LC_ALL', 'TMPDIR', 'CPATH', 'C_INCLUDE_PATH', 'LIBRARY_PATH', 'SOURCE_DATE_EPOCH',
             'TZ', 'POSIXLY_CORRECT', 'COLUMNS', 'CC', 'CFLAGS', 'LACC', 'DEBUG', 'USER', 'PWD', 'GCC_COLORS', 'MALLOC_PERTURB_']
    vals = ['', '1', '/tmp', '/w/inc', 'de_DE.UTF-8', 'tr_TR', 'x' * 3000, '/w', '-O3', '12345', 'EST5EDT']
    env = ['%s=%s' % (n, rng.choice(vals)) for n in rng.sample(names, rng.randrange(0, 12))]
    if rng.random() < .4:
        env.append('*=' + rng.choice(vals + ['-DNOISE=1', '-E', 'int env_noise;', '0', 'yes']))
    return env


def personality(rng):
    o = dict(seed=rng.getrandbits(30), fill=rng.randrange(4), fillb=rng.randrange(256), reuse=rng.randrange(3),
             move=rng.randrange(2), place=rng.randrange(4))
    if rng.random() < .15:
        o['guard'] = rng.randrange(1, 3)
    if rng.random() < .7:
        o['stackfill'] = rng.randrange(3)
        o['stackoff'] = rng.randrange(0, 4096) * 16
    return o


def unit_C04(ctx, rng, i):
    quick = ctx.tier == 'quick'
    x = i % 8
    w = wl_multi(rng) if x == 0 else big_source(rng) if x == 1 else wl_any(rng)
    if uses_clock(w.files):
        return
    if rng.random() < .15 and w.name != 'multi':
        src = w.cwd + '/' + w.srcs[0]
        w.files = dict(w.files)
        w.files[src] = break_source(rng, w.files[src])
    modes = ['multi-c', 'multi-S', 'multi-E', 'link'] if w.name == 'multi' else ['E', 'S', 'c', 'link']
    for mode in rng.sample(modes, 2 if quick else 3):
        args = w.mode_args(mode)
        if rng.random() < .15:
            args = [rng.choice(['-v', '--dump-symbols', '--dump-types'])] + args
        base = w.plan(args)
        for _ in range(8 if quick else 24):
            p = base.copy()
            n = p.phases[0]['nodes'][0]
            n.opts = personality(rng)
            n.opts['pid'] = rng.randrange(2, 1 << 22)
            n.opts['fds0'] = rng.choice([0, 0, 1, 5, 200])
            n.env = env_noise(rng)
            p.opts = [['clock', rng.randrange(0, 1 << 32)], ['entropy', rng.getrandbits(60)]]
            for _ in range(rng.randrange(3)):
                p.opts.append(['jump', rng.randrange(500), rng.choice([-86400, 3600, 10 ** 8, -10 ** 8])])
            # the reference run has an ordinary clock and no environment
            ctx.check('environment', p, dict(mode=mode, workload=w.name, auto=rng.choice(['', 'pattern', 'zero'])))


# ref() keeps argv and files only; environment and clock are dropped there
_strip = strip


def strip_env(plan):
    p = _strip(plan)
    p.opts = []
    for ph in p.phases:
        for n in ph['nodes']:
            n.env = []
    return p


def eval_C04_env(ctx, case):
    plan = case['plan']
    ref = ctx.ref(strip_env(plan))
    r = ctx.last_run = ctx.run(plan, auto=case['meta'].get('auto', ''))
    v = []
    for n, rn in zip(r.nodes, ref.nodes):
        if n.behaviour() != rn.behaviour():
            what = 'status' if (n.end, n.code) != (rn.end, rn.code) else 'messages'
            v.append(('C04:' + what, 'in another environment: %s (stdout %d bytes); plain run: %s (stdout %d bytes)' % (
                describe(n), len(n.stdout), describe(rn), len(rn.stdout))))
            break
    d = diff_outputs(ref, r, set(ref.files) | set(r.files))
    if d and not v:
        v.append(('C04:output', 'in another environment ' + d))
    return v


# ---------------------------------------------------------------------
# C05: running out of memory never yields wrong output

def eval_C05(ctx, case):
    plan = case['plan']
    ref = ctx.ref(plan)
    rn = ref.nodes[0]
    r = ctx.last_run = ctx.run(plan)
    n = r.nodes[0]
    if n.ok():
        if not rn.ok():
            return [('C05:accepted', 'exit status 0 when memory runs out; the plain run is rejected')]
        d = diff_outputs(ref, r)
        if d is None and n.stdout != rn.stdout:
            d = 'standard output differs'
        if d:
            return [('C05:wrong', 'exit status 0 after a failed allocation, but ' + d)]
    return []


def unit_C05(ctx, rng, i):
    quick = ctx.tier == 'quick'
    x = i % 8
    w = wl_multi(rng, 2) if x == 0 else big_source(rng) if x in (1, 2) else wl_gen(rng, rng.choice([.1, .3, 1])) if x < 7 else wl_corpus(rng)
    modes = ['multi-c', 'link', 'multi-E'] if w.name == 'multi' else ['E', 'S', 'c', 'link', 'c']
    mode = rng.choice(modes)
    base = w.plan(w.mode_args(mode))
    n = ctx.ref(base).nodes[0]
    na = n.stat['n_alloc']
    kn = {}
    if rng.random() < .5:
        # small tables allocate more often
        kn = {k: v for k, v in dict(array=rng.choice([1, 2, 3]), hash=rng.choice([2, 4]), strtab=rng.choice([2, 8]),
                                    file_buffer=rng.choice([8, 64])).items() if rng.random() < .6}
        p = base.copy()
        p.phases[0]['nodes'][0].knobs = kn
        na = ctx.run(p).nodes[0].stat['n_alloc']
    for idx in pick(rng, na, 40 if quick else 200):
        p = base.copy()
        nd = p.phases[0]['nodes'][0]
        nd.knobs = dict(kn)
        nd.faults = [['alloc', idx, 0, E['ENOMEM'], 0, rng.choice([0, 0, 1])]]
        ctx.check('alloc-fails' if not nd.faults[0][5] else 'memory-gone', p, dict(mode=mode, workload=w.name))
    for _ in range(3 if quick else 20):
        p = base.copy()
        nd = p.phases[0]['nodes'][0]
        nd.knobs = dict(kn)
        nd.opts = dict(allocp=rng.choice([5, 50, 500]), seed=rng.getrandbits(30))
        ctx.check('alloc-flaky', p, dict(mode=mode, workload=w.name))


# ---------------------------------------------------------------------
# C06: each file of an invocation is compiled as if alone



def norm_asm(b):
    ids = {}

    def sub(m):
        k = m.group(0)
        if k[:1] == b'"':
            return k
        if k[:1] == b'.':
            return ids.setdefault(k, b'.N%d' % len(ids))
        return m.group(1) + ids.setdefault(k, b'.N%d' % len(ids))
    b = re.sub(rb'"(?:\\.|[^"\\\n])*"|\.[A-Za-z_]+\d+\b|\b([A-Za-z_]\w*)\.\d+\b', sub, b)
    return b


def eval_C06(ctx, case):
    plan, meta = case['plan'], case['meta']
    node = plan.phases[0]['nodes'][0]
    srcs = meta['srcs']
    r = ctx.last_run = ctx.run(plan)
    n = r.nodes[0]
    mode = meta['mode']
    flags = [a for a in node.args[1:] if a not in srcs and a != mode]
    stderr, stdout, code = b'', b'', 0
    outs = {}
    for s in srcs:
        p = plan.copy()
        p.phases[0]['nodes'][0].args = ['lacc'] + flags + [mode, s]
        rr = ctx.ref(p)
        rn = rr.nodes[0]
        stderr += rn.stderr
        stdout += rn.stdout
        outs.update(rr.files)
        if rn.end not in ('exit', '_exit'):
            return None
        if rn.code:
            code = rn.code
            break
    v = []
    if n.end not in ('exit', '_exit') or bool(n.code) != bool(code):
        v.append(('C06:status', 'one invocation: %s; one at a time: exit %d, stderr %r' % (describe(n), code, stderr[:160].decode('latin-1'))))
        return v
    if n.stderr != stderr:
        v.append(('C06:messages', 'messages differ: %r, one at a time %r' % (n.stderr[:200], stderr[:200])))
    if mode == '-E':
        if n.stdout != stdout:
            v.append(('C06:preprocessed', 'preprocessed text differs from that of the files one at a time'))
        return v
    for path in outs:
        a, b = outs[path], r.files.get(path)
        if b is None:
            v.append(('C06:missing', '%s is missing' % path))
            break
        if code and path == sorted(outs)[-1]:
            continue
        if mode == '-S':
            if norm_asm(a) != norm_asm(b):
                v.append(('C06:assembly', '%s differs from the one compiled alone: %s' % (path, first_line_diff(norm_asm(a), norm_asm(b)))))
                break
        else:
            d = elfcmp.compare(a, b)
            if d:
                v.append(('C06:object', '%s differs from the one compiled alone: %s' % (path, d)))
                break
    return v


def first_line_diff(a, b):
    la, lb = a.split(b'\n'), b.split(b'\n')
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return 'line %d is %r, alone %r' % (i + 1, y[:80], x[:80])
    return 'line count %d, alone %d' % (len(lb), len(la))


ODD = [
    b'#if 0\nint x;\n#endif\nint ok;\n', b'#define int long\nint y;\n', b'#undef __STDC__\n#define EOF_ 3\nint z;\n',
    b'static int a_g1; static int f(void) { static int s; return s++; } int g(void) { return f(); }\n',
    b'#define a_g1 hidden\n#define a_f1(x) (x)\nint q;\n', b'typedef int a_g1; typedef char a_S1; int after;\n',
    b'struct a_S1 { int a, b; }; enum { a_g2 = 4 }; struct a_S1 w;\n', b'int a_g1 = 3; const char *s = "shared string"; double d = 1.25;\n',
    b'float f = 1.5f; double g(void) { return 2.5; } const char *s = "shared string";\n', b'int a_g1(void);\nint a_g2[4];\nextern int e;\nint *p = &e;\n',
    b'#include <stddef.h>\n#define NULL 7\nint n = NULL;\n', b'#include <stddef.h>\nvoid *n = NULL; size_t m;\n', b'\n', b'/* nothing */\n', b';\n',
    b'int f(void) { goto L; L: return __LINE__; }\n', b'char *f = __FILE__;\nint l = __LINE__;\n', b'extern int used; int f(void) { return used; }\n',
    b'static int unused_fn(void) { return 1; }\nstatic int never;\nextern int never_used;\n', b'void f(int n) { int a[n]; a[0] = 1; }\n',
    b'long double ld = 1.0L;\n_Bool b = 1;\nunsigned char c[3] = {1, 2, 3};\n', b'#pragma once\nint pragma_seen;\n',
    b'int f(int a, ...) { __builtin_va_list ap; __builtin_va_start(ap, a); a = __builtin_va_arg(ap, int); return a; }\n',
    b'#define EMPTY\n#define CAT(a, b) a ## b\nint CAT(x, y) EMPTY;\n', b'#ifdef CAT\n#error leaked\n#endif\n#ifdef A_DEFINED\n#error leaked\n#endif\n#define A_DEFINED\nint k;\n',
    b'inline int f(void) { return 3; }\nint g(void) { return f(); }\n', b'int tentative; int tentative; static int st; static int st;\n',
    b'void f(void) { __asm__("nop"); }\n', b'int x[2][3] = {{1,2,3},{4}}; int *y = &x[1][1];\n',
]


def unit_C06(ctx, rng, i):
    quick = ctx.tier == 'quick'
    for _ in range(4 if quick else 10):
        n = rng.choice([2, 2, 2, 3, 4, 6])
        srcs = []
        w = wl_multi(rng, n, True)
        flags = list(w.flags)
        own = re.compile(r'/w/(inc/)?s\d')
        files = {p: d for p, d in w.files.items() if not own.match(p)}
        for j in range(n):
            x = rng.random()
            nm = 's%d.c' % j
            if x < .45:
                for p in w.files:
                    if p.startswith('/w/s%d' % j) or p.startswith('/w/inc/s%d' % j):
                        files[p] = w.files[p]
            elif x < .8:
                files['/w/' + nm] = b''.join(rng.sample(ODD, rng.choice([1, 1, 2]))) if x < .6 else rng.choice(ODD)
            elif x < .87:
                src = w.files['/w/s%d.c' % j]
                for p in w.files:
                    if p.startswith('/w/s%d' % j) or p.startswith('/w/inc/s%d' % j):
                        files[p] = w.files[p]
                files['/w/' + nm] = break_source(rng, src) if rng.random() < .6 else src[:rng.randrange(len(src))]
            else:
                c = rng.choice(corpus()) if corpus() else None
                if not c:
                    files['/w/' + nm] = rng.choice(ODD)
                else:
                    wf = wl_file(c, rng)
                    for p, d in wf.files.items():
                        if p.endswith('/' + os.path.basename(c)):
                            files['/w/' + nm] = d
                        else:
                            files[p] = d
            srcs.append(nm)
        if uses_clock(files):
            continue
        mode = rng.choice(['-c', '-c', '-c', '-S', '-E'])
        fl = flags + (['-O%d' % rng.randrange(4)] if rng.random() < .3 else [])
        if rng.random() < .2:
            fl += rng.choice([['-D', 'a_g1=a_gg'], ['-DX=1']])
        order = list(srcs)
        rng.shuffle(order)
        if rng.random() < .15 and mode == '-E':
            order.append(order[0])
        p = Plan([Node(['lacc'] + fl + [mode] + order)], files=files)
        if rng.random() < .3:
            p.phases[0]['nodes'][0].opts = personality(rng)
        ctx.check(mode, p, dict(srcs=order, mode=mode))


# ---------------------------------------------------------------------
# C07: a killed compilation is repaired by running it again

def eval_C07(ctx, case):
    plan, meta = case['plan'], case['meta']
    first = plan.phases[0]['nodes'][0]
    clean = Plan([Node(first.args, first.cwd, first.env)], files={k: v for k, v in plan.files.items() if k not in meta.get('junk', [])})
    ref = ctx.ref(clean)
    r = ctx.last_run = ctx.run(plan)
    rn = ref.nodes[0]
    n = r.node(0, len(plan.phases) - 1)
    v = []
    if n.behaviour() != rn.behaviour():
        v.append(('C07:behaviour', 'after an interrupted run: %s; in a clean directory: %s' % (describe(n), describe(rn))))
    elif rn.ok():
        d = diff_outputs(ref, r)
        if d:
            v.append(('C07:output', 'after an interrupted run and a rerun ' + d))
    return v


def unit_C07(ctx, rng, i):
    quick = ctx.tier == 'quick'
    w = wl_multi(rng) if i % 3 == 0 else wl_any(rng)
    modes = ['multi-c', 'multi-S', 'link'] if w.name == 'multi' else ['Eo', 'S', 'Sd', 'c', 'cd', 'link']
    mode = rng.choice(modes)
    args = w.mode_args(mode)
    base = w.plan(args)
    ref = ctx.ref(base)
    gop = ref.gop
    nops = ref.nodes[0].stat['n_op']
    outs = list(ref.files)
    # operations other than allocations are the interesting kill points
    def again(p, k=1):
        for _ in range(k):
            p.phase([Node(['lacc'] + args, cwd=w.cwd)])
        return p
    for idx in pick(rng, nops, 10 if quick else 60):
        p = base.copy()
        p.phases[0]['nodes'][0].faults = [['op', idx, 3, 0, 0, 0]]
        ctx.check('kill', again(p), dict(mode=mode, workload=w.name))
    st = ref.nodes[0].stat
    for cls in ('write', 'closew', 'openw', 'read', 'openr', 'fork', 'wait', 'rename', 'unlink'):
        for idx in pick(rng, st.get('n_' + cls, 0), 3 if quick else 8):
            p = base.copy()
            p.phases[0]['nodes'][0].faults = [[cls, idx, 3, 0, 0, 0]]
            if rng.random() < .5:
                p.phases[0]['nodes'][0].faults.insert(0, ['write', rng.randrange(max(1, st['n_write'])), 1, rng.randrange(1, 300), 0, 0])
            ctx.check('kill-' + cls, again(p), dict(mode=mode, workload=w.name))
    for _ in range(8 if quick else 40):
        p = base.copy()
        p.opts = [['power', rng.randrange(1, gop + 3), rng.getrandbits(40)]]
        ctx.check('power-loss', again(p), dict(mode=mode, workload=w.name))
    # two interruptions in a row
    for _ in range(2 if quick else 8):
        p = base.copy()
        p.phases[0]['nodes'][0].faults = [['op', rng.randrange(nops), 3, 0, 0, 0]]
        p.phase([Node(['lacc'] + args, cwd=w.cwd, faults=[['op', rng.randrange(nops), 3, 0, 0, 0]])])
        ctx.check('kill-twice', again(p), dict(mode=mode, workload=w.name))
    # whatever the output held before
    junk = [b'', b'x', b'\x7fELF' + b'\0' * 60, b'garbage\n' * 3000, b'\0' * 100000] + [d[:rng.randrange(len(d) + 1)] + b'z' * 50 for d in ref.files.values()]
    for _ in range(3 if quick else 10):
        fs = {o: rng.choice(junk) for o in outs if rng.random() < .8}
        p = base.copy()
        p.files.update(fs)
        ctx.check('leftover', p, dict(mode=mode, workload=w.name, junk=list(fs)))
    # a different source was compiled to the same output first
    if w.name == 'gen':
        w2 = wl_gen(rng, rng.choice([.2, 3]))
        p = Plan([Node(['lacc'] + args, cwd=w.cwd)], files=w2.files)
        p.phases[0]['nodes'][0].faults = [['op', rng.randrange(nops), 3, 0, 0, 0]] if rng.random() < .5 else []
        p.phases.append(dict(nodes=[Node(['lacc'] + args, cwd=w.cwd)], switches=[], opts=[], files=dict(w.files), remove=[]))
        ctx.check('other-source', p, dict(mode=mode, workload=w.name, clean=True))


def eval_C07_all(ctx, case):
    if case['meta'].get('clean'):
        plan = case['plan']
        last = plan.phases[-1]
        fs = dict(plan.files)
        fs.update(last.get('files', {}))
        n = last['nodes'][0]
        ref = ctx.ref(Plan([Node(n.args, n.cwd)], files=fs))
        r = ctx.last_run = ctx.run(plan)
        rn, nn = ref.nodes[0], r.node(0, len(plan.phases) - 1)
        if nn.behaviour() != rn.behaviour():
            return [('C07:behaviour', 'after another source: %s; clean: %s' % (describe(nn), describe(rn)))]
        if rn.ok():
            d = diff_outputs(ref, r)
            if d:
                return [('C07:output', 'after another source was compiled to the same output ' + d)]
        return []
    return eval_C07(ctx, case)


# ---------------------------------------------------------------------
# C08: concurrent compilations do not disturb each other

def eval_C08(ctx, case):
    plan = case['plan']
    nodes = plan.phases[0]['nodes']
    refs = []
    for n in nodes:
        refs.append(ctx.ref(Plan([Node(n.args, n.cwd, n.env)], files=plan.files)))
    r = ctx.last_run = ctx.run(plan)
    v = []
    for i, (n, ref) in enumerate(zip(nodes, refs)):
        if n.faults:
            continue
        rn, nn = ref.nodes[0], r.node(i)
        if nn.behaviour() != rn.behaviour():
            v.append(('C08:behaviour', 'process %d (%s) among others: %s; alone: %s' % (i, ' '.join(n.args), describe(nn), describe(rn))))
            break
        if rn.ok():
            d = diff_outputs(ref, r)
            if d:
                v.append(('C08:output', 'process %d (%s): %s' % (i, ' '.join(n.args), d)))
                break
    return v


def unit_C08(ctx, rng, i):
    quick = ctx.tier == 'quick'
    k = rng.choice([2, 2, 3, 4, 6])
    w = wl_multi(rng, k)
    if rng.random() < .3:
        w2 = wl_any(rng)
        w.files.update({p: d for p, d in w2.files.items() if p not in w.files})
    nodes, total = [], 0
    same = rng.random() < .4
    for j in range(k):
        src = w.srcs[0] if same else w.srcs[j]
        m = rng.choice(['E', 'Eo', 'S', 'c', 'link', 'cd', 'Sd', 'link', 'dot'])
        f = list(w.flags)
        st = src[:-2]
        if m == 'E':
            a = f + ['-E', src]
        elif m == 'Eo':
            a = f + ['-E', src, '-o', 'o%d.i' % j]
        elif m == 'S':
            a = f + ['-S', src, '-o', 'o%d.s' % j]
        elif m == 'dot':
            a = f + ['-dot', src, '-o', 'o%d.dot' % j]
        elif m == 'c':
            a = f + ['-c', src, '-o', 'o%d.o' % j]
        elif m == 'Sd' and not same:
            a = f + ['-S', src]
        elif m == 'cd' and not same:
            a = f + ['-c', src]
        elif m == 'link' and not same:
            a = f + [src, '-o', 'prog%d' % j]
        else:
            a = f + ['-c', src, '-o', 'o%d.o' % j]
        cwd = '/w'
        n = Node(['lacc'] + a, cwd=cwd)
        nodes.append(n)
    # outputs of an earlier run may be there
    outs = set()
    for n in nodes:
        outs |= set(ctx.ref(Plan([n], files=w.files)).files)
    if rng.random() < .6:
        w.files = dict(w.files)
        for o in sorted(outs):
            if rng.random() < .8:
                w.files[o] = rng.choice([b'', b'old contents\n', b'old ' * 3000])
    total = sum(ctx.ref(Plan([n], files=w.files)).gop for n in nodes)
    for _ in range(12 if quick else 60):
        p = Plan([n.copy() for n in nodes], files=w.files)
        style = rng.randrange(4)
        if style == 0:
            p.opts = [['every', rng.choice([1, 2, 3, 10, 30]), rng.getrandbits(40)]]
        else:
            m = rng.choice([1, 2, 5, 20, 100, 400])
            p.phases[0]['switches'] = [[op, rng.randrange(k)] for op in sorted(rng.randrange(total) for _ in range(m))]
        for j, n in enumerate(p.phases[0]['nodes']):
            n.opts = dict(pid=rng.choice([100 + j, 100 + j, rng.randrange(2, 1 << 20) * 16 + j]))
            if rng.random() < .3:
                n.opts.update(personality(rng))
            if rng.random() < .2:
                n.opts['ldlate'] = rng.randrange(2)
        kind = 'interleave'
        if rng.random() < .35:
            j = rng.randrange(k)
            p.phases[0]['nodes'][j].faults = [['op', rng.randrange(max(1, total // k)), 3, 0, 0, 0]]
            kind = 'interleave-kill'
        ctx.check(kind, p, dict(processes=k))


# ---------------------------------------------------------------------
# C09: linking happens only after success and its failure is seen

def link_model(args, srcs):
    """User part of the linker command line that the arguments of lacc call for, in order."""
    out, i = [], 0
    while i < len(args):
        a = args[i]
        if a in srcs:
            out.append(os.path.splitext(os.path.basename(a))[0] + '.o')
        elif a == '-o':
            out += ['-o', args[i + 1]]
            i += 1
        elif a in ('-shared', '-static'):
            out.append(a)
        elif a in ('-I', '-D', '-isystem', '-include', '-x'):
            i += 1
        elif a in ('-l', '-L'):
            out += [a, args[i + 1]]
            i += 1
        elif a.startswith('-l') or a.startswith('-L'):
            out.append(a)
        elif a.startswith('-Wl,'):
            out += a[4:].split(',')
        elif a == '-rdynamic':
            out.append('-export-dynamic')
        elif a.startswith('-'):
            pass
        else:
            out.append(a)
        i += 1
    return out


def eval_C09(ctx, case):
    plan, meta = case['plan'], case['meta']
    node = plan.phases[0]['nodes'][0]
    srcs = meta['srcs']
    r = ctx.last_run = ctx.run(plan)
    n = r.nodes[0]
    v = []
    # what each source gives on its own
    good, objs = True, {}
    cflags = meta['cflags']
    for s in srcs:
        rr = ctx.ref(Plan([Node(['lacc'] + cflags + ['-c', s], node.cwd)], files=plan.files))
        if not rr.nodes[0].ok():
            good = False
            break
    if good:
        # the very bytes: names of local objects are numbered across the files of an invocation
        rr = ctx.ref(Plan([Node(['lacc'] + cflags + ['-c'] + srcs, node.cwd)], files=plan.files))
        if rr.nodes[0].ok():
            objs = rr.files
    faulty = any(f[0] not in ('wait', 'fork', 'exec', 'op') for f in node.faults)
    ex = r.execs
    if not good and ex:
        v.append(('C09:link-after-failure', 'the linker was started although a source does not compile'))
    if len(ex) > 1:
        v.append(('C09:twice', 'the linker was started %d times' % len(ex)))
    if n.end not in ('exit', '_exit'):
        return v
    if ex and not v:
        want = link_model(node.args[1:], srcs)
        got = ex[0]['argv']
        # the model's words appear in the command line, in order and contiguous
        m = len(want)
        if not any(got[j:j + m] == want for j in range(len(got) - m + 1)):
            v.append(('C09:arguments', 'the linker was called with %s, expected %s in there' % (' '.join(got), ' '.join(want))))
        else:
            # what lacc adds itself: startup code that matches the kind of link, wherever its flag is given
            crt = [os.path.basename(a) for a in got if re.match(r'.*/[A-Za-z]*crt[01]\.o$', a)]
            if ('-shared' in want) != (not crt) or len(crt) > 1:
                v.append(('C09:startup', 'a %s link with %s' % ('shared' if '-shared' in want else 'program', ' and '.join(crt) or 'no startup code')))
        if not faulty:
            have = {}
            for l in ex[0]['objs'].decode().split('\n'):
                t = l.split()
                if len(t) == 3:
                    have[t[0]] = (int(t[1]), t[2])
            for p, d in objs.items():
                if p not in have:
                    v.append(('C09:missing-object', 'object %s did not exist when the linker started' % p))
                    break
                if have[p][0] != len(d):
                    v.append(('C09:incomplete-object', 'object %s had %d of %d bytes when the linker started' % (p, have[p][0], len(d))))
                    break
    status = n.children[-1] if n.children else None
    o = node.opts
    linked_ok = bool(ex) and not o.get('ldexit') and not o.get('ldsignal') and not any(
        f[0] in ('exec', 'fork') and k for f, k in zip(node.faults, n.fired))
    if n.code == 0 and not linked_ok:
        why = ('a source does not compile' if not good else 'the linker was not started' if not ex else 'the linker did not succeed')
        v.append(('C09:status', 'exit status 0 although ' + why))
    if n.code == 0 and n.children and n.children[-1][0] not in (3,):
        v.append(('C09:not-awaited', 'exit status 0 without waiting for the linker'))
    clean = linked_ok and good and not [f for f, k in zip(node.faults, n.fired) if k and not (f[0] == 'wait' and f[3] == E['EINTR'])]
    if n.code != 0 and clean and not node.pfaults and not plan.opts:
        v.append(('C09:spurious', 'exit status %d although everything succeeded (%r)' % (n.code, n.stderr[:100])))
    return v


def unit_C09(ctx, rng, i):
    quick = ctx.tier == 'quick'
    n = rng.choice([1, 1, 2, 3])
    w = wl_multi(rng, n, False)
    args, srcs = [], list(w.srcs)
    if rng.random() < .25:
        s = rng.choice(srcs)
        w.files['/w/' + s] = break_source(rng, w.files['/w/' + s])
    items = list(srcs)
    rng.shuffle(items)
    srcs = list(items)
    extra = []
    files = dict(w.files)
    for j in range(rng.randrange(0, 5)):
        e = rng.choice(['-lm', ['-l', 'dl'], '-L/opt/x', ['-L', 'lib dir'], 'pre%d.o' % j, 'arch%d.a' % j, '-Wl,-rpath,/y', '-Wl,--as-needed',
                        '-shared', '-static', '-rdynamic', '-Wl,-soname=x,-z,now', 'asm%d.s' % j, ['-o', 'prog']])
        e = e if isinstance(e, list) else [e]
        if e[0] in ('-o', '-shared', '-static') and e in extra:
            continue
        if e[0].endswith('.o') or e[0].endswith('.a'):
            files['/w/' + e[0]] = b'object %d' % j
        extra.append(e)
    seq = [[s] for s in items]
    for e in extra:
        seq.insert(rng.randrange(len(seq) + 1), e)
    if rng.random() < .7 and not any(e[0] == '-o' for e in extra):
        seq.insert(rng.randrange(len(seq) + 1), ['-o', rng.choice(['prog', 'a.exe', 'out.so'])])
    cf = list(w.flags) + (['-fno-PIC'] if rng.random() < .2 else [])
    while '-x' in cf:
        # would make sources of the objects, too
        del cf[cf.index('-x'):cf.index('-x') + 2]
    argv = ['lacc'] + cf + [a for e in seq for a in e]
    base = Plan([Node(argv)], files=files)
    meta = dict(srcs=srcs, cflags=cf)
    st = ctx.ref(base).nodes[0].stat

    def go(kind, opts=None, faults=(), world=()):
        p = base.copy()
        nd = p.phases[0]['nodes'][0]
        nd.opts, nd.faults = dict(opts or {}), [list(f) for f in faults]
        p.opts = [list(o) for o in world]
        ctx.check(kind, p, meta)

    go('plain')
    go('late', dict(ldlate=1))
    for _ in range(2 if quick else 6):
        go('linker-exits', dict(ldexit=rng.choice([1, 2, 127, 128, 255, rng.randrange(1, 256)]), ldlate=rng.randrange(2), ldpartial=rng.randrange(2)))
        go('linker-killed', dict(ldsignal=rng.choice([1, 2, 6, 9, 11, 13, 15, 139]), ldlate=rng.randrange(2), ldpartial=rng.randrange(2)))
    for e in ('EAGAIN', 'ENOMEM'):
        go('fork-fails', faults=[['fork', 0, 0, E[e], 0, rng.randrange(2)]])
    for e in ('ENOENT', 'EACCES', 'ENOMEM', 'ENOEXEC', 'EIO', 'ETXTBSY'):
        go('exec-fails', dict(ldlate=rng.randrange(2)), faults=[['exec', 0, 0, E[e], 0, 1]])
    for k in (1, 2, 5):
        f = [['wait', j, 0, E['EINTR'], 0, 0] for j in range(k)]
        go('wait-interrupted', dict(ldlate=rng.randrange(2)), faults=f)
        go('wait-interrupted-fail', dict(ldlate=rng.randrange(2), ldexit=1), faults=f)
        go('wait-interrupted-kill', dict(ldlate=rng.randrange(2), ldsignal=9), faults=f)
    go('wait-fails', dict(ldlate=1), faults=[['wait', 0, 0, E['ECHILD'], 0, 1]])
    go('wait-fails', dict(ldlate=1, ldexit=3), faults=[['wait', 0, 0, E['ECHILD'], 0, 1]])
    for idx in pick(rng, st['n_write'], 3 if quick else 10):
        go('write-error', faults=[['write', idx, 0, rng.choice(WRITE_ERR), 0, 0]])
    for idx in pick(rng, st['n_closew'], 2):
        go('close-error', faults=[['closew', idx, 0, E['EIO'], rng.choice([0, 50]), 0]])
    for idx in pick(rng, st['n_openw'], 2):
        go('open-error', faults=[['openw', idx, 0, E['EACCES'], 0, 0]])
    for idx in pick(rng, st['n_read'], 2):
        go('read-error', faults=[['read', idx, 0, E['EIO'], 0, 0]])
    for idx in pick(rng, st['n_alloc'], 3 if quick else 10):
        go('alloc-fails', faults=[['alloc', idx, 0, E['ENOMEM'], 0, 0]])
    go('disk-full', world=[['quota', rng.randrange(3000)]])


# ---------------------------------------------------------------------
# C10: input that ends too early is rejected

def cut_state(text, whole_generated):
    st = scan.scan(text)
    if st.confused:
        return None
    if st.open == 'line comment' or st.open == 'directive':
        return 'a line'
    if st.open:
        return 'a %s' % st.open
    if st.conds > 0:
        return 'a conditional group'
    if text and text[-1:] != b'\n':
        return 'a line'
    return st


def eval_C10(ctx, case):
    plan, meta = case['plan'], case['meta']
    path = meta['path']
    text = plan.files[path]
    text = text[0] if isinstance(text, (tuple, list)) else text
    st = cut_state(text, meta.get('gen'))
    if st is None:
        return None
    if isinstance(st, str):
        where = st
    elif meta.get('source') and st.depth > 0 and meta['mode'] != '-E':
        where = 'parentheses, brackets or braces'
    elif meta.get('source') and meta.get('gen') and meta['mode'] != '-E' and st.last and st.last not in (b';', b'}'):
        where = 'a declaration'
    elif meta.get('source') and meta.get('macro') and meta['mode'] == '-E' and st.depth > 0 and False:
        where = 'a macro call'
    elif meta.get('call'):
        where = 'a macro call'
    else:
        return None
    r = ctx.last_run = ctx.run(plan)
    n = r.nodes[0]
    ctx.stats.kinds['inside ' + where] += 1
    v = []
    if n.ok():
        v.append(('C10:accepted:%s' % where.replace(' ', '-'), 'text that stops inside %s is accepted' % where))
    elif n.end in ('exit', '_exit') and not n.stderr:
        v.append(('C10:silent', 'rejected without a message'))
    elif n.end not in ('exit', '_exit'):
        v.append(('C10:crash:%s' % where.replace(' ', '-'), 'text that stops inside %s: %s' % (where, describe(n))))
    return v


OPENERS = [
    ('/* open\n', '*/\n', 0), ('int k0; /* open', ' */\n', 0), ('/**', '/\n', 0), ('/', '/ x\n', 0),
    ('#if 1\n', '#endif\n', 0), ('#if 0\n', '#endif\n', 0), ('#ifdef NOPE\n', '#else\n#endif\n', 0), ('#ifdef NOPE\n#else\n', '#endif\n', 0),
    ('#ifndef G_\n#define G_\n#ifdef G_\nint k1;\n#endif\n', '#endif\n', 0), ('#if 1\n#elif 1\n', '#endif\n', 0), ('#if 0\n#elif 1\n#if 1\n#endif\n', '#endif\n', 0),
    ('#if 0\n#if 1\n', '#endif\n#endif\n', 0), ('#if 1\n#if 0\n', '#endif\n#endif\n', 0), ('#if 0\n/* ', ' */\n#endif\n', 0), ('#if 0\n#else\n#if 0\n#else\n#endif\n', '#endif\n', 0),
    ('char s0[] = "abc', 'def";\n', 0), ('int c0 = \'a', '\';\n', 0), ('#define OBJ', ' 1\n', 0), ('#define FN(a', ') a\n', 0), ('#undef', ' OBJ\n', 0), ('#incl', 'ude "n.h"\n', 0),
    ('int a0 = ID(1\n', ');\n', 1), ('int a0 = ID(', '1);\n', 1), ('int a0 = MAC(1,\n', '2);\n', 1), ('int a0 = MAC(ID(1), (2\n', '));\n', 1), ('ID(int a0;\n', ')\n', 1), ('int a0 = VAR(1\n', ');\n', 1),
]
OPEN_PRE = '#define ID(x) x\n#define MAC(a, b) (a + b)\n#define VAR(...) __VA_ARGS__\n'


def unit_C10_leak(ctx, rng):
    """What a file leaves open is completed by the text that happens to be read next."""
    for o, c, call in OPENERS:
        pre = OPEN_PRE if call else ''
        pre += ''.join('int p%d%s;\n' % (j, rng.choice(['', '[3]', ' = 1', '(void)'])) for j in range(rng.choice([0, 0, 1, 3, 40])))
        mode = rng.choice(['-c', '-S', '-E'])
        shape = 'files' if call else rng.choice(['header', 'header', 'nested', 'include', 'include2', 'files', 'files'])
        a, post = (pre + o).encode(), (c + 'int after;\n').encode()
        files, args = {'/w/n.h': b'\n'}, ['a.c', '-o', 'out']
        path = '/w/h.h'
        if shape == 'header':
            files['/w/h.h'] = a
            files['/w/a.c'] = b'#include "h.h"\n' + post
        elif shape == 'nested':
            files['/w/h.h'] = a
            files['/w/g.h'] = b'#include "h.h"\n' + post
            files['/w/a.c'] = b'int before;\n#include "g.h"\nint x;\n'
        elif shape == 'include':
            files['/w/h.h'] = a
            files['/w/a.c'] = post
            args = ['-include', 'h.h'] + args
        elif shape == 'include2':
            files['/w/h.h'] = a
            files['/w/h2.h'] = post
            files['/w/a.c'] = b'int x;\n'
            args = ['-include', 'h.h', '-include', 'h2.h'] + args
        else:
            path = '/w/a.c'
            files['/w/a.c'] = a
            files['/w/b.c'] = pre.encode() + post
            args = rng.choice([['a.c', 'b.c'], ['a.c', 'b.c', 'b.c'], ['n.c', 'a.c', 'b.c']])
            files['/w/n.c'] = b'int n;\n'
        p = Plan([Node(['lacc', mode] + args)], files=files)
        ctx.check('completed by the next text', p, dict(path=path, mode=mode, call=bool(call), source=False, workload='leak:' + shape))


def unit_C10(ctx, rng, i):
    quick = ctx.tier == 'quick'
    x = i % 7
    if x == 6:
        return unit_C10_leak(ctx, rng)
    if x == 5:
        w = wl_corpus(rng) if corpus() else wl_gen(rng)
    elif x == 4:
        # unfinished macro calls, at every place
        nm, ar = 'MAC', rng.randrange(1, 4)
        body = '#define MAC(%s) %s\n#define ID(x) x\n#define VAR(...) __VA_ARGS__\n' % (','.join('p%d' % j for j in range(ar)), '+'.join('p%d' % j for j in range(ar)))
        calls = ['int a = MAC(', 'int a = MAC(1', 'int a = MAC(1,', 'int a = MAC((1,2', 'int a = ID(ID(', 'int a = ID(MAC(1', 'int a = ID (\n\n', 'int a = ID( /* c */ 3',
                 'int a = VAR(1, 2', 'ID("s"', 'ID(\'c\'', '#if ID(', '#if MAC(1', '#define F(x', '#if defined(', 'int b; ID(x\n#define Q 1\n']
        text = body + rng.choice(calls) + rng.choice(['\n', '\n\n', '\n/* c */\n', ''])
        hdr = rng.random() < .3
        if hdr:
            files = {'/w/h.h': text.encode(), '/w/a.c': b'#include "h.h"\nint after;\n' if rng.random() < .5 else b'#include "h.h"\n'}
        else:
            files = {'/w/a.c': text.encode()}
        for mode in ('-E', '-c', '-S'):
            if hdr and files['/w/a.c'].endswith(b'after;\n') and mode == '-E':
                pass
            p = Plan([Node(['lacc', mode, 'a.c', '-o', 'out'])], files=files)
            ctx.check('macro-call', p, dict(path='/w/h.h' if hdr else '/w/a.c', mode=mode, call=True, source=not hdr, workload='macro'))
        return
    else:
        w = wl_gen(rng, rng.choice([.2, .5, 1]))
    src = '/w/' + w.srcs[0]
    base = w.plan(w.flags + ['-c', w.srcs[0], '-o', 'out'])
    if not ctx.ref(base).nodes[0].ok():
        ctx.stats.counts['workloads rejected'] += 1
        return
    whole = scan.scan(w.files[src])
    usable = not (whole.confused or whole.open or whole.conds or whole.depth)
    paths = [src] * 3 + [p for p in w.files if p != src]
    for _ in range(40 if quick else 200):
        path = rng.choice(paths)
        text = w.files[path]
        if len(text) < 2:
            continue
        cut = rng.randrange(1, len(text))
        if rng.random() < .5:
            # complete lines only: the cut is not betrayed by a missing newline
            cut = text.rfind(b'\n', 0, cut) + 1
        t = text[:cut]
        kind = 'truncate'
        x = rng.random()
        if x < .1:
            t = t + rng.choice([b'/* never closed\n', b'"open\n', b"'\n", b'#if 1\n', b'#ifdef X\n', b'#if 0\n', b'#if 0\n#else\n', b'{\n', b'(\n', b'#define F(a\n',
                                b'int x = (3\n', b'struct s {\n int a;\n', b'int f(void) {\n', b'/*', b'#ifndef H_\n#define H_\nint z;\n'])
            kind = 'unfinished tail'
        elif x < .2:
            # zero-filled or newline-terminated tails as left by a torn write
            t = t + b'\n'
            kind = 'truncate-newline'
        if not t:
            continue
        p = base.copy()
        mode = rng.choice(['-c', '-c', '-S', '-E'])
        p.phases[0]['nodes'][0].args = ['lacc'] + w.flags + [mode, w.srcs[0], '-o', 'out']
        p.files[path] = t
        ctx.check(kind, p, dict(path=path, mode=mode, source=path == src and usable, gen=w.name == 'gen' and kind == 'truncate', workload=w.name))


# ---------------------------------------------------------------------
# C11 / C12: bounded work, messages instead of crashes

def limits(plan, ref):
    size = sum(len(d[0] if isinstance(d, (tuple, list)) else d) for d in plan.files.values())
    st = ref.nodes[0].stat
    return dict(stepbound=3 * st['steps'] + 600 * size + 2000000, opbound=10 * st['n_op'] + 20 * size + 4 * st['rbytes'] + 20000,
                membound=(64 << 20) + 8 * st['bytes'])


def eval_C11(ctx, case):
    plan = case['plan']
    meta = case['meta']
    full = plan
    if 'whole' in meta:
        full = plan.copy()
        full.files.update({k: v.encode('latin-1') for k, v in meta['whole'].items()})
    ref = ctx.ref(full)
    p = plan.copy()
    for n in p.phases[0]['nodes']:
        for k, v in limits(full, ref).items():
            n.opts.setdefault(k, v)
    r = ctx.last_run = ctx.run(p)
    n = r.nodes[0]
    if n.end in ('hang', 'mem', 'broken'):
        return [('C11:' + n.end, 'no end within %s: %s' % (
            'bounded memory' if n.end == 'mem' else 'bounded work', n.how()))]
    return []


def eval_C12(ctx, case):
    plan = case['plan']
    r = ctx.last_run = ctx.run(plan)
    n = r.nodes[0]
    if n.end in ('abort', 'signal', 'heap'):
        return [('C12:crash:%s' % n.end, '%s: %s' % (case['meta'].get('what', case['kind']), describe(n)))]
    if n.end in ('hang', 'mem', 'broken'):
        return [('C12:hang', '%s: %s' % (case['meta'].get('what', case['kind']), n.how()))]
    if n.failed() and not n.stderr:
        return [('C12:silent', '%s: exit status %d without a message' % (case['meta'].get('what', case['kind']), n.code))]
    if case['meta'].get('must_fail') and n.ok():
        return [('C12:accepted', '%s: exit status 0' % case['meta'].get('what', case['kind']))]
    return []


def fault_menu(ctx, rng, base, w, k, emit, allocs=False):
    """Emit cases with every kind of environment error at sampled places."""
    st = ctx.ref(base).nodes[0].stat

    def one(kind, faults=(), opts=None, pfaults=(), world=(), files=None, remove=(), **m):
        p = base.copy()
        nd = p.phases[0]['nodes'][0]
        nd.faults, nd.opts, nd.pfaults = [list(f) for f in faults], dict(opts or {}), [list(f) for f in pfaults]
        p.opts += [list(o) for o in world]
        if files:
            p.files.update(files)
        for x in remove:
            p.files.pop(x, None)
        emit(kind, p, m)

    for idx in pick(rng, st['n_read'], k):
        one('read-error', [['read', idx, 0, rng.choice(READ_ERR), 0, rng.randrange(2)]])
        if rng.random() < .3:
            one('read-eintr', [['read', idx, 0, E['EINTR'], 0, rng.randrange(2)]])
    for idx in pick(rng, st['n_openr'], k):
        one('open-error', [['openr', idx, 0, rng.choice(OPEN_ERR + [E['ENOENT']]), 0, rng.randrange(2)]])
    for idx in pick(rng, st['n_write'], k):
        one('write-error', [['write', idx, 0, rng.choice(WRITE_ERR), 0, rng.randrange(2)]])
    for idx in pick(rng, st['n_closew'], 2):
        one('close-error', [['closew', idx, 0, E['EIO'], 0, 0]])
    for idx in pick(rng, st['n_openw'], 2):
        one('openw-error', [['openw', idx, 0, rng.choice(OPEN_ERR + [E['ENOSPC'], E['EROFS']]), 0, 0]])
    for q in [0, 1, 17] + [rng.randrange(1, 20000) for _ in range(2)]:
        one('disk-full', world=[['quota', q]])
    one('stdout-full', opts=dict(stdoutfull=rng.choice([0, 1, 10, 100])))
    for lim in range(3, min(st['maxopen'] + 1, 9)):
        one('descriptors', opts=dict(fdlimit=lim))
    src = '/w/' + w.srcs[-1]
    one('missing-source', remove=[src], what='missing source', must_fail=True)
    p = base.copy()
    p.files.pop(src)
    p.dirs = [src]
    emit('directory-source', p, dict(what='a directory in place of the source', must_fail=True))
    hs = [f for f in w.files if f.endswith('.h')]
    for h in rng.sample(hs, min(len(hs), 2)):
        one('missing-header', remove=[h])
        p = base.copy()
        p.files.pop(h)
        p.dirs = [h]
        emit('directory-header', p, dict(what='a directory in place of a header'))
    if st['n_fork']:
        one('fork-fails', [['fork', 0, 0, E['EAGAIN'], 0, 0]], must_fail=True, what='fork fails')
        one('exec-fails', [['exec', 0, 0, E['ENOENT'], 0, 1]], must_fail=True, what='exec fails')
        one('wait-fails', [['wait', 0, 0, rng.choice([E['EINTR'], E['ECHILD']]), 0, 0]])
        one('linker-dies', opts=dict(ldsignal=11))
    if allocs:
        for idx in pick(rng, st['n_alloc'], k):
            one('alloc-fails', [['alloc', idx, 0, E['ENOMEM'], 0, rng.randrange(2)]])
    # several things at once
    for _ in range(2):
        fs = []
        for _ in range(rng.randrange(2, 5)):
            cls = rng.choice(['read', 'write', 'openr', 'openw', 'closew', 'close'])
            if st.get('n_' + cls):
                fs.append([cls, rng.randrange(st['n_' + cls]), rng.choice([0, 0, 1]), rng.choice([E['EIO'], E['EINTR'], 5]), 0, rng.randrange(2)])
        one('combined', fs)


def tails(rng):
    return rng.choice([b'#if 0\n', b'#if 1\n', b'/*', b'/* a\n', b'"', b"'", b"'\n", b'"abc\\', b'"abc\\\n', b'#define', b'#define F(', b'#define F(a', b'#define F(a)', b'#define F(a\n',
                       b'#include', b'#include <', b'#include "', b'#include <x', b'#if', b'#if (', b'#if 1 +', b'#if defined', b'#if defined(', b'#elif', b'#else\n', b'#endif\n', b'#ifdef', b'#ifdef\n',
                       b'#', b'#line', b'#line 3', b'#line 3 "', b'#error', b'#pragma', b'#undef', b'#undef\n', b'\\', b'\\\n', b'//', b'// x\\\n', b'int', b'int (', b'int f(', b'int f(int', b'int x[', b'int x = {',
                       b'struct', b'struct {', b'enum {', b'enum { A =', b'typedef', b'int f(void) {', b'int f(void) { if (', b'int f(void) { return', b'int f(void) { switch (1) { case', b'int f(void) { do {',
                       b'#define ID(x) x\nint a = ID(', b'#define ID(x) x\nID', b'#define ID(x) x\nID\n', b'#define ID(x) x\nID(\n#if 1\n', b'#define ID(x) x\n#if ID(\n', b'#define ID(x) #x\nID("', b'#define C(a, b) a ## b\nC(',
                       b'#define V(...) __VA_ARGS__\nV(1,', b'__builtin_va_arg(', b'_Static_assert(', b'sizeof(', b'_Alignas(', b'__asm__(', b'int f(void) { __asm__("', b'\x00', b'\xff', b'0x', b'1e', b'1e+', b"L'", b'int x = 1.', b'???/', b'??/'])


def split_header(rng, w):
    """Move the first lines of a source to a header, so that cutting it takes declarations away from the rest."""
    src = w.cwd + '/' + w.srcs[0]
    text = w.files[src]
    starts = [p for p in scan.safe_line_starts(text) if 0 < p < len(text)]
    if not starts:
        return w
    p = rng.choice(starts)
    files = {w.cwd + '/cut_.h': text[:p]}
    files.update(w.files)
    files[src] = b'#include "cut_.h"\n' + text[p:]
    x = WL(w.name, files, w.srcs, w.flags, w.cwd)
    x.link = w.link
    return x


def unit_C11(ctx, rng, i):
    env_unit(ctx, rng, i, True)


def unit_C12(ctx, rng, i):
    env_unit(ctx, rng, i, False)


def env_unit(ctx, rng, i, c11):
    quick = ctx.tier == 'quick'
    x = i % 5
    if x == 0:
        w = wl_multi(rng, rng.choice([1, 2, 3]))
        args = w.flags + rng.choice([['-c'], ['-S'], ['-E'], ['-o', 'prog'], ['-dot']]) + w.srcs
    else:
        w = wl_any(rng)
        args = w.mode_args(rng.choice(['E', 'Eo', 'S', 'c', 'link']))
    base = w.plan(args)
    if x in (0, 1, 2):
        fault_menu(ctx, rng, base, w, 4 if quick else 16, lambda kind, p, m: ctx.check(kind, p, dict(m, workload=w.name)), allocs=c11)
        return
    # sources and headers cut short
    src = w.cwd + '/' + w.srcs[0]
    if rng.random() < .5:
        w = split_header(rng, w)
        base = w.plan(args)
    hdrs = [p for p in w.files if p != src]
    paths = [src] * 3 + hdrs + hdrs[:1] * 3
    for _ in range(25 if quick else 150):
        path = rng.choice(paths)
        text = w.files[path]
        if not text:
            continue
        cut = rng.randrange(len(text) + 1)
        t = text[:cut]
        if path != src and rng.random() < .5:
            # whole lines survive
            t = t[:t.rfind(b'\n') + 1]
        z = rng.random()
        if z < .25:
            t = text[:text.rfind(b'\n', 0, cut) + 1] + tails(rng)
        elif z < .35:
            t += b'\n'
        elif z < .4:
            t += b'\0' * rng.choice([1, 100, 4096])
        elif z < .45:
            t = tails(rng) + (b'\n' if rng.random() < .5 else b'')
        p = base.copy()
        p.files[path] = t
        m = dict(workload=w.name, what='%s cut short' % os.path.basename(path))
        if c11:
            m['whole'] = {path: text.decode('latin-1')}
        if rng.random() < .2:
            p.phases[0]['nodes'][0].opts = dict(rchunk=rng.choice([1, 9]), seed=rng.getrandbits(20))
        ctx.check('cut', p, m)
    if x == 4 and not c11:
        # impossible outputs
        for outp, what, files, dirs in (
                ('/nodir/out.o', 'output directory is missing', {}, []), ('/w', 'output is a directory', {}, []), ('/w/ro.o', 'output is read-only', {'/w/ro.o': (b'x', 1)}, []),
                ('/w/%s/x' % w.srcs[0], 'output below a file', {}, []), ('', 'empty output name', {}, []), ('/w/' + 'n' * 5000, 'output name too long', {}, [])):
            for mode in ('-c', '-S', '-E'):
                p = w.plan(w.flags + [mode, w.srcs[0], '-o', outp])
                p.files.update(files)
                ctx.check('bad-output', p, dict(what=what, must_fail=True, workload=w.name))
        p = w.plan(w.flags + ['-c', w.srcs[0], '-o', '/dev/full'])
        if ctx.ref(w.plan(w.flags + ['-c', w.srcs[0]])).nodes[0].ok():
            ctx.check('bad-output', p, dict(what='output is /dev/full', must_fail=True, workload=w.name))
        for n in (254, 255, 1000, 5000):
            for form in ('#include "%s.h"\n', '#include <%s.h>\n'):
                p = Plan([Node(['lacc', '-c', 'a.c'])], files={'/w/a.c': (form % ('n' * n)).encode()})
                ctx.check('long-name', p, dict(what='header name of %d characters' % n, must_fail=True, workload='long'))
        p = Plan([Node(['lacc', '-c', 'n' * 3000 + '.c'])], files={})
        ctx.check('long-name', p, dict(what='source name of 3000 characters', must_fail=True, workload='long'))
        p = Plan([Node(['lacc', '-E', 'a.c'])], files={'/w/a.c': b'#include "a.c"\n'})
        ctx.check('self-include', p, dict(what='header that includes itself', must_fail=True, workload='self'))
        p = Plan([Node(['lacc', '-E', 'a.c'], opts=dict(fdlimit=12))], files={'/w/a.c': b'#include "a.c"\n'})
        ctx.check('self-include', p, dict(what='header that includes itself', must_fail=True, workload='self'))


# ---------------------------------------------------------------------
# C13: one translation unit sees one date and time

DT = re.compile(rb'"([A-Z][a-z]{2} [ \d]\d \d{4,})"|"(\d\d:\d\d:\d\d)"')


def clock_values(plan, lo, hi):
    base = 1700000000
    jumps = []
    for o in plan.opts:
        if o[0] == 'clock':
            base = o[1]
        elif o[0] == 'jump':
            jumps.append((o[1], o[2]))
    pts = {lo, hi}
    for op, _ in jumps:
        if lo <= op <= hi:
            pts |= {op, max(lo, op - 1)}
    vals = set()
    ops = sorted(pts)
    allv = []
    prev = None
    for a, b in zip(ops, ops[1:] or ops):
        j = sum(d for op, d in jumps if a >= op)
        allv.append((base + a // 50 + j, base + b // 50 + j))
    j = sum(d for op, d in jumps if hi >= op)
    allv.append((base + hi // 50 + j, base + hi // 50 + j))
    return allv


def eval_C13(ctx, case):
    plan, meta = case['plan'], case['meta']
    r = ctx.last_run = ctx.run(plan)
    n = r.nodes[0]
    if not n.ok():
        return [('C13:status', 'compilation failed: ' + describe(n))]
    v = []
    units = []
    for s in meta['srcs']:
        if meta['mode'] == '-E':
            text = n.stdout
        else:
            text = r.files.get('/w/' + s[:-2] + '.s', b'')
        units.append((s, text))
    if meta['mode'] == '-E':
        parts = n.stdout.split(b'unit_start_')
        units = [(s, p) for s, p in zip(meta['srcs'], parts[1:])]
    for s, text in units:
        ds, ts = set(), set()
        nd = 0
        for m in DT.finditer(text):
            nd += 1
            if m.group(1):
                ds.add(m.group(1).decode())
            else:
                ts.add(m.group(2).decode())
        ctx.stats.counts['date/time expansions'] += nd
        if nd < meta['expansions']:
            v.append(('C13:format', '%s: only %d of %d expansions of __DATE__ and __TIME__ are in the standard form' % (s, nd, meta['expansions'])))
            break
        if len(ds) != 1 or len(ts) != 1:
            v.append(('C13:torn', '%s: dates %s and times %s in one translation unit' % (s, sorted(ds), sorted(ts))))
            break
        d, t = ds.pop(), ts.pop()
        ok = False
        for lo, hi in clock_values(plan, n.stat['op0'], n.stat['op1']):
            for sec in range(min(lo, hi), max(lo, hi) + 1):
                tm = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=sec)
                mon = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()[tm.month - 1]
                if d == '%s %2d %d' % (mon, tm.day, tm.year) and t == '%02d:%02d:%02d' % (tm.hour, tm.minute, tm.second):
                    ok = True
                    break
            if ok:
                break
        if not ok:
            v.append(('C13:wrong-instant', '%s: %s %s is not a time the clock showed during the run' % (s, d, t)))
            break
    # apart from the two strings nothing depends on the clock
    if not v:
        ref = ctx.ref(strip_env(plan))
        f = lambda b: DT.sub(b'"#"', b)
        if f(ref.nodes[0].stdout) != f(n.stdout) or any(f(ref.files[p]) != f(r.files.get(p, b'')) for p in ref.files):
            v.append(('C13:depends', 'output other than __DATE__ and __TIME__ depends on the clock'))
    return v


def clock_source(rng, j, hdr):
    uses, k = '', 0
    body = ''
    n = rng.randrange(1, 6)
    for a in range(n):
        x = rng.randrange(6)
        if x == 0:
            body += 'const char d%d_%d[] = __DATE__;\nconst char t%d_%d[] = __TIME__;\n' % (j, a, j, a)
            k += 2
        elif x == 1:
            body += '#define NOW%d __DATE__, __TIME__\nconst char *n%d_%d[] = {NOW%d};\n' % (a, j, a, a)
            k += 2
        elif x == 2:
            body += '#define ID%d(x) x\nconst char *i%d_%d = ID%d(__TIME__), *j%d_%d = ID%d(__DATE__);\n' % (a, j, a, a, j, a, a)
            k += 2
        elif x == 3:
            body += ''.join('/* filler %d */ int z%d_%d_%d;\n' % (q, j, a, q) for q in range(rng.choice([5, 50, 400])))
        elif x == 4 and hdr:
            body += '#include "%s"\n' % hdr
            k += 2
        else:
            body += '#ifdef __DATE__\nconst char *g%d_%d(void) { return __DATE__; }\n#endif\nconst char *h%d_%d(void) { return __TIME__; }\n' % (j, a, j, a)
            k += 2
    body += 'const char last_d%d[] = __DATE__; const char last_t%d[] = __TIME__;\n' % (j, j)
    return 'int unit_start_%d;\n' % j + body, k + 2


def unit_C13(ctx, rng, i):
    quick = ctx.tier == 'quick'
    n = rng.choice([1, 1, 1, 2, 3])
    files, srcs = {}, []
    hdr = None
    if rng.random() < .6:
        hdr = 'clk.h'
        files['/w/clk.h'] = b'static const char *CK(void) { return __TIME__; }\nstatic const char *CL(void) { return __DATE__; }\n'
        files['/w/clk.h'] = b'extern void use(const char *, const char *);\nstruct never; extern const char *x_[sizeof(__DATE__ __TIME__)];\n' if False else files['/w/clk.h']
    exp = 10 ** 6
    for j in range(n):
        s, k = clock_source(rng, j, None)
        exp = min(exp, k)
        files['/w/s%d.c' % j] = s.encode()
        srcs.append('s%d.c' % j)
        if hdr:
            files['/w/s%d.c' % j] = (s + 'const char *hd%d = __DATE__;\n#include "clk%d.h"\nconst char *ht%d = __TIME__;\n' % (j, j, j)).encode()
            files['/w/clk%d.h' % j] = b'/* pad */\n' * rng.choice([1, 500]) + b'const char *q%d[] = {__TIME__, __DATE__};\n' % j
    files.pop('/w/clk.h', None)
    # -S keeps strings shared, so count on -E only
    mode = rng.choice(['-E', '-E', '-S'])
    base = Plan([Node(['lacc', mode] + srcs)], files=files)
    ref = ctx.ref(base)
    total = ref.gop
    edges = ['1999-12-31 23:59:59', '2000-02-28 23:59:58', '2024-02-29 23:59:59', '2023-12-31 23:59:50', '2026-01-01 00:00:00', '2038-01-19 03:14:07',
             '1970-01-01 00:00:01', '2024-03-09 09:09:09', '2025-06-30 23:59:59', '2100-02-28 23:59:59', '2024-10-09 23:59:59']
    for _ in range(16 if quick else 80):
        p = base.copy()
        t0 = datetime.datetime.strptime(rng.choice(edges), '%Y-%m-%d %H:%M:%S')
        sec = int((t0 - datetime.datetime(1970, 1, 1)).total_seconds()) - rng.choice([0, 0, total // 50, total // 100, rng.randrange(total // 50 + 2)])
        if rng.random() < .2:
            sec = rng.randrange(0, 1 << 32)
        p.opts = [['clock', max(0, sec)]]
        for _ in range(rng.choice([0, 1, 1, 3, 8])):
            p.opts.append(['jump', rng.randrange(1, total + 1), rng.choice([1, 60, 3600, 86400, 86399, 31536000, -1, -86400])])
        # keep the clock after 1970
        if min(a for a, b in clock_values(p, 0, total)) < 0:
            continue
        ctx.check('clock', p, dict(srcs=srcs, mode=mode, expansions=exp if mode == '-E' else 1))


# ---------------------------------------------------------------------
# C14: open descriptors are bounded by include depth

def eval_C14(ctx, case):
    plan, meta = case['plan'], case['meta']
    r = ctx.last_run = ctx.run(plan)
    n = r.nodes[0]
    v = []
    bound = 3 + 1 + 1 + meta['depth']
    if n.stat['maxopen'] > bound:
        v.append(('C14:bound', '%d files open at once, include depth %d allows %d' % (n.stat['maxopen'], meta['depth'], bound)))
    if n.ok() and n.stat['leaked']:
        v.append(('C14:leak', '%d files were never closed' % n.stat['leaked']))
    if meta.get('ok') and not n.ok():
        v.append(('C14:limit', 'does not compile under a limit of %d descriptors: %s' % (plan.phases[0]['nodes'][0].opts.get('fdlimit', 1024), describe(n))))
    return v


def wl_deep(rng):
    """Known include nesting: chains of headers, sequences of headers, guards and conditionals."""
    files = {}
    cnt = [0]

    def header(d):
        cnt[0] += 1
        nm = 'k%d.h' % cnt[0]
        g = rng.randrange(5)
        body, depth = '', 1
        kids = rng.randrange(0, 4) if d > 0 and cnt[0] < 120 else 0
        if g == 0:
            body += '#ifndef G%d\n#define G%d\n' % (cnt[0], cnt[0])
        elif g == 1:
            body += '#if 1\n#if 0\n#include "never.h"\n#else\nint c%d;\n#endif\n#endif\n' % cnt[0]
        elif g == 2:
            body += '#if 0\n#endif\n'
        x = cnt[0]
        for _ in range(kids):
            k, dd = header(d - 1)
            depth = max(depth, dd + 1)
            body += '#include %s\n' % (('"%s"' if rng.random() < .6 else '<%s>') % k) * rng.choice([1, 1, 2])
        body += rng.choice(['extern int y%d;\n' % x, '', 'extern int y%d;\n/* end */\n' % x, '#undef Q%d\n' % x])
        if g == 0:
            body += '#endif\n'
        if g == 3:
            body += '#if 0\nrest\n#endif\n'
        files['/w/' + nm] = body.encode()
        return nm, depth

    depth, src = 0, ''
    for _ in range(rng.choice([1, 5, 20, 60])):
        k, dd = header(rng.choice([0, 0, 1, 2, 6]))
        depth = max(depth, dd)
        src += '#include "%s"\n' % k
        if rng.random() < .3:
            src += '#include "%s"\n' % k
    files['/w/a.c'] = (src + 'int main(void) { return 0; }\n').encode()
    return files, depth


def unit_C14(ctx, rng, i):
    quick = ctx.tier == 'quick'
    for _ in range(5 if quick else 15):
        x = rng.randrange(4)
        if x == 0:
            n = rng.choice([10, 100, 400])
            files = {'/w/h%d.h' % j: b'extern int e%d;\n' % j for j in range(n)}
            files['/w/a.c'] = b''.join(b'#include "h%d.h"\n' % j for j in range(n)) + b'int main(void) { return 0; }\n'
            depth = 1
        elif x == 1:
            n = rng.choice([2, 10, 60, 150])
            files = {'/w/h%d.h' % j: (b'#include "h%d.h"\n' % (j + 1) if j + 1 < n else b'') + b'extern int e%d;\n' % j for j in range(n)}
            files['/w/a.c'] = b'#include "h0.h"\nint main(void) { return 0; }\n'
            depth = n
        else:
            files, depth = wl_deep(rng)
        srcs = ['a.c']
        if rng.random() < .5:
            for j in range(rng.choice([1, 3, 40])):
                files['/w/b%d.c' % j] = files['/w/a.c'] if j % 2 == 0 else b'#include <stddef.h>\nint q%d;\n' % j
                srcs.append('b%d.c' % j)
            depth = max(depth, 2)
        mode = rng.choice(['-c', '-S', '-E', '-dot'])
        args = ['lacc', '-I.', mode] + srcs
        if rng.random() < .2:
            args = ['lacc', '-I.'] + srcs
        if rng.random() < .3:
            files['/w/pre.h'] = b'extern int pre;\n'
            args[1:1] = ['-include', 'pre.h']
            depth = max(depth, 1)
        base = Plan([Node(args)], files=files)
        ok = ctx.ref(base).nodes[0].ok()
        ctx.stats.counts['accepted' if ok else 'rejected'] += 1
        meta = dict(depth=depth, sources=len(srcs), files=len(files))
        ctx.check('count', base, meta)
        if ok:
            p = base.copy()
            p.phases[0]['nodes'][0].opts = dict(fdlimit=5 + depth)
            ctx.check('limit', p, dict(meta, ok=True))
        # a file that fails in the middle of an include must not matter to the bound either
        p = base.copy()
        h = rng.choice([f for f in files if f.endswith('.h')] or ['/w/a.c'])
        p.files[h] = (files[h] if isinstance(files[h], bytes) else files[h][0]) + b'#error stop\n'
        ctx.check('count-error', p, meta)
    if i % 4 == 0:
        w = wl_any(rng)
        r = ctx.ref(w.plan(w.mode_args('c')))
        if r.nodes[0].ok():
            ctx.check('count', w.plan(w.mode_args('c')), dict(depth=40, workload=w.name))


# ---------------------------------------------------------------------
# C16: memory is that of one translation unit

def eval_C16(ctx, case):
    plan, meta = case['plan'], case['meta']
    runs = []
    for k in ('small', 'big'):
        p = plan.copy()
        n = p.phases[0]['nodes'][0]
        if 'repeat' in meta:
            f, pre, post = meta['repeat']
            p.files[f] = pre.encode('latin-1') + _raw(p.files[f]) * meta[k] + post.encode('latin-1')
        else:
            n.args = n.args + meta[k]
        r = ctx.run(p)
        if not r.nodes[0].ok():
            return []
        runs.append((r, r.nodes[0].stat))
    ctx.last_run = runs[1][0]
    ctx.stats.counts['pairs of runs compared'] += 1
    a, b = runs[0][1], runs[1][1]
    v = []
    # Other sources may make a buffer that is kept to the end grow once.
    if b['live'] > a['live'] + (0 if meta.get('same', True) else 16384):
        v.append(('C16:lost', 'memory never released grows from %d to %d bytes (%s)' % (a['live'], b['live'], meta['what'])))
    if 'repeat' in meta:
        bound = a['maxlive'] + 4096
    else:
        bound = 2 * a['maxlive'] + 32768 + 256 * len(meta['big'])
    # Arrays used again keep the largest size they ever had, so with long macros the same sources settle slowly.
    if b['maxlive'] > bound and not meta.get('settles'):
        v.append(('C16:grows', 'memory in use grows from %d to %d bytes (%s)' % (a['maxlive'], b['maxlive'], meta['what'])))
    return v


def _raw(d):
    return d[0] if isinstance(d, (tuple, list)) else d


STREAM = ['#include "g.h"\n', '#include <g.h>\n', '#include "n1.h"\n', '#if 1 + 1 == 2\n#else\nzzz\n#endif\n', '#ifdef NOPE\n#if 1\n#else\n#elif 3\n#endif\nrest\n#else\n#endif\n',
          'extern int a[M(1, 2)];\n', 'extern int b;\n', '/* hello */\n', '#line 5\n', '_Pragma("once upon")\n', 'V(a, b, c)\n', 'M(M(1, 2), M(M(3, 4), 5))\n', 'S(text "q" + 1)\n',
          'J(a, b) J(x, 1)\n', 'NIL()\n', 'M(\n 1,\n 2)\n', 'a \\\n b\n', 'int __LINE__ __FILE__;\n', '#pragma some thing\n', '"string" L"wide"  \'c\'\n', '#if defined(M) && !defined NOPE && (1 ? 2 : 3)\nyes\n#endif\n',
          '#\n', '#define M(a, b) ((a)+(b))\n', '#undef NOPE\n', 'R(R)(1)\n', '1.5e+3 0x1f 077ull .5f\n']
STREAM_PRE = '#define M(a, b) ((a)+(b))\n#define V(x, ...) x sizeof(#__VA_ARGS__) __VA_ARGS__;\n#define S(x) #x\n#define J(a, b) a ## b\n#define NIL()\n#define R(x) x + R\n'


def names_source(rng, j, n):
    """Text with many names and literals of its own."""
    out = []
    for k in range(n):
        x = rng.randrange(7)
        w = 'u%d_%d_%s' % (j, k, 'abcdefghijklmnopqrstuvwxyz'[:rng.randrange(26)])
        if x == 0:
            out.append('int %s;\n' % w)
        elif x == 1:
            out.append('#define %s(x, y) (x + y * %d)\nint v%s = %s(1, 2);\n' % (w, k, w, w))
        elif x == 2:
            out.append('struct %s { int m%s; char *p; };\n' % (w, w))
        elif x == 3:
            out.append('const char *%s = "%s literal";\n' % (w, w))
        elif x == 4:
            out.append('static int %s(int a) { int r = a; struct { char c[%d]; } s = {{0}}; while (r > 0) r -= 3; return r + s.c[0]; }\nint c%s(void) { return %s(3); }\n' % (w, k % 17 + 1, w, w))
        elif x == 5:
            out.append('double %s(double x) { return x * 1.%d + ((int *) 0 == &(int){%d} ? 2 : 3); }\n' % (w, k, k))
        else:
            out.append('enum %s { e%s = %d };\ntypedef enum %s t%s;\n' % (w, w, k, w, w))
    return ''.join(out).encode()


def unit_C16(ctx, rng, i):
    quick = ctx.tier == 'quick'
    x = i % 4
    opts = {}
    if rng.random() < .4:
        opts = dict(seed=rng.getrandbits(30), reuse=rng.randrange(3), place=rng.randrange(4), move=rng.randrange(2), fill=rng.randrange(4))
    if rng.random() < .3:
        opts.update(rchunk=rng.choice([1, 7, 100, 1000]), bufsz=rng.choice([1, 16, 4096]))
    mode = rng.choice(['-c', '-c', '-S', '-E', '-dot'])
    if x == 0:
        files = {'/w/g.h': b'#ifndef G\n#define G\nextern int g;\n#endif\n', '/w/n1.h': b'#include "n2.h"\n#if 0\n#endif\n', '/w/n2.h': b'',
                 '/w/a.c': ''.join(rng.choice(STREAM) for _ in range(rng.choice([1, 1, 2, 3, 8]))).encode()}
        lo, hi = (60, 400) if quick else rng.choice([(60, 400), (100, 3000)])
        p = Plan([Node(['lacc', '-std=c99', '-I/nowhere', '-I.', '-E', 'a.c'] + rng.choice([[], ['-o', 'out.i']]), opts=opts)], files=files)
        ctx.check('stream', p, dict(repeat=['/w/a.c', STREAM_PRE, ''], small=lo, big=hi, what='the same lines %d and %d times' % (lo, hi)))
    elif x == 1:
        n, m = rng.choice([20, 60, 120]), 16
        if rng.random() < .3:
            files = {'/w/s0.c': names_source(rng, 0, n)}
            p = Plan([Node(['lacc', '-std=c99', mode, '-O%d' % rng.randrange(4)], opts=opts)], files=files)
            ctx.check('same', p, dict(small=['s0.c'] * 3, big=['s0.c'] * 30, what='compiled 3 and 30 times'))
            return
        files = {'/w/s%d.c' % j: names_source(rng, j, n) for j in range(m)}
        p = Plan([Node(['lacc', '-std=c99', mode, '-O%d' % rng.randrange(4)], opts=opts)], files=files)
        ctx.check('names', p, dict(small=['s%d.c' % j for j in range(2)], big=['s%d.c' % j for j in range(m)], same=False, what='2 and %d sources with names of their own' % m))
    else:
        w = wl_any(rng, p_lacc=.02) if x == 2 else wl_multi(rng)
        p = w.plan(w.flags + [mode], opts=opts)
        k = 2 if w.name.startswith('src') else rng.choice([3, 5])
        ctx.check('again', p, dict(small=w.srcs * 3, big=w.srcs * 3 * k, settles=True, what='compiled 3 and %d times' % (3 * k)))


# ---------------------------------------------------------------------
# C15: only the requested outputs are written

def allowed_outputs(args):
    """Files this command line asks for."""
    out, srcs, mode, i = None, [], 'link', 1
    two = ('-I', '-D', '-isystem', '-include', '-l', '-L', '-x')
    while i < len(args):
        a = args[i]
        if a == '-o':
            i += 1
            out = args[i] if i < len(args) else None
        elif a in two:
            i += 1
        elif a in ('-c', '-S', '-E', '-dot'):
            mode = a
        elif not a.startswith('-'):
            srcs.append(a)
        i += 1
    stem = [os.path.splitext(os.path.basename(s))[0] for s in srcs if s.endswith('.c') or s.endswith('.i')]
    if mode == '-E':
        return {out} if out else set()
    if mode == '-c':
        return {out} if out else {s + '.o' for s in stem}
    if mode in ('-S', '-dot'):
        return {out} if out else {s + ('.s' if mode == '-S' else '.dot') for s in stem}
    return {out or 'a.out'} | {s + '.o' for s in stem}


def eval_C15(ctx, case):
    plan, meta = case['plan'], case['meta']
    node = plan.phases[0]['nodes'][0]
    r = ctx.last_run = ctx.run(plan)
    n = r.nodes[0]
    ok = {os.path.normpath(os.path.join(node.cwd, p)) for p in allowed_outputs(node.args) if p}
    v = []
    if n.end not in ('exit', '_exit', 'abort', 'signal', 'heap', 'crash'):
        return None
    killed = n.end == 'crash'
    for p in sorted(r.files):
        if p in ok or p in ('/dev/null', '/dev/full'):
            continue
        if p in plan.files:
            v.append(('C15:modified', '%s was opened for writing or changed' % p))
        elif n.end in ('exit', '_exit'):
            v.append(('C15:extra', '%s was written, which nobody asked for' % p))
        break
    bad = [p for p in r.gone if p not in ok]
    if bad:
        v.append(('C15:removed', '%s was removed' % bad[0]))
    if r.mkdirs:
        v.append(('C15:mkdir', '%s was created' % r.mkdirs[0]))
    for p in meta.get('keep', []):
        old = plan.files[p]
        old = old[0] if isinstance(old, (tuple, list)) else old
        if r.files.get(p, old) != old or p in r.gone:
            v.append(('C15:clobbered', 'the source cannot be opened, yet %s was changed' % p))
            break
    return v


def unit_C15(ctx, rng, i):
    quick = ctx.tier == 'quick'
    w = wl_multi(rng) if i % 3 == 0 else wl_any(rng)
    modes = ['multi-c', 'multi-S', 'multi-E', 'link'] if w.name == 'multi' else MODES1 + ['link']
    for mode in rng.sample(modes, 2 if quick else 4):
        args = w.mode_args(mode)
        base = w.plan(args)
        # bystanders that a careless name computation might hit
        stem = w.srcs[0][:-2]
        near = {}
        for x in rng.sample([stem, stem + '.o', stem + '.s', stem + '.i', stem + '.dot', stem + '.c.o', 'a.out', 'out', '.o', 'a.o', stem + '.tmp', 'tmp', stem + '.d'], 6):
            near['/w/' + x] = b'bystander ' + x.encode()
        near = {k: v for k, v in near.items() if k not in w.files}
        base.files.update(near)
        ref = ctx.ref(base)
        ctx.check('plain', base, dict(mode=mode, workload=w.name))
        st = ref.nodes[0].stat

        def go(kind, faults=(), pfaults=(), opts=None, world=(), keep=(), files=None, remove=()):
            p = base.copy()
            nd = p.phases[0]['nodes'][0]
            nd.faults, nd.pfaults, nd.opts = [list(f) for f in faults], [list(f) for f in pfaults], dict(opts or {})
            p.opts = [list(o) for o in world]
            p.files.update(files or {})
            for x in remove:
                p.files.pop(x, None)
            ctx.check(kind, p, dict(mode=mode, workload=w.name, keep=list(keep)))

        for _ in range(10 if quick else 40):
            cls = rng.choice(['read', 'write', 'openr', 'openw', 'closew', 'alloc', 'fork', 'exec', 'wait'])
            if st.get('n_' + cls):
                go('fault-' + cls, [[cls, rng.randrange(st['n_' + cls]), 0, rng.choice([E['EIO'], E['EACCES'], E['ENOSPC'], E['ENOMEM']]), 0, rng.randrange(2)]])
        go('disk-full', world=[['quota', rng.randrange(2000)]])
        if st.get('n_op'):
            go('kill', [['op', rng.randrange(st['n_op']), 3, 0, 0, 0]])
        if mode == 'link':
            go('linker-fails', opts=dict(ldexit=1))
        # the source cannot be opened: its output keeps what it had
        outs = [p for p in ref.files]
        if len(w.srcs) == 1 and mode != 'link' and outs:
            fs = {o: b'previous contents' for o in outs}
            src = w.cwd + '/' + w.srcs[0]
            go('no-source', remove=[src], files=fs, keep=outs)
            go('no-source', pfaults=[[src, rng.choice(OPEN_ERR), 0]], files=fs, keep=outs)
        # a source that does not compile
        src = w.cwd + '/' + w.srcs[0]
        go('broken-source', files={src: break_source(rng, w.files[src])})
        # inputs named like outputs of others
        if mode in ('c', 'S', 'Eo') and rng.random() < .5:
            sub = {'/w/sub/' + os.path.basename(s): d for s, d in w.files.items() if '/inc/' not in s}
            p = Plan([Node(['lacc'] + w.flags + ['-I/w', {'c': '-c', 'S': '-S', 'Eo': '-E'}[mode], 'sub/' + w.srcs[0]])], files=dict(w.files, **sub))
            ctx.check('sub-directory', p, dict(mode=mode, workload=w.name))


# ---------------------------------------------------------------------

REAL = ('real code: all of lacc (src/ and include/ of /repo, compiled from the working tree) with glibc\'s string, formatting and stdio '
        'buffering code')
STUB = ('simulated: file system and descriptors, heap, clock, environment, process ids, fork/exec/wait; stub: the linker (records its '
        'arguments and the objects it is given)')
PSIM_ASSUME = ['lacc reaches the outside only through the C library functions the simulator redirects',
               'the simulator is compiled with -DLACC_SIM -O1 -fwrapv; the fault-free simulated run was compared with the native compiler on the whole corpus']

TABLE = {
    'C01': (unit_C01, eval_C01, 780, 6240, 'seeded: workload x output mode x one output fault placed at a profiled write/close/open index or a disk-full byte; non-trivial: the run was judged, distinct by its whole operation trace'),
    'C02': (unit_C02, eval_C02_all, 1200, 9600, 'seeded: workload x input fault (read error at index, failing open, descriptor limit, unreadable or absent header); distinct by operation trace'),
    'C03': (unit_C03, eval_C03, 1000, 8000, 'seeded: read chunking, stdio buffer and table sizes, shifting to buffer boundaries, inserted comments and line continuations; distinct by operation trace'),
    'C04': (unit_C04, eval_C04_env, 1050, 8400, 'seeded: heap contents, reuse and placement, stack contents and position, environment, pid, clock, descriptors; distinct by operation trace'),
    'C05': (unit_C05, eval_C05, 1750, 14000, 'seeded: the n-th allocation fails once, from then on, or at random; n covers all allocations of small runs; distinct by operation trace'),
    'C06': (unit_C06, eval_C06, 3000, 24000, 'seeded: sequences of 2-6 sources that reuse each other\'s names, odd and broken ones included, against one invocation per source; distinct by operation trace'),
    'C07': (unit_C07, eval_C07_all, 780, 6240, 'seeded: kill at an operation or power loss with torn writes, then the same command again; distinct by operation trace of both phases'),
    'C08': (unit_C08, eval_C08, 1560, 12480, 'seeded: 2-6 processes over one file system, explicit context switches or a random scheduler, optional kill; distinct by operation trace'),
    'C09': (unit_C09, eval_C09, 1040, 8320, 'seeded: linker command lines x failing fork, exec, linker, wait and compile steps; distinct by operation trace'),
    'C10': (unit_C10, eval_C10, 2400, 19200, 'seeded: sources and headers cut at a byte an independent scanner judges to be inside a construct; distinct by operation trace'),
    'C11': (unit_C11, eval_C11, 640, 5120, 'seeded: every fault kind and truncation under a step, operation and memory bound derived from the undisturbed run; distinct by operation trace'),
    'C12': (unit_C12, eval_C12, 1280, 10240, 'seeded: every environment error and truncation; the run must end by itself with a message; distinct by operation trace'),
    'C13': (unit_C13, eval_C13, 2400, 19200, 'seeded: clock start near day, month and year ends, advancing per operation and jumping at chosen operations; distinct by operation trace'),
    'C14': (unit_C14, eval_C14, 780, 6240, 'seeded include graphs of known depth; maximum of simultaneously open descriptors and exact descriptor limits; distinct by operation trace'),
    'C16': (unit_C16, eval_C16, 5000, 60000, 'seeded pairs of runs, one doing the same more often (more sources, repeated text), under chosen heap behaviour; memory in use and never released; distinct by operation trace'),
    'C15': (unit_C15, eval_C15, 1560, 12480, 'seeded: modes x faults x bystander files; every file created, changed, renamed or removed in the simulated file system is accounted for; distinct by operation trace'),
}
