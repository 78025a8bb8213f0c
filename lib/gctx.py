"""Client of simulator G: compiling units with lacc, running them under seeded schedules, shrinking."""
import collections, fcntl, hashlib, json, os, re, select, shutil, struct, subprocess, sys, time
import core, glink, psimlib
from psimlib import VERIF, BUILD

CF = ['-std=gnu99', '-O1', '-g', '-fno-pic', '-fno-stack-protector', '-fcf-protection=none']
NEXT = '#pragma next module\n'     # between the modules of a program
KINDS = {1: 'signal', 3: 'switch', 4: 'poke'}


def build():
    """Compile the runtime; returns its directory."""
    psimlib.build()
    src = os.path.join(VERIF, 'gsim', 'gsim.c')
    with open(src, 'rb') as f:
        key = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'g-' + key)
    with open(os.path.join(BUILD, 'lock-g'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, 'ok')):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            for n, s in (('b', 'gtext_begin'), ('e', 'gtext_end')):
                with open(os.path.join(out, n + '.s'), 'w') as f:
                    f.write(' .text\n .globl %s\n%s:\n nop\n .section .note.GNU-stack,"",@progbits\n' % (s, s))
                subprocess.run(['as', n + '.s', '-o', n + '.o'], cwd=out, check=True)
            r = subprocess.run(['gcc'] + CF + ['-c', src, '-o', 'gsim.o'], cwd=out)
            if r.returncode:
                raise SystemExit('cannot build simulator G')
            # the runtime without a program, for modules placed by the loader
            subprocess.run(['gcc', '-static', '-no-pie', '-Wl,-z,noexecstack', 'b.o', 'e.o', 'gsim.o', '-o', 'base'], cwd=out, check=True)
            open(os.path.join(out, 'ok'), 'w').close()
            old = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD) if d.startswith('g-'))
            for _, d in old[:-2]:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    return out


def symbols(path):
    """name -> address of the functions of an executable, with a count of duplicates."""
    with open(path, 'rb') as f:
        b = f.read()
    shoff, = struct.unpack_from('<Q', b, 0x28)
    n, = struct.unpack_from('<H', b, 0x3c)
    sh = [struct.unpack_from('<IIQQQQIIQQ', b, shoff + 64 * i) for i in range(n)]
    out = {}
    for s in sh:
        if s[1] != 2:
            continue
        stro = sh[s[6]][4]
        for nm, info, other, shndx, val, size in struct.iter_unpack('<IBBHQQ', b[s[4]:s[4] + s[5]]):
            if shndx:
                e = b.index(b'\0', stro + nm)
                out.setdefault(b[stro + nm:e].decode('latin-1'), val)
    return out


class Rejected(Exception):
    pass


class Hung(Exception):
    pass


def compile_one(ctx, src, path, opts, cc):
    """The path of an object file. cc: lacc, lacc-as (assembly text, assembled by GNU as) or gcc."""
    c, o = path + '.c', path + '.o'
    with open(c, 'w') as f:
        f.write(src)
    try:
        if cc == 'gcc':
            pic = ['-fPIC'] if '-fPIC' in opts else ['-fno-pic']
            ref = [x for x in opts if x == '-DREF']
            r = subprocess.run(['gcc', '-std=c99', '-w', '-O0', '-fcommon', '-fno-stack-protector', '-fcf-protection=none', '-fno-builtin', '-fwrapv', '-c', c, '-o', o] + pic + ref,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        elif cc == 'lacc-as':
            r = subprocess.run([os.path.join(ctx.pdir, 'lacc'), '-S', c, '-o', path + '.s'] + list(opts), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
            if r.returncode == 0:
                r = subprocess.run(['as', path + '.s', '-o', o], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if os.path.exists(path + '.s'):
                os.unlink(path + '.s')
        else:
            r = subprocess.run([os.path.join(ctx.pdir, 'lacc'), '-c', c, '-o', o] + list(opts), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
    except subprocess.TimeoutExpired:
        raise Rejected('compiler does not finish')
    finally:
        os.unlink(c)
    if r.returncode:
        if os.path.exists(o):
            os.unlink(o)
        raise Rejected('%s: %d %s' % (cc, r.returncode, r.stderr.decode(errors='replace')[:300]))
    return o


class Exe:
    """One compiled unit, and the process that runs plans for it."""

    def __init__(self, ctx, src, descs, opts, cc):
        self.ctx, self.p = ctx, None
        self.path = os.path.join(ctx.tmp, 'u%d' % ctx.count)
        ctx.count += 1
        os_ = []
        for k, part in enumerate(src.split(NEXT)):
            os_.append(compile_one(ctx, part, '%s-%d' % (self.path, k), opts, cc))
        r = None
        for o in os_:
            r = subprocess.run(['objcopy', '--redefine-sym', 'memcpy=gsim_memcpy', o], stderr=subprocess.PIPE)
            if r.returncode:
                break
        if r.returncode == 0:
            g = ctx.gdir
            r = subprocess.run(['gcc', '-static', '-no-pie', '-Wl,-z,noexecstack', g + '/b.o'] + os_ + [g + '/e.o', g + '/gsim.o', '-o', self.path],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        for o in os_:
            os.unlink(o)
        if r.returncode:
            raise Rejected('link: ' + r.stderr.decode(errors='replace')[:300])
        self.sym = symbols(self.path)
        self.descs = descs
        self.base = {}

    def start(self):
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        t = ''.join('fn %x %s\n' % (self.sym[n], d) for n, d in self.descs if n in self.sym)
        self.p.stdin.write(t.encode())
        self.buf = b''

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def close(self):
        self.stop()
        if os.path.exists(self.path):
            os.unlink(self.path)

    def line(self, timeout=100):
        end = time.time() + timeout
        while b'\n' not in self.buf:
            t = end - time.time()
            if t <= 0 or not select.select([self.p.stdout], [], [], t)[0]:
                self.stop()
                raise Hung('no answer')
            d = os.read(self.p.stdout.fileno(), 1 << 16)
            if not d:
                self.stop()
                raise Hung('the simulator died')
            self.buf += d
        l, self.buf = self.buf.split(b'\n', 1)
        return l.decode('latin-1')

    def run(self, thr, hand=(), ev=None, **kv):
        """thr and hand: (function, seed[, want]) lists. Returns a dict."""
        if not self.p:
            self.start()
        t = ['run']
        for k, v in kv.items():
            t.append('%s=%s' % (k, v) if isinstance(v, str) else '%s=%x' % (k, v) if k in ('seed', 'gseed') else '%s=%d' % (k, v))
        for k, l in (('thr', thr), ('hand', hand)):
            for a in l:
                s = '%s=%x:%x' % (k, self.sym[a[0]], a[1])
                if len(a) > 2 and a[2]:
                    s += ':%s:%s' % a[2]
                t.append(s)
        if ev is not None:
            t.append('ev=' + ','.join('%d:%d:%x' % tuple(e) for e in ev))
        self.p.stdin.write((' '.join(t) + '\n').encode())
        l = self.line()
        r = dict(status=l.split(' ', 1)[0], res={}, ev=[], log=[], sig='', msg='')
        if ' msg=' in l:
            l, r['msg'] = l.split(' msg=', 1)
        for w in l.split()[1:]:
            k, v = w.split('=', 1)
            if k == 'res':
                a = v.split(':')
                r['res'][int(a[0])] = (a[1], a[2])
            elif k == 'ev':
                r['ev'] = [(int(x), int(y), int(z, 16)) for x, y, z in (e.split(':') for e in v.split(',') if e)]
            elif k == 'log':
                r['log'] = [tuple(e.split(':')) for e in v.split(',') if e]
            elif k == 'sigx':
                r['sig'] = '' if v == '-' else v
            else:
                r[k] = v if k in ('trace', 'undecb', 'at') else int(v)
        st = self.ctx.stats
        st.runs += 1
        st.counts['instructions'] += r['steps']
        st.traces.add(r['trace'])
        for k, n in (('sig', 'signal'), ('scrib', 'scribble-below-red-zone'), ('sw', 'thread-switch'), ('poke', 'concurrent-write'), ('garb', 'abi-garbage')):
            if r[k] and isinstance(r[k], int):
                st.faults[n] += r[k]
        return r

    def baseline(self, fn, seed, limit=20000, **kv):
        k = (fn, seed, limit, tuple(sorted(kv.items())))
        if k not in self.base:
            self.base[k] = self.run([(fn, seed)], limit=limit, **kv)
        return self.base[k]


class Prog(Exe):
    """A program of several modules, placed by the simulated loader for every run."""

    def __init__(self, ctx, src, descs, opts, cc):
        self.ctx, self.p = ctx, None
        self.path = os.path.join(ctx.gdir, 'base')
        self.img = os.path.join(ctx.tmp, 'i%d' % ctx.count)
        ctx.count += 1
        self.objs = []
        for k, part in enumerate(src.split(NEXT)):
            o = compile_one(ctx, part, '%s-%d' % (self.img, k), opts, cc)
            with open(o, 'rb') as f:
                self.objs.append(f.read())
            os.unlink(o)
        self.externs = symbols(self.path)
        self.externs['memcpy'] = self.externs['gsim_memcpy']
        self.descs = descs
        self.sym = {}

    def start(self):
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.buf = b''

    def place(self, seed, low, preempt, alt, busy):
        image, text, stubs, self.sym = glink.link(self.objs, self.externs, seed, low, preempt, alt, busy)
        glink.write_image(self.img, image, text, stubs)
        if not self.p:
            self.start()
        self.p.stdin.write(('reset\n' + ''.join('fn %x %s\n' % (self.sym[n], d) for n, d in self.descs if n in self.sym)).encode())

    def close(self):
        self.stop()
        if os.path.exists(self.img):
            os.unlink(self.img)


class GCtx:
    def __init__(self):
        self.gdir = build()
        self.pdir = psimlib.build()
        for d in os.listdir(BUILD):
            if d.startswith('tmp-') and not os.path.exists('/proc/' + d[4:]):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        self.pid = os.getpid()
        self.tmp = os.path.join(BUILD, 'tmp-%d' % self.pid)
        os.makedirs(self.tmp, exist_ok=True)
        self.count = 0
        self.exes = collections.OrderedDict()
        self.stats = core.Stats()
        self.found = []
        self.deadline = None
        self.tier = 'quick'
        self.spec = None

    def close(self):
        for e in self.exes.values():
            if not isinstance(e, str):
                e.close()
        self.exes.clear()
        shutil.rmtree(self.tmp, ignore_errors=True)

    def exe(self, src, descs, opts, cc='lacc', make=Exe):
        k = (src, tuple(opts), cc, make)
        if k in self.exes:
            self.exes.move_to_end(k)
        else:
            if os.getpid() != self.pid:
                # a forked worker: a directory of its own, removed with its parent's
                self.pid = os.getpid()
                self.tmp = os.path.join(self.tmp, 'w-%d' % self.pid)
                os.makedirs(self.tmp, exist_ok=True)
                self.exes.clear()
                self.count = 0
            try:
                self.exes[k] = make(self, src, descs, opts, cc)
            except Rejected as e:
                self.exes[k] = str(e)
            while len(self.exes) > 4:
                _, e = self.exes.popitem(last=False)
                if not isinstance(e, str):
                    e.close()
        e = self.exes[k]
        if isinstance(e, str):
            self.stats.counts['rejected-' + ('gcc' if cc == 'gcc' else 'lacc')] += 1
            raise Rejected(e)
        return e

    def check(self, case, nontrivial=True):
        if self.deadline and time.time() > self.deadline:
            raise core.Stop()
        st = self.stats
        self.last = None
        try:
            v = self.spec.evaluate(self, case)
        except Rejected:
            st.counts['skipped-rejected'] += 1
            return None
        except Hung:
            st.counts['skipped-hung'] += 1
            return None
        if v is None:
            st.counts['skipped'] += 1
            return None
        st.evaluations += 1
        st.kinds[case['kind']] += 1
        if self.last:
            if nontrivial:
                st.nontrivial.add((case['kind'], self.last['trace']))
            if self.last.get('nev'):
                st.scheds.add(self.last['trace'])
        if len(st.samples) < 2:
            st.samples.append(dict(kind=case['kind'], options=case['opts'], functions=case.get('thr'), handlers=case.get('hand'), parameters=case.get('kv'),
                                   instructions=self.last['steps'] if self.last else 0, events=self.last['nev'] if self.last else 0,
                                   source=case['src'][-400:]))
        for sig, msg in v:
            self.found.append((case, sig, msg))
        return v


def ddmin(items, bad, deadline):
    n = max(1, len(items) // 2)
    while n >= 1 and time.time() < deadline:
        i = 0
        while i < len(items) and time.time() < deadline:
            c = items[:i] + items[i + n:]
            if bad(c):
                items = c
            else:
                i += n
        n //= 2
    return items


KEEP = re.compile(r'x_fill|va_|x_dev|x_scalar|x_watch|x_guard|x_allow|x_unwatch|^#|^struct|^union|^\w[\w *]*\(|^[{}]|x_setjmp')


def shrink(ctx, case, sig, deadline):
    ctx.deadline = None

    def bad(c):
        try:
            v = ctx.spec.evaluate(ctx, c)
        except (Rejected, Hung, KeyError):
            return False
        return bool(v) and sig in [s for s, _ in v]

    def syntax(src):
        p = os.path.join(ctx.tmp, 'shrink.c')
        return all(syntax1(p, x) for x in src.split(NEXT))

    def syntax1(p, src):
        with open(p, 'w') as f:
            f.write(src)
        return subprocess.run(['gcc', '-std=c99', '-Werror=uninitialized', '-Werror=maybe-uninitialized', '-Werror=return-type', '-O1', '-fsyntax-only', p],
                              stderr=subprocess.DEVNULL).returncode == 0
    os.makedirs(ctx.tmp, exist_ok=True)
    best = case
    # source lines, with the events drawn anew from the same seed
    head, body = case['head'], case['src'][len(case['head']):].split('\n')

    def removable(ls):
        return [i for i, l in enumerate(ls) if l.strip().endswith(';') and not KEEP.search(l.strip())]

    n = 16
    t1 = time.time() + max(0, deadline - time.time()) * .6
    while n >= 1 and time.time() < t1:
        i = 0
        while time.time() < t1:
            rm = removable(body)
            if i >= len(rm):
                break
            cut = set(rm[i:i + n])
            nb = [l for j, l in enumerate(body) if j not in cut]
            c = dict(best, src=head + '\n'.join(nb))
            if syntax(c['src']) and bad(c):
                best, body = c, nb
            else:
                i += n
        n //= 2
    # empty blocks and unused functions
    for pat in (r'\n *(if|for|while|switch)[^\n]*\{\n *\}(?! else| while)', r' else \{\n *\}', r'\n(static )?[\w ]+ \*?\w+\([^\n]*\)\n\{\n(?: [^\n]*\n)*\}\n'):
        k = 0
        while time.time() < t1:
            ms = list(re.finditer(pat, best['src'][len(head):]))
            if k >= len(ms):
                break
            m = ms[k]
            b = best['src'][len(head):]
            c = dict(best, src=head + b[:m.start()] + b[m.end():])
            if syntax(c['src']) and bad(c):
                best = c
            else:
                k += 1
    # handlers and threads
    for key in ('hand', 'thr'):
        i = 0
        while i < len(best.get(key) or []) and time.time() < deadline:
            c = dict(best, **{key: best[key][:i] + best[key][i + 1:]})
            if c.get('thr') and bad(c):
                best = c
            else:
                i += 1
    # the schedule as an explicit list, minimised
    if best.get('ev') is None and ctx.spec.explicit:
        ev = ctx.spec.explicit(ctx, best, sig)
        if ev is not None:
            c = dict(best, ev=ev)
            if bad(c):
                best = c
    if best.get('ev'):
        def b2(e):
            return bad(dict(best, ev=e))
        # nothing after the violation matters
        best = dict(best, ev=ddmin(best['ev'], b2, deadline))
    return best
