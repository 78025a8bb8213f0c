"""Client side of simulator P: building it, writing plans, reading results."""
import fcntl, hashlib, os, shutil, subprocess, sys, select, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


def tree_hash(extra=()):
    h = hashlib.sha256()
    files = []
    for base in ('src', 'include', 'lib'):
        for root, dirs, names in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for n in names:
                files.append(os.path.join(root, n))
    for n in ('Makefile', 'configure'):
        files.append(os.path.join(REPO, n))
    files.extend(extra)
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fp:
                h.update(fp.read())
            h.update(b'\0')
    return h.hexdigest()[:16]


def build():
    """Build psim and a native lacc from /repo's working tree; returns the directory."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash([os.path.join(VERIF, 'psim', n) for n in ('psim.c', 'build.sh')])
    out = os.path.join(BUILD, 'p-' + key)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, 'ok')):
            shutil.rmtree(out, ignore_errors=True)
            r = subprocess.run(['bash', os.path.join(VERIF, 'psim', 'build.sh'), REPO, out],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                sys.stderr.write(r.stdout.decode(errors='replace'))
                raise SystemExit('cannot build the simulator')
            open(os.path.join(out, 'ok'), 'w').close()
            # keep the few most recent builds
            old = sorted((os.path.getmtime(os.path.join(BUILD, d)), d)
                         for d in os.listdir(BUILD) if d.startswith('p-'))
            for _, d in old[:-3]:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    return out


def enc(s):
    if isinstance(s, str):
        s = s.encode('latin-1', 'surrogateescape')
    if not s:
        return '%'
    r = []
    for c in s:
        if 32 < c < 127 and c != 37:
            r.append(chr(c))
        else:
            r.append('%%%02x' % c)
    return ''.join(r)


def dec(s):
    if s == '%':
        return ''
    out, i = [], 0
    while i < len(s):
        if s[i] == '%' and i + 2 < len(s) + 0 and i + 3 <= len(s):
            out.append(chr(int(s[i + 1:i + 3], 16)))
            i += 3
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


class Node:
    """One simulated lacc process of a plan."""

    def __init__(self, args, cwd='/w', env=(), opts=None, knobs=None, faults=(), pfaults=()):
        self.args = list(args)
        self.cwd = cwd
        self.env = list(env)
        self.opts = dict(opts or {})
        self.knobs = dict(knobs or {})
        self.faults = [list(f) for f in faults]
        self.pfaults = [list(f) for f in pfaults]

    def copy(self):
        return Node(self.args, self.cwd, self.env, self.opts, self.knobs, self.faults, self.pfaults)

    def to_json(self):
        return dict(args=self.args, cwd=self.cwd, env=self.env, opts=self.opts, knobs=self.knobs,
                    faults=self.faults, pfaults=self.pfaults)

    @staticmethod
    def from_json(d):
        return Node(d['args'], d['cwd'], d['env'], d['opts'], d['knobs'], d['faults'], d['pfaults'])


class Plan:
    """World overrides, then phases of nodes. phases: list of dict(nodes, switches, opts)."""

    def __init__(self, nodes=(), files=None, opts=None, switches=(), remove=(), dirs=()):
        self.files = dict(files or {})      # path -> bytes (or (bytes, readonly))
        self.remove = list(remove)
        self.dirs = list(dirs)
        self.opts = [list(o) for o in (opts or [])]
        self.phases = [dict(nodes=list(nodes), switches=[list(s) for s in switches], opts=[])]

    def phase(self, nodes, switches=(), opts=(), files=None, remove=()):
        self.phases.append(dict(nodes=list(nodes), switches=[list(s) for s in switches],
                                opts=[list(o) for o in opts], files=dict(files or {}), remove=list(remove)))
        return self

    def text(self):
        out = []

        def put_files(files):
            for p in files:
                d = files[p]
                ro = 0
                if isinstance(d, (tuple, list)):
                    d, ro = d
                if isinstance(d, str):
                    d = d.encode('latin-1')
                out.append(b'X %s %d %d\n' % (enc(p).encode(), ro, len(d)) + d + b'\n')
        for o in self.opts:
            out.append(('o ' + ' '.join(str(x) for x in o) + '\n').encode())
        for d in self.dirs:
            out.append(b'Y %s\n' % enc(d).encode())
        put_files(self.files)
        for p in self.remove:
            out.append(b'U %s\n' % enc(p).encode())
        for i, ph in enumerate(self.phases):
            put_files(ph.get('files', {}))
            for p in ph.get('remove', ()):
                out.append(b'U %s\n' % enc(p).encode())
            for o in ph['opts']:
                out.append(('o ' + ' '.join(str(x) for x in o) + '\n').encode())
            for op, nd in ph['switches']:
                out.append(b'w %d %d\n' % (op, nd))
            for n in ph['nodes']:
                out.append(b'n %s\n' % enc(n.cwd).encode())
                for a in n.args:
                    out.append(b'a %s\n' % enc(a).encode())
                for a in n.env:
                    out.append(b'e %s\n' % enc(a).encode())
                for k, v in n.opts.items():
                    out.append(b'k %s %d\n' % (k.encode(), v))
                for k, v in n.knobs.items():
                    out.append(b'K %s %d\n' % (k.encode(), v))
                for f in n.faults:
                    out.append(('f ' + ' '.join(str(x) for x in f) + '\n').encode())
                for f in n.pfaults:
                    out.append(('P %s ' % enc(f[0]) + ' '.join(str(x) for x in f[1:]) + '\n').encode())
            out.append(b'G\n' if i == len(self.phases) - 1 else b'p\n')
        return b''.join(out)

    def copy(self):
        p = Plan()
        p.files, p.remove, p.dirs = dict(self.files), list(self.remove), list(self.dirs)
        p.opts = [list(o) for o in self.opts]
        p.phases = [dict(nodes=[n.copy() for n in ph['nodes']], switches=[list(s) for s in ph['switches']],
                         opts=[list(o) for o in ph['opts']], files=dict(ph.get('files', {})),
                         remove=list(ph.get('remove', ()))) for ph in self.phases]
        return p

    def to_json(self):
        def fj(files):
            r = {}
            for p, d in files.items():
                ro = 0
                if isinstance(d, (tuple, list)):
                    d, ro = d
                if isinstance(d, bytes):
                    d = d.decode('latin-1')
                r[p] = [d, ro]
            return r
        return dict(files=fj(self.files), remove=self.remove, dirs=self.dirs, opts=self.opts,
                    phases=[dict(nodes=[n.to_json() for n in ph['nodes']], switches=ph['switches'], opts=ph['opts'],
                                 files=fj(ph.get('files', {})), remove=ph.get('remove', [])) for ph in self.phases])

    @staticmethod
    def from_json(d):
        def fj(files):
            return {p: (v[0].encode('latin-1'), v[1]) for p, v in files.items()}
        p = Plan()
        p.files, p.remove, p.dirs, p.opts = fj(d['files']), d['remove'], d['dirs'], d['opts']
        p.phases = [dict(nodes=[Node.from_json(n) for n in ph['nodes']], switches=ph['switches'], opts=ph['opts'],
                         files=fj(ph['files']), remove=ph['remove']) for ph in d['phases']]
        return p


class NodeResult:
    __slots__ = ('phase', 'id', 'end', 'code', 'msg', 'stat', 'fired', 'stdout', 'stderr', 'children')

    def ok(self):
        return self.end in ('exit', '_exit') and self.code == 0

    def failed(self):
        """Ended by itself, unsuccessfully."""
        return self.end in ('exit', '_exit') and self.code != 0

    def how(self):
        return '%s %d%s' % (self.end, self.code, ' (%s)' % self.msg if self.msg else '')

    def behaviour(self):
        return (self.end, self.code, self.stdout, self.stderr)


class Result:
    def __init__(self, body):
        self.nodes, self.execs, self.files, self.gone, self.mkdirs = [], [], {}, [], []
        self.trace = b''
        self.raw = body
        pos, cur = 0, None
        while pos < len(body):
            nl = body.index(b'\n', pos)
            line = body[pos:nl].decode('latin-1')
            pos = nl + 1
            t = line.split(' ')
            k = t[0]
            if k == 'node':
                cur = NodeResult()
                cur.phase, cur.id, cur.end, cur.code, cur.msg = int(t[1]), int(t[2]), t[3], int(t[4]), dec(t[5])
                self.nodes.append(cur)
            elif k == 'stat':
                cur.stat, cur.children = {}, []
                for kv in t[1:]:
                    a, b = kv.split('=')
                    if a.startswith('child'):
                        s, st = b.split('/')
                        cur.children.append((int(s), int(st)))
                    else:
                        cur.stat[a] = int(b)
            elif k == 'fired':
                cur.fired = [int(x.lstrip('p')) for x in t[1:]]
            elif k in ('out', 'file', 'objs', 'trace'):
                n = int(t[2])
                blob = body[pos:pos + n]
                pos += n + 1
                if k == 'out':
                    setattr(cur, t[1], blob)
                elif k == 'file':
                    self.files[dec(t[1])] = blob
                elif k == 'trace':
                    self.trace = blob
                else:
                    self.execs[-1]['objs'] = blob
            elif k == 'exec':
                self.execs.append(dict(node=int(t[1]), op=int(t[2]), argv=[dec(x) for x in t[4:]]))
            elif k == 'gone':
                self.gone.append(dec(t[1]))
            elif k == 'mkdir':
                self.mkdirs.append(dec(t[1]))
            elif k == 'cov':
                self.cov_edges, self.cov_hash = int(t[1]), t[2]
            elif k == 'sched':
                self.switches, self.sched_hash = int(t[1]), t[2]
            elif k == 'done':
                self.gop, self.clock, self.trace_hash = int(t[1]), int(t[2]), t[3]
            else:
                raise RuntimeError('bad result line %r' % line)

    def node(self, i, phase=None):
        for n in self.nodes:
            if n.id == i and (phase is None or n.phase == phase):
                return n
        raise KeyError(i)

    def signature(self):
        return (self.trace_hash, self.sched_hash, self.cov_hash, hashlib.sha256(self.raw).hexdigest())


class Broken(Exception):
    pass


class Server:
    """One psim process serving runs."""

    def __init__(self, build_dir, worlds, host=('/repo/lib', '/repo/include', '/repo/src', '/repo/test'), auto=''):
        self.dir = build_dir
        self.auto = auto          # garbage in automatic variables: '', 'pattern' or 'zero'
        self.worlds = worlds      # name -> dict(path -> bytes)
        self.host = host
        self.p = None
        self.runs = 0

    def start(self):
        e = dict(os.environ)
        e.pop('PSIM_NOASLR', None)
        self.p = subprocess.Popen([os.path.join(self.dir, 'psim' + (self.auto and '-' + self.auto))], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env={'PATH': '/usr/bin:/bin', 'TZ': 'UTC'})
        out = []
        for h in self.host:
            out.append(b'H %s\n' % enc(h).encode())
        for name, w in self.worlds.items():
            out.append(self._world(name, w))
        self.p.stdin.write(b''.join(out))
        self.p.stdin.flush()

    @staticmethod
    def _world(name, w):
        out = [b'W %s\n' % name.encode()]
        for path, d in w.items():
            ro = 0
            if d is None:
                out.append(b'L %s\n' % enc(path).encode())
                continue
            if isinstance(d, tuple):
                d, ro = d
            if isinstance(d, str):
                d = d.encode('latin-1')
            out.append(b'F %s %d %d\n' % (enc(path).encode(), ro, len(d)) + d + b'\n')
        out.append(b'E\n')
        return b''.join(out)

    def stop(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None

    def run(self, plan, world='base', timeout=120):
        text = plan if isinstance(plan, bytes) else plan.text()
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.runs += 1
        self.p.stdin.write(b'R %s %d\n' % (world.encode(), len(text)) + text)
        self.p.stdin.flush()
        fd = self.p.stdout
        deadline = time.time() + timeout
        r, _, _ = select.select([fd], [], [], timeout)
        if not r:
            self.stop()
            raise Broken('no answer from the simulator within %d s' % timeout)
        line = fd.readline()
        t = line.split()
        if not t:
            self.stop()
            raise Broken('simulator died')
        if t[0] == b'broken':
            raise Broken('simulator child status %d' % int(t[1]))
        n = int(t[1])
        body = fd.read(n)
        if len(body) != n:
            self.stop()
            raise Broken('short result')
        return Result(body)
