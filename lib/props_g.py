"""Properties of compiled code (G01..G09), decided with simulator G."""
import random
import core, gctx, ggen, glink, plgen, vgen
from gctx import GCtx, Rejected, Hung

build = gctx.build

OPTS = [['-O0'], ['-O1'], ['-O2'], ['-O3'], ['-O0', '-fno-PIC'], ['-O1', '-fno-PIC'], ['-O3', '-fno-PIC']]
LIM = 24000


def options(rng):
    o = list(rng.choice(OPTS))
    o.append('-std=c99')
    return o


# ---------------------------------------------------------------------
# G01, G05, G06: schedules of activations

def sched_eval(ctx, case):
    e = ctx.exe(case['src'], case['descs'], case['opts'])
    thr, hand, wants = case['thr'], case.get('hand') or [], []
    kv = dict(case['kv'])
    total, worst = 0, 0
    for i, (fn, seed) in enumerate(thr + hand):
        b = e.baseline(fn, seed, LIM)
        if b['status'] != 'ok' or b['undec'] and False:
            if kv.get('abi') and b['status'] in ('crash', 'viol'):
                break
            return None
        total += b['steps'] if i < len(thr) else 0
        worst = max(worst, b['steps']) if i >= len(thr) else worst
        wants.append(b['res'][0])
    else:
        n = kv.get('maxsig', 0) if hand else 0
        r = e.run([(f, s, w) for (f, s), w in zip(thr, wants)], [(f, s, w) for (f, s), w in zip(hand, wants[len(thr):])],
                  ev=case.get('ev'), limit=total + n * worst + 2000, **kv)
        ctx.last = r
        out = judge(ctx, r)
        if not kv.get('abi') or out:
            return out
    if kv.get('abi'):
        # the activation on its own, nothing garbled
        for fn, seed in thr:
            r = e.run([(fn, seed)], limit=LIM, abi=1)
            ctx.last = r
            if r['status'] == 'viol':
                return [(r['sig'], r['msg'])]
        return []


def judge(ctx, r):
    st = r['status']
    if st == 'ok':
        return []
    if r.get('at'):
        r['msg'] += '; events at code offsets ' + r['at'][:60]
    if st == 'viol':
        return [(r['sig'], r['msg'] + ' (step %d)' % r['step'])]
    if st == 'crash':
        return [('crash', 'a program that runs alone crashes: ' + r['msg'])]
    if r['msg'] == 'step limit':
        return [('progress', 'activations that end when run alone do not end within the same number of instructions')]
    return None


def explicit(ctx, case, sig):
    """The events of a violating run."""
    c = dict(case)
    try:
        sched_eval(ctx, c)
    except (Rejected, Hung):
        return None
    r = ctx.last
    return [list(x) for x in r['ev']] if r and r['status'] != 'ok' else None


def unit_of(rng, **kw):
    g = ggen.Gen(rng, big=rng.choice([.5, 1, 1, 1.6]), **kw)
    return g.unit(rng.randint(1, 5), rng.randint(1, 3))


def entries(ctx, e, rng, ts, k):
    """Entry activations that end by themselves within the bounds."""
    out = []
    for t in ts:
        for _ in range(k):
            s = rng.getrandbits(64) >> rng.choice([0, 0, 32, 48, 60])
            b = e.baseline(t, s, LIM)
            if b['status'] == 'ok' and b['steps'] > 5:
                out.append((t, s, b['steps']))
            else:
                ctx.stats.counts['entry-' + b['status']] += 1
    return out


def begin(ctx, rng):
    src, descs, ts = unit_of(rng)
    opts = options(rng)
    head = ggen.VAPRELUDE
    try:
        e = ctx.exe(src, descs, opts)
        return src, descs, ts, opts, head, e
    except Rejected:
        return None


def case_of(kind, b, thr, hand=(), **kv):
    src, descs, ts, opts, head, e = b
    return dict(kind=kind, src=src, head=head, descs=[list(d) for d in descs], opts=opts, thr=[[f, s] for f, s in thr], hand=[[f, s] for f, s in hand], kv=kv, ev=None)


def g01(ctx, rng, i):
    b = begin(ctx, rng)
    if not b:
        return
    ents = entries(ctx, b[5], rng, b[2], 2)
    for f, s, n in ents:
        for _ in range(3):
            k = rng.random()
            others = [(g, t) for g, t, m in ents if m < 3000]
            hand = [rng.choice(others) for _ in range(rng.randint(1, 2))] if others else []
            seed = rng.getrandbits(63)
            if k < .45 or not hand:
                ctx.check(case_of('scribble', b, [(f, s)], seed=seed, scrib=rng.choice([65535, 20000, 6000, 1500])))
            else:
                ctx.check(case_of('handler', b, [(f, s)], hand, seed=seed, scrib=rng.choice([0, 4000]), sig=rng.choice([20000, 4000, 800, 200]), maxsig=rng.randint(2, 14)))


def g05(ctx, rng, i):
    b = begin(ctx, rng)
    if not b:
        return
    ents = entries(ctx, b[5], rng, b[2], 3)
    if not ents:
        return
    for _ in range(6):
        n = rng.randint(2, 4)
        fs = [rng.choice(ents) for _ in range(n)]
        if rng.random() < .6:
            # the same function in every thread
            same = [x for x in ents if x[0] == fs[0][0]]
            fs = [rng.choice(same) for _ in range(n)]
        thr = [(f, s) for f, s, _ in fs]
        hand = []
        kv = dict(seed=rng.getrandbits(63), sw=rng.choice([30000, 12000, 3000, 600, 150]))
        if rng.random() < .5:
            short = [x for x in ents if x[2] < 2500]
            if short:
                hand = [rng.choice(short)[:2] for _ in range(rng.randint(1, 2))]
                kv.update(sig=rng.choice([6000, 1500, 300]), maxsig=rng.randint(1, 10))
        ctx.check(case_of('threads-and-handlers' if hand else 'threads', b, thr, hand, **kv))


def g06(ctx, rng, i):
    b = begin(ctx, rng)
    if not b:
        return
    for t in b[2]:
        for _ in range(2):
            s = rng.getrandbits(64) >> rng.choice([0, 0, 32, 48, 60])
            for _ in range(3):
                ctx.check(case_of('garbage-at-calls', b, [(t, s)], seed=1, garb=1, abi=1, gseed=rng.getrandbits(63)))


# ---------------------------------------------------------------------
# G02: volatile accesses

def dev_log(ctx, case, opts, cc):
    e = ctx.exe(case['src'], case['descs'], opts, cc)
    f, s = case['thr'][0]
    r = e.run([(f, s)], limit=60000, full=1, **case['kv'])
    return r


def describe_log(l):
    k = {'R': 'read', 'W': 'write', 'M': 'memcpy to', 'N': 'memcpy from'}
    return '%s of object %s (offset %s, %s bytes, value %s)' % (k.get(l[1], l[1]), l[0], l[2], l[3], l[4])


def vol_eval(ctx, case):
    want = dev_log(ctx, case, [], 'gcc')
    got = dev_log(ctx, case, case['opts'], 'lacc')
    ctx.last = got
    if want['status'] != 'ok':
        return None
    a, b = want['log'], got['log']
    if got['status'] == 'crash' or got['status'] == 'viol':
        return None
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    ctx.stats.counts['volatile-accesses'] += n
    if n == len(a) and n == len(b):
        return []
    if got['status'] == 'stop' and n == len(b):
        return None
    if n == len(a):
        return [('extra', 'after %d accesses as written, one more: %s' % (n, describe_log(b[n])))]
    if n == len(b):
        return [('missing', 'after %d accesses as written, missing: %s' % (n, describe_log(a[n])))]
    x, y = a[n], b[n]
    msg = 'access %d should be a %s, is a %s' % (n, describe_log(x), describe_log(y))
    if x[0] == y[0] and x[1] == y[1]:
        return [('width' if x[2:4] != y[2:4] else 'value', msg)]
    # missing or extra?
    if a[n + 1:n + 4] == b[n:n + 3]:
        return [('missing', msg)]
    if a[n:n + 3] == b[n + 1:n + 4]:
        return [('extra', msg)]
    return [('order', msg)]


def g02(ctx, rng, i):
    g = vgen.Vol(rng, True)
    src, descs, head = g.unit()
    for opts in rng.sample(OPTS, 3 if ctx.tier == 'quick' else 5):
        for s in range(2):
            ctx.check(dict(kind='devices', src=src, head=head, descs=[list(d) for d in descs], opts=list(opts) + ['-std=c99'],
                           thr=[['t0', rng.getrandbits(64) >> rng.choice([0, 32, 60])]], kv=dict(seed=rng.getrandbits(63)), ev=None))


# ---------------------------------------------------------------------
# G03, G04: memory around and inside objects

def mem_eval(ctx, case):
    e = ctx.exe(case['src'], case['descs'], case['opts'])
    f, s = case['thr'][0]
    r = e.run([(f, s)], ev=case.get('ev'), limit=60000, **case['kv'])
    ctx.last = r
    ctx.stats.counts['object-accesses'] += r['acc']
    if r['status'] == 'viol' and (r['sig'].startswith('torn') or r['sig'].startswith('neighbour') or r['sig'] == 'guard-read'):
        return [(r['sig'], r['msg'])]
    if r['status'] != 'ok':
        ctx.stats.counts['run-' + r['status'] + ' ' + r['msg'][:20]] += 1
        return None
    return []


def mem_explicit(ctx, case, sig):
    try:
        mem_eval(ctx, case)
    except (Rejected, Hung):
        return None
    return [list(x) for x in ctx.last['ev']]


def g03(ctx, rng, i):
    g = vgen.Nbr(rng)
    src, descs, head = g.unit()
    for opts in rng.sample(OPTS, 2 if ctx.tier == 'quick' else 4):
        for p in (0, rng.choice([20000, 3000])):
            ctx.check(dict(kind='neighbours' if not p else 'neighbours-with-writer', src=src, head=head, descs=[list(d) for d in descs], opts=list(opts) + ['-std=c99'],
                           thr=[['t0', rng.getrandbits(64)]], kv=dict(seed=rng.getrandbits(63), poke=p), ev=None))


def g07(ctx, rng, i):
    g = vgen.Rd(rng)
    src, descs, head = g.unit()
    for opts in rng.sample(OPTS, 2 if ctx.tier == 'quick' else 4):
        ctx.check(dict(kind='reads', src=src, head=head, descs=[list(d) for d in descs], opts=list(opts) + ['-std=c99'],
                       thr=[['t0', rng.getrandbits(64)]], kv=dict(seed=rng.getrandbits(63)), ev=None))


# ---------------------------------------------------------------------
# G08: loops

def loop_eval(ctx, case):
    e = ctx.exe(case['src'], case['descs'], case['opts'])
    f, s = case['thr'][0]
    r = e.run([(f, s)], limit=50000, **case['kv'])
    ctx.last = r
    ctx.stats.counts['loop-iterations'] += r['loop']
    if r['status'] == 'viol' and r['sig'].startswith('loop'):
        return [(r['sig'], r['msg'])]
    if r['status'] != 'ok':
        ctx.stats.counts['run-' + r['status'] + ' ' + r['msg'][:20]] += 1
        # the iterations up to there were checked
        return [] if r['status'] == 'stop' else None
    return []


VLALOOP = """unsigned long t0(unsigned long a) {
    int i, n = 0;
    for (i = 0; i < 12; ++i) {
        unsigned char v[20 + (i & 3)];
        x_fill(v, sizeof v);
        n += v[1];
    }
    return n;
}
"""


def g08(ctx, rng, i):
    if i == 0:
        ctx.check(dict(kind='array-of-variable-length-in-a-loop', src=vgen.HEAD + VLALOOP, head=vgen.HEAD, descs=[['t0', ggen.describe(['unsigned long'], 'unsigned long', False)]], opts=['-O0', '-std=c99'],
                       thr=[['t0', 1]], kv=dict(seed=1, loop=2), ev=None))
    if i % 4 == 3:
        src, descs, ts = unit_of(rng, vla=False)
        head = ggen.VAPRELUDE
    else:
        g = vgen.Lp(rng, i % 4 == 2)
        src, descs, head = g.unit()
        ts = ['t0']
    for opts in rng.sample(OPTS, 2 if ctx.tier == 'quick' else 4):
        for t in ts:
            ctx.check(dict(kind='loops', src=src, head=head, descs=[list(d) for d in descs], opts=list(opts) + ['-std=c99'],
                           thr=[[t, rng.getrandbits(64) >> rng.choice([0, 32, 60])]], kv=dict(seed=rng.getrandbits(63), loop=1), ev=None))


# ---------------------------------------------------------------------
# G09: placement by the loader

PLAIN = '20000000:10000,21000000:10000,22000000:10000,23000000:10000,100000000000:%x' % plgen.BIG


def taken(kv):
    """Ranges of addresses where memory and stack are."""
    l = [(a & ~4095, a + n + 4095 & ~4095) for a, n in ((int(x, 16) for x in y.split(':')) for y in kv['mem'].split(','))]
    if 'stk' in kv:
        a = int(kv['stk'], 16) & ~4095
        l.append((a - 0x40000, a + 0x4000))
    return l


def place_eval(ctx, case):
    f, s = case['thr'][0]
    o = [x for x in case['opts'] if x not in ('-fPIC', '-fno-PIC')]
    ref = ctx.exe(case['src'], case['descs'], o + ['-fno-PIC', '-DREF'], case.get('ref', 'lacc'))
    b = ref.baseline(f, s, LIM, mem=PLAIN)
    if b['status'] != 'ok':
        ctx.stats.counts['reference-' + b['status'] + ' ' + b['msg'][:20]] += 1
        return None
    e = ctx.exe(case['src'], case['descs'], case['opts'], case['cc'], gctx.Prog)
    try:
        e.place(case['place'], case['low'], case['preempt'], case['alt'], taken(case['kv']))
    except glink.Unloadable as x:
        if x.kind == 'placement':
            return None
        return [('load:' + x.kind, str(x))]
    kv = dict(case['kv'])
    r = e.run([(f, s, b['res'][0])], limit=3 * b['steps'] + 5000, **kv, img=e.img)
    ctx.last = r
    st = ctx.stats
    st.faults['placements'] += 1
    st.faults['objects taken over by another module'] += len(case['preempt'])
    st.faults['calls through the linkage table'] += r['plt']
    if r['status'] != 'ok': st.counts[r['status'] + ' ' + r['msg']] += 1
    if r['status'] == 'stop' and (r['msg'] in ('no memory', 'no stack') or r['msg'].startswith('image does not')):
        return None
    if r['status'] == 'ok':
        return []
    return [(r['sig'] or r['status'], r['msg'])]


def memory(rng):
    """Addresses of the memory the program is given: on, across and next to the boundaries where narrow arithmetic goes wrong."""
    a = []
    k = rng.sample(range(1, 0x7fe0), 5)
    off = lambda: rng.choice([0, 0, 0, 0x80000000, 0x7fffff00, 0xffffff00 - 16 * rng.randrange(64), 0x80000000 - 16 * rng.randrange(1, 64), 0x10000 * rng.randrange(65536), 16 * rng.randrange(1 << 28)])
    same = rng.choice([None, off()])
    for i in range(4):
        lo = same if same is not None and rng.random() < .7 else off()
        a.append((k[i] * glink.G4 + lo, 0x10000))
    if rng.random() < .2:
        a[0] = (0x80000000 - rng.choice([0, 16, 256, 1024]), 0x10000)
    a.append((k[4] * glink.G4 + off(), plgen.BIG))
    return ','.join('%x:%x' % x for x in a)


def g09(ctx, rng, i):
    pic = rng.random() < .85
    globs, dup, entry, big = [], None, 't0', 20
    if i % 4 == 3:
        # any function calling far away ones
        src, descs, ts = unit_of(rng)
        entry, big = rng.choice(ts), 64
    elif i % 8 == 5:
        src, descs, head = vgen.Lp(rng, rng.randrange(2)).unit()
    else:
        g = plgen.Pl(rng, pic)
        parts, descs = g.unit()
        src = gctx.NEXT.join(parts)
        dup = g.dup
        globs = [v.name for v in g.g if v.link in ('global', 'common', 'const')] + [w[0] for w in g.tabs + g.gp if w[2] != 'static']
    for opts in rng.sample(OPTS[:4], 1 if ctx.tier == 'quick' else 2):
        cc = rng.choice(['lacc', 'lacc', 'lacc', 'lacc-as'])
        arg = rng.getrandbits(big)
        for k in range(4 if pic else 2):
            low = not pic or rng.random() < .1
            kv = dict(seed=rng.getrandbits(63), mem=memory(rng))
            if rng.random() < .6:
                kv['stk'] = '%x' % (rng.randrange(1, 0x7fe0) * glink.G4 + rng.choice([0, 0, 0x80000000]) + 16 * rng.randrange(1, 120))
            if rng.random() < .3:
                kv['garb'] = 1
            pre = rng.sample(globs, rng.randrange(len(globs) + 1)) if pic and not low and rng.random() < .7 else []
            alt = [[dup, rng.randrange(2)]] if dup else []
            ctx.check(dict(kind='placed-low' if low else 'placed-anywhere', src=src, head='', descs=[list(d) for d in descs], opts=list(opts) + ['-std=c99'] + ([] if pic else ['-fno-PIC']), cc=cc, low=low,
                           thr=[[entry, arg]], place=rng.getrandbits(40), preempt=pre, alt=alt, kv=kv, ev=None))


def g04(ctx, rng, i):
    g = vgen.Vol(rng, False)
    src, descs, head = g.unit()
    for opts in rng.sample(OPTS, 2 if ctx.tier == 'quick' else 4):
        ctx.check(dict(kind='scalars', src=src, head=head, descs=[list(d) for d in descs], opts=list(opts) + ['-std=c99'],
                       thr=[['t0', rng.getrandbits(64) >> rng.choice([0, 32, 60])]], kv=dict(seed=rng.getrandbits(63)), ev=None))


REAL = ('real code: lacc as built from /repo, and the machine code it generates, executed on the processor one instruction at a time; '
        'simulated: scheduling of threads, signal delivery, device memory, memory written by other parties, register and stack contents at calls; '
        'stub: the external functions called by the generated programs return scripted values')
ASSUME = ['generated programs are free of undefined and unspecified behaviour the results could depend on',
          'the processor executes single-stepped code as it executes code that is not stepped']
TABLE = {
    'G01': (g01, sched_eval, explicit, 1000, 10000, 'a run with injected signals of a generated program whose undisturbed run ends; distinct by the trace of all executed instructions and events'),
    'G02': (g02, vol_eval, None, 1800, 16000, 'a generated program with devices behind its volatile objects, compared access by access with the reference; distinct by the executed instruction trace'),
    'G03': (g03, mem_eval, mem_explicit, 2800, 24000, 'a run of a generated program whose every store is checked against the objects next to its target; distinct by instruction trace and events'),
    'G04': (g04, mem_eval, None, 3500, 30000, 'a run of a generated program whose every access to a scalar is checked; distinct by the executed instruction trace'),
    'G07': (g07, mem_eval, None, 3000, 26000, 'a generated program whose every load is checked against memory next to the object read; distinct by the executed instruction trace'),
    'G08': (g08, loop_eval, None, 2000, 18000, 'a run of a generated program with loops in which every iteration is checked; distinct by the executed instruction trace'),
    'G09': (g09, place_eval, None, 1500, 14000, 'a run of a generated program of one or two modules at addresses drawn by the simulated loader; distinct by the executed instruction trace'),
    'G05': (g05, sched_eval, explicit, 1000, 10000, 'an interleaved run of 2 to 4 activations that end when run alone; distinct by the trace of all executed instructions and events'),
    'G06': (g06, sched_eval, None, 1000, 10000, 'a run with garbage injected at every call and return; distinct by the executed instruction trace'),
}


def spec_for(prop):
    unit, ev, ex, q, t, rule = TABLE[prop]
    extra = ['gcc -O0 performs volatile accesses as written'] if prop == 'G02' else []

    def make():
        c = GCtx()
        c.spec = s
        return c
    s = core.Spec(prop, unit, ev, make, q, t, rule, dict(real=REAL), ASSUME + extra, shrink=gctx.shrink, to_json=lambda c: c, from_json=lambda c: c,
                  measure='execution traces: hash over the address and thread of every executed instruction and over every injected event')
    s.explicit = ex
    return s
