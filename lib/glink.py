"""The loader of simulator G: places the modules of a program, binds their symbols, and writes the image the runtime maps.

A placement is decided by a seed: where each section of each module lies (position independent modules anywhere in the
address space, with objects on or across 4 GB boundaries), which symbols are bound to another module's definition, and
whether a call inside a module goes through its procedure linkage table.
"""
import random, struct

G4 = 1 << 32


class Unloadable(Exception):
    """The loader cannot bind the object: kind, text."""

    def __init__(self, kind, text):
        Exception.__init__(self, text)
        self.kind = kind


class Obj:
    def __init__(self, b):
        self.b = b
        shoff, = struct.unpack_from('<Q', b, 0x28)
        n, = struct.unpack_from('<H', b, 0x3c)
        strx, = struct.unpack_from('<H', b, 0x3e)
        sh = [struct.unpack_from('<IIQQQQIIQQ', b, shoff + 64 * i) for i in range(n)]

        def name(off):
            return b[off:b.index(b'\0', off)].decode('latin-1')

        self.sec = []       # name, alloc, write, exec, align, size, data
        for s in sh:
            data = b'' if s[1] == 8 else b[s[4]:s[4] + s[5]]
            self.sec.append(dict(name=name(sh[strx][4] + s[0]), alloc=bool(s[2] & 2), write=bool(s[2] & 1), ex=bool(s[2] & 4), align=max(1, s[8]), size=s[5], data=data, type=s[1]))
        self.sym, self.rel = [], []
        for s in sh:
            if s[1] == 2:
                stro = sh[s[6]][4]
                for nm, info, other, shndx, val, size in struct.iter_unpack('<IBBHQQ', b[s[4]:s[4] + s[5]]):
                    self.sym.append(dict(name=name(stro + nm), bind=info >> 4, type=info & 15, sec=shndx, val=val, size=size))
        for s in sh:
            if s[1] == 4 and self.sec[s[7]]['alloc']:
                for off, info, add in struct.iter_unpack('<QQq', b[s[4]:s[4] + s[5]]):
                    self.rel.append((s[7], off, info & 0xffffffff, info >> 32, add))


def pages(x):
    return x + 4095 & ~4095


class Space:
    """Addresses taken."""

    def __init__(self):
        self.taken = []

    def free(self, lo, n):
        hi = pages(lo + n) + 4096
        lo = (lo & ~4095) - 4096
        return all(hi <= a or lo >= b for a, b in self.taken)

    def take(self, lo, n):
        self.taken.append((lo & ~4095, pages(lo + n)))


def low_base(rng, n):
    """Below 2 GB, where the runtime is not."""
    k = rng.random()
    if k < .25:
        return 0x7fff0000 - pages(n)
    return rng.choice([0x10000000, 0x20000000, 0x58000000, 0x60000000, 0x78000000]) + rng.randrange(0x1000) * 4096


def high_base(rng, n):
    k = rng.random()
    if k < .3:
        return rng.randrange(1, 0x7fef) * G4 + rng.choice([0, 0, 0x7ffff000, 0x80000000, 0xfffff000])
    if k < .4:
        return 0x7ff000000000 - pages(n) - rng.randrange(16) * 4096
    if k < .5:
        return 0x80000000 - rng.randrange(4) * 4096
    if k < .6:
        return 1 << rng.randrange(33, 47)
    return rng.randrange(0x100000, 0x7fe000000) << 12


def lay(rng, o, low, sp):
    """Addresses of the sections of one module; they lie within 2 GB of each other."""
    secs = [i for i, s in enumerate(o.sec) if s['alloc'] and s['size']]
    common = [s for s in o.sym if s['sec'] == 0xfff2]
    for attempt in range(400):
        at, mine = {}, Space()
        mine.taken = list(sp.taken)
        syms = [s for s in o.sym if s['sec'] in secs and s['size'] and s['type'] == 1] + common
        if not secs:
            return at
        first = None
        target = rng.choice(syms) if syms and rng.random() < .7 and not low else None
        if target is not None and target['sec'] != 0xfff2:
            i = target['sec']
            s = o.sec[i]
            k = rng.randrange(1, 0x7fef) if rng.random() < .8 else 1
            # the object begins at a multiple of 4 GB, or one lies inside it
            a = k * G4 - target['val']
            x = rng.random()
            if x < .3 and target['size'] > 1:
                a -= rng.randrange(target['size'])
            elif x < .4:
                a -= target['size']
            elif x < .55:
                a -= 0x80000000
            a -= a % s['align']
            if a < 0x10000:
                continue
            first = (i, a)
        order = secs + ['common', 'got', 'plt']
        rng.shuffle(order)
        if first:
            order.remove(first[0])
            order.insert(0, first[0])
        ok, lo, hi = True, None, None
        for i in order:
            n = sum(c['size'] + c['val'] + 64 for c in common) + 64 if i == 'common' else 65536 if i in ('got', 'plt') else o.sec[i]['size']
            al = 64 if isinstance(i, str) else o.sec[i]['align']
            if lo is None:
                a = first[1] if first else (low_base if low else high_base)(rng, n)
            else:
                span = 0x60000000 if low else 0x7ff00000
                x = rng.random()
                if x < .4:
                    a = hi + 4096 + rng.randrange(4) * 4096
                elif x < .6:
                    a = lo - pages(n) - rng.randrange(1, 4) * 4096
                elif x < .8:
                    a = lo + span - pages(n) - 0x2000
                else:
                    a = lo + rng.randrange(span) - rng.randrange(span)
                a &= ~4095
                # anywhere in the first page, or ending at the end of the last
                x = rng.random()
                if x < .3:
                    a += rng.randrange(4096 // 64) * 64
                elif x < .5:
                    a += pages(n) - n
                a -= a % al
            bot, top = (a, a + n) if lo is None else (min(lo, a), max(hi, a + n))
            if a < 0x10000 or a + n > (0x7fffe000 if low else 0x7ff800000000) or top - bot > 0x7ff80000 or not mine.free(a, n):
                ok = False
                break
            mine.take(a, n)
            at[i] = a
            lo, hi = bot, top
        if ok:
            sp.taken = mine.taken
            return at
    raise Unloadable('placement', 'no placement found')


RUNTIME = [(0, 0x10000), (0x400000, 0x8000000), (0x3ff00000, 0x58000000)]


def link(objs, externs, seed, low, preempt=(), alt=(), busy=()):
    """objs: object files. externs: name -> address in the runtime. low: everything below 2 GB.
    preempt: names of objects whose definition is taken over by a copy elsewhere; alt: (name, module) pairs that say
    which of several definitions of a function is used. Returns segments [(addr, bytes, prot)], text ranges, stubs, symbols."""
    rng = random.Random(seed)
    sp = Space()
    sp.taken = list(RUNTIME) + list(busy)
    mods = [Obj(b) for b in objs]
    place = [lay(rng, o, low, sp) for o in mods]
    image = []          # [addr, bytearray, prot] per section
    where = []          # per module: section -> image entry
    defs = {}           # name -> [(module, addr, size, type, entry)]
    local = []
    for m, (o, at) in enumerate(zip(mods, place)):
        w = {}
        for i, a in at.items():
            if isinstance(i, str):
                continue
            s = o.sec[i]
            e = [a, bytearray(s['size'] if s['type'] == 8 else s['data']), (5 if s['ex'] else 3 if s['write'] else 1)]
            image.append(e)
            w[i] = e
        where.append(w)
        c = at.get('common', 0)
        addr = []
        for s in o.sym:
            a = None
            if s['sec'] == 0xfff2:
                c += -c % max(1, s['val'])
                a = c
                c += s['size']
            elif s['sec'] == 0xfff1:
                a = s['val']
            elif s['sec'] in at:
                a = at[s['sec']] + s['val']
            elif s['sec'] < 0xff00 and s['sec'] and not o.sec[s['sec']]['size']:
                a = 0
            addr.append(a)
            if s['bind'] and s['sec'] and s['name'] and a is not None:
                defs.setdefault(s['name'], []).append((m, a, s['size'], s['type'], w.get(s['sec']), s))
        local.append(addr)
        if 'common' in at:
            image.append([at['common'], bytearray(max(64, c - at['common'])), 3])
    alt = dict(alt)
    bound, copies = {}, []
    for n, l in sorted(defs.items()):
        strong = [d for d in l if d[5]['sec'] != 0xfff2] or l
        if n in alt:
            d = [x for x in strong if x[0] == alt[n]][0]
            for x in strong:
                if x is not d and x[4]:
                    # what is not chosen must not run: breakpoints
                    o = x[1] - x[4][0]
                    x[4][1][o:o + x[2]] = b'\xcc' * x[2]
        else:
            if len(strong) > 1 and strong[0][5]['sec'] != 0xfff2:
                raise Unloadable('duplicate', 'several definitions of ' + n)
            d = strong[0]
        bound[n] = d[1]
        if n in preempt and d[3] == 1 and d[2]:
            # as by a copy relocation: the object lives in the executable, what the module defined is not used
            s2 = None
            for k in range(200):
                b = low_base(rng, d[2]) if low else high_base(rng, d[2])
                x = rng.random()
                b += (4096 - d[2] if d[2] < 4096 else 0) & ~63 if x < .3 else rng.randrange(64) * 64 if x < .6 else 0
                if sp.free(b, d[2]):
                    s2 = b
                    break
            if s2 is None:
                continue
            sp.take(s2, d[2])
            ro = d[4] is not None and d[4][2] == 1
            copies.append((n, d, [s2, bytearray(d[2]), 1 if ro else 3]))
            image.append(copies[-1][2])
            bound[n] = s2
    stubs, text = [], []
    for m, o in enumerate(mods):
        got, gotd = {}, bytearray()
        plt = {}
        at = place[m]
        for si, off, ty, yi, add in o.rel:
            if si not in where[m]:
                continue
            e = where[m][si]
            p = e[0] + off
            y = o.sym[yi]
            far = False
            if y['bind'] and y['name']:
                if y['name'] in bound:
                    s = bound[y['name']]
                elif y['name'] in externs:
                    s = externs[y['name']]
                elif y['name'] == '_GLOBAL_OFFSET_TABLE_':
                    s = at['got']
                else:
                    raise Unloadable('undefined', 'undefined symbol ' + y['name'])
                if not low and ty in (2, 10, 11, 0, 24):
                    raise Unloadable('direct', 'relocation type %d refers directly to the external symbol %s in position independent code' % (ty, y['name']))
            else:
                s = local[m][yi]
                if s is None:
                    raise Unloadable('undefined', 'local symbol %s without section' % y['name'])
            if ty == 1:
                v, n = s + add & 0xffffffffffffffff, 8
            elif ty == 2:
                v, n = s + add - p, 4
            elif ty == 4:
                v, n = s + add - p, 4
                if not low or rng.random() < .3:
                    near = -(1 << 31) <= v < 1 << 31
                    if not near or (y['bind'] and rng.random() < .5):
                        if s not in plt:
                            plt[s] = at['plt'] + 16 * len(plt)
                            stubs.append((plt[s], s))
                        v = plt[s] + add - p
            elif ty in (9, 41, 42):
                if s not in got:
                    got[s] = len(gotd)
                    gotd += struct.pack('<Q', s)
                    if rng.random() < .5:
                        gotd += struct.pack('<Q', 0xdead000000000000 | rng.getrandbits(32))
                v, n = at['got'] + got[s] + add - p, 4
            elif ty in (10, 11):
                if not low:
                    raise Unloadable('absolute', 'absolute 32 bit relocation in position independent code')
                v, n = s + add, 4
                if not (0 <= v < 1 << 32 if ty == 10 else -(1 << 31) <= v < 1 << 31):
                    raise Unloadable('overflow', 'relocation type %d does not fit' % ty)
            else:
                raise Unloadable('type', 'relocation type %d' % ty)
            if n == 8:
                struct.pack_into('<Q', e[1], off, v)
            else:
                if ty in (2, 4, 9, 41, 42) and not -(1 << 31) <= v < 1 << 31:
                    raise Unloadable('overflow', 'relocation type %d against %s does not fit' % (ty, y['name']))
                struct.pack_into('<I', e[1], off, v & 0xffffffff)
        if gotd:
            image.append([at['got'], gotd, 1])
        text += [(e[0], e[0] + len(e[1])) for e in where[m].values() if e[2] == 5]
    for n, d, e in copies:
        if d[4] is not None:
            o = d[1] - d[4][0]
            e[1][:] = d[4][1][o:o + d[2]]
            d[4][1][o:o + d[2]] = bytes(random.Random(seed ^ o).choice([0xa5, 0xff, 1, 0x7f]) for _ in range(d[2]))
        else:
            # a common symbol: what lies in the module's own block is not used
            for s in image:
                if s[0] <= d[1] < s[0] + len(s[1]):
                    s[1][d[1] - s[0]:d[1] - s[0] + d[2]] = b'\xa5' * d[2]
    return image, text, stubs, bound


def write_image(path, image, text, stubs):
    with open(path, 'wb') as f:
        f.write(struct.pack('<QQQ', len(image), len(text), len(stubs)))
        for lo, hi in text:
            f.write(struct.pack('<QQ', lo, hi))
        for a, t in sorted(stubs):
            f.write(struct.pack('<QQ', a, t))
        for a, d, p in image:
            f.write(struct.pack('<QQQ', a, len(d), p))
            f.write(d)
