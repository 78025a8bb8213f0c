"""Compare two relocatable ELF objects up to the numbering of compiler-generated local names."""
import re, struct


class Elf:
    def __init__(self, b):
        if b[:4] != b'\x7fELF':
            raise ValueError('not an ELF file')
        (self.shoff,) = struct.unpack_from('<Q', b, 40)
        self.shentsize, self.shnum, self.shstrndx = struct.unpack_from('<HHH', b, 58)
        self.sec = []
        for i in range(self.shnum):
            n, t, f, a, o, s, l, inf, al, es = struct.unpack_from('<IIQQQQIIQQ', b, self.shoff + i * self.shentsize)
            d = b'' if t == 8 else b[o:o + s]
            if t != 8 and o + s > len(b):
                raise ValueError('section %d exceeds the file' % i)
            self.sec.append(dict(nm=n, type=t, flags=f, size=s, link=l, info=inf, align=al, data=d, entsize=es))
        st = self.sec[self.shstrndx]['data']
        for s in self.sec:
            s['name'] = self.str(st, s['nm'])
        self.syms = []
        for s in self.sec:
            if s['type'] == 2:
                strs = self.sec[s['link']]['data']
                for i in range(0, len(s['data']), 24):
                    n, info, oth, shn, val, sz = struct.unpack_from('<IBBHQQ', s['data'], i)
                    self.syms.append((self.str(strs, n), info, oth, shn, val, sz))
                self.nlocal = s['info']
        self.rels = {}
        for s in self.sec:
            if s['type'] == 4:
                rs = []
                for i in range(0, len(s['data']), 24):
                    off, info, add = struct.unpack_from('<QQq', s['data'], i)
                    rs.append((off, info & 0xffffffff, info >> 32, add))
                self.rels[self.sec[s['info']]['name']] = rs

    @staticmethod
    def str(t, o):
        return t[o:t.index(b'\0', o)].decode('latin-1')

    def secname(self, i):
        return self.sec[i]['name'] if i < len(self.sec) else {0xfff1: 'ABS', 0xfff2: 'COMMON'}.get(i, str(i))


def norm(n):
    return re.sub(r'(?:^\.[A-Za-z_]*|(?<=\w)\.)\d+$', '.#', n)


def compare(a, b):
    if a == b:
        return None
    try:
        ea = Elf(a)
    except Exception as e:
        return 'reference is not valid: %s' % e
    try:
        eb = Elf(b)
    except Exception as e:
        return 'not a valid object: %s' % e
    na, nb = [s['name'] for s in ea.sec], [s['name'] for s in eb.sec]
    if na != nb:
        return 'sections %s, expected %s' % (nb, na)
    for x, y in zip(ea.sec, eb.sec):
        for k in ('type', 'flags', 'align', 'link', 'entsize'):
            if x[k] != y[k]:
                return 'section %s: %s is %d, expected %d' % (x['name'], k, y[k], x[k])
        if x['type'] in (1, 8):
            if x['size'] != y['size']:
                return 'section %s: size %d, expected %d' % (x['name'], y['size'], x['size'])
            if x['data'] != y['data']:
                i = next(i for i in range(len(x['data'])) if x['data'][i] != y['data'][i])
                return 'section %s differs at offset %d' % (x['name'], i)
    if len(ea.syms) != len(eb.syms):
        return '%d symbols, expected %d' % (len(eb.syms), len(ea.syms))
    for x, y in zip(ea.syms, eb.syms):
        if (norm(x[0]),) + x[1:] != (norm(y[0]),) + y[1:]:
            return 'symbol %s, expected %s' % (y, x)
    if ea.nlocal != eb.nlocal:
        return 'number of local symbols'
    if ea.rels != eb.rels:
        return 'relocations differ'
    return None
