"""Generators of programs for G02, G03 and G04: statements over registered objects.

Vol: every access to a registered object is sequenced against every other one, so the order of the
accesses is fixed by the language. Nbr: single statements that store objects with watched neighbours."""
import re
import ggen
from ggen import INTS, VAPRELUDE

HEAD = VAPRELUDE + '''
enum en { E0, E1, E2 = 70000, E3 = -1 };
typedef volatile int vint; typedef volatile unsigned char vbyte; typedef volatile double vdouble;
typedef int pint; typedef unsigned char pbyte; typedef double pdouble;
unsigned long x_u2(unsigned long a, unsigned long b, int c) { return a * 3 + (b ^ c); }
'''
SCAL = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'int', 'unsigned', 'long', 'unsigned long', 'unsigned long']


def layout(body):
    """One statement per line, so that a failing program can be reduced line by line."""
    out, par, ini, i, ind = [], 0, 0, 0, 1
    line = ''
    def flush():
        nonlocal line
        if line.strip():
            out.append(('    ' * ind if out else '') + line.strip())
        line = ''
    body = body.replace('\n', ' ')
    while i < len(body):
        c = body[i]
        if c == '(':
            par += 1
        elif c == ')':
            par -= 1
        if c == '{' and not par:
            if line.rstrip().endswith('=') or ini or '=' in line and not re.match(r'\s*(if|for|while|switch|else)\b', line):
                ini += 1
                line += c
            else:
                line += c
                flush()
                ind += 1
        elif c == '}' and not par:
            if ini:
                ini -= 1
                line += c
            else:
                flush()
                ind -= 1
                line = '}'
                rest = body[i + 1:].lstrip()
                if not rest.startswith('else') and not rest.startswith('while ('):
                    flush()
                else:
                    line += ' '
        elif c == ';' and not par and not ini:
            line += c
            flush()
        else:
            line += c
        i += 1
    flush()
    return '\n'.join(out)


class Place:
    def __init__(self, lv, t, kind, id, adr=None, const=False, small=False, base=None):
        self.lv, self.t, self.kind, self.id, self.const, self.small = lv, t, kind, id, const, small
        self.adr = adr or '&' + lv
        self.base = base


class Vol:
    def __init__(self, rng, vol):
        self.r, self.vol = rng, vol
        self.q = 'volatile ' if vol else ''
        self.cnt = 0
        self.id = 0
        self.ptr = None
        self.places = []

    def pick(self, l):
        return self.r.choice(l)

    def chance(self, p):
        return self.r.random() < p

    def new(self, p):
        self.cnt += 1
        return '%s%d' % (p, self.cnt)

    # -- objects -----------------------------------------------------
    def reg(self, adr, size, kind, id):
        if not self.vol:
            return 'x_scalar(%s, %s, %d);' % (adr if self.vol else '(void *) ' + adr, size, id)
        f = {'int': 'x_dev', 'flt': 'x_devf', 'bool': 'x_devb', 'small': 'x_devs'}[kind]
        return '%s(%s, %s, %d);' % (f, adr, size, id)

    def scalar_type(self):
        k = self.r.random()
        if k < .72:
            return self.pick(SCAL), 'int'
        if k < .80:
            return '_Bool', 'bool'
        if k < .94:
            return self.pick(['float', 'double']), 'flt'
        return 'enum en', 'enum'

    def add(self, lv, t, kind, adr=None, const=False):
        """Register an object; returns its registration statement."""
        self.id += 1
        small = kind == 'int' and self.chance(.25)
        p = Place(lv, t, 'int' if kind == 'enum' else kind, self.id, adr, const, small or kind == 'enum')
        self.places.append(p)
        self.regs.append(self.reg(p.adr, 'sizeof (%s)' % t, 'small' if p.small else p.kind, p.id))

    def init(self, t, kind):
        if kind == 'flt':
            return self.pick(['0', '1.5', '-3.25', '7'])
        return str(self.r.randint(0, 100))

    def objects(self):
        """Global and local registered objects."""
        q, g, l = self.q, [], []
        self.regs = []
        r = self.r
        for _ in range(r.randint(2, 5)):
            k = r.random()
            t, kind = self.scalar_type()
            # static initialisers of qualified _Bool are not supported by lacc
            t = 'int' if kind == 'bool' and self.vol and k >= .12 else t
            kind = 'int' if t == 'int' else kind
            glob = self.chance(.5)
            n = self.new('g' if glob else 'v')
            o = g if glob else l
            st = 'static ' if self.chance(.25) else ''
            if k < .4:
                o.append('%s%s%s %s%s;' % (st, q, t, n, ' = ' + self.init(t, kind) if self.chance(.7) and kind != 'bool' else ''))
                self.add(n, t, kind)
            elif k < .48:
                td, t = self.pick([('vint', 'int'), ('vbyte', 'unsigned char'), ('vdouble', 'double')])
                if not self.vol:
                    td = 'p' + td[1:]
                o.append('%s %s;' % (td, n))
                self.add(n, t, 'flt' if t == 'double' else 'int')
            elif k < .54:
                # order of qualifiers and declarators
                if self.vol:
                    o.append('%s%s volatile %s = %s, *%sp = &%s;' % (st if glob else '', t, n, self.init(t, kind), n, n) if glob or not st else '%s volatile %s;' % (t, n))
                else:
                    o.append('%s %s;' % (t, n))
                self.add(n, t, kind)
            elif k < .60:
                o.append('%sconst %s%s %s = %s;' % (st, q, t, n, self.init(t, kind)))
                self.add(n, t, kind, const=True)
            elif k < .72:
                m = r.randint(2, 5)
                o.append('%s%s%s %s[%d]%s;' % (st, q, t, n, m, ' = {%s}' % self.init(t, kind) if self.chance(.5) else ''))
                for i in range(m):
                    self.add('%s[%d]' % (n, i), t, kind)
                self.arrays.append((n, t, kind, m))
            elif k < .86:
                sn = self.new('S')
                ms = [self.scalar_type() for _ in range(r.randint(1, 4))]
                all_vol = self.chance(.5)
                arr = r.randint(1, 3) if self.chance(.4) else 0
                decl = ''.join('%s%s m%d; ' % ('' if all_vol else q if self.chance(.7) else '', x[0], i) for i, x in enumerate(ms))
                isv = [all_vol or (('%s%s m%d;' % (q, x[0], i)) in decl) for i, x in enumerate(ms)]
                if arr:
                    decl += '%s%s a[%d]; ' % (q, t, arr + 1)
                self.structs.append('struct %s { %s};' % (sn, decl))
                o.append('%s%sstruct %s %s;' % (st, q if all_vol else '', sn, n))
                pn = None
                if not glob and self.chance(.4):
                    pn = self.new('q')
                    l.append('%sstruct %s *%s = &%s;' % (q if all_vol else '', sn, pn, n))
                for i, x in enumerate(ms):
                    if isv[i]:
                        self.add(('%s->m%d' % (pn, i)) if pn and self.chance(.7) else '%s.m%d' % (n, i), x[0], x[1])
                for i in range(arr + 1 if arr else 0):
                    self.add('%s.a[%d]' % (n, i), t, kind)
                if arr:
                    self.arrays.append((n + '.a', t, kind, arr + 1))
            elif k < .93:
                # an ordinary object, only ever accessed through a qualified pointer
                o.append('%s%s %s;' % (st, t, n))
                if self.chance(.5) and self.vol:
                    self.add('(*(%s%s *) &%s)' % (q, t, n), t, kind, adr='&' + n)
                else:
                    pn = self.new('q')
                    l.append('%s%s *%s%s = &%s;' % (q, t, self.pick(['', 'const ']), pn, n)) if not glob else l.append('%s%s *%s = &%s;' % (q, t, pn, n))
                    self.add('(*%s)' % pn, t, kind, adr=pn)
            else:
                un = self.new('U')
                t1, t2 = self.pick([('int', 'unsigned'), ('long', 'double'), ('float', 'int'), ('short', 'unsigned short'), ('unsigned long', 'double')])
                self.structs.append('union %s { %s%s a; %s%s b; };' % (un, q, t1, q, t2))
                o.append('%sunion %s %s;' % (st, un, n))
                self.add(n + '.a', t1, 'flt' if t1 in ggen.FLT else 'int')
        # volatile pointers
        self.ptr = None
        if self.chance(.35):
            t, kind = self.pick([('int', 'int'), ('unsigned char', 'int'), ('unsigned long', 'int'), ('double', 'flt')])
            a, b, p = self.new('v'), self.new('v'), self.new('p')
            l += ['%s%s %s = 3;' % (q, t, a), '%s%s %s = 5;' % (q, t, b)]
            self.add(a, t, kind)
            self.add(b, t, kind)
            k = r.random()
            if k < .45:
                l.append('%s%s *%s%s = &%s;' % (q, t, q, p, a))
            elif k < .6:
                l.append('typedef %s%s *%st%s; t%s %s = &%s;' % (q, t, q, p, p, p, a))
            elif k < .8:
                self.structs.append('struct T%s { char c; %s%s *%sm; short s; };' % (p, q, t, q))
                l.append('struct T%s %s = {1, &%s, 2}%s;' % (p, p, a, ', *q%s = &%s' % (p, p)))
                p = self.pick(['%s.m' % p, 'q%s->m' % p])
            else:
                l.append('%s%s *%s%s[3] = {&%s, &%s, &%s};' % (q, t, q, p, b, a, b))
                p += '[1]'
            if self.chance(.4):
                # through a pointer to the pointer
                pp = self.new('p')
                l.append('%s%s *%s*%s = &%s;' % (q, t, q, pp, p))
                p = '(*%s)' % pp
            self.id += 1
            self.regs.append('x_devp(&%s, &%s, &%s, %d);' % (p, a, b, self.id) if self.vol else 'x_scalar(&%s, 8, %d);' % (p, self.id))
            self.ptr = (p, t, kind, a, b)
            if kind == 'int':
                self.places.append(Place('(*%s)' % p, t, kind, self.id, adr=p, base='ptr'))
        return g, l

    # -- expressions -------------------------------------------------
    def const(self, t=None):
        r = self.r
        k = r.random()
        if k < .5:
            return str(r.randint(0, 9))
        if k < .75:
            return str(r.choice([127, 128, 255, 256, 32767, 65535, 70000, 2147483647]))
        return '0x%xul' % r.getrandbits(r.choice([32, 33, 48, 63, 64]))

    def pe(self, d=1):
        """An expression without registered objects."""
        k = self.r.random()
        if k < .45 or not d:
            return self.pick(['n1', 'n2', 'n3', 'n4', self.pa])
        if k < .65:
            return self.const()
        if k < .72:
            p = self.pick(self.places)
            return self.pick(['sizeof (%s)', '(int) sizeof %s']) % p.lv
        return '(%s %s %s)' % (self.pe(d - 1), self.pick(['+', '-', '*', '&', '|', '^', '<', '==', '>=']), self.pe(d - 1))

    def pf(self):
        return self.pick(['d1', '1.5', '.25', 'd2', '3', '(d1 + d2)', '(d1 * .5)'])

    def readable(self, kinds=None):
        c = [p for p in self.places if not kinds or p.kind in kinds]
        return self.pick(c) if c else None

    def writable(self, kinds=None):
        c = [p for p in self.places if not p.const and (not kinds or p.kind in kinds)]
        return self.pick(c) if c else None

    def lv(self, p):
        if p.kind != 'ptr' and not p.base and self.chance(.12):
            return self.pick(['(%s)', '(*&%s)', '(*(&%s))']) % p.lv
        return p.lv

    def e1(self, p=None):
        """An integer valued expression with one access to p (read)."""
        p = p or self.readable()
        v = self.lv(p)
        k = self.r.random()
        if p.kind == 'flt':
            if k < .4:
                return '(%s %s %s)' % (v, self.pick(['<', '>=', '==', '!=']), self.pf())
            if k < .7:
                return '(%s) %s' % (self.pick(['int', 'long', 'short']), v)
            return self.pick(['!%s', '(%s != 0)', '(%s > 1.5f)']) % v
        if k < .3:
            return v
        if k < .55:
            return '(%s %s %s)' % (v, self.pick(['+', '-', '*', '&', '|', '^', '<', '>', '==', '!=', '<=']), self.pe())
        if k < .7:
            return '(%s %s %s)' % (self.pe(), self.pick(['+', '-', '*', '&', '|', '^', '<', '>', '==', '!=']), v)
        if k < .76:
            return '(%s %s (%s & 7))' % (v, self.pick(['<<', '>>']), self.pe())
        if k < .80:
            return '(%s %s ((%s & 7) + 1))' % (v, self.pick(['/', '%']), self.pe())
        if k < .84:
            return '(%s %s ((unsigned) %s & 7))' % (self.pick(['n1', '1', '77ul']), self.pick(['<<', '>>']), v)
        if k < .90:
            return '(%s%s)' % (self.pick(['-', '~', '!', '!!', '+']), v)
        if k < .95:
            return '((%s) %s)' % (self.pick(list(INTS)), v)
        return self.pick(['t[%s & 7]', '(%s * 0)', '(%s & 0)', '(0 * %s)', '(%s ^ 0)', '(%s | 0)', '(1 * %s)', '(%s << 0)']) % v

    def es(self):
        """Sequenced accesses."""
        k = self.r.random()
        if k < .6:
            return self.e1()
        if k < .72:
            return '(%s %s %s)' % (self.e1(), self.pick(['&&', '||']), self.e1())
        if k < .82:
            return '(%s ? %s : %s)' % (self.e1(), self.e1(), self.e1())
        if k < .87:
            return '(%s, %s)' % (self.e1(), self.e1())
        if k < .91:
            return self.pick(['(0 && %s)', '(1 || %s)', '(1 && %s)', '(0 || %s)', '(1 ? %s : n1)', '(0 ? n2 : %s)', '(0 ? %s : n1)', '(n1 ? %s : n2)']) % self.e1()
        if k < .95:
            return '(!(%s && %s) || %s)' % (self.e1(), self.e1(), self.e1())
        return '((%s ? %s : %s) %s %s)' % (self.pe(), self.e1(), self.pe(), self.pick(['+', '*', '^', '<']), self.pe())

    def n(self):
        return self.pick(['n1', 'n2', 'n3', 'n4'])

    def store(self):
        p = self.writable()
        v = self.lv(p)
        k = self.r.random()
        if p.kind == 'flt':
            if k < .35:
                return '%s = %s;' % (v, self.pf())
            if k < .55:
                return '%s %s= %s;' % (v, self.pick('+-*/'), self.pick(['1.5', '2', '.25', '-3']))
            if k < .7:
                return self.pick(['%s++;', '--%s;', '%s--;', '++%s;']) % v
            q = self.readable()
            return '%s = %s;' % (v, self.lv(q))
        if p.kind == 'bool':
            if k < .4:
                return '%s = %s;' % (v, self.pe())
            return '%s = %s;' % (v, self.e1())
        if k < .2:
            return '%s = %s;' % (v, self.pe(2))
        if k < .35:
            # reading the pointer on both sides would be unsequenced
            return '%s = %s;' % (v, self.es() if not p.base else self.pe(2))
        if k < .55:
            return '%s %s= %s;' % (v, self.pick(['+', '-', '*', '&', '|', '^']), self.pe())
        if k < .60:
            return '%s %s= %s & 7;' % (v, self.pick(['<<', '>>']), self.pe())
        if k < .64:
            return '%s %s= (%s & 7) + 1;' % (v, self.pick(['/', '%']), self.pe())
        if k < .78:
            return self.pick(['%s++;', '%s--;', '++%s;', '--%s;', '(void) %s++;', '%s += 1;', '%s -= 1;']) % v
        if k < .84:
            return '%s = %s %s %s;' % (v, v, self.pick(['+', '-', '|', '^']), self.const()) if not p.base else '%s = %s;' % (v, self.const())
        if k < .89:
            return '%s = %s;' % (v, v) if not p.base else '%s = 9;' % v
        if k < .93:
            return '%s = (%s)++;' % (self.n(), v)
        if k < .97:
            c = self.const()
            return self.pick(['%s = %s; %s = %s;', '%s = %s; n2 = 1; %s = %s;', 'n3 = (%s = %s, %s = %s, 0);']) % (v, c, v, self.pick([c, c, 'n1']))
        return '%s = %s;' % (v, self.const())

    def load(self):
        k = self.r.random()
        p = self.readable()
        v = self.lv(p)
        if p.kind == 'flt' and k < .35:
            return self.pick(['d1 = %s;', 'd2 = %s;', 'd2 = %s + 1;', 'd1 = %s * .5;', 'd1 = -%s;', 'd2 = 3 - %s;']) % v
        if k < .4:
            return '%s = %s;' % (self.n(), self.e1(p))
        if k < .6:
            return '%s = %s;' % (self.n(), self.es())
        if k < .66:
            return self.pick(['%s;', '(void) %s;', '(%s);', '%s, n1++;', '(void) (%s + 1);', '(void) !%s;']) % v
        if k < .72:
            return self.pick(['n1 = %s; n2 = %s; n1 = %s;', 'n1 = %s; n1 = %s; n2 = %s;', '%s; %s; n1 = %s;', 'n3 = (%s, %s, %s);']) % (v, v, v) if p.kind != 'flt' else self.pick(['d1 = %s; d2 = %s;', 'd1 = %s; d1 = %s;']) % (v, v)
        if k < .80:
            return '%s %s= %s;' % (self.n(), self.pick(['+', '-', '^', '|', '&']), self.e1(p))
        if k < .86:
            return self.pick(['n1 = x_u2(%s, n2, 3);', 'n2 = x_u2(n1, %s, n3);', 'n3 = x_u2(n1, 2, %s);', 'x_note(%s);']) % self.e1(p)
        if k < .9:
            return '%s = %s + 0 * n1;' % (self.n(), self.e1(p))
        return self.pick(['{ const long c = %s; n1 += c; }', '{ unsigned char c = %s; n2 ^= c; }', '{ long u = %s; }', '{ int u[2]; u[0] = %s; u[1] = n1; n3 = u[0]; }', '{ register long u = %s; n4 = u + 1; u = 3; }']) % self.e1(p)

    def stmt(self, d):
        k = self.r.random()
        if d <= 0 or k < .30:
            return self.load()
        if k < .58:
            return self.store()
        if k < .64:
            return 'if (%s) %s%s' % (self.es(), self.block(d - 1), ' else ' + self.block(d - 1) if self.chance(.5) else '')
        if k < .68:
            c = self.new('c')
            h = self.pick(['while (%s++ < %d && %s)', 'while (%s++ < %d && !(%s))'])
            return '{ int %s = 0; %s %s }' % (c, h % (c, self.r.randint(1, 4), self.e1()), self.block(d - 1))
        if k < .71:
            c = self.new('c')
            return '{ int %s = 0; do %s while (++%s < %d && %s); }' % (c, self.block(d - 1), c, self.r.randint(1, 4), self.e1())
        if k < .75:
            c = self.new('c')
            cond = self.pick(['%s < %d' % (c, self.r.randint(1, 4)), '%s < %d && %s' % (c, self.r.randint(1, 4), self.e1())])
            return '{ int %s; for (%s = 0%s; %s; ++%s) %s }' % (c, c, self.pick(['', ', ' + self.e1()]), cond, c, self.block(d - 1))
        if k < .79:
            p = self.readable(('int', 'bool'))
            if not p:
                return self.store()
            cs = self.r.sample(range(8), 3)
            return 'switch (%s & 7) { case %d: %s %s case %d: %s break; default: %s case %d: %s }' % (
                self.lv(p), cs[0], self.stmt(d - 1), self.pick(['', 'break;']), cs[1], self.stmt(d - 1), self.stmt(d - 1), cs[2], self.stmt(d - 1))
        if k < .84 and self.arrays:
            n, t, kind, m = self.pick(self.arrays)
            if m >= 2:
                ix = '(%s) & 1' % self.pick([self.pe(), self.e1()])
                v = '%s[%s]' % (n, ix)
                return self.pick(['%s = 3;', 'n2 = %s;', '%s += 2;', 'n3 = %s + 1;', '%s++;']) % v if kind == 'int' else self.pick(['%s = 1;', 'n2 = %s > 0;']) % v
        if k < .89 and self.helpers:
            h = self.pick(self.helpers)
            c = [p for p in self.places if p.t == h[1] and not p.const and not p.base]
            if c:
                return '%s = %s(%s, %s);' % (self.n(), h[0], self.pick(c).adr, self.pe())
        if k < .92 and self.ptr:
            p, t, kind, a, b = self.ptr
            return self.pick(['%s = &%s;' % (p, a), '%s = &%s;' % (p, b), 'n1 = *%s != 0;' % p, '*%s = n1 & 7;' % p, 'n2 = %s == &%s;' % (p, a), 'n3 = %s != 0;' % p,
                              'if (%s) n1++;' % p, '%s; n2++;' % p, '%s = %s;' % (p, p), '{ %s%s *u = %s; n1 += u == %s; }' % (self.q, t, p, p), '{ %s%s *u = %s; u = %s; n4 += u == &%s; }' % (self.q, t, p, p, a), '{ %s%s *w = %s; n3 = *w > 1; *w = 3; }' % (self.q, t, p), 'n2 = !%s;' % p, '(void) %s;' % p])
        if k < .94:
            return '{ %s %s }' % (self.stmt(d - 1), self.stmt(d - 1))
        if k < .96 and not self.noreturn:
            p = self.readable(('int',))
            if p:
                return 'if (%s) return %s;' % (self.e1(), self.e1(p))
        if k < .98:
            # initialised on every pass
            t, kind = self.scalar_type()
            self.id += 1
            v, c = self.new('v'), self.new('c')
            sub = Place(v, t, 'int' if kind == 'enum' else kind, self.id, None, False, kind == 'enum')
            rg = self.reg('&' + v, 'sizeof (%s)' % t, 'small' if sub.small else sub.kind, sub.id)
            i = self.pf() if kind == 'flt' else self.e1() if self.chance(.5) else self.pe()
            self.places.append(sub)
            self.noreturn += 1
            body = ' '.join(self.stmt(d - 1) for _ in range(2))
            self.noreturn -= 1
            self.places.remove(sub)
            return '{ int %s; for (%s = 0; %s < 3; ++%s) { %s%s %s = %s; if (!%s) { %s } %s if (%s == 2) x_undev(&%s); } }' % (c, c, c, c, self.q, t, v, i, c, rg, body, c, v)
        if not self.jmp:
            return self.store()
        jb = self.new('j')
        loc = self.writable(('int',))
        if not loc:
            return self.load()
        self.noreturn += 1
        body = self.stmt(0)
        self.noreturn -= 1
        return '{ long %s[32]; %s = %s; if (x_setjmp(%s) == 0) { %s = %s; %s x_longjmp(%s, 1); } x_note(%s); }' % (
            jb, loc.lv, self.const(), jb, loc.lv, self.const(), body, jb, loc.lv)

    def block(self, d):
        return '{ ' + ' '.join(self.stmt(d) for _ in range(self.r.randint(1, 3))) + ' }'

    def helper(self):
        t = self.pick(['int', 'unsigned char', 'short', 'unsigned long', 'long', 'double', 'float', 'unsigned'])
        kind = 'flt' if t in ggen.FLT else 'int'
        n = self.new('h')
        keep = self.places, self.arrays, self.ptr, self.helpers
        self.places, self.arrays, self.ptr = [Place('(*p)', t, kind, 0, 'p')], [], None
        self.places[0].base = 'ptr' if kind == 'flt' else None
        if self.chance(.5):
            self.places.append(Place('p[0]', t, kind, 0, 'p'))
        self.noreturn = 0
        jmp, self.jmp = self.jmp, False
        body = '\n    '.join(self.stmt(1) for _ in range(self.r.randint(1, 4)))
        ret = self.e1()
        self.jmp = jmp
        self.places, self.arrays, self.ptr, self.helpers = keep
        self.helpers.append((n, t))
        return '%slong %s(%s%s *p, long a) {\n    long n1 = a, n2 = 1, n3 = 2, n4 = 3; double d1 = .5, d2 = 2; int t[8] = {1, 2, 3};\n    %s\n    return %s + n1 + n2;\n}' % (
            self.pick(['', 'static ']), n, self.q, t, layout(body), ret)

    def unit(self):
        self.structs, self.arrays, self.helpers, self.noreturn = [], [], [], 0
        self.pa = 'a'
        self.jmp = True
        hs = [self.helper() for _ in range(self.r.randint(0, 2))]
        self.places = []
        g, l = self.objects()
        if not self.writable(('int',)):
            l.append('%sint v0 = 3;' % self.q)
            self.add('v0', 'int', 'int')
        self.pa, par = 'a', ''
        if self.chance(.15):
            self.pa, par = 'n4', self.q
            self.add('a', 'unsigned long', 'int')
        body = '\n    '.join(self.stmt(2) for _ in range(self.r.randint(3, 9)))
        nz = 'long n1 = 5, n2 = 1, n3 = 2, n4 = 3; double d1 = .5, d2 = 2; int t[8] = {1, 2, 3};'
        src = '\n'.join(self.structs + g + hs)
        fn = 'unsigned long t0(%sunsigned long a) {\n    %s\n    %s\n    %s\n    %s\n    x_note(n1); x_note(n2); x_note(n3); x_noted(d1);\n    x_unwatch();\n    return n1 + n4;\n}' % (
            par, nz, '\n    '.join(l), '\n    '.join(self.regs), layout(body))
        return HEAD + src + '\n' + fn + '\n', [('t0', ggen.describe(['unsigned long'], 'unsigned long', False))], HEAD


class Nbr:
    """Stores to objects of any type, with neighbours that must keep their bytes."""

    def __init__(self, rng):
        self.r = rng
        self.cnt = 0
        self.types, self.funs, self.glob = [], [], []
        self.known = {}

    pick, chance, new = Vol.pick, Vol.chance, Vol.new

    def const(self):
        return str(self.r.choice([0, 1, 7, 100, 255, 65535, 123456789, self.r.getrandbits(32), self.r.getrandbits(63)])) + self.pick(['', 'l', 'ul'])

    # -- types -------------------------------------------------------
    def bits(self):
        n = self.new('b')
        ms, fs, os = [], [], []
        for i in range(self.r.randint(1, 5)):
            if self.chance(.25):
                ms.append('%s f%d;' % (self.pick(['char', 'short', 'int', 'unsigned char', 'long', 'float']), i))
                os.append('f%d' % i)
                continue
            b = self.pick(['char', 'unsigned char', 'short', 'unsigned short', 'int', 'int', 'unsigned', '_Bool', 'long', 'unsigned long'])
            mx = {'char': 8, 'short': 16, 'int': 32, 'unsigned': 32, '_Bool': 1, 'long': 63}[b.split()[-1]]
            ms.append('%s f%d : %d;' % (b, i, self.r.randint(1, self.pick([mx, mx, min(mx, 9)]))))
            fs.append('f%d' % i)
        self.known['struct ' + n] = (fs, os)
        self.types.append('struct %s { %s };' % (n, ' '.join(ms)))
        return 'struct ' + n

    def fields(self, t):
        """Bit-fields and other members of a structure made by bits()."""
        k = self.known.get(t)
        return k if isinstance(k, tuple) else ((), ())

    def type(self):
        r = self.r.random()
        if r < .16:
            return self.bits()
        r = self.r.random()
        if r < .35:
            return self.pick(list(INTS) + ['_Bool', 'float', 'double', 'long double', 'char *', 'enum en', 'unsigned char', 'short'])
        if r < .75:
            n = self.r.choice([self.r.randint(1, 17), self.r.randint(1, 17), self.r.randint(1, 40), self.r.randint(41, 80)])
            return self.plain('c%d' % n, 'struct c%d { unsigned char c[%d]; };' % (n, n))
        if r < .9:
            n = self.new('m')
            ms = [self.pick(['char', 'short', 'int', 'long', 'float', 'double', 'unsigned char', 'unsigned short']) for _ in range(self.r.randint(1, 4))]
            k = self.r.randint(1, 9)
            ms2 = ['%s f%d%s;' % (t, i, '[%d]' % self.r.randint(1, 3) if self.chance(.3) else '') for i, t in enumerate(ms)]
            if self.chance(.4):
                ms2.append('char tail[%d];' % k)
            return self.plain(n, 'struct %s { %s };' % (n, ' '.join(ms2)))
        return self.pick([t for t in ggen.STRUCTS])

    def plain(self, n, text):
        t = 'struct ' + n
        if n not in self.known:
            self.known[n] = 1
            self.types.append(text)
        return t

    def isint(self, t):
        return t in INTS or t == 'enum en'

    def support(self, t):
        """Functions that return and take objects of the type."""
        k = t.replace(' ', '_').replace('*', 'p')
        if k in self.known:
            return k
        self.known[k] = 1
        if t in INTS or t in ('_Bool', 'enum en', 'float', 'double', 'long double'):
            body = 'return (%s) (x_u(a) & 0x%x);' % (t, self.pick([0x7f, 0x3fff, 0x7fffffff]))
        elif t == 'char *':
            body = 'return (char *) x_u(a);'
        else:
            body = '%s v; x_fill((unsigned char *) &v, sizeof v); return v;' % t
        st = self.pick(['', 'static '])
        self.funs.append('%s%s r_%s(unsigned long a) { %s }' % (st, t if t[-1] != '*' else t + ' ', k, body))
        self.funs.append('%svoid p_%s(%s v, int a) { x_hash(&v, 1); v = r_%s(a); }' % (st, k, t, k))
        return k

    # -- values ------------------------------------------------------
    def value(self, t, l):
        """An expression of the type; l is the list of declarations before it."""
        k = self.support(t)
        q = self.r.random()
        if self.isint(t) or t in ('_Bool', 'float', 'double', 'long double') and q < .4:
            return self.pick([self.const(), 'x_u(3)', 'x_i(1, 2, 3)', 'x_d(1.5, 2)', 'n1', 'n1 + n2', '(%s) n1' % t, 'r_%s(n1)' % k, 'n1 == n2', '-n2'])
        if t == 'char *':
            return self.pick(['(char *) n1', '0', '(char *) &n1', 'r_%s(2)' % k, '"abc"'])
        v = self.new('v')
        if t in ('float', 'double', 'long double', '_Bool'):
            l.append('%s %s = %s;' % (t, v, self.pick(['1', 'n1', '0'])))
        else:
            l.append('%s %s;' % (t, v))
            l.append('x_fill((unsigned char *) &%s, sizeof %s);' % (v, v))
        if q < .30:
            return 'r_%s(%s)' % (k, self.pick(['n1', '7', 'n2']))
        if q < .55:
            return v
        if q < .75:
            p = self.new('q')
            l.append('%s *%s = &%s;' % (t, p, v))
            return '*' + p
        if q < .85 and t.startswith('struct c'):
            return '(%s) {{%s}}' % (t, ', '.join(str(self.r.randint(0, 255)) for _ in range(self.r.randint(1, int(t[8:])))))
        if q < .93 and t not in ggen.FLT:
            w = self.new('v')
            l.append('%s %s;' % (t, w))
            l.append('%s = r_%s(5);' % (w, k))
            return '(n1 ? %s : %s)' % (v, w)
        return v

    # -- targets -----------------------------------------------------
    def target(self, t, l):
        """An object of the type between neighbours: (lvalue, watches)."""
        k = self.r.random()
        g = self.chance(.4)
        o = self.glob if g else l
        if k < .45:
            s, w = self.new('W'), self.new('w')
            a, b = self.r.randint(1, 9), self.r.randint(1, 9)
            self.types.append('struct %s { unsigned char g0[%d]; %s t; unsigned char g1[%d]; };' % (s, a, t, b))
            o.append('struct %s %s;' % (s, w))
            l.append('x_fill((unsigned char *) &%s, sizeof %s);' % (w, w)) if t not in ('_Bool',) else l.append('x_fill(%s.g0, %d); x_fill(%s.g1, %d);' % (w, a, w, b))
            lv, ws = w + '.t', ['x_watch(%s.g0, %d);' % (w, a), 'x_watch(%s.g1, %d);' % (w, b)]
        elif k < .85:
            a, n = self.new('a'), self.r.randint(2, 5)
            o.append('%s %s[%d];' % (t, a, n))
            if t != '_Bool':
                l.append('x_fill((unsigned char *) %s, sizeof %s);' % (a, a))
            i = self.r.randrange(n)
            ix = self.pick([str(i), '(n1 * 0 + %d)' % i])
            if not g or self.chance(.5):
                p = self.new('q')
                l.append('%s *%s = %s;' % (t, p, a))
                a2 = self.pick([a, p])
            else:
                a2 = a
            lv, ws = '%s[%s]' % (a2, ix), ['x_watch(%s, sizeof %s);' % (a, a)]
            return lv, ws, '%s[%d]' % (a, i)
        else:
            x, v, y = self.new('g'), self.new('v'), self.new('g')
            l += ['unsigned char %s[8] = {1, 2, 3};' % x, '%s %s;' % (t, v), 'unsigned char %s[8] = {4, 5};' % y]
            lv, ws = v, ['x_watch(%s, 8);' % x, 'x_watch(%s, 8);' % y]
        if self.chance(.4):
            p = self.new('q')
            l.append('%s *%s = &%s;' % (t, p, lv))
            return '(*%s)' % p, ws, lv
        return lv, ws, lv

    def members(self, t):
        if t.startswith('struct c') and t[8:].isdigit():
            return [('.c[%d]' % self.r.randrange(int(t[8:])), 'unsigned char')]
        return [(m.replace('%', '') if '%' not in m else __import__('re').sub(r'%(\d+)', lambda x: str(self.r.randrange(int(x.group(1)))), m), mt)
                for m, mt in ggen.MEMB.get(t, []) if mt != 'bits'] if not t.startswith('union') else []

    def stmt(self):
        l = []
        t = self.type()
        k = self.r.random()
        if k < .62:
            lv, ws, al = self.target(t, l)
            ms = self.members(t)
            fs, os = self.fields(t)
            if fs and self.chance(.75):
                # members that are not bit-fields are objects of their own
                if '[' in al:
                    a, i = al[:-1].split('[')
                    ws = ['x_watch(%s, %s * sizeof *%s);' % (a, i, a), 'x_watch(%s + %s + 1, sizeof %s - (%s + 1) * sizeof *%s);' % (a, i, a, i, a)]
                w = ' '.join(ws) + ''.join(' x_watch(&(%s).%s, sizeof (%s).%s);' % (al, m, al, m) for m in os)
                f = lv + '.' + self.pick(fs)
                s = self.pick(['%s += n1;', '%s -= 3;', '%s ^= x_u(1);', '%s++;', '--%s;', '%s |= n2;', '%s <<= 1;', '%s *= 1.5;', '%s = n1;', '%s = 1;', '%s = 0;', '%s = x_u(7);', '%s = x_d(2.5, 1);', '%s = n1 < n2;', 'n1 = %s = n2;', '%s = -1;', '%s = 70000;', 'n2 = %s++;', 'n1 = --%s;']) % f
                return l, [w, s, 'x_unwatch();']
            if ms and self.chance(.25):
                m, mt = self.pick(ms)
                lv, al, t = lv + m, al + m, mt
            q = self.r.random()
            if (self.isint(t) and q < .45):
                s = self.pick(['%s += n1;', '%s -= 3;', '%s ^= x_u(1);', '%s++;', '--%s;', '%s |= n2;', '%s <<= 1;', '%s /= 3;', '%s *= 1.5;' if t != 'enum en' else '%s %%= 7;']) % lv
            elif t in ('float', 'double', 'long double') and q < .4:
                s = self.pick(['%s += 1.5;', '%s *= n1;', '%s++;', '%s -= x_d(1, 2);']) % lv
            elif q > .9:
                l2, w2, al2 = self.target(t, l)
                v = self.value(t, l)
                s = '%s = %s = %s;' % (lv, l2, v)
                ws = ws + w2
                al = al + '), sizeof (' + al + ')); x_allow(&(' + al2
            else:
                s = '%s = %s;' % (lv, self.value(t, l))
            w = ' '.join(ws) + ' x_allow(&(%s), sizeof (%s));' % (al, al.split('&(')[-1])
            return l, [w, s, 'x_unwatch();']
        if k < .72:
            # passing by value changes nothing
            v = self.new('v')
            kk = self.support(t)
            l.append('%s %s = r_%s(4);' % (t, v, kk))
            x = self.new('g')
            l.append('unsigned char %s[8] = {1, 2, 3};' % x)
            return l, ['x_watch(&%s, sizeof %s); x_watch(%s, 8);' % (v, v, x), 'p_%s(%s, 3);' % (kk, v), 'x_unwatch();']
        if k < .88:
            # initialised on the second pass with everything in place
            x, v, y, c = self.new('g'), self.new('v'), self.new('g'), self.new('c')
            q = self.r.random()
            if q < .3:
                n = self.r.randint(1, 24)
                d = 'char %s[%d] = "%s";' % (v, n, 'abcdefghijklmnopqrstuvwxyz'[:self.r.randint(0, n)])
            elif q < .5:
                et = self.pick(['char', 'short', 'int', 'long', 'float', 'double'])
                n = self.r.randint(1, 9)
                d = '%s %s[%d] = {%s};' % (et, v, n, ', '.join(self.pick(['n1', '3', '0']) for _ in range(self.r.randint(1, n))))
            elif q < .65 and t.startswith('struct c') and t[8:].isdigit():
                d = '%s %s = {{%s}};' % (t, v, ', '.join(self.pick(['1', 'n1', '9']) for _ in range(self.r.randint(1, int(t[8:])))))
            else:
                d = '%s %s = %s;' % (t, v, self.value(t, l))
            return l, ['int %s; unsigned char %s[8] = {1, 2};' % (c, x), 'for (%s = 0; %s < 2; ++%s) {' % (c, c, c),
                       'unsigned char %s[8];' % y, d,
                       'if (!%s) { x_watch(%s, 8); x_watch(%s, 8); x_allow(&%s, sizeof %s); }' % (c, x, y, v, v),
                       '}', 'x_unwatch();']
        # variable arguments
        if t in ('float', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', '_Bool', 'enum en', 'long double'):
            t = self.pick(['int', 'double', 'unsigned long', 'struct s3', 'struct s12', 'struct s16', 'struct s7'])
        kk = self.support(t)
        f = self.new('vf')
        inner = []
        lv, ws, al = self.target(t, inner)
        c = self.new('c')
        self.funs.append('static int %s(int n1%s, ...) {\n    va_list ap;\n    int n2 = 3, %s;\n    %s\n    va_start(ap, %s);\n    for (%s = 0; %s < n1; ++%s) {\n        %s x_allow(&(%s), sizeof (%s));\n        %s = va_arg(ap, %s);\n        x_unwatch();\n    }\n    va_end(ap);\n    return n2;\n}' % (
            f, ', double d' if self.chance(.3) else '', c, '\n    '.join(inner), 'n1', c, c, c, ' '.join(ws), al, al, lv, t))
        if ', double d' in self.funs[-1]:
            self.funs[-1] = self.funs[-1].replace('va_start(ap, n1)', 'va_start(ap, d)')
        v = self.new('v')
        l.append('%s %s = r_%s(4);' % (t, v, kk))
        n = self.r.randint(1, 8)
        return l, ['%s(%d%s%s);' % (f, n, ', 1.5' if ', double d' in self.funs[-1] else '', ', %s' % v * n)]

    def unit(self):
        body = []
        for _ in range(self.r.randint(2, 6)):
            l, ss = self.stmt()
            body.append('{ ' + ' '.join(l) + ' ' + ' '.join(ss) + ' }')
        fn = 'unsigned long t0(unsigned long a) {\n    long n1 = 5, n2 = 1;\n    %s\n    return n1 + n2;\n}' % layout(' '.join(body))
        return HEAD + '\n'.join(self.types + self.glob + self.funs) + '\n' + fn + '\n', [('t0', ggen.describe(['unsigned long'], 'unsigned long', False))], HEAD


class Rd(Nbr):
    """Reads of objects of any type, next to memory that must not be read."""

    def scalar(self, lv, t):
        """Statements that read a scalar or a bit-field."""
        i = self.isint(t) or t in ('_Bool', 'field')
        f = t in ('float', 'double', 'long double')
        l = ['n1 = %s == 3;', 'if (%s) n1++;', 'n1 = !%s;', 'n2 = %s && n1;', 'n1 = n2 || %s;', 'n1 += %s ? 3 : n2;', 'while (%s) break;', 'for (; %s;) break;', '(void) %s;', '%s;', 'n1 = (0, %s) != 0;', 'do n1--; while (%s && n1 > 3);']
        if i or f:
            l += ['n1 = %s + n2;', 'n1 = -%s;', 'd1 = %s;', 'd1 *= %s;', 'e1 = (float) %s;', 'ld1 = %s;', 'ld1 = ld1 - %s;', 'n1 = %s * 2.5 < d1;', 'n1 = %s > n2;', 'n1 = x_d(%s, 2) < 1;' , 'd1 = x_d(1, %s) + 1;',
                  'e1 += %s;', 'd1 = 1.5 - %s;', 'n1 = n2 < %s;', 'n1 = (unsigned char) %s;', 'b1 = %s;', 's1 = (short) %s;', 'x_hash((%s) ? &n1 : &n2, 8);', 'x_u(%s);', 'd1 = -%s;', 'ld1 /= %s;']
        if i:
            l += ['n1 = ~%s;', 'n1 = %s << 3;', 'n1 = %s >> 1;', 'n1 = %s / 3;', 'n1 = 100 %% (%s | 1);', 'n1 = arr[%s & 3];', 'n1 = *(arr + (%s & 1));', 'switch (%s) { case 1: n1 = 2; case 9: n2++; default: n1--; }', 'n1 = n2 & %s;', 'n1 |= %s;', 'c1 = %s;',
                  's1 ^= %s;', 'n1 = x_i(1, %s, 3);', 'n1 += x_u(%s);', 'n1 = %s < n2 ? n1 : n2;', 'n1 = n2 << (%s & 7);', 'n1 = (int) %s + s1;', 'u1 = (unsigned) %s;', 'u1 += (unsigned) %s * 2;', 'n1 = %s == c1;', 'n1 = c1 - %s;', 'if (s1 <= %s) n2 = 4;']
            if t != '_Bool':
                l += ['%s++;', '--%s;', '%s += 2;', '%s ^= n2;', '%s <<= 1;', '%s |= 1;', '%s *= 1.5;']
        if f:
            l += ['%s++;', '%s += 2;', '%s *= n2;', '%s -= d1;', 'e1 = -%s;', 'n1 = (long) (%s * 0);']
        if t == 'char *':
            l += ['n1 = %s == 0;', 'n1 = (long) %s;', 'x_hash(&n1, %s ? 8 : 4);', 'p1 = %s;', 'p1 = %s + n1;', '%s++;', '%s -= 3;', 'n1 = %s - p1 > 3;', 'p1 = %s ? p1 : 0;']
        s = self.pick(l)
        if s.count('%s') == 0:
            return s.replace('%%', '%')
        return s % ((lv,) * s.count('%s'))

    def whole(self, lv, t, l):
        """Statements that read a structure."""
        k = self.support(t)
        q = self.r.random()
        v = self.new('v')
        if q < .15:
            l.append('%s %s;' % (t, v))
            return '%s = %s;' % (v, lv)
        if q < .25:
            return '{ %s %s = %s; x_hash(&%s, sizeof %s); }' % (t, v, lv, v, v)
        if q < .45:
            n = self.r.randint(0, 7)
            f = self.new('h')
            ps = ['%s a%d' % (self.pick(['long', 'int', 'char']), i) for i in range(n)]
            ps.insert(self.r.randint(0, n), t + ' s')
            self.funs.append('%sint %s(%s) { x_hash(&s, sizeof s); return 1; }' % (self.pick(['', 'static ']), f, ', '.join(ps)))
            return 'n1 += %s(%s);' % (f, ', '.join(lv if p.endswith(' s') else str(i) for i, p in enumerate(ps)))
        if q < .55:
            f = self.new('h')
            self.funs.append('static int %s(int n, ...) { va_list ap; %s v; va_start(ap, n); while (n--) { v = va_arg(ap, %s); x_hash(&v, sizeof v); } va_end(ap); return 2; }' % (f, t, t))
            n = self.r.randint(1, 7)
            return 'n1 -= %s(%d%s);' % (f, n, ', %s' % lv * n)
        if q < .68:
            f = self.new('h')
            self.funs.append('%s%s %s(%s *p, int n) { if (n > 2) return p[0]; return *p; }' % (self.pick(['', 'static ']), t, f, t))
            if self.chance(.3):
                return '%s(&(%s), n2);' % (f, lv)
            l.append('%s %s;' % (t, v))
            return '%s = %s(&(%s), n1);' % (v, f, lv)
        if q < .78:
            l.append('%s %s, *q%s = &%s;' % (t, v, v, v))
            return '*q%s = %s;' % (v, lv)
        if q < .86:
            l.append('%s %s;' % (t, v))
            w = self.new('v')
            l.append('%s %s;' % (t, w))
            l.append('%s = r_%s(5);' % (w, k))
            return '%s = n1 ? %s : %s;' % (v, lv, w)
        if q < .91:
            return '(void) %s;' % lv
        if q < .95:
            return '%s;' % lv
        return 'p_%s((n1++, %s), 2);' % (k, lv)

    def stmt(self):
        l = []
        t = self.type()
        if self.chance(.12) and (t.startswith('struct') or self.isint(t)):
            # the result of a function, read from an object of its own
            f, v = self.new('h'), self.new('v')
            inner = []
            lv, ws, al = self.target(t, inner)
            self.funs.append('%s%s %s(long n1) { %s %s x_allow(&(%s), sizeof (%s)); return %s; }' % (self.pick(['', 'static ']), t, f, ' '.join(inner), ' '.join(ws).replace('x_watch', 'x_guard'), al, al, lv))
            l.append('%s %s;' % (t, v))
            return l, ['%s = %s(3);' % (v, f) if self.chance(.8) else '%s(2);' % f, 'x_unwatch();']
        lv, ws, al = self.target(t, l)
        fs = self.fields(t)[0]
        ms = self.members(t)
        if fs and self.chance(.8):
            s = self.scalar(lv + '.' + self.pick(fs), 'field')
        elif t.startswith('struct') or t.startswith('union'):
            if ms and self.chance(.25):
                m, t = self.pick(ms)
                lv, al = lv + m, al + m
                s = self.scalar(lv, t)
            else:
                s = self.whole(lv, t, l)
        else:
            s = self.scalar(lv, t)
        return l, [' '.join(ws).replace('x_watch', 'x_guard') + ' x_allow(&(%s), sizeof (%s));' % (al, al), s, 'x_unwatch();']

    def unit(self):
        body = []
        for _ in range(self.r.randint(3, 8)):
            l, ss = self.stmt()
            body.append('{ ' + ' '.join(l) + ' ' + ' '.join(ss) + ' }')
        fn = ('unsigned long t0(unsigned long a) {\n    long n1 = 5, n2 = 1, arr[4] = {1, 2, 3, 4}; double d1 = a & 7; float e1 = 1; long double ld1 = 2; _Bool b1 = 0; short s1 = 3; char c1 = 4, *p1 = (char *) arr; unsigned u1 = 8;\n    %s\n    return n1 + n2 + s1 + c1 + u1 + b1 + (d1 < 1) + (e1 < ld1) + (p1 == 0);\n}' % layout(' '.join(body)))
        return HEAD + '\n'.join(self.types + self.glob + self.funs) + '\n' + fn + '\n', [('t0', ggen.describe(['unsigned long'], 'unsigned long', False))], HEAD


class Lp(Nbr):
    """Loops of all forms around statements that push, call and convert."""

    def __init__(self, rng, vla):
        Nbr.__init__(self, rng)
        self.vla = vla

    def arith(self):
        """Operations with operands of all types and kinds, constants on either side."""
        pre, l = [], []
        t = self.pick(['long double', 'long double', 'double', 'float', 'long', 'unsigned long', 'unsigned', 'short', '_Bool'])
        v = self.new('v')
        pre.append('%s %s = %s;' % (t, v, self.pick(['n1', 'n2', 'd1', 'ld1', '3'])))
        floating = t in ('long double', 'double', 'float')
        k = self.r.random()
        if k < .2:
            v2 = self.new('v')
            pre.append('%s %s[3] = {%s, 2};' % (t, v2, v))
            a = '%s[%s]' % (v2, self.pick(['0', '1', 'n1 & 1']))
        elif k < .35:
            v2 = self.new('v')
            pre.append('%s *%s = &%s;' % (t, v2, v))
            a = '*' + v2
        elif k < .5:
            v2 = self.new('v')
            pre.append('struct { char c; %s f; } %s = {1, %s};' % (t, v2, v))
            a = v2 + '.f'
        else:
            a = v
        const = self.pick(['2.5L', '0.0L', '1e9L', '-3.25L', '2.5', '0.0', '1e300', '2.5f', '2', '-1', '0', '7ul', '0x7fffffffffffffffl'])
        b = self.pick([const, const, const, 'n1', 'ld1', 'd1', 'e1', 'u7', a, '(char) n2', 'x_l(%s, 2)' % a, 'x_d(1, 2)']).replace('u7', '(unsigned) n2')
        if self.r.random() < .5:
            l, r = a, b
        else:
            l, r = b, a
        op = self.pick(['<', '<=', '>', '>=', '==', '!=', '<', '<=', '>', '>=', '+', '-', '*', '/', '&&', '||', '&', '|', '^', '<<', '>>', '%'])
        if op in ('/', '%') and (l == r or r in ('0', 'n1', '(char) n2', '(unsigned) n2', a) or r[0] == '0'):
            op = '+'
        ints = lambda e: e in ('2', '-1', '0', '7ul', '0x7fffffffffffffffl', 'n1', '(char) n2', '(unsigned) n2') or (e == a and not floating)
        if op in ('&', '|', '^', '<<', '>>', '%') and not (ints(l) and ints(r)):
            op = self.pick(['<', '>=', '-', '*'])
        if op in ('<<', '>>'):
            r = '(%s & 7)' % r
        e = '%s %s %s' % (l, op, r)
        boolean = op in ('<', '<=', '>', '>=', '==', '!=', '&&', '||')
        if boolean:
            use = self.pick(['n2 += %s;', 'if (%s) n2++;', 'if (!(%s)) n2++; else n2--;', 'n2 = %s ? 5 : n1;', 'ld1 += %s;', 'if ((%s) && n1) n2++;', 'if (n1 || (%s)) n2++;', 'while (%s) { n2++; break; }', 'x_u(%s);', 'ld1 = (%s) ? 1.5L : d1;', '(void) (%s);', 'x_i(%s, 2, 3);'])
        else:
            use = self.pick(['ld1 = %s;', 'd1 = %s;', 'e1 = %s;', 'ld1 = (long double) (%s) / 1e200L;', 'n2 += (%s) > 3;', 'n2 += 2.25L >= (%s);', 'if (%s) n2++;', 'n2 += !(%s);', 'x_l(%s, 1);', 'x_d(%s, 1);', 'n2 += (_Bool) (%s);', '(void) (%s);'])
        out = [use % e]
        if self.r.random() < .4:
            asg = self.pick(['+=', '-=', '*=', '='])
            out.append('%s %s %s;' % (a, asg, b))
        if self.r.random() < .2:
            out.append('%s%s;' % (a, self.pick(['++', '--'])) if t != '_Bool' and a[0] != '*' else 'n2++;')
        return ['{ ' + ' '.join(pre + out) + ' }']

    def plain_stmt(self):
        l = []
        q = self.r.random()
        if q < .5:
            t = self.type()
            if t in INTS or t in ('char *', 'enum en', '_Bool', 'float', 'double', 'long double'):
                v = self.new('v')
                return ['%s %s = %s;' % (t, v, self.pick(['n1', 'n2', '3']) if t != 'char *' else '0'), 'n2 += x_u(%s != 0);' % v]
            k = self.support(t)
            v = self.value(t, l)
            return l + [self.pick(['p_%s(%s, 1);' % (k, v), 'r_%s(n1);' % k, 'p_%s(r_%s(n2), n1);' % (k, k)])]
        if q < .62:
            n = self.r.randint(5, 12)
            f = self.new('h')
            ts = [self.pick(['long', 'int', 'double', 'long double', 'char', 'float']) for _ in range(n)]
            self.funs.append('%slong %s(%s) { return x_u(%s); }' % (self.pick(['', 'static ']), f, ', '.join('%s a%d' % (t, i) for i, t in enumerate(ts)), ' + '.join('(long) a%d' % i for i in range(n))))
            e = '%s(%s)' % (f, ', '.join(self.pick(['n1', '2', 'n2 & 7', 'd1', 'ld1', 'x_i(1, 2, 3)']) for _ in range(n)))
            return [self.pick(['n2 += %s;', '%s;', 'd1 = %s;', 'if (%s > 3) n2++;', 'n2 = n1 ? %s : 3;', 'n2 = n1 && %s;', 'ld1 = %s * 2;', 'while (%s > n2) { n2 += 90000000000; break; }']) % e]
        if q < .68:
            return self.arith()
        if q < .75:
            return [self.pick(['ld1 = ld1 * n1 + d1;', 'd1 = ld1;', 'n2 = (long) (ld1 - ld1);', 'n2 += (unsigned) (d1 * 0) + 1;', 'n2 = ld1 < d1;', 'ld1 = (unsigned long) n2;', 'ld1 = -ld1; ld1++;', 'if (ld1) n2--;', 'n2 = ld1 ? 2 : 3;', '(void) ld1;', 'ld1;', '(long double) n2;',
                               'x_l(ld1, 2);', 'ld1 = x_l(x_l(1.5l, 2), n1);', 'x_notel(ld1);', 'd1 += x_d(1.5, 2);', 'n1 ? x_l(1, 2) : ld1;', '(0, ld1);', 'n2 = !ld1;', 'n2 = ld1 && n1;', 'n2 = (char) (ld1 - ld1);', 'n2 = (_Bool) ld1;', 'e1 = ld1; ld1 += e1;', 'ld1 /= 2; ld1 = ld1 == 0 ? 1 : 2;',
                               'x_var(2, 54ul, 1.5L, ld1);', 'x_var(3, 0ul, 1, 2, 3);', 'x_var(9, 0ul, 1, 2, 3, 4, 5, 6, 7, 8, 9);'])]
        if q < .83 and self.vla:
            v, f = self.new('z'), self.new('h')
            t = self.pick(['char', 'int', 'struct s3', 'long'])
            self.funs.append('%slong %s(int n) { %s %s[n]; x_fill((unsigned char *) %s, sizeof %s); if (n & 1) return 3; { char %sb[n * 2]; x_fill((unsigned char *) %sb, sizeof %sb); n += %sb[1]; } return x_u(sizeof %s + n); }' % (self.pick(['', 'static ']), f, t, v, v, v, v, v, v, v, v))
            return ['n2 += %s((n1 & 31) + 1);' % f]
        if q < .9:
            return [self.pick(['switch (n1 & 3) { case 0: n2++; case 1: n2--; break; default: n2 += 2; }', 'if (n1 & 1) continue;', 'if (x_i(1, 2, 3) == 77777) break;', 'n2 ^= n1;', '{ struct s96 b1 = r_struct_s96(n1); b1.a[3]++; p_struct_s96(b1, 1); }'])]
        return ['n2 += x_u(n1 * 3);', 'n2 &= 0xffff;']

    def loop(self, d):
        i = self.new('i')
        n = self.pick([2, 3, 9] if d else [8, 9, 12])
        body = []
        for _ in range(self.r.randint(1, 4)):
            if d < 2 and self.chance(.2):
                body.append(self.loop(d + 1))
            else:
                ss = ' '.join(self.plain_stmt())
                body.append('{ ' + ss + ' }' if self.chance(.8) else ss)
        b = ' '.join(body)
        k = self.r.randrange(6)
        if k == 0:
            return '{ int %s; for (%s = 0; %s < %d; ++%s) { n1++; %s } }' % (i, i, i, n, i, b)
        if k == 1:
            return '{ int %s = 0; while (%s++ < %d) { n1 += 2; %s } }' % (i, i, n, b)
        if k == 2:
            return '{ int %s = %d; do { n1 ^= 5; %s } while (--%s); }' % (i, n, b, i)
        if k == 3:
            return 'for (int %s = %d; %s--; ) { n1 = n1 * 3 & 0xff; %s }' % (i, n, i, b)
        if k == 4 and 'break' not in b and 'continue' not in b:
            l = self.new('L')
            return '{ int %s = 0; %s: n1++; { %s } if (%s++ < %d) goto %s; }' % (i, l, b, i, n, l) if '[(' not in b else '{ int %s = 0; %s: n1++; { %s } if (%s++ < %d) goto %s; }' % (i, l, b, i, n, l)
        return '{ int %s = 0; for (;;) { if (%s++ == %d) break; n1--; %s } }' % (i, i, n, b)

    def unit(self):
        self.support('struct s96')
        body = ' '.join(self.loop(0) for _ in range(self.r.randint(1, 3)))
        pre = ' '.join('char o%d[1 + (n1 & 7)]; o%d[0] = 1;' % (i, i) for i in range(self.r.randint(0, 2))) if self.vla else ''
        fn = 'unsigned long t0(unsigned long a) {\n    long n1 = 5, n2 = 1; double d1 = a & 7; float e1 = 1; long double ld1 = 2;\n    %s\n    return n1 + n2 + (d1 < 1) + (ld1 < 2) + (e1 > 3);\n}' % layout(pre + body)
        return HEAD + '\n'.join(self.types + self.glob + self.funs) + '\n' + fn + '\n', [('t0', ggen.describe(['unsigned long'], 'unsigned long', False))], HEAD
