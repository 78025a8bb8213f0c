"""Generators of the C units that simulator G executes.

Everything generated is free of undefined behaviour that could depend on a schedule: all objects are
initialised, indices are masked, divisors positive, shifts bounded, loops counted."""

# name -> (bits, signed)
INTS = {'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0),
        'int': (32, 1), 'unsigned': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0)}
INTL = list(INTS)
FLT = {'float': 32, 'double': 64}

PRELUDE = '''
struct s3 { unsigned char c[3]; };
struct s5 { unsigned char c[5]; };
struct s6 { short a, b, c; };
struct s7 { unsigned char c[7]; };
struct s11 { unsigned char c[11]; };
struct s12 { float a, b, c; };
struct s16 { unsigned long a; double b; };
struct s16i { unsigned a; unsigned char b, c; unsigned long d; };
struct s24 { unsigned long a, b; unsigned c; };
struct s96 { unsigned long a[12]; };
struct s75 { unsigned char c[75]; };
struct s200 { unsigned int a[50]; };
struct s1k { unsigned char c[1031]; };
struct s5k { double a[640]; };
struct sb { unsigned a : 3; int b : 7; unsigned c : 21; char d; unsigned long e : 33; };
struct sn { struct s3 x; struct s16i y[2]; short z; };
union un { unsigned long l; unsigned char c[8]; unsigned short s[4]; };
unsigned long x_u(unsigned long); int x_i(int, unsigned char, short); signed char x_c(signed char); unsigned short x_s(unsigned short);
_Bool x_b(int); float x_f(float, double); double x_d(double, int); long double x_l(long double, int); void x_v(void);
struct s3 x_s3(struct s3); struct s5 x_s5(struct s5); struct s6 x_s6(struct s6); struct s7 x_s7(struct s7); struct s11 x_s11(struct s11);
struct s12 x_s12(struct s12); struct s16 x_s16(struct s16, int); struct s16i x_s16i(int, struct s16i); struct s24 x_s24(struct s24, long);
struct s96 x_s96(struct s96);
unsigned long x_many(int, double, long, float, short, long double, char, double, unsigned, long, struct s3, unsigned char, double);
int x_var(int, unsigned long, ...);
void x_fill(unsigned char *, unsigned long); void x_hash(const void *, unsigned long); void x_note(unsigned long); void x_notei(int);
void x_noted(double); void x_notef(float); void x_notel(long double);
unsigned long x_call(unsigned long (*)(unsigned long), unsigned long);
int x_setjmp(long *); void x_longjmp(long *, int);
void x_watch(void *, unsigned long); void x_guard(void *, unsigned long); void x_allow(void *, unsigned long); void x_unwatch(void); void x_scalar(void *, unsigned long, int);
void x_dev(volatile void *, unsigned long, int); void x_devf(volatile void *, unsigned long, int); void x_devs(volatile void *, unsigned long, int); void x_devb(volatile void *, unsigned long, int);
void x_devp(volatile void *, volatile void *, volatile void *, int); void x_undev(volatile void *);
'''
VAPRELUDE = '#include <stdarg.h>\n' + PRELUDE + 'void x_vlog(int, unsigned long, va_list);\n'

# eightbyte classes of the structures: list of (kind, bits), or None for memory
SCLS = {'struct s3': [('i', 24)], 'struct s5': [('i', 40)], 'struct s6': [('i', 48)], 'struct s7': [('i', 56)],
        'struct s11': [('i', 64), ('i', 24)], 'struct s12': [('x', 64), ('x', 32)], 'struct s16': [('i', 64), ('x', 64)],
        'struct s16i': [('i', 64), ('i', 64)], 'struct s24': None, 'struct s96': None, 'struct s75': None, 'struct s200': None, 'struct s1k': None, 'struct s5k': None, 'struct sb': [('i', 64), ('i', 64)],
        'struct sn': None, 'union un': [('i', 64)]}
BIG = ['struct s1k', 'struct s5k']
STRUCTS = [t for t in SCLS if t not in BIG]
MEMB = {  # scalar members usable as lvalues: (suffix, type); %d means an index below the number
    'struct s3': [('.c[%3]', 'unsigned char')], 'struct s5': [('.c[%5]', 'unsigned char')], 'struct s7': [('.c[%7]', 'unsigned char')],
    'struct s6': [('.a', 'short'), ('.b', 'short'), ('.c', 'short')], 'struct s11': [('.c[%11]', 'unsigned char')],
    'struct s12': [('.a', 'float'), ('.b', 'float'), ('.c', 'float')], 'struct s16': [('.a', 'unsigned long'), ('.b', 'double')],
    'struct s16i': [('.a', 'unsigned'), ('.b', 'unsigned char'), ('.c', 'unsigned char'), ('.d', 'unsigned long')],
    'struct s24': [('.a', 'unsigned long'), ('.b', 'unsigned long'), ('.c', 'unsigned')], 'struct s96': [('.a[%12]', 'unsigned long')], 'struct s75': [('.c[%75]', 'unsigned char')], 'struct s200': [('.a[%50]', 'unsigned')],
    'struct s1k': [('.c[%1031]', 'unsigned char')], 'struct s5k': [('.a[%640]', 'double')],
    'struct sb': [('.a', 'bits'), ('.b', 'bits'), ('.c', 'bits'), ('.d', 'char'), ('.e', 'bits')],
    'struct sn': [('.x.c[%3]', 'unsigned char'), ('.y[%2].a', 'unsigned'), ('.y[%2].d', 'unsigned long'), ('.z', 'short')],
    'union un': [('.l', 'unsigned long'), ('.c[%8]', 'unsigned char'), ('.s[%4]', 'unsigned short')]}
XS = {'struct s3': 'x_s3(%s)', 'struct s5': 'x_s5(%s)', 'struct s6': 'x_s6(%s)', 'struct s7': 'x_s7(%s)', 'struct s11': 'x_s11(%s)', 'struct s12': 'x_s12(%s)',
      'struct s16': 'x_s16(%s, I)', 'struct s16i': 'x_s16i(I, %s)', 'struct s24': 'x_s24(%s, I)', 'struct s96': 'x_s96(%s)'}
VB = ['int', 'unsigned long', 'double', 'struct s16', 'struct s3', 'struct s7', 'struct s11', 'struct s12', 'struct s16i', 'struct s24', 'struct s96',
      'long double', 'union un', 'struct sb', 'struct s5', 'double']
VAK = {'int': 0, 'unsigned long': 1, 'double': 2, 'struct s16': 3, 'struct s3': 4, 'struct s24': 5, 'long double': 6, 'struct s12': 7}


def describe(params, ret, variadic):
    """The descriptor simulator G needs to know which registers carry values."""
    ints, sses = [], []
    if ret in SCLS and SCLS[ret] is None:
        ints.append(64)
    for t in params:
        if t in SCLS:
            c = SCLS[t]
            if c is None:
                continue
            ni, nx = sum(k == 'i' for k, _ in c), sum(k == 'x' for k, _ in c)
            if len(ints) + ni <= 6 and len(sses) + nx <= 8:
                ints += [b for k, b in c if k == 'i']
                sses += [b for k, b in c if k == 'x']
        elif t == 'long double':
            pass
        elif t in FLT:
            if len(sses) < 8:
                sses.append(FLT[t])
        else:
            if len(ints) < 6:
                ints.append(8 if t == '_Bool' else INTS[t][0] if t in INTS else 64)
    if variadic:
        # further arguments follow in registers
        ints += [64] * (6 - len(ints))
    r = ''
    if ret == 'void':
        r = '-'
    elif ret in SCLS:
        c = SCLS[ret]
        if c is None:
            r = 'a64m'
        else:
            i, x = ['a', 'd'], ['x', 'y']
            r = ''.join('%s%d' % ((i if k == 'i' else x).pop(0), b) for k, b in c)
    elif ret == 'long double':
        r = 't'
    elif ret in FLT:
        r = 'x%d' % FLT[ret]
    elif ret == '_Bool':
        r = 'a8'
    else:
        r = 'a%d' % (INTS[ret][0] if ret in INTS else 64)
    return '%d %d %s %d %s %s' % (variadic, len(ints), ' '.join(map(str, ints)), len(sses), ' '.join(map(str, sses)), r)


class Fn:
    def __init__(self, name, params, ret, variadic=False, rec=False):
        self.name, self.params, self.ret, self.variadic, self.rec = name, params, ret, variadic, rec
        self.cost = 1


class Gen:
    """A unit of functions fN (various signatures) and entries tN(unsigned long)."""

    def __init__(self, rng, big=1.0, vla=True, ldbl=True, static=True, setjmp=True):
        self.r = rng
        self.fns = []
        self.out = []
        self.n = 0
        self.vla, self.ldbl, self.setjmp = vla, ldbl, setjmp
        self.big = big
        self.noaddr = set()
        self.asm = False
        self.fuel = 0
        self.copiers = {}

    # -- helpers -----------------------------------------------------
    def new(self, p='v'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def pick(self, l):
        return self.r.choice(l)

    def chance(self, p):
        return self.r.random() < p

    def const(self, t=None):
        r = self.r
        k = r.random()
        if k < .4:
            v = r.randint(-4, 40)
        elif k < .7:
            v = self.pick([127, 128, 255, 256, 32767, 65535, 65536, -128, -129, 2147483647, 1 << 31, 0xdeadbeef, -1])
        else:
            v = r.getrandbits(self.pick([8, 16, 31, 40, 63]))
        if v < 0:
            return '(%d)' % v if v > -(1 << 31) else '(%dl)' % v
        if v >= 1 << 31:
            return '%d%s' % (v, self.pick(['ul', 'l']) if v < 1 << 63 else 'ul')
        return '%d%s' % (v, self.pick(['', '', 'u', 'l', 'ul']))

    def fconst(self):
        return self.pick(['0.5', '1.0', '-2.25', '3.0f', '0.0', '1e3', '-0.125f', '7.75', '100.5f'])

    # -- expressions --------------------------------------------------
    def vars_of(self, pred):
        return [v for s in self.scope for v in s if pred(v[1])]

    def lval(self, kinds='if', assign=False):
        """A scalar lvalue: (text, type)."""
        c = []
        for s in self.scope:
            for name, t, ro in s:
                if assign and ro:
                    continue
                if isinstance(t, str):
                    if (t in INTS or t == '_Bool') and 'i' in kinds or t in FLT and 'f' in kinds or t == 'long double' and 'l' in kinds:
                        c.append((name, t))
                    elif t in MEMB:
                        c.append((name, t))
                elif t[0] in ('arr', 'ptr'):
                    c.append((name, t))
        for _ in range(12):
            if not c:
                return None
            name, t = self.pick(c)
            if isinstance(t, tuple) and t[0] == 'arr':
                e = t[1]
                ix = '%s[%s]' % (name, self.index(t[2]))
                if isinstance(e, tuple):
                    ix += '[%s]' % self.index(e[2])
                    e = e[1]
                name, t = ix, e
            elif isinstance(t, tuple):
                e = t[1]
                name, t = ('(*%s)' % name) if self.chance(.7) else '%s[0]' % name, e
            if t in MEMB:
                suf, t = self.pick(MEMB[t])
                if '%' in suf:
                    i = suf.index('%')
                    j = suf.index(']')
                    n = int(suf[i + 1:j])
                    suf = suf[:i] + self.index(n) + suf[j:]
                name += suf
            if (t in INTS or t in ('bits', '_Bool')) and 'i' in kinds or t in FLT and 'f' in kinds or t == 'long double' and 'l' in kinds:
                return name, t
        return None

    def index(self, n):
        if self.chance(.6):
            return str(self.r.randrange(n))
        v = self.vars_of(lambda t: t in INTS)
        if not v:
            return str(self.r.randrange(n))
        name = self.pick(v)[0]
        if n & (n - 1) == 0:
            return '%s & %d' % (name, n - 1)
        return '(unsigned char) %s %% %d' % (name, n)

    def effect(self, d):
        """An expression evaluated for its effect."""
        k = self.r.random()
        if k < .6:
            v = [(n, t) for s in self.scope for n, t, ro in s if t in SCLS and not ro]
            if v:
                n, t = self.pick(v)
                return '%s = %s' % (n, self.sexpr(t, d))
        if k < .8:
            l = self.lval('if', True)
            if l and l[1] != 'bits':
                return '%s %s %s' % (l[0], self.pick(['=', '+=', '=', '-=']), self.fexpr(d) if l[1] in FLT else self.iexpr(d))
        f = self.callable()
        if f:
            return self.call(self.pick(f), d)
        return 'x_v()'

    def member(self, d, flt):
        """A scalar member of a structure that is the value of an assignment or call."""
        c = []
        for s in self.scope:
            for n, t, ro in s:
                if t in MEMB and not ro:
                    c += [(n, t, suf) for suf, mt in MEMB[t] if '%' not in suf and (mt in FLT) == flt]
        if c and self.chance(.6):
            n, t, suf = self.pick(c)
            return '(%s = %s)%s' % (n, self.sexpr(t, d), suf)
        f = [(f, suf) for f in self.callable() if f.ret in MEMB and f.ret != 'union un' for suf, mt in MEMB[f.ret] if '%' not in suf and (mt in FLT) == flt]
        if f:
            f, suf = self.pick(f)
            return self.call(f, d) + suf
        return None

    def iexpr(self, d):
        """An integer expression."""
        r = self.r
        if d > 0 and self.side and self.chance(.1):
            return '(%s, %s)' % (self.effect(d - 1), self.iexpr(d - 1))
        if d > 0 and self.side and self.chance(.06):
            m = self.member(d - 1, False)
            if m:
                return m
        if d > 0 and self.chance(.03):
            t = self.pick(['int', 'unsigned char', 'long'])
            n = self.pick([1, 2, 4, 8, 16])
            return '((%s[%d]) {%s})[%s]' % (t, n, ', '.join(self.iexpr(0) for _ in range(n)), self.index(n))
        if d > 0 and self.ldbl and self.chance(.04):
            return '(%s) %s' % (self.pick(INTL + ['_Bool', 'unsigned short', 'unsigned']), self.paren(self.lexpr(d - 1)))
        if d <= 0 or self.chance(.15):
            k = r.random()
            if k < .7:
                l = self.lval('i')
                if l:
                    return l[0]
            return self.const()
        k = r.random()
        if k < .34:
            op = self.pick(['+', '-', '*', '&', '|', '^', '+', '-'])
            return '(%s %s %s)' % (self.iexpr(d - 1), op, self.iexpr(d - 1))
        if k < .40:
            return '(%s %s ((%s & 15) + 1))' % (self.iexpr(d - 1), self.pick('/%'), self.iexpr(d - 1))
        if k < .46:
            return '(%s %s (%s & 7))' % (self.iexpr(d - 1), self.pick(['<<', '>>']), self.iexpr(d - 1))
        if k < .54:
            return '(%s %s %s)' % (self.iexpr(d - 1), self.pick(['<', '>', '<=', '>=', '==', '!=']), self.iexpr(d - 1))
        if k < .58:
            return '(%s %s %s)' % (self.fexpr(d - 1), self.pick(['<', '>', '<=', '>=', '==', '!=']), self.fexpr(d - 1))
        if k < .64:
            return '(%s %s %s)' % (self.iexpr(d - 1), self.pick(['&&', '||']), self.iexpr(d - 1))
        if k < .70:
            return '(%s ? %s : %s)' % (self.iexpr(d - 1), self.iexpr(d - 1), self.iexpr(d - 1))
        if k < .76:
            return '(%s) %s' % (self.pick(INTL + ['_Bool']), self.paren(self.iexpr(d - 1)))
        if k < .80:
            return '%s%s' % (self.pick(['-', '~', '!']), self.paren(self.iexpr(d - 1)))
        if k < .83:
            return '(%s) %s' % (self.pick(INTL + ['_Bool']), self.paren(self.fexpr(d - 1)))
        if k < .86:
            return '(%s, %s)' % (self.iexpr(d - 1), self.iexpr(d - 1))
        if k < .93:
            return self.callexpr('i', d - 1)
        l = self.lval('i', True)
        if l and self.side:
            t = self.pick(['%s++', '++%s', '%s--', '--%s']) % l[0]
            if l[1] != 'bits' and l[1] != '_Bool':
                return '(%s)' % t
        return self.callexpr('i', d - 1)

    def paren(self, s):
        return s if s[0] == '(' and s[-1] == ')' else '(%s)' % s

    def fexpr(self, d):
        if d > 0 and self.side and self.chance(.12):
            return '(%s, %s)' % (self.effect(d - 1), self.fexpr(d - 1))
        if d > 0 and self.side and self.chance(.06):
            m = self.member(d - 1, True)
            if m:
                return m
        k = self.r.random()
        if d <= 0 or k < .2:
            l = self.lval('f')
            return l[0] if l and self.chance(.75) else self.fconst()
        if k < .55:
            op = self.pick('+-*/')
            b = self.fexpr(d - 1)
            return '(%s %s %s)' % (self.fexpr(d - 1), op, b)
        if k < .65:
            return '-%s' % self.paren(self.fexpr(d - 1))
        if k < .75:
            return '(%s) %s' % (self.pick(['float', 'double']), self.paren(self.iexpr(d - 1)))
        if k < .8:
            return '(%s ? %s : %s)' % (self.iexpr(d - 1), self.fexpr(d - 1), self.fexpr(d - 1))
        if k < .86:
            return '(%s) %s' % (self.pick(['float', 'double']), self.paren(self.fexpr(d - 1)))
        if k < .89 and self.ldbl:
            return '(double) %s' % self.paren(self.lexpr(d - 1))
        return self.callexpr('f', d - 1)

    def lexpr(self, d):
        if d > 0 and self.side and self.chance(.1):
            return '(%s, %s)' % (self.effect(d - 1), self.lexpr(d - 1))
        k = self.r.random()
        l = self.lval('l')
        if d <= 0 or k < .4:
            return l[0] if l else '(long double) %s' % self.paren(self.fexpr(d - 1))
        if k < .75:
            return '(%s %s %s)' % (self.lexpr(d - 1), self.pick('+-*'), self.lexpr(d - 1))
        if k < .85:
            return '(long double) %s' % self.paren(self.pick([self.iexpr, self.fexpr])(d - 1))
        if k < .92:
            return 'x_l(%s, %s)' % (self.lexpr(d - 1), self.iexpr(0))
        return '-%s' % self.paren(self.lexpr(d - 1))

    def sexpr(self, t, d):
        """A structure value of type t."""
        k = self.r.random()
        v = [n for s in self.scope for n, tt, ro in s if tt == t]
        av = [(n, tt) for s in self.scope for n, tt, ro in s if isinstance(tt, tuple) and tt[1] == t]
        if v and (k < .45 or d <= 0):
            return self.pick(v)
        if av and k < .6:
            n, tt = self.pick(av)
            return '%s[%s]' % (n, self.index(tt[2])) if tt[0] == 'arr' else '*%s' % n
        if v and t in self.copiers and k < .66:
            return '%s(&%s)' % (self.copiers[t], self.pick(v))
        if k < .7 and t in XS and d > 0:
            return XS[t].replace('I', self.iexpr(0)).replace('%s', self.sexpr(t, d - 1))
        if k < .85 and d > 0:
            f = [f for f in self.callable() if f.ret == t]
            if f:
                return self.call(self.pick(f), d - 1)
        if v and len(v) > 1 and k < .93:
            return '(%s ? %s : %s)' % (self.iexpr(d - 1), self.pick(v), self.pick(v))
        if v:
            return self.pick(v)
        return '(%s) %s' % (t, self.init(t, 0))

    def expr(self, t, d):
        if t in INTS or t in ('bits', '_Bool'):
            return self.iexpr(d)
        if t in FLT:
            return self.fexpr(d)
        if t == 'long double':
            return self.lexpr(d)
        if t in SCLS:
            return self.sexpr(t, d)
        if isinstance(t, tuple):
            c = [n for s in self.scope for n, tt, ro in s if tt == t]
            return self.pick(c)
        raise Exception(t)

    def callable(self):
        return [f for f in self.fns if self.fuel + f.cost * self.mult <= 700 and not f.rec]

    def call(self, f, d):
        self.fuel += f.cost * self.mult
        a = [self.expr(t, d if self.chance(.4) else 0) for t in f.params]
        if f.variadic == 2:
            n = self.r.randrange(0, 15)
            kinds, x = 0, []
            for i in range(n):
                k = self.r.randrange(len(VB))
                if VB[k] == 'long double' and not self.ldbl:
                    k = 0
                kinds |= k << 4 * i
                x.append(self.vaarg(VB[k], d))
            a += [str(n), '%dul' % kinds] + x
        elif f.variadic:
            n = self.r.randrange(0, 9)
            kinds, x = 0, []
            for i in range(n):
                t = self.pick(['int', 'unsigned long', 'double', 'struct s16', 'int', 'double'])
                kinds |= {'int': 0, 'unsigned long': 1, 'double': 2, 'struct s16': 3}[t] << 2 * i
                x.append(self.vaarg(t, d))
            a += [str(n), '%dul' % kinds] + x
        return '%s(%s)' % (f.name, ', '.join(a))

    def vaarg(self, t, d):
        if t == 'int':
            return '(int) %s' % self.paren(self.iexpr(0))
        if t == 'unsigned long':
            return '(unsigned long) %s' % self.paren(self.iexpr(0))
        if t == 'double':
            return '(double) %s' % self.paren(self.fexpr(0))
        if t == 'long double':
            return self.lexpr(0)
        return self.sexpr(t, 0)

    def callexpr(self, kind, d):
        r = self.r
        self.fuel += self.mult
        f = [f for f in self.callable() if (f.ret in INTS or f.ret == '_Bool') == (kind == 'i') and (f.ret in FLT) == (kind == 'f')]
        if f and self.chance(.5):
            return self.call(self.pick(f), d)
        if kind == 'f':
            return self.pick(['x_f(%s, %s)' % (self.fexpr(d), self.fexpr(d)), 'x_d(%s, %s)' % (self.fexpr(d), self.iexpr(d))])
        k = r.random()
        if k < .1:
            n = r.randrange(0, 8)
            kinds, a = 0, []
            for i in range(n):
                t = self.pick([t for t in VAK if t != 'long double' or self.ldbl and i == 0])
                kinds |= VAK[t] << 3 * i
                a.append(self.vaarg(t, 0))
            return 'x_var(%s)' % ', '.join([str(n), '%dul' % kinds] + a)
        if k < .16 and self.ldbl:
            return 'x_many(%s, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s)' % (
                self.iexpr(0), self.fexpr(0), self.iexpr(d), self.fexpr(0), self.iexpr(0), self.lexpr(0), self.iexpr(0), self.fexpr(d),
                self.iexpr(0), self.iexpr(0), self.sexpr('struct s3', 0), self.iexpr(0), self.fexpr(0))
        return self.pick(['x_u(%s)', 'x_c(%s)', 'x_s(%s)', 'x_b(%s)', 'x_i(%s, E, E)']).replace('E', self.iexpr(0)).replace('%s', self.iexpr(d))

    # -- initialisers ---------------------------------------------------
    def init(self, t, d):
        if isinstance(t, tuple) and t[0] == 'arr':
            if t[1] == 'char' and self.chance(.3):
                n = self.r.randrange(0, t[2])
                return '"%s"' % ''.join(self.pick('abcxyz019 ') for _ in range(n))
            n = t[2] if self.chance(.6) else self.r.randint(1, t[2])
            return '{%s}' % ', '.join(self.init(t[1], d) for _ in range(n))
        if t in SCLS:
            if t == 'union un':
                return '{%s}' % self.iexpr(0)
            L = {'struct s3': 3, 'struct s5': 5, 'struct s7': 7, 'struct s11': 11, 'struct s96': 12, 'struct s75': 75, 'struct s200': 9, 'struct s1k': 6}
            if t == 'struct s5k':
                return '{{%s}}' % ', '.join(self.fexpr(0) if self.chance(.4) else self.fconst() for _ in range(self.r.randint(1, 6)))
            if t in L:
                n = L[t] if self.chance(.7 if L[t] < 20 else .2) else self.r.randint(1, min(L[t], 12))
                return '{{%s}}' % ', '.join(self.iexpr(0) if self.chance(.4) else str(self.r.randrange(100)) for _ in range(n))
            if t == 'struct sn':
                return '{%s, {%s, %s}, %s}' % (self.init('struct s3', 0), self.init('struct s16i', 0), self.init('struct s16i', 0), self.iexpr(0))
            m = MEMB[t]
            n = len(m) if self.chance(.7) else self.r.randint(1, len(m))
            return '{%s}' % ', '.join(self.fexpr(0) if mt in FLT else self.iexpr(0) for _, mt in m[:n])
        return self.expr(t, d)

    def vtype(self):
        k = self.r.random()
        if k < .45:
            return self.pick(INTL)
        if k < .5:
            return '_Bool'
        if k < .64:
            return self.pick(list(FLT))
        if k < .68 and self.ldbl:
            return 'long double'
        if k < .86:
            return self.pick(STRUCTS) if self.chance(.93) else self.pick(BIG)
        e = self.pick(INTL + ['float', 'double', 'char', 'struct s3', 'struct s16', 'struct s7'])
        t = ('arr', e, self.pick([2, 4, 8]))
        if self.chance(.15) and e in INTS:
            t = ('arr', ('arr', e, 4), 2)
        return t

    def decl(self, t, name):
        if isinstance(t, tuple) and t[0] == 'arr':
            if isinstance(t[1], tuple):
                return '%s %s[%d][%d]' % (t[1][1], name, t[2], t[1][2])
            return '%s %s[%d]' % (t[1], name, t[2])
        if isinstance(t, tuple):
            return '%s *%s' % (t[1], name)
        return '%s %s' % (t, name)

    def declare(self, ind):
        t = self.vtype()
        name = self.new()
        q = ''
        if self.chance(.12) and not isinstance(t, tuple):
            c = [v for v in self.vars_of(lambda x: x == t) if not v[2] and not v[0].startswith('i') and v[0] not in self.noaddr]
            if c:
                pt = ('ptr', t)
                self.line(ind, '%s *%s = &%s;' % (t, name, self.pick(c)[0]))
                self.scope[-1].append((name, pt, False))
                return
        if self.chance(.06):
            q = 'const '
        elif self.chance(.05):
            q = 'volatile '
        if t in SCLS or isinstance(t, tuple):
            q = ''
        d = self.decl(t, name)
        if not q and t in INTS and self.chance(.05):
            q = 'register '
            self.noaddr.add(name)
        self.line(ind, '%s%s = %s;' % (q, d, self.init(t, 2)))
        self.scope[-1].append((name, t, q == 'const '))

    # -- statements -------------------------------------------------------
    def line(self, ind, s):
        self.body.append('    ' * ind + s)

    def observe(self, ind):
        l = self.lval('ifl')
        if not l:
            return
        n, t = l
        f = 'x_noted' if t == 'double' else 'x_notef' if t == 'float' else 'x_notel' if t == 'long double' else self.pick(['x_note', 'x_notei'])
        self.line(ind, '%s(%s);' % (f, n))

    def asmstmt(self, ind):
        """An __asm__ statement over fresh locals, with clobbers."""
        r = self.r
        t, w = self.pick([('int', 'l'), ('unsigned', 'l'), ('long', 'q'), ('unsigned long', 'q')])
        a, b = self.new(), self.new()
        form = r.randint(0, 5)
        ea, eb = self.iexpr(1), self.iexpr(1)
        self.line(ind, '{')
        self.line(ind + 1, '%s %s = %s, %s = %s;' % (t, a, ea, b, eb))
        names = {'rax': 'eax', 'rbx': 'ebx', 'rcx': 'ecx', 'rdx': 'edx', 'rsi': 'esi', 'rdi': 'edi'}
        saved = r.sample(['rbx', 'r12', 'r13', 'r14', 'r15'], r.choice([0, 0, 1, 1, 2]))
        other = r.sample(['rax', 'rcx', 'rdx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11'], r.choice([0, 0, 1, 3]))
        used = {2: ['rax', 'rbx'], 4: ['rcx']}.get(form, [])
        clob = [x for x in saved + other if x not in used]
        code = ''
        for x in clob:
            code += 'mov%s $%d, %%%%%s\\n' % (w, r.randint(1, 99999), x if w == 'q' else names.get(x, x + 'd'))
        n = r.randint(1, 999)
        code += ['mov%s %%1, %%0\\nadd%s $%d, %%0\\n' % (w, w, n), 'add%s $%d, %%0\\n' % (w, n),
                 'add%s %%%%%s, %%%%%s\\n' % (w, 'rbx' if w == 'q' else 'ebx', 'rax' if w == 'q' else 'eax'),
                 'mov%s %%1, %%0\\n' % w, 'add%s %%%%%s, %%0\\n' % (w, 'rcx' if w == 'q' else 'ecx'),
                 'add%s %%1, %%0\\nadd%s %%1, %%0\\n' % (w, w)][form]
        ops = ['"=r"(%s) : "r"(%s)', '"+r"(%s) : ', '"+a"(%s) : "b"(%s)', '"=m"(%s) : "r"(%s)', '"+m"(%s) : "c"(%s)', '"+r"(%s) : "r"(%s)'][form]
        ops = ops % ((a, b) if ops.count('%s') == 2 else a)
        cl = ['"%s"' % x for x in clob] + (['"memory"'] if self.chance(.2) else []) + (['"cc"'] if self.chance(.3) else [])
        self.line(ind + 1, '__asm__ %s("%s" : %s%s);' % (self.pick(['', 'volatile ']), code, ops, ' : ' + ', '.join(cl) if cl else ''))
        l = self.lval('i', True)
        self.line(ind + 1, '%s = %s;' % (l[0], self.pick([a, a, '%s + %s' % (a, b)])) if l and l[1] != 'bits' and self.chance(.7) else 'x_note(%s);' % a)
        self.line(ind, '}')

    def stmt(self, ind, depth):
        r = self.r
        if self.asm and self.chance(.12):
            return self.asmstmt(ind)
        k = r.random()
        self.fuel += self.mult
        if self.fuel > 500:
            k *= .4
        if k < .3:
            l = self.lval('ifl' if self.ldbl else 'if', True)
            if not l:
                return self.declare(ind)
            n, t = l
            if t in FLT:
                self.line(ind, '%s %s %s;' % (n, self.pick(['=', '=', '+=', '-=', '*=']), self.fexpr(2)))
            elif t == 'long double':
                self.line(ind, '%s %s %s;' % (n, self.pick(['=', '+=', '*=']), self.lexpr(2)))
            elif t == '_Bool':
                self.line(ind, '%s = %s;' % (n, self.iexpr(2)))
            else:
                op = self.pick(['=', '=', '=', '+=', '-=', '*=', '&=', '|=', '^=', '<<=', '>>=', '/=', '%='])
                e = self.iexpr(2)
                if op in ('<<=', '>>='):
                    e = '(%s & 7)' % e
                elif op in ('/=', '%='):
                    e = '((%s & 15) + 1)' % e
                self.line(ind, '%s %s %s;' % (n, op, e))
            return
        if k < .38:
            return self.observe(ind)
        if k < .46:
            return self.declare(ind)
        if k < .56:
            v = [(n, t) for s in self.scope for n, t, ro in s if t in SCLS and not ro]
            if v:
                n, t = self.pick(v)
                if self.chance(.15):
                    w = [m for m, tt in v if tt == t and m != n]
                    if w:
                        self.line(ind, '%s = %s = %s;' % (n, self.pick(w), self.sexpr(t, 1)))
                        return
                self.line(ind, '%s = %s;' % (n, self.sexpr(t, 2)))
                return
            return self.declare(ind)
        if depth <= 0:
            k = .56 + r.random() * .12
        if k < .62:
            f = self.callable()
            if f and self.chance(.7):
                self.line(ind, self.call(self.pick(f), 2) + ';')
            else:
                self.line(ind, self.pick(['x_v();', 'x_note(%s);' % self.iexpr(3), 'x_noted(%s);' % self.fexpr(3), 'x_notei(%s);' % self.iexpr(3)]))
            return
        if k < .68:
            v = [(n, t) for s in self.scope for n, t, ro in s if isinstance(t, tuple) and t[0] == 'arr' and not ro]
            if v:
                n, t = self.pick(v)
                if t[1] in INTS and self.chance(.5):
                    self.line(ind, 'x_fill((unsigned char *) %s, sizeof(%s));' % (n, n))
                elif t[1] in INTS:
                    self.line(ind, 'x_hash(%s, sizeof(%s));' % (n, n))
                elif t[1] in SCLS:
                    self.line(ind, '%s[%s] = %s;' % (n, self.index(t[2]), self.sexpr(t[1], 2)))
                return
            return self.observe(ind)
        if k < .78:
            self.line(ind, 'if (%s) {' % (self.iexpr(2) if self.chance(.8) else self.fexpr(1)))
            self.block(ind + 1, depth - 1)
            if self.chance(.5):
                self.line(ind, '} else {')
                self.block(ind + 1, depth - 1)
            self.line(ind, '}')
            return
        if k < .88 and self.mult < 12:
            i = self.new('i')
            n = r.randint(1, 4)
            old, oldl = self.mult, self.inloop
            kind = r.random()
            if kind < .6:
                self.line(ind, 'for (int %s = 0; %s < %d; %s++) {' % (i, i, n, i))
            elif kind < .8:
                self.line(ind, 'int %s = %d;' % (i, n))
                self.scope[-1].append((i, 'int', True))
                self.line(ind, 'while (%s-- > 0) {' % i)
            else:
                self.line(ind, 'int %s = 0;' % i)
                self.scope[-1].append((i, 'int', True))
                self.line(ind, 'do {')
            self.mult *= n
            self.inloop = 'c' if kind < .8 else 'b'
            self.scope.append([(i, 'int', True)])
            self.block(ind + 1, depth - 1, brk=True)
            self.scope.pop()
            self.mult, self.inloop = old, oldl
            self.line(ind, '}' if kind < .8 else '} while (++%s < %d);' % (i, n))
            return
        if k < .94:
            self.line(ind, 'switch (%s & 7) {' % self.paren(self.iexpr(2)))
            cs = r.sample(range(8), r.randint(1, 5))
            for c in cs:
                self.line(ind, 'case %d: {' % c)
                old = self.inloop
                if self.inloop == 'c':
                    self.inloop = 'x'
                elif self.inloop:
                    self.inloop = None
                self.block(ind + 1, depth - 1)
                self.inloop = old
                self.line(ind, '}')
                if self.chance(.7):
                    self.line(ind, '    break;')
            if self.chance(.6):
                self.line(ind, 'default:')
                self.scope.append([])
                self.line(ind, '    x_v();')
                self.scope.pop()
            self.line(ind, '}')
            return
        if self.vla and k < .97 and not self.labels:
            n = self.new('w')
            et = self.pick(['unsigned char', 'unsigned char', 'int', 'short', 'double'])
            if self.chance(.2):
                self.line(ind, 'int %s[(%s & 3) + 1][3];' % (n, self.paren(self.iexpr(1))))
            else:
                self.line(ind, '%s %s[(%s & 15) + 1];' % (et, n, self.paren(self.iexpr(1))))
            self.line(ind, 'x_fill((unsigned char *) %s, sizeof(%s));' % (n, n))
            self.scope.append([])
            for _ in range(r.randint(0, 3)):
                self.stmt(ind, 0)
            self.line(ind, 'x_hash(%s, sizeof(%s));' % (n, n))
            self.vlas[-1].append(n)
            # declarations made meanwhile stay visible in the C block
            self.scope[-2].extend(self.scope.pop())
            return
        f = [f for f in self.fns if f.params == ['unsigned long'] and f.ret == 'unsigned long' and self.fuel + f.cost * self.mult < 400 and not f.variadic]
        if f:
            g = self.pick(f)
            self.fuel += g.cost * self.mult
            if self.chance(.5):
                self.line(ind, 'x_note(x_call(%s, %s));' % (g.name, self.iexpr(1)))
            else:
                p = self.new('p')
                self.line(ind, 'unsigned long (*%s)(unsigned long) = %s;' % (p, g.name))
                self.line(ind, 'x_note(%s(%s));' % (p, self.iexpr(1)))
            return
        self.observe(ind)

    def block(self, ind, depth, n=None, brk=False):
        self.scope.append([])
        self.vlas.append([])
        for _ in range(n or self.r.randint(1, 3)):
            self.stmt(ind, depth)
        if brk and self.chance(.15):
            self.line(ind, 'if (%s) %s;' % (self.iexpr(1), 'continue' if self.inloop == 'c' and self.chance(.5) else 'break'))
        elif self.chance(.05) and self.retok:
            self.line(ind, 'if (%s) return%s;' % (self.iexpr(1), '' if self.ret == 'void' else ' ' + self.expr(self.ret, 1)))
        for v in self.vlas.pop():
            self.line(ind, 'x_hash(%s, sizeof(%s));' % (v, v))
        self.scope.pop()

    # -- functions ----------------------------------------------------------
    def function(self, name, params, ret, variadic=False, rec=False, nstmt=None, entry=False):
        r = self.r
        self.body = []
        self.scope = [[]]
        self.vlas = [[]]
        self.labels = False
        self.mult, self.fuel, self.inloop, self.retok, self.ret = 1, 0, None, True, ret
        self.side = False
        self.asm = self.chance(.15)
        names = []
        for i, t in enumerate(params):
            n = 'a%d' % i
            names.append(('%s *%s' % (t[1], n)) if isinstance(t, tuple) else '%s %s' % (t, n))
            self.scope[0].append((n, t, rec and i == 0))
        fn = Fn(name, params, ret, variadic, False)
        if rec:
            rt = Fn(name, params, ret, variadic, True)
        head = '%s%s %s(%s%s)' % ('static ' if self.chance(.3) and not entry else '', ret, name, ', '.join(names) if names else ('void' if not variadic else ''),
                                  ', int n, unsigned long kinds, ...' if variadic and names else 'int n, unsigned long kinds, ...' if variadic else '')
        self.line(0, head)
        self.line(0, '{')
        for _ in range(r.randint(1, 4)):
            self.declare(1)
        if rec:
            self.line(1, 'if (a0 <= 0) return%s;' % ('' if ret == 'void' else ' ' + self.expr(ret, 1)))
        if variadic:
            self.line(1, 'va_list ap;')
            self.line(1, 'va_start(ap, kinds);')
            if variadic == 2:
                self.line(1, 'for (int i0 = 0; i0 < n; i0++, kinds >>= 4) {')
                cp = self.chance(.2)
                if cp:
                    self.line(2, 'va_list aq; va_copy(aq, ap);')
                self.line(2, 'switch (kinds & 15) {')
                for j, t in enumerate(VB):
                    if self.chance(.15):
                        self.line(2, 'case %d: va_arg(ap, %s); break;' % (j, t))
                        continue
                    fl = t in FLT
                    if t in MEMB:
                        suf, mt = self.pick(MEMB[t])
                        if '%' in suf:
                            i1, i2 = suf.index('%'), suf.index(']')
                            suf = suf[:i1] + str(r.randrange(int(suf[i1 + 1:i2]))) + suf[i2:]
                        fl = mt in FLT
                        if '[' not in suf and self.chance(.4) and t != 'union un':
                            e = 'va_arg(ap, %s)%s' % (t, suf)
                        else:
                            self.line(2, 'case %d: { %s q = va_arg(ap, %s); %s(q%s); break; }' % (j, t, t, 'x_noted' if fl else 'x_note', suf))
                            continue
                    else:
                        e = 'va_arg(ap, %s)' % t
                    self.line(2, 'case %d: %s(%s); break;' % (j, 'x_notel' if t == 'long double' else 'x_noted' if fl else 'x_note', e))
                self.line(2, '}')
                if cp:
                    self.line(2, 'if ((kinds & 15) == 0) x_notei(va_arg(aq, int));')
                    self.line(2, 'va_end(aq);')
                self.line(1, '}')
            elif self.chance(.5):
                self.line(1, 'x_vlog(n, kinds, ap);')
            else:
                if self.chance(.3):
                    self.line(1, '{ va_list aq; va_copy(aq, ap); x_vlog(n, kinds, aq); va_end(aq); }')
                self.line(1, 'for (int i0 = 0; i0 < n; i0++, kinds >>= 2) {')
                self.line(2, 'if ((kinds & 3) == 0) x_notei(va_arg(ap, int));')
                self.line(2, 'else if ((kinds & 3) == 1) x_note(va_arg(ap, unsigned long));')
                self.line(2, 'else if ((kinds & 3) == 2) x_noted(va_arg(ap, double));')
                self.line(2, 'else { struct s16 q = va_arg(ap, struct s16); x_note(q.a); x_noted(q.b); }')
                self.line(1, '}')
            self.line(1, 'va_end(ap);')
            self.fuel += 12
        jb = None
        if self.setjmp and self.chance(.06) and not variadic:
            jb = self.new('jb')
            self.line(1, 'long %s[9];' % jb)
            self.line(1, 'volatile int vj%s = 1;' % jb)
            self.line(1, 'if (x_setjmp(%s) == 0) {' % jb)
            self.line(2, 'vj%s = %s;' % (jb, self.const()))
            self.line(2, 'x_note(%s);' % self.iexpr(1))
            self.line(2, 'vj%s += 3;' % jb)
            self.line(2, 'x_longjmp(%s, 1);' % jb)
            self.line(1, '}')
            self.line(1, 'x_note(vj%s);' % jb)
            self.retok = False
        for i in range(nstmt or r.randint(2, int(6 * self.big) + 2)):
            self.side = self.chance(.5)
            self.stmt(1, 2)
        if rec:
            a = ['a0 - 1'] + [self.expr(t, 1) for t in params[1:]]
            c = '%s(%s)' % (name, ', '.join(a))
            self.fuel *= 4
            if ret == 'void':
                self.line(1, c + ';')
            elif ret in SCLS:
                n = self.new()
                self.line(1, '%s %s = %s;' % (ret, n, c))
                self.scope[-1].append((n, ret, False))
            else:
                n = self.new()
                self.line(1, '%s %s = %s;' % (ret, n, c))
                self.scope[-1].append((n, ret, False))
            for _ in range(2):
                self.stmt(1, 1)
        for v in self.vlas[0]:
            self.line(1, 'x_hash(%s, sizeof(%s));' % (v, v))
        # everything still alive is observed
        for n, t, ro in self.scope[0][:8]:
            if t in INTS or t == '_Bool':
                self.line(1, 'x_note(%s);' % n)
            elif t in FLT:
                self.line(1, 'x_noted(%s);' % n)
            elif t == 'long double':
                self.line(1, 'x_notel(%s);' % n)
            elif t in MEMB:
                for suf, mt in MEMB[t]:
                    if '%' in suf:
                        i, j = suf.index('%'), suf.index(']')
                        suf = suf[:i] + str(r.randrange(int(suf[i + 1:j]))) + suf[j:]
                    self.line(1, '%s(%s%s);' % ('x_noted' if mt in FLT else 'x_note', n, suf))
        if ret != 'void':
            self.line(1, 'return %s;' % self.expr(ret, 2))
        self.line(0, '}')
        fn.cost = max(3, self.fuel + 3)
        self.fns.append(fn)
        self.out.append('\n'.join(self.body))
        return fn

    def unit(self, nf=4, nt=2):
        r = self.r
        ptypes = INTL + ['_Bool', 'float', 'double', 'float', 'double', 'int', 'long'] + STRUCTS + (['long double'] if self.ldbl else []) + ([self.pick(BIG)] if self.chance(.25) else [])
        descs = []
        for i in range(self.pick([0, 1, 1, 2])):
            # functions that return a structure through a pointer
            t = self.pick(['struct s24', 'struct s96', 'struct s75', 'struct sn', 'struct s16', 'struct s12', 'struct s11'])
            n = 'k%d' % i
            suf, mt = self.pick(MEMB[t])
            if '%' in suf:
                suf = suf[:suf.index('%')] + str(r.randrange(3 if '[%3]' in suf else 2)) + suf[suf.index(']'):]
            body = self.pick(['return *p;', 'return *p;', 'p->M += 1; return *p;', '%s v = *p; v.M += p->M; return v;' % t, '%s v = *p; if (v.M > 3) return v; x_v(); return *p;' % t,
                              '%s v = *p; *p = v; return p->M > 3 ? v : *p;' % t]).replace('M', suf[1:])
            self.out.append('%s%s %s(%s *p) { %s }' % (self.pick(['static ', '']), t, n, t, body))
            self.copiers[t] = n
            descs.append((n, describe([('ptr', t)], t, 0)))
        for i in range(nf):
            k = r.random()
            if k < .2:
                params, ret = ['unsigned long'], 'unsigned long'
            else:
                params = [self.pick(ptypes) for _ in range(r.randint(0, 9 if self.chance(.3) else 5))]
                ret = self.pick(ptypes + ['void'])
            var = self.chance(.22) and self.pick([1, 2, 2])
            rec = not var and k >= .2 and self.chance(.15)
            if rec:
                params = ['int'] + params
            f = self.function('f%d' % i, params, ret, var, rec)
            if rec:
                # callers pass a small depth through a wrapper
                self.out.append('%s w%s(%s) { %s%s(%s); }' % (ret, f.name, ', '.join('%s a%d' % (t, j) for j, t in enumerate(params[1:])) or 'void',
                                '' if ret == 'void' else 'return ', f.name, ', '.join([str(r.randint(1, 3))] + ['a%d' % (j + 1 - 1) for j in range(len(params) - 1)])))
                self.fns[-1] = Fn('w' + f.name, params[1:], ret)
                self.fns[-1].cost = f.cost
                descs.append(('w' + f.name, describe(params[1:], ret, 0)))
            descs.append((f.name, describe(params, ret, 1 if var else 0)))
        ts = []
        for i in range(nt):
            self.function('t%d' % i, ['unsigned long'], 'unsigned long', nstmt=r.randint(3, int(8 * self.big) + 3), entry=True)
            self.fns.pop()
            descs.append(('t%d' % i, describe(['unsigned long'], 'unsigned long', 0)))
            ts.append('t%d' % i)
        return VAPRELUDE + '\n' + '\n\n'.join(self.out) + '\n', descs, ts
