"""Generator of programs for G09: modules that refer to each other's objects and functions, and pointers of all kinds."""
import ggen
from vgen import layout

DEC = '''unsigned long x_u(unsigned long a);
int x_i(int a, unsigned char b, short c);
double x_d(double a, int b);
void x_note(unsigned long a);
void x_noted(double a);
void x_hash(const void *p, unsigned long n);
void *x_mem(int k);
unsigned long x_call(unsigned long (*f)(unsigned long), unsigned long a);
struct m { char c; short s[3]; int i; double d; char t[5]; };
struct n { short h; int i; struct n *p; long l; int (*f)(int); struct { char x; int y[3]; } in; int *q; unsigned b : 5; int c : 7; float e; };
'''
ELEM = ['char', 'unsigned char', 'short', 'int', 'int', 'unsigned', 'long', 'float', 'double', 'struct m', 'struct n', 'unsigned long', 'long double']
BIG = 0x180000000


class Var:
    def __init__(self, name, t, dim, link, home):
        self.name, self.t, self.dim, self.link, self.home = name, t, dim, link, home


class Pl:
    def __init__(self, rng, pic):
        self.r, self.pic = rng, pic
        self.k = 0
        self.nmod = rng.choice([1, 2, 2])

    def pick(self, l):
        return l[self.r.randrange(len(l))]

    def new(self, p):
        self.k += 1
        return '%s%d' % (p, self.k)

    # what module m sees
    def vars(self, m, f=lambda v: True):
        return [v for v in self.g if (v.link not in ('static',) or v.home == m) and f(v)]

    def idx(self, n):
        """An index below n, in the scope of i (unsigned) and j (long)."""
        k = 1
        while k * 2 <= n:
            k *= 2
        x = self.r.random()
        if x < .4:
            return '%d' % self.r.randrange(n)
        if x < .6:
            return 'i & %d' % (k - 1)
        if x < .75:
            return 'j & %d' % (k - 1)
        if x < .85:
            return '(short) (i & %d)' % (k - 1)
        return '(unsigned char) j & %d' % min(k - 1, 127)

    def lv(self, v, t=None):
        """An lvalue of element type v.t."""
        n = v.name
        if v.dim is None:
            return n if self.r.random() < .8 else '(*&%s)' % n
        if isinstance(v.dim, tuple):
            a, b = v.dim
            return '%s[%s][%s]' % (n, self.idx(a), self.idx(b))
        x = self.r.random()
        if x < .6:
            return '%s[%s]' % (n, self.idx(v.dim))
        if x < .75:
            return '*(%s + (%s))' % (n, self.idx(v.dim))
        if x < .85 and v.dim > 4:
            return '(&%s[%d])[-(int) (i & 3)]' % (n, self.r.randrange(3, v.dim))
        if x < .92 and v.dim > 4:
            return '(%s + %d)[-%d]' % (n, self.r.randrange(2, v.dim), self.r.randrange(1, 3))
        return '%s[%s]' % (n, self.idx(v.dim))

    def num(self, m, kinds=('i',)):
        """A scalar lvalue: (text, type)."""
        for _ in range(50):
            v = self.pick(self.vars(m, lambda v: v.t in ELEM))
            l = self.lv(v)
            if l[0] == '*':
                l = '(%s)' % l
            t = v.t
            if t == 'struct m':
                l, t = self.pick([(l + '.i', 'int'), (l + '.s[%s]' % self.idx(3), 'short'), (l + '.d', 'double'), (l + '.t[%s]' % self.idx(5), 'char')])
            elif t == 'struct n':
                l, t = self.pick([(l + '.i', 'int'), (l + '.l', 'long'), (l + '.in.y[%s]' % self.idx(3), 'int'), (l + '.b', 'bf'), (l + '.c', 'bf'), (l + '.e', 'float'), (l + '.h', 'short'), (l + '.in.x', 'char')])
            k = 'f' if t in ('float', 'double', 'long double') else 'b' if t == 'bf' else 'i'
            if k in kinds and not (v.link == 'const' and 'w' in kinds):
                return l, t
        return None

    def ptr_const(self, m, t):
        """An address constant of type t *."""
        if t == 'char' and self.r.random() < .5:
            return self.pick(['"some text" + %d' % self.r.randrange(9), '(char *) "other"', '&"abcdef"[%d]' % self.r.randrange(6)])
        c = self.vars(m, lambda v: v.t == t and v.link != 'const' or t == 'int' and v.t in ('struct m', 'struct n') and v.link != 'const')
        if not c:
            return '0'
        v = self.pick(c)
        e = v.name if v.dim is None else '%s[%d][%d]' % (v.name, self.r.randrange(v.dim[0]), self.r.randrange(v.dim[1])) if isinstance(v.dim, tuple) else '%s[%d]' % (v.name, self.r.randrange(v.dim))
        if v.t != t:
            return '&%s.%s' % (e, 'i' if v.t == 'struct m' or self.r.random() < .5 else 'in.y[%d]' % self.r.randrange(3))
        if isinstance(v.dim, int) and self.r.random() < .4:
            return '%s + %d' % (v.name, self.r.randrange(v.dim))
        if self.r.random() < .1:
            return '(%s *) ((char *) &%s + 0)' % (t, e)
        return '&' + e

    def funcs(self, m):
        return [f for f in self.f if f[1] == 'global' or f[2] == m]

    def init(self, v, m):
        r = self.r

        def one(t):
            if t == 'struct m':
                return '{%d, {%d, %d}, %d, %d.5}' % (r.randrange(100), r.randrange(99), r.randrange(99), r.randrange(9999), r.randrange(99))
            if t == 'struct n':
                return '{%d, %d, 0, %dl, %s, {%d, {1, 2, 3}}, 0, %d, %d, 1.5f}' % (r.randrange(100), r.randrange(9999), r.randrange(9999), self.pick(['0'] + [f[0] for f in self.funcs(m)]), r.randrange(99), r.randrange(32), r.randrange(60))
            if t in ('float', 'double', 'long double'):
                return '%d.25' % r.randrange(1000)
            return '%d' % r.randrange(100)
        if v.dim is None:
            return one(v.t)
        if isinstance(v.dim, tuple):
            return '{%s}' % ', '.join('{%s}' % ', '.join(one(v.t) for _ in range(r.randint(1, v.dim[1]))) for _ in range(r.randint(1, v.dim[0])))
        return '{%s}' % ', '.join(one(v.t) for _ in range(r.randint(1, min(v.dim, 6))))

    def decl(self, v, ext):
        d = '' if v.dim is None else ''.join('[%d]' % x for x in (v.dim if isinstance(v.dim, tuple) else (v.dim,)))
        q = {'static': 'static ', 'const': 'const '}.get(v.link, '')
        return '%s%s%s %s%s' % ('extern ' if ext else '', q, v.t, v.name, d)

    # expressions

    def ptr(self, m, t, d=2):
        """A pointer to an object of type t that may be read."""
        x = self.r.random()
        c = self.vars(m, lambda v: v.t == t and v.link != 'const')
        if d and x < .15:
            return '(%s ? %s : %s)' % (self.cond(m, d - 1), self.ptr(m, t, d - 1), self.ptr(m, t, d - 1))
        if d and x < .25:
            return self.pick(['(%s *) (void *) %s', '(%s *) (unsigned long) %s', '(%s *) ((char *) %s + 0)', '(%s *) (long) %s']) % (t, self.paren(self.ptr(m, t, d - 1)))
        if x < .4:
            tabs = [w for w in self.tabs if w[1] == t and (w[2] != 'static' or w[3] == m)]
            if tabs:
                w = self.pick(tabs)
                return '%s[%s]' % (w[0], self.idx(w[4]))
        if x < .5:
            c2 = [w for w in self.gp if w[1] == t and (w[2] != 'static' or w[3] == m)]
            if c2:
                return self.pick(c2)[0]
        if x < .58 and t == 'int':
            return 'fp%d(%s)' % (self.pick([0, self.nmod - 1]), self.pick(['i', '3', 'i + 1']))
        if x < .68 and self.mems:
            k = self.pick(self.mems)
            return '(%s *) ((char *) x_mem(%d) + %s)' % (t, k, self.pick(['0', '0', '64', 'j * 8', '4096 - 128']))
        if c:
            return '&' + self.lv(self.pick(c))
        return '(%s *) x_mem(0)' % t

    def paren(self, e):
        return '(%s)' % e

    def anyptr(self, m, d=2):
        x = self.r.random()
        if x < .3:
            return 'x_mem(%d)' % self.pick(self.mems + [0])
        if x < .4:
            return self.pick([f[0] for f in self.funcs(m)])
        if x < .5:
            return self.pick(['(int *) 0', '(void *) 0', '(char *) 0'])
        if x < .6:
            v = self.pick(self.vars(m))
            return v.name if v.dim is not None else '&' + v.name
        if x < .68:
            return self.pick(['&i', '(char *) &j', 'la', 'la + 3', '&ls', '&ls.i', '"x"'])
        return self.ptr(m, self.pick(ELEM), d)

    def cond(self, m, d=1):
        x = self.r.random()
        if x < .3:
            return 'i & %d' % self.pick([1, 2, 4])
        p = self.paren(self.anyptr(m, d))
        if x < .5:
            return self.pick(['%s', '!%s', '%s != 0', '%s == 0', '(_Bool) %s', '0 != %s', '!!%s', '(void *) 0 == %s', '(_Bool) (unsigned long) %s', '(unsigned long) %s > 0']) % p
        q = self.paren(self.anyptr(m, d))
        if x < .8:
            a, b = '(void *) ' + p, '(void *) ' + q
            return self.pick(['%s == %s', '%s != %s', '%s && %s', '%s || %s', '!%s && %s', '!%s == !%s']) % (a, b)
        n = self.num(m, ('i', 'b'))
        return '%s > %d' % (n[0], self.r.randrange(100)) if n else 'j'

    def arith(self, m):
        r = self.r
        a, ta = self.num(m, ('i', 'i', 'f', 'b') if r.random() < .6 else ('i',))
        b, tb = self.num(m, ('i', 'f', 'b') if r.random() < .4 else ('i',))
        x = r.random()
        if x < .15:
            b, tb = self.pick([('3', 'int'), ('250', 'int'), ('-7', 'int'), ('1.5', 'double'), ('2.5L', 'long double'), ('70000', 'int'), ('5ul', 'unsigned long')])
        elif x < .3:
            b, tb = self.pick([('i', 'unsigned'), ('j', 'long'), ('(int) i', 'int')])
        if r.random() < .4:
            a, ta, b, tb = b, tb, a, ta
        fl = 'float' in (ta, tb) or 'double' in (ta, tb) or 'long double' in (ta, tb)
        op = self.pick(['+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!=', '+', '-', '<<', '>>', '%', '&', '|', '^', '*', '/', '%'])
        if fl and op in ('<<', '>>', '%', '&', '|', '^'):
            op = self.pick(['+', '*', '-', '<', '=='])
        if op in ('*', '+', '-') and not fl:
            # no overflow
            a = '(unsigned) ' + a if r.random() < .3 else a
            if op == '*' and ta in ('int', 'long') and tb in ('int', 'long'):
                return ['if (%s < 1000 && %s > -1000 && %s < 1000 && %s > -1000) x_note(%s * %s);' % (a, a, b, b, a, b)]
        if op in ('<<', '>>'):
            return ['if (%s >= 0 && %s >= 0 && %s < 5) x_note(%s %s %s);' % (a, b, b, a, op, b)]
        if op in ('/', '%'):
            if b in ('0',):
                b = '3'
            return [self.pick(['if (%s > 0) x_note(%s %s %s);', 'if (%s > 0) x_u(%s %s %s);']) % (b, a, op, b) if not fl else 'if (%s > 0) x_noted(%s %s %s);' % (b, a, op, b)]
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return [self.pick(['x_note(%s %s %s);', 'if (%s %s %s) x_note(1);', 'lb = %s %s %s; x_note(lb);', 'x_note(!(%s %s %s));']) % (a, op, b)]
        return [self.pick(['x_noted(%s %s %s);', 'x_note(%s %s %s > 3);']) % (a, op, b) if fl else self.pick(['x_note(%s %s %s);', 'i += %s %s %s;']) % (a, op, b)]

    def plain(self, m, kinds=('i', 'f'), w=False):
        """A scalar object, or a constant part of one."""
        c = []
        for v in self.vars(m, lambda v: not (w and v.link == 'const')):
            e, t = v.name, v.t
            if v.dim is not None:
                e += '[%d]' % self.r.randrange(v.dim) if not isinstance(v.dim, tuple) else '[%d][%d]' % (self.r.randrange(v.dim[0]), self.r.randrange(v.dim[1]))
            if t == 'struct m':
                e, t = self.pick([(e + '.i', 'int'), (e + '.s[1]', 'short'), (e + '.d', 'double'), (e + '.c', 'char')])
            elif t == 'struct n':
                e, t = self.pick([(e + '.i', 'int'), (e + '.l', 'long'), (e + '.in.y[2]', 'int'), (e + '.e', 'float'), (e + '.h', 'short')])
            if ('f' if t in ('float', 'double', 'long double') else 'i') in kinds:
                c.append((e, t))
        return self.pick(c) if c else None

    def simple(self, m):
        """One operation, directly on an object."""
        r = self.r
        x = r.random()
        if x < .3:
            a = self.plain(m, ('i',), True)
            return [self.pick(['%s = 5;', '%s = -3;', '%s = i;', '%s = j;', '%s = 70000;', '%s = x_i(1, 2, 3);', '%s = 1.5;', '%s = i > 3;', '%s += 1;', '%s++;', '--%s;', '%s += i;', '%s -= j;', '%s = -%s;', '%s = ~%s;', '%s = !%s;', '%s <<= 1;', '%s /= 3;', '%s *= 3;', '%s %%= 7;', '%s = 0;']).replace('%%', '%').replace('%s', a[0]), 'x_note(%s);' % a[0]] if a and (a[1] not in ('int', 'long') or r.random() < .5) else ['x_note(%s);' % a[0]]
        if x < .45:
            a = self.plain(m, ('f',), True)
            if a:
                return [self.pick(['%s = 5;', '%s = i;', '%s = j;', '%s = x_d(1.5, 2);', '%s = 1.5f;', '%s = 2.25;', '%s = 0;', '%s += 1;', '%s = -%s;', '%s *= 2;', '%s = (i & 3) * 1.5L;', '%s /= 3;']).replace('%s', a[0]), 'x_noted(%s);' % a[0]]
        if x < .75:
            a, b = self.plain(m), self.plain(m)
            o = self.pick(['+', '-', '*', '/', '<', '==', '>=', '!='])
            f = self.pick(['(long double) ', '(double) ', '(float) ', '(unsigned) ', '(unsigned long) ', '', '1.5 * ', '1.5L + ', '2.5f - '])
            a, b = a[0], b[0]
            if f.startswith('(u'):
                a, b = '(int) (%s > 9) + 3u' % a, b if o != '/' else '5'
                return ['x_note(%s%s %s (unsigned) (%s > 3));' % (f, a, o if o != '/' else '+', b)]
            return [self.pick(['if ((B) != 0) x_noted(1.0L * (A) O (B));', 'if ((B) != 0) x_noted(F(A) O (double) (B));', 'if ((B) != 0) x_note((F(A) O 1.5 * (B)) > 2);', 'x_noted(F(A));', 'x_note(F(A) > F(B));', 'x_note(!(A)); x_note((A) && (B));']).replace('F', f).replace('A', a).replace('O', o).replace('B', b)]
        if x < .9:
            s = 'vl%d(%d' % (self.pick([0, self.nmod - 1]), r.randrange(64))
            for t in self.VL:
                c = self.vars(m, lambda v: v.t == t)
                s += ', ' + (self.lv(self.pick(c)) if c else {'struct m': 'ls', 'struct n': 'ln'}.get(t, '(%s) 3' % t))
            return ['x_note(%s));' % s]
        a = self.plain(m, ('i',))
        return ['switch (%s) { case 1: case 3: x_note(1); break; case 0: x_note(2); break; default: x_note(3); }' % a[0]]

    VL = ['int', 'double', 'long', 'struct m', 'long double', 'struct n', 'int', 'double', 'long', 'int', 'int', 'long double', 'int']

    def vlist(self, m):
        """A function that reads arguments through a va_list, into objects, where both may belong to another module."""
        s = ''
        for t in self.VL:
            c = self.vars(m, lambda v: v.t == t and v.link != 'const')
            if c and self.r.random() < .8:
                s += '%s = va_arg(AP, %s); ' % (self.lv(self.pick(c)).replace('i &', 'n &').replace('j &', 'n &').replace(') j', ') n'), t)
            elif t.startswith('struct'):
                s += 'h += va_arg(AP, %s).i; ' % t
            else:
                s += 'h = h * 7 + (unsigned) %sva_arg(AP, %s); ' % ('(int) ' if 'double' in t or self.r.random() < .3 else '', t)
        ap = self.pick(['gap%d' % self.pick([0, self.nmod - 1]), 'gap%d' % self.pick([0, self.nmod - 1]), 'ap', 'sap'])
        return layout('unsigned long vl%d(int n, ...) { va_list ap; static va_list sap; unsigned long h = 0; va_start(AP, n); %sva_end(AP); return h; }'.replace('AP', ap) % (m, s.replace('AP', ap)))

    def pointers(self, m):
        c = [w for w in self.gp if w[2] != 'static' or w[3] == m]
        p, t = self.pick(c)[:2]
        f = '%s->i' % p if t.startswith('struct') else self.pick(['*%s', '%s[0]', '*&*%s']) % p
        if t == 'char':
            # may point to a string
            return [self.pick(['x_note(%s);' % f, 'x_note(%s != 0);' % p, '{ char **pp = &%s; x_note(*pp == %s); x_note(**pp); }' % (p, p), 'x_note(va%d(2, %s, &%s) & 0);' % (m, p, p)])]
        return [self.pick(['x_note((unsigned long) (long) %s);' % f, '%s = %s; x_note(%s != 0);' % (p, self.ptr(m, t), p), '%s = 3; x_note(%s == 3);' % (f, f), '{ %s **pp = &%s; x_note(*pp == %s); *pp = %s; x_note(%s == *pp); }' % (t, p, p, self.ptr(m, t), p),
                           '%s++; %s--; x_note(%s == 0);' % (p, p, p), '%s += 1; %s -= 1; x_note(!%s);' % (p, p, p), '{ %s *p0 = %s++; x_note(%s - p0); %s = p0; }' % (t, p, p, p), 'if (%s) x_note(%s == %s);' % (p, p, self.ptr(m, t)), 'x_note(va%d(2, %s, &%s) & 0);' % (m, p, p),
                           '%s += 2; x_note(%s > 9);' % (f, f)])]

    def stmt(self, m, d=2):
        r = self.r
        x = r.random()
        if r.random() < .16:
            return self.arith(m)
        if r.random() < .08:
            return self.pointers(m)
        if r.random() < .16:
            return self.simple(m)
        if x < .14:
            n = self.num(m, ('i', 'b'))
            return ['x_note(%s);' % n[0]]
        if x < .2:
            n = self.num(m, ('f',))
            if n:
                return [self.pick(['x_noted(%s);', 'x_noted(%s * 1.5 + 3);', 'x_noted(-%s);', 'x_note(%s > 2.25);']) % n[0]]
            return ['x_note(1);']
        if x < .32:
            n = self.num(m, ('i', 'b', 'w'))
            if n:
                v = self.pick(['3', 'i & 15', 'x_i(1, 2, 3) & 31', '(j & 7) + 1', '(int) x_u(3) & 1'])
                if n[1] == 'bf':
                    return ['%s %s %s;' % (n[0], self.pick(['=', '^=', '|=', '&=']), v)]
                return [self.pick(['%s = %s;', '%s ^= %s;', '%s += %s;', '%s |= %s;', '%s -= %s;']) % (n[0], v) if r.random() < .7 else n[0] + self.pick(['++;', '--;'])]
        if x < .36:
            n = self.num(m, ('f', 'w'))
            if n:
                return [self.pick(['%s = %s;', '%s += %s;']) % (n[0], self.pick(['1.5', 'i & 7', 'x_d(1.5, 2) > 0', '2.5f', '(double) (j & 3)']))]
        if x < .5:
            c = self.cond(m)
            return [self.pick(['x_note(!!(%s));', 'x_note(!(%s));', 'if (%s) x_note(2); else x_note(3);', 'x_note(%s ? 5 : 6);', 'i += !(%s);', 'while (%s) { x_note(4); break; }', 'x_note((%s) && i);', 'lb = %s; x_note(lb);', 'for (; %s; ) { x_note(8); break; }']).replace('%s', c)]
        if x < .6:
            # walks
            v = self.pick(self.vars(m, lambda v: isinstance(v.dim, int) and v.t in ELEM))
            t, n, lo = v.t, v.dim, v.name
            q = 'const ' if v.link == 'const' else ''
            if r.random() < .45 and self.mems and not q:
                k = self.pick(self.mems)
                n, lo = r.randint(3, 40), '((%s *) x_mem(%d) + %d)' % (t, k, r.choice([0, 0, 1, 7]))
            n = min(n, 40)
            p = self.new('p')
            f = {'struct m': '%s->i', 'struct n': '%s->in.y[1]'}.get(t, '*%s') % p
            w = 'x_note((long) %s);' % f if t in ('float', 'double', 'long double') else 'x_note(%s);' % f
            if not q and r.random() < .4:
                w += ' %s = k;' % f
            form = self.pick(['for (P = LO; P < LO + N; P++) { W }', 'for (P = LO + N; P != LO; ) { --P; W }', 'P = LO + N; while (P-- > LO) { W }', 'for (k = 0, P = LO; P - LO < N; P += 1, ++k) { W }', 'for (P = &LO[N - 1]; P >= LO + 1; P -= 1) { W }',
                              'for (P = LO; (char *) P < (char *) (LO + N); P = (Q *) ((char *) P + sizeof *P)) { W }', 'for (k = N; k > 0; --k) { P = LO + (k - 1); W x_note(P - LO); }', 'for (k = 0; k < N; ++k) { P = LO + N - 1; P -= k; W }',
                              'P = LO; do { W } while (++P <= LO + (N - 1));'])
            # at the end of a walk down the pointer may not go below the first element
            if 'P-- > LO' in form:
                form = 'P = LO + N; while (P > LO) { P--; W }'
            # the walks that store after reading use k
            return ['{ %s%s *%s; k = 7; %s x_note(%s - (LO)); }'.replace('LO', lo) % (q, t, p, form.replace('P', p).replace('LO', lo).replace('N', str(n)).replace('Q', q + t).replace('W', w.replace('LO', lo)), p)]
        if x < .66:
            v = self.pick(self.vars(m, lambda v: isinstance(v.dim, int)))
            a, b = r.randrange(v.dim + 1), r.randrange(v.dim + 1)
            e = self.pick(['&%s[%d] - &%s[%d]', '(%s + %d) - (%s + %d)', '&%s[%d] < &%s[%d]', '&%s[%d] >= %s + %d', '%s + %d == %s + %d', '(char *) (%s + %d) - (char *) &%s[%d]', '(unsigned long) (%s + %d) - (unsigned long) (%s + %d)', '(long) &%s[%d] <= (long) &%s[%d]']) % (v.name, a, v.name, b)
            return ['x_note(%s);' % e]
        if x < .72:
            p, s = self.pick([('struct m', 'ls'), ('struct n', 'ln')])
            a = self.vars(m, lambda v: v.t == p and v.link != 'const')
            if a:
                g = self.lv(self.pick(a))
                return [self.pick(['%s = %s;' % (s, g), '%s = *%s;' % (s, self.paren(self.ptr(m, p))), '%s = %s;' % (g, s), '%s = *%s;' % (g, self.paren(self.ptr(m, p)))]), 'x_note(%s.i);' % s]
        if x < .82:
            fs = self.funcs(m)
            f, h = self.pick(fs)[0], self.pick(fs)[0]
            tab = [w for w in self.tabs if w[1] == 'fun' and (w[2] != 'static' or w[3] == m)]
            l = ['x_note(%s(%s));' % (f, self.pick(['i & 7', '3', 'x_i(1, 2, 3) & 63'])), 'x_note((i & 1 ? %s : %s)(2));' % (f, h), 'lf = %s; x_note(lf(4)); x_note(lf == %s);' % (f, h), 'x_note(&%s == %s);' % (f, h), 'x_note(ap%d(%s, i & 3));' % (self.pick([0, self.nmod - 1]), f),
                 'lf = %s ? %s : 0; if (lf) x_note((*lf)(i & 1));' % (self.cond(m), f), 'x_note(mk%d(%s) == %s);' % (self.pick([0, self.nmod - 1]), f, h), 'x_note(x_call(cb%d, i & 3));' % m]
            if tab:
                w = self.pick(tab)
                l += ['if (%s[%s]) x_note(%s[%s](i & 3));' % (w[0], c, w[0], c) for c in (str(r.randrange(w[4])), 'i & 1')] + ['x_note(%s[%d] == %s);' % (w[0], r.randrange(w[4]), f)] * 2
            return [self.pick(l)]
        if x < .88:
            t = self.pick(['int', 'long', 'char', 'struct m'])
            p = self.new('p')
            q = self.new('p')
            f = {'struct m': '->i', 'char': '[0]'}.get(t, '[0]')
            return ['{ %s *%s = %s, *%s = %s; %s }' % (t, p, self.ptr(m, t), q, self.ptr(m, t),
                    self.pick(['x_note(P == Q); x_note(PF);', 'x_note(PF + QF); P = Q; x_note(P == Q);', 'if (P && Q) x_note(PF);', 'x_note(va%d(2, P, Q));' % self.pick([0, self.nmod - 1]), '{ %s **pp = i & 1 ? &P : &Q; x_note((*pp)F); *pp = P; x_note(*pp == P); }' % t,
                               'struct { char c; %s *p, *q; } lp; lp.p = P; lp.q = Q; x_note(lp.p == Q); x_note(lp.qF);' % t, 'union { %s *p; unsigned long u; } un; un.p = P; x_note(un.u == (unsigned long) P); x_note(un.pF);' % t, 'lv = P; x_note(lv == P); x_note(((%s *) lv)F);' % t])
                    .replace('lp.qF', 'lp.q' + f).replace('un.pF', 'un.p' + f).replace('(*pp)F', '(*pp)' + f).replace(')F', ')' + f).replace('PF', p + f).replace('QF', q + f).replace('P', p).replace('Q', q))]
        if x < .94 and self.big:
            k = self.big
            o = self.pick(['3000000000u', '0x80000000u', '4294967295u', '4294967296', '0x7fffffffl', '5000000000', '0xfffffff0u + (i & 7)', '(i & 3) + 2147483648ul', 'j & 3', '(unsigned) -1 - (i & 1)'])
            return ['{ char *B = x_mem(%d); %s }'.replace('B', self.new('p')) % (k, self.pick(['B[O] = 5; x_note(B[O]); x_note(*(B + (O)));', 'x_note(&B[O] - B); x_note(B[O]++);', 'int *q = (int *) (B + ((O) & ~3ul)); *q += 3; x_note(*q); x_note((char *) q - B); x_note(q > (int *) B);', 'short *s = (short *) B; s[(O) / 4] ^= 9; x_note(s[(O) / 4]); x_note(&s[(O) / 4] - s);',
                       'char *e = B + (O); x_note(e - B); x_note(e >= B); x_note(e[0]); e -= (O); x_note(e == B);', 'char *e = &B[5368709120]; x_note(e[-(long) (O)]); x_note(e > B + (O)); x_note(B + (O) - e);']).replace('B', 'p%d' % self.k).replace('O', o))]
        a, b = self.new('st'), self.new('sp')
        return ['{ static int %s = %d; static int *%s = %s; %s += 2; x_note(%s); x_note(*%s); }' % (a, r.randrange(99), b, self.nonnull(m, 'int'), a, a, b)]

    def body(self, m, n):
        return [s for _ in range(n) for s in self.stmt(m)]

    LOC = 'unsigned i = (unsigned) a & 1023, k = 0; long j = (long) (a >> 10 & 255); int la[8] = {1, 2, 3}; struct m ls = {1, {2}, 3}; struct n ln = {4, 5}; _Bool lb = 0; int (*lf)(int) = 0; void *lv = 0; (void) lf; (void) lv; (void) lb; (void) k; (void) ln; (void) ls; (void) la; (void) j;'

    def unit(self):
        r = self.r
        self.g, self.f, self.tabs, self.gp = [], [], [], []
        self.mems, self.big = [0, 1, 2, 3], 4
        for m in range(self.nmod):
            for _ in range(r.randint(4, 8)):
                dim = self.pick([None, None, r.randint(5, 9), r.randint(5, 40), r.randint(100, 3000), (r.randint(2, 5), r.randint(4, 9))])
                self.g.append(Var(self.new('g'), self.pick(ELEM), dim, self.pick(['static', 'global', 'global', 'common', 'const']), m))
        for m in range(self.nmod):
            # something of each kind in each module
            self.g.append(Var(self.new('g'), 'int', 8, 'global', m))
            self.g.append(Var(self.new('g'), 'struct m', None, self.pick(['static', 'global', 'common']), m))
            self.g.append(Var(self.new('g'), 'struct n', 4, self.pick(['static', 'global', 'common']), m))
        for m in range(self.nmod):
            for _ in range(r.randint(2, 4)):
                self.f.append((self.new('f'), self.pick(['static', 'global', 'global']), m))
        self.dup = self.new('f') if self.nmod == 2 and self.pic and r.random() < .7 else None
        if self.dup:
            self.f.append((self.dup, 'global', 1))
        src = []
        for m in range(self.nmod):
            for _ in range(r.randint(2, 4)):
                t = self.pick(['int', 'int', 'char', 'struct n', 'fun', 'long', 'double'])
                self.tabs.append((self.new('tab'), t, self.pick(['static', 'global']), m, r.randint(3, 6)))
            for _ in range(r.randint(2, 4)):
                self.gp.append((self.new('gp'), self.pick(['int', 'int', 'char', 'struct n', 'struct m', 'long', 'unsigned', 'short']), self.pick(['static', 'global', 'global', 'common']), m))
        head = DEC
        for v in self.g:
            if v.link != 'static':
                head += self.decl(v, True) + ';\n'
        for f in self.f:
            if f[1] == 'global':
                head += 'int %s(int a);\n' % f[0]
        for m in range(self.nmod):
            head += 'int *fp%d(int a); int ap%d(int (*f)(int), int a); int (*mk%d(int (*f)(int)))(int); unsigned long cb%d(unsigned long a); unsigned long va%d(int n, ...); unsigned long vl%d(int n, ...); extern va_list gap%d;\n' % (m, m, m, m, m, m, m)
        for w in self.tabs:
            if w[2] != 'static':
                head += 'extern %s;\n' % (('%s *%s[%d]' % (w[1], w[0], w[4])) if w[1] != 'fun' else 'int (*%s[%d])(int)' % (w[0], w[4]))
        for w in self.gp:
            if w[2] != 'static':
                head += 'extern %s *%s;\n' % (w[1], w[0])
        for m in range(self.nmod):
            s = []
            for v in self.g:
                if v.home == m and v.link == 'static' and v.dim is None:
                    s.append(self.decl(v, False) + ';')
            for f in self.f:
                if f[1] == 'static' and f[2] == m:
                    s.append('static int %s(int a);' % f[0])
            s.append('static long sz%d[16] = {17};' % m)
            for v in self.g:
                if v.home == m:
                    d = self.decl(v, False)
                    s.append(d + (';' if v.link == 'common' or v.link != 'const' and r.random() < .25 else ' = %s;' % self.init(v, m)))
            for w in self.tabs:
                if w[3] == m:
                    q = 'static ' if w[2] == 'static' else ''
                    if w[1] == 'fun':
                        s.append('%sint (*%s[%d])(int) = {%s};' % (q, w[0], w[4], ', '.join(self.pick(['', '', '&']) + self.pick(self.funcs(m))[0] for _ in range(r.randint(2, w[4])))))
                    else:
                        s.append('%s%s *%s[%d] = {%s};' % (q, w[1], w[0], w[4], ', '.join(self.nonnull(m, w[1]) for _ in range(w[4]))))
            for w in self.gp:
                if w[3] == m:
                    s.append('%s%s *%s%s;' % ('static ' if w[2] == 'static' else '', w[1], w[0], ' = ' + self.nonnull(m, w[1])))
            for f in self.f:
                if f[0] == self.dup:
                    if m == 1:
                        s.append('int %s(int a) { return a * 3 + 1; }' % f[0])
                    else:
                        s.append('#ifndef REF\nint %s(int a) { return a * 3 + 1; }\n#endif' % f[0])
                elif f[2] == m:
                    e = self.num(m, ('i', 'b'))[0].replace('i &', 'a &').replace('j &', 'a &').replace('(unsigned char) j', '(unsigned char) a')
                    s.append('%sint %s(int a) { %sreturn (int) (%s) %% 1000 + a; }' % ('static ' if f[1] == 'static' else '', f[0], 'static int n; n = (n + 1) & 63; a += n; ' if r.random() < .4 else '', e))
            s.append('int *fp%d(int a) { return a & 1 ? %s : %s; }' % (m, self.nonnull(m, 'int'), self.nonnull(m, 'int')))
            s.append('int ap%d(int (*f)(int), int a) { return f(a) + (f == %s); }' % (m, self.pick(self.funcs(m))[0]))
            s.append('int (*mk%d(int (*f)(int)))(int) { return f ? f : %s; }' % (m, self.pick(self.funcs(m))[0]))
            s.append('unsigned long va%d(int n, ...) { va_list ap; unsigned long h = 0; va_start(ap, n); while (n-- > 0) { char *p = va_arg(ap, char *); h = h * 31 + (p != 0) + (unsigned char) *p; } va_end(ap); return h; }' % m)
            s.append('va_list gap%d;' % m)
            s.append(self.vlist(m))
            b = self.body(m, r.randint(2, 4))
            s.append(layout('unsigned long cb%d(unsigned long a) {\n    static int depth; %s if (depth > 2) return 3; depth++; %s depth--; return i + (unsigned long) j;\n}' % (m, self.LOC, ' '.join(b))))
            if m == 0:
                b = self.body(m, r.randint(5, 14))
                s.append(layout('unsigned long t0(unsigned long a) {\n    %s %s return i + k + (unsigned long) ls.i;\n}' % (self.LOC, ' '.join(b))))
            src.append('#include <stdarg.h>\n' + head + '\n'.join(x for x in s if x) + '\n')
        descs = [('t0', ggen.describe(['unsigned long'], 'unsigned long', False))]
        return src, descs

    def nonnull(self, m, t):
        for _ in range(20):
            e = self.ptr_const(m, t)
            if e != '0':
                return e
        return {'char': '(char *) "q"'}.get(t, '0') if t == 'char' else '(%s *) sz%d' % (t, m)
