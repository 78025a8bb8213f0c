"""Seeded generator of C translation units (never executed, only compiled)."""
import random

INT_T = ['int', 'unsigned', 'long', 'unsigned long', 'short', 'unsigned char', 'char', 'signed char', 'unsigned short']
FLT_T = ['double', 'float']


class TU:
    """One source plus its private headers. Names carry a prefix so that several can share a directory."""

    def __init__(self, rng, name='a', size=1.0, headers=None, features=None, shared=(), px=None):
        self.r = rng
        self.name = name
        self.px = px or name.replace('/', '_').replace('.', '_')
        self.size = size
        self.files = {}
        self.uid = 0
        self.macros = []      # (name, nargs) integer valued
        self.types = []       # (typename, [(member, kind)])
        self.gvars = []       # (name, kind) kind: 'i','f','p','a'(array of int), struct idx
        self.funcs = []       # (name, [argkinds], retkind)
        self.nheaders = headers if headers is not None else rng.choice([0, 0, 1, 2, 3, 5])
        self.features = features
        self.shared = list(shared)

    def n(self, stem):
        self.uid += 1
        return '%s_%s%d' % (self.px, stem, self.uid)

    # -- expressions -------------------------------------------------
    def const(self):
        r = self.r
        return r.choice([
            lambda: str(r.randrange(0, 100)), lambda: str(r.randrange(0, 1 << 31)),
            lambda: hex(r.randrange(0, 1 << 32)) + 'u', lambda: str(r.randrange(0, 1 << 62)) + 'l',
            lambda: "'%s'" % r.choice(['a', 'z', '\\n', '\\0', '\\x41', '0', '\\\'']), lambda: '0%o' % r.randrange(1, 4096),
            lambda: 'sizeof(%s)' % r.choice(INT_T + FLT_T + [t for t, _ in self.types][:3]),
        ])()

    def iexpr(self, d, loc):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            c = [self.const]
            iv = [n for n, k in loc + self.gvars if k == 'i']
            if iv:
                c += [lambda: r.choice(iv)] * 4
            av = [n for n, k in loc + self.gvars if k == 'a']
            if av:
                c += [lambda: '%s[%d]' % (r.choice(av), r.randrange(4))] * 2
            pv = [n for n, k in loc if k == 'p']
            if pv:
                c += [lambda: '*%s' % r.choice(pv), lambda: '%s[%d]' % (r.choice(pv), r.randrange(3))]
            sv = [(n, k) for n, k in loc + self.gvars if isinstance(k, int)]
            if sv:
                def mem():
                    n, k = r.choice(sv)
                    ms = [m for m, mk in self.types[k][1] if mk in 'ib']
                    return '%s.%s' % (n, r.choice(ms)) if ms else n and self.const()
                c += [mem] * 2
            return r.choice(c)()
        k = r.randrange(14)
        a = lambda: self.iexpr(d - 1, loc)
        if k < 5:
            return '(%s %s %s)' % (a(), r.choice(['+', '-', '*', '&', '|', '^']), a())
        if k == 5:
            return '(%s %s %s)' % (a(), r.choice(['<', '>', '<=', '>=', '==', '!=', '&&', '||']), a())
        if k == 6:
            return '(%s ? %s : %s)' % (a(), a(), a())
        if k == 7:
            return '%s(%s)' % (r.choice(['-', '~', '!']), a())
        if k == 8:
            return '((%s) %s)' % (r.choice(INT_T), a())
        if k == 9:
            return '(%s %s %d)' % (a(), r.choice(['/', '%', '<<', '>>']), r.randrange(1, 31))
        if k == 10:
            return '((int) %s)' % self.fexpr(d - 1, loc)
        if k == 11 and self.macros:
            n, ar = r.choice(self.macros)
            if ar is None:
                return n
            return '%s(%s)' % (n, ', '.join(a() for _ in range(ar)))
        if k == 12:
            fs = [f for f in self.funcs if f[2] == 'i']
            if fs:
                return self.call(r.choice(fs), d, loc)
        return '(%s, %s)' % (a(), a()) if k == 13 and r.random() < .3 else a()

    def fexpr(self, d, loc):
        r = self.r
        fv = [n for n, k in loc + self.gvars if k == 'f']
        if d <= 0 or r.random() < .2:
            if fv and r.random() < .7:
                return r.choice(fv)
            return r.choice(['1.5', '0.25f', '3.14159', '1e10', '2.0', '0x1p3', '.5', '100.0e-2'])
        k = r.randrange(6)
        if k < 3:
            return '(%s %s %s)' % (self.fexpr(d - 1, loc), r.choice('+-*/'), self.fexpr(d - 1, loc))
        if k == 3:
            return '((%s) %s)' % (r.choice(FLT_T), self.iexpr(d - 1, loc))
        if k == 4:
            return '(%s ? %s : %s)' % (self.iexpr(d - 1, loc), self.fexpr(d - 1, loc), self.fexpr(d - 1, loc))
        fs = [f for f in self.funcs if f[2] == 'f']
        if fs:
            return self.call(r.choice(fs), d, loc)
        return '-(%s)' % self.fexpr(d - 1, loc)

    def call(self, f, d, loc):
        args = []
        for k in f[1]:
            if k == 'i':
                args.append(self.iexpr(d - 1, loc))
            elif k == 'f':
                args.append(self.fexpr(d - 1, loc))
            elif k == 'p':
                av = [n for n, kk in loc + self.gvars if kk == 'a']
                args.append(self.r.choice(av) if av else '(int *) 0')
            elif k == '...':
                for _ in range(self.r.randrange(0, 4)):
                    args.append(self.iexpr(0, loc) if self.r.random() < .6 else self.r.choice(['1.5', '"s\\n"', '(void *) 0']))
        return '%s(%s)' % (f[0], ', '.join(args))

    # -- statements --------------------------------------------------
    def lval(self, loc):
        r = self.r
        c = [(n, k) for n, k in loc + self.gvars if k in ('i', 'a', 'p', 'f') or isinstance(k, int)]
        if not c:
            return None, None
        n, k = r.choice(c)
        if k == 'a':
            return '%s[%d]' % (n, r.randrange(4)), 'i'
        if k == 'p':
            return '*%s' % n, 'i'
        if isinstance(k, int):
            m, mk = r.choice(self.types[k][1])
            return '%s.%s' % (n, m), ('i' if mk in 'ib' else mk)
        return n, k

    def stmt(self, d, loc, ind, inloop=False):
        r = self.r
        pad = '    ' * ind
        k = r.randrange(13) if d > 0 else r.randrange(3)
        if k in (0, 1, 2):
            lv, lk = self.lval(loc)
            if lv is None:
                return pad + ';\n'
            if lk == 'f':
                return '%s%s %s %s;\n' % (pad, lv, r.choice(['=', '+=', '*=']), self.fexpr(2, loc))
            if lk == 'i':
                return '%s%s %s %s;\n' % (pad, lv, r.choice(['=', '=', '+=', '-=', '^=', '|=']), self.iexpr(2, loc))
            return pad + ';\n'
        if k == 3:
            return '%sif (%s) {\n%s%s}%s\n' % (pad, self.iexpr(2, loc), self.block(d - 1, loc, ind + 1, inloop), pad,
                                              '' if r.random() < .5 else ' else {\n%s%s}' % (self.block(d - 1, loc, ind + 1, inloop), pad))
        if k == 4:
            v = self.n('i')
            l2 = loc + [(v, 'i')]
            return '%s{ int %s;\n%sfor (%s = 0; %s < %d; %s++) {\n%s%s}}\n' % (
                pad, v, pad, v, v, r.randrange(1, 20), v, self.block(d - 1, l2, ind + 1, True), pad)
        if k == 5:
            return '%swhile (%s) {\n%s%s    break;\n%s}\n' % (pad, self.iexpr(1, loc), self.block(d - 1, loc, ind + 1, True), pad, pad)
        if k == 6:
            s = '%sswitch (%s) {\n' % (pad, self.iexpr(1, loc))
            for c in r.sample(range(-5, 300), r.randrange(1, 5)):
                s += '%scase %d:\n%s' % (pad, c, self.block(d - 1, loc, ind + 1, inloop))
                if r.random() < .7:
                    s += pad + '    break;\n'
            return s + '%sdefault:\n%s    ;\n%s}\n' % (pad, pad, pad)
        if k == 7:
            return '%sdo {\n%s%s} while (0);\n' % (pad, self.block(d - 1, loc, ind + 1, True), pad)
        if k == 8 and inloop:
            return '%sif (%s) %s;\n' % (pad, self.iexpr(1, loc), r.choice(['break', 'continue']))
        if k == 9 and self.funcs:
            return '%s%s;\n' % (pad, self.call(r.choice(self.funcs), 2, loc))
        if k == 10:
            return '%s{\n%s%s}\n' % (pad, self.block(d - 1, loc, ind + 1, inloop), pad)
        if k == 11:
            l = self.n('L')
            return '%sif (%s) goto %s;\n%s%s%s:;\n' % (pad, self.iexpr(1, loc), l, self.block(d - 1, loc, ind, inloop), pad, l)
        if k == 12:
            iv = [n for n, kk in loc if kk == 'i']
            if iv:
                return '%s%s%s;\n' % (pad, r.choice(iv), r.choice(['++', '--']))
        return '%s/* %s */ ;\n' % (pad, 'nothing ' * r.randrange(1, 4))

    def block(self, d, loc, ind, inloop=False):
        return ''.join(self.stmt(d, loc, ind, inloop) for _ in range(self.r.randrange(1, 4)))

    # -- declarations ------------------------------------------------
    def struct(self):
        r = self.r
        n = self.n('S')
        ms, body = [], ''
        for i in range(r.randrange(1, 6)):
            k = r.randrange(8)
            m = 'm%d' % i
            if k < 4:
                body += '    %s %s;\n' % (r.choice(INT_T), m)
                ms.append((m, 'i'))
            elif k == 4:
                body += '    %s %s;\n' % (r.choice(FLT_T), m)
                ms.append((m, 'f'))
            elif k == 5:
                body += '    %s %s : %d;\n' % (r.choice(['int', 'unsigned']), m, r.randrange(1, 31))
                ms.append((m, 'b'))
            elif k == 6:
                body += '    %s %s[%d];\n' % (r.choice(INT_T), m + 'a', r.randrange(1, 9))
            else:
                body += '    %s *%s;\n' % (r.choice(INT_T), m + 'p')
        if not ms:
            body += '    int m9;\n'
            ms.append(('m9', 'i'))
        kw = 'struct'
        if r.random() < .3:
            s = 'typedef %s {\n%s} %s;\n' % (kw, body, n)
            t = n
        else:
            s = '%s %s {\n%s};\n' % (kw, n, body)
            t = '%s %s' % (kw, n)
        self.types.append((t, ms))
        return s

    def string(self, n=None):
        r = self.r
        n = n if n is not None else r.choice([0, 3, 10, 40, 200])
        return '"' + ''.join(r.choice(['a', 'b', 'Q', ' ', '0', '\\n', '\\t', '\\"', '\\\\', '\\x41', '\\101', '%', '?.', '/*', '//', '#', "'"])
                             for _ in range(n)) + '"'

    def global_(self):
        r = self.r
        k = r.randrange(9)
        st = r.choice(['', '', 'static ', 'const ', 'static const '])
        n = self.n('g')
        if k < 3:
            init = '' if 'const' in st and r.random() < .1 else r.choice(['', ' = %d' % r.randrange(1000), ' = %d * 3 + sizeof(int)' % r.randrange(99)])
            if 'const' not in st:
                self.gvars.append((n, 'i'))
            return '%s%s %s%s;\n' % (st, r.choice(INT_T), n, init)
        if k == 3:
            if 'const' not in st:
                self.gvars.append((n, 'f'))
            return '%s%s %s = %s;\n' % (st, r.choice(FLT_T), n, r.choice(['1.5', '-2.25', '3', '1e100' if r.random() < 0 else '1e10']))
        if k == 4:
            self.gvars.append((n, 'a'))
            m = r.randrange(4, 40)
            return '%sint %s[%d] = {%s};\n' % (st.replace('const ', ''), n, m, ', '.join(self.r.choice(['0', '1', '-7', '0x55', "'c'"]) for _ in range(r.randrange(1, m + 1))))
        if k == 5:
            return '%schar %s[] = %s;\n' % (st, n, self.string())
        if k == 6:
            return '%schar *%s = %s %s;\n' % ('static ' if 'static' in st else '', n, self.string(), self.string() if r.random() < .3 else '')
        if k == 7 and self.types:
            i = r.randrange(len(self.types))
            self.gvars.append((n, i))
            return '%s%s %s;\n' % ('static ' if r.random() < .3 else '', self.types[i][0], n)
        if k == 8:
            av = [g for g, kk in self.gvars if kk == 'a']
            if av:
                return 'int *%s = &%s[%d];\n' % (n, r.choice(av), r.randrange(4))
        return 'extern int %s;\n' % n

    def enum(self):
        n = self.n('E')
        cs = [self.n('C') for _ in range(self.r.randrange(1, 8))]
        for c in cs:
            self.macros.append((c, None))
        return 'enum %s {\n    %s\n};\n' % (n, ',\n    '.join(c if self.r.random() < .6 else '%s = %d' % (c, self.r.randrange(-50, 500)) for c in cs))

    def macro(self):
        r = self.r
        n = self.n('M')
        k = r.randrange(7)
        if k == 0:
            self.macros.append((n, None))
            return '#define %s %s\n' % (n, self.const())
        if k == 1:
            self.macros.append((n, 2))
            return '#define %s(a, b) ((a) %s (b))\n' % (n, r.choice('+-*&|^'))
        if k == 2:
            self.macros.append((n, 1))
            return '#define %s(x) \\\n    ((x) %s \\\n    %d)\n' % (n, r.choice('+-'), r.randrange(100))
        if k == 3:
            v = self.n('v')
            self.gvars.append((v, 'i'))
            return '#define %s(x) x ## %s\nint %s(%s);\n#undef %s\n' % (n, v[1:], n, v[0], n) + '#define %s %s\n' % (n, v)
        if k == 4:
            v = self.n('s')
            return '#define %s(x) #x\n#define %s_(x) %s(x)\nstatic const char *%s = %s_(%s);\n' % (n, n, n, v, n, self.iexpr(2, []))
        if k == 5:
            self.macros.append((n, 3))
            old = [m for m, a in self.macros[:-1] if a == 2]
            o = r.choice(old) if old else None
            return '#define %s(a, b, c) %s\n' % (n, ('%s(%s(a, b), c)' % (o, o)) if o else '(a) + (b) * (c)')
        self.macros.append((n, None))
        return '#define %s \\\n    (%s)\n' % (n, self.iexpr(1, []))

    def cond(self):
        r = self.r
        n = self.n('D')
        k = r.randrange(5)
        a, b = self.global_simple(), self.global_simple()
        if k == 0:
            return '#ifdef %s\n%s#else\n%s#endif\n' % (n, a, b)
        if k == 1:
            return '#define %s %d\n#if %s > %d && defined(%s)\n%s#elif %s\n%s#else\nint %s;\n#endif\n' % (
                n, r.randrange(10), n, r.randrange(10), n, a, n, b, self.n('e'))
        if k == 2:
            return '#if 0\nthis is not "com\\" piled" @\n#if 1\n#else\n#endif\n#endif\n' + a
        if k == 3:
            return '#ifndef %s\n#define %s\n#endif\n#undef %s\n%s' % (n, n, n, a)
        return '#if (%d + 3 * 4) %% 2 == 0 || 0\n%s#endif\n' % (r.randrange(20), a)

    def global_simple(self):
        return 'int %s;\n' % self.n('q')

    def comment(self):
        r = self.r
        w = ['lorem', 'ipsum', '"', "'", '/*', '//', '\\', '#define X', 'dolor']
        t = ' '.join(r.choice(w) for _ in range(r.choice([1, 5, 30, 120])))
        if r.random() < .5:
            return '/* %s\n%s */\n' % (t.replace('*/', ''), t)
        return '// %s .\n' % t.rstrip('\\')

    def func(self):
        r = self.r
        n = self.n('f')
        ret = r.choice(['i', 'i', 'i', 'f', 'v'])
        kinds = [r.choice(['i', 'i', 'f', 'p']) for _ in range(r.choice([0, 1, 2, 3, 4, 7, 9]))]
        loc, ps = [], []
        for i, k in enumerate(kinds):
            a = 'a%d' % i
            t = {'i': r.choice(INT_T), 'f': r.choice(FLT_T), 'p': 'int'}[k]
            ps.append('%s %s%s' % (t, '*' if k == 'p' else '', a))
            loc.append((a, k))
        rt = {'i': r.choice(['int', 'long', 'unsigned', 'char']), 'f': r.choice(FLT_T), 'v': 'void'}[ret]
        s = '%s%s %s(%s)\n{\n' % (r.choice(['', 'static ']), rt, n, ', '.join(ps) or 'void')
        for i in range(r.randrange(1, 5)):
            v = 'v%d' % i
            k = r.randrange(6)
            if k < 3:
                s += '    %s %s = %s;\n' % (r.choice(INT_T), v, self.iexpr(2, loc))
                loc = loc + [(v, 'i')]
            elif k == 3:
                s += '    %s %s = %s;\n' % (r.choice(FLT_T), v, self.fexpr(2, loc))
                loc = loc + [(v, 'f')]
            elif k == 4:
                s += '    int %s[%d] = {1, 2, 3};\n' % (v, r.randrange(4, 9))
                loc = loc + [(v, 'a')]
            elif self.types:
                j = r.randrange(len(self.types))
                s += '    %s %s;\n' % (self.types[j][0], v)
                loc = loc + [(v, j)]
            else:
                s += '    static int %s = %d;\n' % (v, r.randrange(100))
                loc = loc + [(v, 'i')]
        for _ in range(r.randrange(1, 5)):
            s += self.stmt(3, loc, 1)
        if ret == 'i':
            s += '    return %s;\n' % self.iexpr(3, loc)
        elif ret == 'f':
            s += '    return %s;\n' % self.fexpr(3, loc)
        s += '}\n'
        self.funcs.append((n, kinds, ret))
        return s

    def decl(self):
        n = self.n('x')
        kinds = [self.r.choice('if') for _ in range(self.r.randrange(0, 3))]
        va = self.r.random() < .4
        if va:
            kinds = ['i'] + kinds + ['...']
        self.funcs.append((n, kinds, self.r.choice('if')))
        rt = 'int' if self.funcs[-1][2] == 'i' else 'double'
        ps = ', '.join({'i': 'int', 'f': 'double', '...': '...'}[k] for k in kinds)
        return 'extern %s %s(%s);\n' % (rt, n, ps or 'void')

    def exotic(self):
        """Language features the other productions do not reach."""
        r = self.r
        n, m = self.n('y'), self.n('z')
        a, b, c = r.randrange(1, 90), r.randrange(1, 50), r.randrange(2, 9)
        lf = lambda: r.choice(['1.25L', '3.75L', '0.1L', '1e300L', '-2.5L', '7L', '%d.5L' % a])
        if self.types and r.random() < .3:
            t, ms = r.choice(self.types)
        else:
            t, ms = None, None
        T = [
            lambda: 'long double %s = %s;\nlong double %s(long double x) { long double y = %s; if (x > %s) return y * x; return x / %s; }\n' % (n, lf(), m, lf(), lf(), lf()),
            lambda: 'static long double %s(int i) { return i + %s; }\nint %s(void) { return (int) %s(%d); }\n' % (n, lf(), m, n, a),
            lambda: 'union U%s { int a; double d; char c[%d]; } %s = {%d};\n' % (n, c, n, a),
            lambda: 'struct P%s { int x, y; struct { char c; long l; } in; int arr[%d]; };\nstruct P%s %s(int a) { struct P%s q = {1, .in = {.c = \'a\', .l = %d}, .arr = {[1] = %d}}; q.x = a; return q; }\n'
                    'int %s(struct P%s v) { struct P%s w = v; return w.arr[1] + %s(v.x).y; }\n' % (n, c, n, n, n, a, b, m, n, n, n),
            lambda: 'struct V%s { char c[%d]; };\nint %s(int k, ...) { __builtin_va_list ap; int s = 0; struct V%s v; __builtin_va_start(ap, k);\n s += __builtin_va_arg(ap, int); v = __builtin_va_arg(ap, struct V%s); s += v.c[0] + (int) __builtin_va_arg(ap, double);\n return s; }\n' % (
                n, r.choice([1, 3, 7, 8, 12, 16, 17, 40]), n, n, n),
            lambda: 'int %s(int n) { int a[n], i; for (i = 0; i < n; ++i) a[i] = i * %d; return a[n - 1] + (int) sizeof(a); }\n' % (n, a),
            lambda: 'static const char *%s[] = {%s, %s, [%d] = %s};\n' % (n, self.string(3), self.string(10), c + 2, self.string(3)),
            lambda: 'int %s(unsigned long x) { static int k = %d; static struct { int a; double d; } s = {%d, 1.5}; switch (x) { case 1ul << 40: return s.a; case %d: k++; default: return k; } }\n' % (n, a, b, c),
            lambda: 'const char *%s(void) { return (const char *) __func__; }\n' % n,
            lambda: 'struct C%s { int a; short b; };\nint %s(void) { return ((struct C%s) {%d, %d}).b + (int []) {1, 2, 3}[1]; }\n' % (n, n, n, a, b),
            lambda: '_Bool %s = 1; typedef int T%s, *PT%s; PT%s %s = &(T%s) {%d};\n' % (n, n, n, n, m, n, a),
            lambda: 'extern int W%s[]; int *%s = &W%s[%d]; int %s = %d; char *Q%s = (char *) &%s + %d;\n' % (n, n, n, c, m, a, n, m, c % 4),
            lambda: 'struct B%s { unsigned a : %d, b : 7; int : 0; unsigned c : %d; } %s = {1, 2, 3};\nint %s(struct B%s *p) { p->a += %d; p->b ^= p->c; return p->c--; }\n' % (n, c, b % 31 + 1, n, m, n, a),
            lambda: 'unsigned long %s(double d, float f) { return (unsigned long) d + (long) f + (unsigned char) d + (d < f ? %d : !d); }\n' % (n, a),
            lambda: 'int %s(int x) { again: if (x-- > %d) goto again; return x; }\n' % (n, a),
            lambda: 'int (*%s[%d])(int, double); int %s(int i) { return %s[i](i, %d.5) + (*%s[0])(1, 2); }\n' % (n, c, m, n, a, n),
            lambda: 'int %s(int a, int b) { __asm__ volatile ("movl %%1, %%0" : "=r" (a) : "r" (b)); return a; }\n' % n if r.random() < .3 else 'int %s_;\n' % n,
            lambda: '#line %d "%s.x"\nint %s = __LINE__; const char *%s = __FILE__;\n' % (a, n, n, m),
            lambda: '_Static_assert(sizeof(int) == 4, "x");\nint %s;\n' % n if r.random() < .3 else 'int %s, *%s = &%s;\n' % (n, m, n),
            lambda: 'static int %s(int d) { return d <= 0 ? %d : %s(d - 1) + d; }\nint %s(void) { return %s(%d); }\n' % (n, a, n, m, n, b),
            lambda: 'enum F%s { A%s = -%d, B%s, D%s = 1 << %d };\nint %s[] = {A%s, B%s, D%s}; char %s[sizeof(%s)];\n' % (n, n, a, n, n, c, n, n, n, n, m, n),
            lambda: 'volatile int %s; int %s(void) { %s = %d; while (%s != %d) %s++; return %s; }\n' % (n, m, n, a, n, a + b, n, n),
            lambda: 'double %s(double a, double b, double c, double d, double e, double f, double g, double h, double i, int j) { return a * b + c - d / e + f * g + h + i * j; }\n' % n,
            lambda: 'static inline int %s(int a) { return a + %d; } int %s(void) { return %s(%s(%d)); }\n' % (n, a, m, n, n, b),
            lambda: 'struct L%s { struct L%s *next; int v; };\nint %s(struct L%s *p) { int s = 0; for (; p && p->v != %d; p = p->next) s += p->v; return s; }\n' % (n, n, n, n, a),
            lambda: 'float %s[] = {1.5f, -2, %d, .5f}; double %s[%d] = {[1] = 2.5, 1e-300};\n' % (n, a, m, c + 2),
            lambda: 'char %s[][%d] = {"ab", "c"}; unsigned short %s[2][3] = {{1, 2, 3}, {%d}};\n' % (n, c + 1, m, a),
        ]
        s = r.choice(T)()
        if t:
            s += 'int F%s(%s *p, %s q, int i) { %s w = *p; p[i] = q; return w.%s + q.%s; }\n' % (m, t, t, t, ms[0][0], ms[0][0])
        return s

    def chunk(self, header=False):
        r = self.r
        if not header and r.random() < .3:
            return self.exotic()
        f = [self.struct, self.global_, self.enum, self.macro, self.macro, self.cond, self.comment, self.decl]
        if not header:
            f += [self.func] * 5 + [self.global_] * 3
        return r.choice(f)()

    def header(self, depth):
        r = self.r
        name = self.name + self.n('h') + '.h'
        g = name.upper().replace('.', '_')
        body = '#ifndef %s\n#define %s\n' % (g, g)
        if depth > 0 and self.nheaders > 0 and r.random() < .6:
            self.nheaders -= 1
            body += self.header(depth - 1)
        for _ in range(r.randrange(1, 5)):
            body += self.chunk(True) + ('\n' if r.random() < .5 else '')
        body += '#endif\n'
        sub = r.choice(['', '', 'inc/'])
        self.files[sub + name] = body
        return '#include %s\n' % ('"%s"' % (sub + name) if sub == '' or r.random() < .5 else '<%s>' % name)

    def build(self):
        r = self.r
        s = ''
        if r.random() < .3:
            s += self.comment()
        for h in self.shared:
            s += '#include "%s"\n' % h
        while self.nheaders > 0:
            self.nheaders -= 1
            s += self.header(3)
        for _ in range(int(self.size * r.randrange(4, 14)) + 1):
            s += self.chunk()
            if r.random() < .4:
                s += '\n' * r.randrange(1, 4)
        self.files[self.name + '.c'] = s
        return self.files


def tu(seed, name='a', size=1.0, **kw):
    return TU(random.Random(seed), name, size, **kw).build()
