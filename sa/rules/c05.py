"""C05: text stays inside its buffers, fixed arrays are indexed inside their bounds, formats agree with their arguments."""
import re
from .. import core
EXPLANATION = (
    "Every place where text is written into a buffer (scanf-family conversions, strcpy, strcat, sprintf, snprintf, "
    "fgets, strncpy, memcpy, and the loops of the library over them) is an obligation: the capacity of the destination "
    "(array, constant-size allocation, allocation of strlen+constant, field whose every allocation in the program has "
    "a known size, parameter resolved at every call) is at least the longest text that can arrive (width of the "
    "conversion, literal, other buffer, expansion of the format; command-line text has no bound). Every conversion of "
    "every scanf and printf call is matched with the type of its argument. Every index into an array of fixed size is "
    "bounded by an interval argument.")
RULE = "capacity of the destination >= longest text + 1 (interprocedural); format/argument type agreement; intervals of indices"
ASSUMPTIONS = ["labels handed in by a caller of the library from outside are shorter than MAX_LABEL_LENGTH",
               "text in buffers is terminated"]
INF = float('inf')
CONV = re.compile(r'%(?P<fl>[-+ #0\']*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|-?\d+)?)?(?P<m>hh|h|ll|l|j|z|t|L|q)?(?P<c>[diouxXcspfFeEgGaAn%]|\[\^?\]?[^\]]*\])')
PRINTF = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, 'asprintf': 1}
SCANF = {'scanf': 0, 'fscanf': 1, 'sscanf': 1}
ESC = {'d': 11, 'i': 11, 'u': 10, 'x': 8, 'X': 8, 'o': 11, 'c': 1, 'g': 13, 'G': 13, 'e': 14, 'E': 14, 'p': 18}


def base(name):
    n = name or ''
    for p in ('__isoc99_', '__isoc23_', '__builtin_', '__'):
        if n.startswith(p):
            n = n[len(p):]
    n = n.split('.')[0] if not n.startswith('llvm.') else n
    if n.startswith('llvm.'):
        n = n.split('.')[1]
    if n.endswith('_chk'):
        n = n[:-4]
    return n


class Text:
    def __init__(self, P, mode):
        self.P, self.mode = P, mode
        self.fns, self.callers, self.units = {}, {}, {}
        seen = set()
        for u in P.libnames + P.prognames:
            for f in P.units[(u, mode)].fns.values():
                if (f.file, f.name) in seen:
                    continue
                seen.add((f.file, f.name))
                self.fns.setdefault(f.name, []).append(f)
        self.all = [f for fs in self.fns.values() for f in fs]
        self.fieldstores = {}
        for f in self.all:
            for i in f.ins.values():
                if i.op in ('call', 'invoke') and i.callee:
                    self.callers.setdefault(i.callee, []).append((f, i))
                if i.op == 'store':
                    k = self.field(f, i.ops[1])
                    if k:
                        self.fieldstores.setdefault(k, []).append((f, i.ops[0], i))
        self.busy = set()
        self.lenof = {}

    @staticmethod
    def field(f, o):
        g = f.val(f.strip(o))
        if g is not None and g.op == 'getelementptr' and g.path and g.path[-1][0] == 'f':
            return g.path[-1][1], g.path[-1][2]
        return None

    def stored(self, f, i):
        """value last written to the address a load reads, when that is plain (same block, or a dominating store in a
        block between which nothing else stores there): only for loads of elements of arrays of strings"""
        a = f.addr(i.ops[0])
        best = None
        for j in f.ins.values():
            if j.op == 'store' and f.addr(j.ops[1]) == a and f.idominates(j, i):
                if best is None or f.idominates(best, j):
                    best = j
        return best.ops[0] if best is not None else None

    def length(self, f, o, need=None):
        """(kind, n): 'max' longest text, 'len' of a value plus n; used for sizes given by strlen"""
        c = self.const(f, o)
        if c is not None:
            return ('max', c)
        i = f.val(f.strip(o))
        if i is None:
            return None
        if i.op == 'call' and base(i.callee) == 'strlen':
            self.lenof[f.ex(i.ops[0])] = (f, i.ops[0])
            return ('len', (f.ex(i.ops[0]),), 0)
        if i.op == 'add':
            a, b = self.length(f, i.ops[0]), self.length(f, i.ops[1])
            if a and b:
                if a[0] == 'max' and b[0] == 'max':
                    return ('max', a[1] + b[1])
                if a[0] == 'len' and b[0] == 'max':
                    return ('len', a[1], a[2] + b[1])
                if b[0] == 'len' and a[0] == 'max':
                    return ('len', b[1], b[2] + a[1])
                if a[0] == 'len' and b[0] == 'len':
                    return ('len', a[1] + b[1], a[2] + b[2])
        if i.op == 'mul':
            a, b = self.length(f, i.ops[0]), self.length(f, i.ops[1])
            if a and b and a[0] == 'max' and b[0] == 'max':
                return ('max', a[1] * b[1])
            for x, y in ((a, b), (b, a)):
                if x == ('max', 1):
                    return y
        return None

    @staticmethod
    def const(f, o):
        o = f.strip(o)
        if isinstance(o, str) and o.startswith('i:') and o != 'i:big':
            return int(o[2:])
        return None

    def cap(self, f, o, depth=0):
        """capacity in bytes of the buffer o: ('max', n), ('len', exprs, n), or None"""
        o = f.strip(o)
        k = ('cap', f.file, f.name, o)
        if k in self.busy or depth > 12:
            return ('max', INF)                 # on a cycle: the other values decide
        self.busy.add(k)
        try:
            return self._cap(f, o, depth)
        finally:
            self.busy.discard(k)

    def least(self, rs):
        rs = list(rs)
        if not rs or any(r is None for r in rs):
            return None
        ms = [r for r in rs if r[0] == 'max']
        ls = [r for r in rs if r[0] == 'len']
        if ls:
            return ls[0] if len(set(ls)) == 1 and not [m for m in ms if m[1] != INF] else None
        return min(ms, key=lambda r: r[1])

    def _cap(self, f, o, depth):
        if o == 'null':
            return ('max', INF)
        if o[:1] == '@':
            g = f.unit.globals.get(o[1:])
            if g is None:
                return None
            m = re.match(r'\[(\d+) x i8\]', g.get('ty') or '')
            return ('max', int(m.group(1))) if m and not g.get('const') else None
        if o[:1] == 'a' and o[1:].isdigit():
            return self.param(f, int(o[1:]), depth, self.cap)
        i = f.val(o)
        if i is None:
            return None
        if i.op == 'alloca':
            m = re.match(r'\[(\d+) x i8\]', i.aty or '')
            if m and not i.arr:
                return ('max', int(m.group(1)))
            return ('max', 1) if i.aty == 'i8' and not i.arr else None
        if i.op == 'getelementptr':
            last = i.path[-1]
            if last[0] == 'a' and self.const(f, last[2]) is not None:
                # element of a fixed array: of a field, a local or a global
                return ('max', max(0, last[1] - self.const(f, last[2]))) if len(i.path) > 1 else None
            if last[0] == '*' and last[1] == 'i8' and len(i.path) == 1:
                c, r = self.const(f, last[2]), self.cap(f, i.ops[0], depth + 1)
                if r and c is not None and c >= 0:
                    return (r[0],) + r[1:-1] + (r[-1] - c,)
                return None
            if last[0] == 'f':
                m = re.match(r'\[(\d+) x i8\]', T_field(f, last) or '')
                return ('max', int(m.group(1))) if m else None
            return None
        if i.op in ('phi', 'select'):
            return self.least(self.cap(f, x, depth + 1) for x in (i.ops if i.op == 'phi' else i.ops[1:]))
        if i.op == 'load':
            k = self.field(f, i.ops[0])
            v = self.stored(f, i) if k else None
            if v is not None:
                return self.cap(f, v, depth + 1)
            if k:
                ss = self.fieldstores.get(k, [])
                return self.least(self.cap(g, v, depth + 1) for g, v, j in ss)
            v = self.stored(f, i)
            return self.cap(f, v, depth + 1) if v is not None else None
        if i.op in ('call', 'invoke'):
            b = base(i.callee)
            if b == 'malloc':
                return self.length(f, i.ops[0])
            if b == 'calloc':
                x, y = self.length(f, i.ops[0]), self.length(f, i.ops[1])
                if x and y:
                    if x[0] == 'max' and y[0] == 'max':
                        return ('max', x[1] * y[1])
                    for p, q in ((x, y), (y, x)):
                        if p == ('max', 1):
                            return q
                return None
            if b in ('strcpy', 'strcat', 'strncpy', 'strncat', 'memcpy', 'memset'):
                return self.cap(f, i.ops[0], depth + 1)
            if b == 'strdup':
                self.lenof[f.ex(i.ops[0])] = (f, i.ops[0])
                return ('len', (f.ex(i.ops[0]),), 1)
            gs = self.fns.get(i.callee, [])
            if gs:
                return self.least(self.cap(g, r.ops[0], depth + 1) for g in gs for r in g.ins.values()
                                  if r.op == 'ret' and r.ops)
        return None

    def param(self, f, k, depth, what):
        cs = [(g, c) for g, c in self.callers.get(f.name, []) if k < len(c.ops) and g is not None]
        if f.name == 'main':
            return None
        rs = [what(g, c.ops[k], depth + 1) for g, c in cs if not (g is f)]
        if not rs:
            return ('max', self.label)                  # handed in from outside: a label
        if what == self.cap:
            return self.least(rs)
        return self.most(rs)

    label = 100

    @staticmethod
    def most(rs):
        rs = list(rs)
        if any(r is None for r in rs):
            return None
        return max(rs) if rs else None

    def longest(self, f, o, depth=0):
        """longest text that o can point at (INF: no bound); None: unknown"""
        o = f.strip(o)
        k = ('lng', f.file, f.name, o)
        if k in self.busy or depth > 12:
            return 0
        self.busy.add(k)
        try:
            return self._longest(f, o, depth)
        finally:
            self.busy.discard(k)

    def _longest(self, f, o, depth):
        if o == 'null':
            return 0
        if o[:1] == '@':
            g = f.unit.globals.get(o[1:])
            if g and 'str' in g and g.get('const'):
                return len(g.get('format', g['str']).split('\0')[0])
            if g and g.get('const') is False:
                m = re.match(r'\[(\d+) x i8\]', g.get('ty') or '')
                if m:
                    return int(m.group(1)) - 1
            return INF
        if o[:1] == 'a' and o[1:].isdigit():
            if f.name == 'main':
                return INF
            r = self.param(f, int(o[1:]), depth, self.longest)
            return r[1] - 1 if isinstance(r, tuple) else r
        i = f.val(o)
        if i is None:
            return INF
        if i.op in ('phi', 'select'):
            return self.most(self.longest(f, x, depth + 1) for x in (i.ops if i.op == 'phi' else i.ops[1:]))
        if i.op in ('call', 'invoke') and base(i.callee) in ('strcpy', 'strcat', 'strncpy'):
            return self.longest(f, i.ops[0], depth + 1)
        if i.op == 'getelementptr' and i.path[-1][0] == '*' and len(i.path) == 1 and i.path[-1][1] == 'i8':
            return self.longest(f, i.ops[0], depth + 1)
        if i.op == 'load':
            k = self.field(f, i.ops[0])
            if k and self.fieldstores.get(k):
                r = [self.longest(g, v, depth + 1) for g, v, j in self.fieldstores[k]]
                return self.most(r)
        r = self.cap(f, o, depth + 1)
        if r and r[0] == 'max' and r[1] != INF:
            return r[1] - 1
        if r and r[0] == 'len':
            tot = r[2] - 1
            for e in r[1]:
                x = self.longest(*self.lenof[e], depth + 1) if e in self.lenof else INF
                tot += INF if x is None else x
            return tot
        return INF

    # ---- formats
    def fmts(self, f, o, depth=0):
        """texts a format can be; None: not constant"""
        o = f.strip(o)
        if o[:1] == '@':
            g = f.unit.globals.get(o[1:])
            return [g.get('format', g['str'])] if g and 'str' in g and g.get('const') else None
        if depth > 6:
            return None
        if o[:1] == 'a' and o[1:].isdigit() and f.name != 'main':
            rs = [self.fmts(g, c.ops[int(o[1:])], depth + 1) for g, c in self.callers.get(f.name, [])]
        else:
            i = f.val(o)
            if i is None or i.op not in ('phi', 'select'):
                return None
            rs = [self.fmts(f, x, depth + 1) for x in (i.ops if i.op == 'phi' else i.ops[1:])]
        if not rs or any(r is None for r in rs):
            return None
        return sorted({t for r in rs for t in r})

    def vtype(self, f, o):
        """type of a value handed to printf: i32, i64, double, ptr, or None"""
        if o.startswith('f:'):
            return 'double'
        if o.startswith('i:'):
            return 'int'
        if o == 'null' or o[:1] == '@':
            return 'ptr'
        if o == 'undef':
            return None
        if o[:1] == 'a' and o[1:].isdigit():
            m = re.match(r'[^(]*\((.*)\)', f.type or '') if getattr(f, 'type', None) else None
            return None
        i = f.val(o)
        if i is None:
            return None
        if i.op in ('alloca', 'getelementptr', 'inttoptr'):
            return 'ptr'
        return i.ty or (i.oty if i.op in ('load',) else None)

    def pointee(self, f, o):
        """type of the object an argument of scanf points at"""
        o = f.strip(o)
        i = f.val(o)
        if i is None:
            if o[:1] == '@':
                g = f.unit.globals.get(o[1:])
                return g.get('ty') if g else None
            return None
        if i.op == 'alloca':
            return i.aty
        if i.op == 'getelementptr':
            last = i.path[-1]
            if last[0] == '*':
                return last[1]
            if last[0] == 'a':
                m = re.match(r'\[\d+ x (.*)\]$', i.path[-2][1] if len(i.path) > 1 and i.path[-2][0] == '*' else '')
                return m.group(1) if m else 'i8' if len(i.path) > 1 and i.path[-2][0] == 'f' else None
            if last[0] == 'f':
                return T_field(f, last)
        return None


def T_field(f, last):
    """type of a field"""
    names, types = f.unit.structs.get(last[1]), f.unit.structtypes.get(last[1])
    if names and types and len(names) == len(types) and last[2] in names:
        return types[names.index(last[2])]
    return None


def vis(s):
    return s.replace('\n', '\\n').replace('\t', '\\t')


def pieces(s):
    """[literal or match]"""
    out, p = [], 0
    while True:
        q = s.find('%', p)
        if q < 0:
            out.append(s[p:])
            return out
        m = CONV.match(s, q)
        out.append(s[p:q])
        if not m:
            return None
        out.append(m)
        p = m.end()


def scan_pieces(s):
    out, p = [], 0
    rx = re.compile(r'%(?P<sup>\*)?(?P<w>\d+)?(?P<m>hh|h|ll|l|j|z|t|L|q)?(?P<c>[diouxXcspfFeEgGaAn%]|\[\^?\]?[^\]]*\])')
    while True:
        q = s.find('%', p)
        if q < 0:
            return out
        m = rx.match(s, q)
        if not m:
            return None
        out.append(m)
        p = m.end()


def want(m):
    """type class a printf conversion expects"""
    c, mod = m.group('c'), m.group('m')
    if c in 'diuoxXc':
        return 'i64' if mod in ('l', 'll', 'j', 'z', 't', 'q') and c != 'c' else 'i32'
    if c in 'fFeEgGaA':
        return 'x86_fp80' if mod == 'L' else 'double'
    return 'ptr'


def wants(m):
    """object type a scanf conversion writes"""
    c, mod = m.group('c'), m.group('m')
    if c in 'diuoxX' or c == 'n':
        return {'hh': 'i8', 'h': 'i16', None: 'i32'}.get(mod, 'i64')
    if c in 'fFeEgGaA':
        return {None: 'float', 'l': 'double', 'L': 'x86_fp80'}.get(mod)
    return 'ptr' if c == 'p' else 'text'


def run(ctx):
    P = core.program(modes=('ssa',))
    T = Text(P, 'ssa')
    m = re.compile(r'\[(\d+) x i8\]')
    n = {'writes of text': 0, 'formats': 0, 'conversions': 0, 'fixed arrays': 0, 'indices into fixed arrays': 0}
    for f in T.all:
        for i in f.ins.values():
            if i.op not in ('call', 'invoke') or not i.callee:
                continue
            b = base(i.callee)
            if b in SCANF:
                scan(ctx, T, f, i, SCANF[b], n)
            elif b in PRINTF:
                printf(ctx, T, f, i, b, n)
            else:
                copy(ctx, T, f, i, b, n)
        arrays(ctx, T, f, n)
    for k, v in n.items():
        ctx.cov[k] = v
    ctx.need('writes of text', n['writes of text'], 30)
    ctx.need('conversions', n['conversions'], 200)


def show(r):
    return 'unknown' if r is None else 'unbounded' if r == INF else str(r) if not isinstance(r, tuple) else \
        str(r[1]) if r[0] == 'max' else 'strlen+%s' % r[2]


def scan(ctx, T, f, i, k, n):
    n['formats'] += 1
    for s in T.fmts(f, i.ops[k]) or [None]:
        scan1(ctx, T, f, i, k, n, s)


def scan1(ctx, T, f, i, k, n, s):
    ps = scan_pieces(s) if s is not None else None
    if ps is None:
        ctx.ob(False, '%s:format' % f.name, i.loc(), 'the format of %s is not a readable constant' % base(i.callee))
        return
    args = list(i.ops[k + 1:])
    ps = [p for p in ps if p.group('c') != '%' and not p.group('sup')]
    ctx.ob(len(ps) == len(args), '%s:scan:count' % f.name, i.loc(),
           '"%s" has %d conversions for %d arguments' % (vis(s.strip()), len(ps), len(args)))
    for p, a in zip(ps, args):
        n['conversions'] += 1
        w = wants(p)
        if w == 'text':
            n['writes of text'] += 1
            width = int(p.group('w')) if p.group('w') else 1 if p.group('c') == 'c' else INF
            r = T.cap(f, a)
            extra = 0 if p.group('c') == 'c' else 1
            good = r is not None and r[0] == 'max' and width + extra <= r[1]
            ctx.ob(good, '%s:%s:%s' % (f.name, base(i.callee), vis(p.group(0))), i.loc(),
                   '%s in %s writes up to %s characters into a buffer of %s' % (
                       vis(p.group(0)), f.name, 'any number of' if width == INF else width + extra, show(r)),
                   '%s: %s stays inside its buffer of %s' % (f.name, vis(p.group(0)), show(r)))
        else:
            t = T.pointee(f, a)
            if t is None:
                ctx.count('scanf arguments whose type is not known')
                continue
            ctx.ob(t == w or w == 'ptr', '%s:%s:%s' % (f.name, base(i.callee), vis(p.group(0))), i.loc(),
                   '%s in %s is given an object of type %s' % (vis(p.group(0)), f.name, t),
                   '%s: %s writes a %s' % (f.name, vis(p.group(0)), t))


def expand(T, f, ps, args):
    """longest text a format can produce"""
    tot = 0
    args = list(args)
    for p in ps:
        if isinstance(p, str):
            tot += len(p)
            continue
        c = p.group('c')
        if c == '%':
            tot += 1
            continue
        w = 0
        if p.group('w') == '*' or p.group('p') == '*':
            return INF
        if p.group('w'):
            w = int(p.group('w'))
        a = args.pop(0) if args else None
        if c == 's':
            x = T.longest(f, a) if a is not None else INF
            if p.group('p') is not None:
                x = min(int(p.group('p') or 0), INF if x is None else x)
            x = INF if x is None else x
        elif c in 'fF':
            x = 320 + int(p.group('p') or 6)
        else:
            x = ESC.get(c, 30)
            if p.group('m') in ('l', 'll', 'z', 'j', 't'):
                x += 11
            if p.group('p'):
                x += max(0, int(p.group('p')))
        tot += max(w, x)
    return tot


def printf(ctx, T, f, i, b, n):
    k = PRINTF[b]
    if i.callee.startswith('__') and i.callee.endswith('_chk'):
        ctx.count('checked calls')
        return
    n['formats'] += 1
    for s in T.fmts(f, i.ops[k]) or [None]:
        printf1(ctx, T, f, i, b, n, k, s)


def printf1(ctx, T, f, i, b, n, k, s):
    ps = pieces(s) if s is not None else None
    if ps is None:
        ctx.ob(False, '%s:format' % f.name, i.loc(), 'the format of %s is not a readable constant' % b)
        return
    args = list(i.ops[k + 1:])
    cs = []
    for p in ps:
        if isinstance(p, str) or p.group('c') == '%':
            continue
        cs += [('i32', p)] * ((p.group('w') == '*') + (p.group('p') == '*')) + [(want(p), p)]
    ctx.ob(len(cs) == len(args), '%s:%s:count' % (f.name, b), i.loc(),
           '"%s" has %d conversions for %d arguments' % (vis(s.strip()), len(cs), len(args)))
    for (w, p), a in zip(cs, args):
        n['conversions'] += 1
        t = T.vtype(f, a)
        if t is None:
            ctx.count('printf arguments whose type is not known')
            continue
        good = t == w or t == 'int' and w in ('i32', 'i64')
        ctx.ob(good, '%s:%s:%s' % (f.name, b, vis(p.group(0))), i.loc(),
               '%s in %s is given a value of type %s' % (vis(p.group(0)), f.name, t),
               '%s: %s prints a %s' % (f.name, vis(p.group(0)), t))
    if b in ('sprintf', 'snprintf'):
        n['writes of text'] += 1
        r = T.cap(f, i.ops[0])
        if b == 'sprintf':
            x = expand(T, f, ps, args)
            good = r is not None and r[0] == 'max' and x + 1 <= r[1]
        else:
            x = T.const(f, i.ops[1])
            good = r is not None and x is not None and r[0] == 'max' and x <= r[1]
            x = INF if x is None else x - 1
        ctx.ob(good, '%s:%s' % (f.name, b), i.loc(),
               '%s in %s writes up to %s characters into a buffer of %s' % (b, f.name, show(x), show(r)),
               '%s: %s of at most %s stays inside %s' % (f.name, b, show(x), show(r)))


def copy(ctx, T, f, i, b, n):
    if b in ('gets',):
        ctx.ob(False, '%s:gets' % f.name, i.loc(), 'gets has no bound')
    elif b in ('strcpy', 'stpcpy', 'strcat'):
        n['writes of text'] += 1
        r = T.cap(f, i.ops[0])
        x = T.longest(f, i.ops[1])
        if b == 'strcat':
            prev = before(T, f, i)
            x = INF if prev is None or x is None else x + prev
        if r is not None and r[0] == 'len':
            good = fits(T, f, i, b, r)
        else:
            good = r is not None and x is not None and x + 1 <= r[1]
        ctx.ob(good, '%s:%s' % (f.name, b), i.loc(),
               '%s in %s writes a text of up to %s characters into a buffer of %s' % (b, f.name, show(x), show(r)),
               '%s: %s of at most %s stays inside %s' % (f.name, b, show(x), show(r)))
    elif b in ('fgets', 'strncpy', 'strlcpy', 'memcpy', 'memmove', 'read', 'fread'):
        dst, k = i.ops[0], {'fgets': 1, 'strncpy': 2, 'strlcpy': 2}.get(b, 2)
        r = T.cap(f, dst)
        if b in ('memcpy', 'memmove', 'read', 'fread') and (r is None or r[1] == INF):
            return                              # not a text buffer
        n['writes of text'] += 1
        x = T.length(f, i.ops[k])
        if x is not None and x[0] == 'len':
            if r is not None and r[0] == 'len':
                good = x[1] == r[1] and x[2] <= r[2]
                x = None
            else:
                x = x[2] + sum(T.longest(*T.lenof[e]) for e in x[1])
                good = r is not None and x <= r[1]
        else:
            x = x[1] if x is not None else None
            good = r is not None and x is not None and r[0] == 'max' and x <= r[1]
        ctx.ob(good, '%s:%s' % (f.name, b), i.loc(),
               '%s in %s writes up to %s bytes into a buffer of %s' % (b, f.name, show(INF if x is None else x), show(r)),
               '%s: %s of %s stays inside %s' % (f.name, b, x, show(r)))


def chain(T, f, i):
    """earlier writes that make up the text a strcat appends to, latest first; None when unknown"""
    a = f.ex(i.ops[0])
    out = []
    cand = [j for j in f.ins.values() if j.op == 'call' and base(j.callee) in ('strcpy', 'strcat', 'sprintf')
            and f.ex(j.ops[0]) == a and j is not i]
    if any(f.loops_of(j.blk) != f.loops_of(i.blk) for j in cand) and any(base(j.callee) == 'strcat' for j in cand + [i]):
        pass
    doms = [j for j in cand if f.idominates(j, i)]
    if len(doms) != len([j for j in cand if reaches(f, j, i)]):
        return None
    doms.sort(key=lambda j: sum(1 for k in doms if f.idominates(k, j)), reverse=True)
    for j in doms:
        out.append(j)
        if base(j.callee) in ('strcpy', 'sprintf'):
            return out
    return None


def reaches(f, a, b):
    if a.blk == b.blk and a.pos < b.pos:
        return True
    return any(b.blk == s or b.blk in f.reach(s) for s in f.succ[a.blk])


def before(T, f, i):
    """longest text already in the destination of a strcat"""
    if any(i.blk in l for l in f.loops.values()):
        c = chain(T, f, i)
        if c is None or any(f.loops_of(j.blk) != f.loops_of(i.blk) for j in c):
            return None
    else:
        c = chain(T, f, i)
    if c is None:
        return None
    tot = 0
    for j in c:
        if base(j.callee) == 'sprintf':
            x = max((expand(T, f, pieces(t) or [], j.ops[2:]) for t in T.fmts(f, j.ops[1]) or ()), default=INF)
        else:
            x = T.longest(f, j.ops[1])
        if x is None:
            return None
        tot += x
    return tot


def fits(T, f, i, b, r):
    """text made of the very strings whose lengths gave the size of the allocation"""
    parts = [i] + ((chain(T, f, i) or [None]) if b == 'strcat' else [])
    if any(p is None for p in parts):
        return False
    have, room = list(r[1]), r[2]
    for p in parts:
        e = f.ex(p.ops[1])
        if base(p.callee) not in ('strcpy', 'strcat'):
            return False
        if e in have:
            have.remove(e)
        else:
            x = T.longest(f, p.ops[1])
            if x is None or x == INF:
                return False
            room -= x
    return room >= 1


# ---- fixed arrays
def interval(T, f, o, at, depth=0, busy=None):
    """(lo, hi) of an integer value at block `at`"""
    busy = busy or frozenset()
    c = T.const(f, o)
    if c is not None:
        return c, c
    o = f.strip(o)
    if o in busy or depth > 8:
        return -INF, INF
    i = f.val(o)
    lo, hi = -INF, INF
    if i is None:
        if o[:1] == 'a' and o[1:].isdigit():
            rs = [interval(T, g, c.ops[int(o[1:])], c.blk, depth + 1) for g, c in T.callers.get(f.name, [])]
            if rs:
                return min(r[0] for r in rs), max(r[1] for r in rs)
        return lo, hi
    b2 = busy | {o}
    if i.op == 'phi':
        step = None
        for h, lp in f.loops.items():
            if h == i.blk:
                step = h
        rs = []
        for x, p in zip(i.ops, i.inb):
            j = f.val(f.strip(x))
            if step is not None and p in f.loops[step] and j is not None and j.op == 'add' and f.strip(j.ops[0]) == o \
                    and (T.const(f, j.ops[1]) or 0) > 0:
                rs.append((INF, INF))             # counts upward: bounded by the guards
                continue
            rs.append(interval(T, f, x, p, depth + 1, b2))
        lo, hi = min(r[0] for r in rs), max(r[1] for r in rs)
        if lo == INF:
            lo = -INF
    elif i.op in ('add', 'sub'):
        a, b = interval(T, f, i.ops[0], at, depth + 1, b2), interval(T, f, i.ops[1], at, depth + 1, b2)
        lo, hi = (a[0] + b[0], a[1] + b[1]) if i.op == 'add' else (a[0] - b[1], a[1] - b[0])
        lo, hi = (-INF if lo != lo else lo), (INF if hi != hi else hi)
    elif i.op == 'select':
        rs = [interval(T, f, x, at, depth + 1, b2) for x in i.ops[1:]]
        lo, hi = min(r[0] for r in rs), max(r[1] for r in rs)
    elif i.op == 'and':
        c = T.const(f, i.ops[1])
        if c is not None and c >= 0:
            lo, hi = 0, c
    elif i.op in ('srem', 'urem'):
        c = T.const(f, i.ops[1])
        if c:
            lo, hi = (0 if i.op == 'urem' else -abs(c) + 1), abs(c) - 1
    elif i.op == 'zext' and i.ops:
        return interval(T, f, i.ops[0], at, depth + 1, b2)
    elif i.op == 'icmp':
        lo, hi = 0, 1
    elif i.op in ('fptosi', 'fptoui'):
        lo, hi = finterval(T, f, i.ops[0])
    elif i.op == 'call':
        gs = T.fns.get(i.callee, [])
        if gs:
            rs = [interval(T, g, r.ops[0], r.blk, depth + 1) for g in gs for r in g.ins.values() if r.op == 'ret' and r.ops]
            if rs:
                lo, hi = min(r[0] for r in rs), max(r[1] for r in rs)
    elif i.op == 'load':
        v = T.stored(f, i) if not T.field(f, i.ops[0]) else None
        if v is not None:
            lo, hi = interval(T, f, v, at, depth + 1, b2)
    # guards that dominate the use
    for g in f.ins.values():
        if g.op != 'br' or len(g.succ or ()) != 2 or g.succ[0] == g.succ[1]:
            continue
        c = f.val(g.ops[0])
        if c is None or c.op != 'icmp':
            continue
        for n, s in enumerate(g.succ):
            if not (f.dominates(s, at) and all(p == g.blk for p in f.pred[s])):
                continue
            for x, y, p in ((c.ops[0], c.ops[1], c.pred), (c.ops[1], c.ops[0], SWAP.get(c.pred))):
                if f.strip(x) != o or p is None:
                    continue
                r = interval(T, f, y, g.blk, depth + 1, b2)
                q = p if n == 0 else NEG[p]
                q = q[1:] if q[0] in 'su' and q not in ('slt',) or q == 'slt' else q
                if q == 'lt':
                    hi = min(hi, r[1] - 1)
                elif q == 'le':
                    hi = min(hi, r[1])
                elif q == 'gt':
                    lo = max(lo, r[0] + 1)
                elif q == 'ge':
                    lo = max(lo, r[0])
                elif q == 'eq':
                    lo, hi = max(lo, r[0]), min(hi, r[1])
                elif q == 'ne' and r[0] == r[1] and i.op == 'phi':
                    # counting upward by one from below to an exact bound
                    if lo != -INF and lo <= r[0] and unit(T, f, i):
                        hi = min(hi, r[0] - 1)
    return lo, hi


SWAP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
        'eq': 'eq', 'ne': 'ne'}
NEG = {'slt': 'sge', 'sgt': 'sle', 'sle': 'sgt', 'sge': 'slt', 'ult': 'uge', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult',
       'eq': 'ne', 'ne': 'eq'}


def unit(T, f, i):
    return all((lambda j: j is None or j.op != 'add' or T.const(f, j.ops[1]) == 1)(f.val(f.strip(x))) for x in i.ops)


def finterval(T, f, o):
    """floor(c * uniform())"""
    i = f.val(o)
    if i is not None and i.op == 'call' and base(i.callee) == 'floor':
        i = f.val(i.ops[0])
    if i is not None and i.op == 'fmul':
        for x, y in ((0, 1), (1, 0)):
            u = f.val(i.ops[y])
            if i.ops[x].startswith('f:') and u is not None and u.op == 'call' and u.callee == 'gsl_rng_uniform':
                c = float(i.ops[x][2:])
                if c > 0 and c == int(c):
                    return 0, int(c) - 1
    return -INF, INF


def stored_value(f, o, seen=None):
    """a value read from an object or an array takes part in it"""
    seen = seen if seen is not None else set()
    o = f.strip(o)
    i = f.val(o)
    if i is None or o in seen:
        return False
    seen.add(o)
    if i.op == 'load':
        return True
    return i.op in ('phi', 'select', 'add', 'sub', 'mul', 'sext', 'zext', 'trunc') and \
        any(stored_value(f, x, seen) for x in (i.ops if i.op != 'select' else i.ops[1:]))


def arrays(ctx, T, f, n):
    for i in f.ins.values():
        if i.op != 'alloca' or i.arr:
            continue
        m = re.match(r'\[(\d+) x (.*)\]$', i.aty or '')
        if not m:
            continue
        n['fixed arrays'] += 1
        size = int(m.group(1))
        use(ctx, T, f, '%%%d' % i.id, size, m.group(2), (i.names or ['?'])[-1], n, 0)


def use(ctx, T, f, v, size, elem, name, n, depth):
    """every index applied to pointer v (start of an array of `size` elements)"""
    for j in f.uses(v):
        if j.op == 'getelementptr' and j.ops and j.ops[0] == v:
            ix = [p for p in j.path if p[0] == 'a'] or [p for p in j.path if p[0] == '*']
            if not ix:
                continue
            n['indices into fixed arrays'] += 1
            lo, hi = interval(T, f, ix[0][2], j.blk)
            if (lo < 0 or hi >= size) and stored_value(f, ix[0][2]):
                ctx.count('indices kept in objects or arrays (not decided)')
                continue
            ctx.ob(lo >= 0 and hi < size, '%s:%s[]' % (f.name, name), j.loc(),
                   'index of %s in %s may be %s, outside its %d elements' % (
                       name, f.name, 'anything' if (lo, hi) == (-INF, INF) else 'from %s to %s' % (lo, hi), size),
                   '%s: index of %s within 0..%d' % (f.name, name, size - 1))
            if ix[0][0] == 'a' and (lo, hi) == (0, 0) and elem != 'i8':
                use(ctx, T, f, '%%%d' % j.id, size, elem, name, n, depth)
        elif j.op in ('call', 'invoke') and j.callee in T.fns and elem != 'i8' and depth < 4:
            for k, o in enumerate(j.ops):
                if o == v:
                    for g in T.fns[j.callee]:
                        use(ctx, T, g, 'a%d' % k, size, elem, name, n, depth + 1)
