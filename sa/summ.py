"""Effect summaries: the return value and the multiset of guarded, iterated stores and calls of a routine in gated-sum
normal form, and their comparison with those of a reference definition (sa/spec/*.c)."""
import hashlib
from fractions import Fraction
from collections import Counter
from itertools import permutations
from . import gsn
from .gsn import (A, T, GSN, Opaque, TooBig, add, sub, mul, neg, atom, key, unkey, const, subst, ind, msum, mfirst,
                  recanon, has, occ, atoms_of, ONE, show, fresh, is_const, cval, int_poly, simp)

OPAQUE = ('phi', 'rec', 'out', 'op', 'opq', 'big')

PURE_EXT = {'log', 'exp', 'sqrt', 'pow', 'fabs', 'floor', 'ceil', 'sin', 'cos', 'acos', 'atan', 'abs', 'strcmp', 'strlen',
            'strncmp', 'gsl_vector_get', 'gsl_matrix_get', 'gsl_rng_max', 'gsl_rng_min', 'log10', 'log2', 'round',
            'fmax', 'fmin', 'fmod', 'lround', 'rint', 'labs', 'gsl_strerror'}
IGNORE_CALL = ('llvm.dbg', 'llvm.lifetime', 'llvm.stackrestore', 'llvm.stacksave', 'llvm.assume')


STREAM_ARG = {'fprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3, 'fflush': 0, 'vfprintf': 0}


def diagnostic(f, i):
    """a message to the standard error stream: not part of the result"""
    k = STREAM_ARG.get(i.callee)
    if k is None and (i.callee or '').startswith('FPrint'):
        k = 0               # that printing changes nothing is a property of its own (C07)
    if k is None:
        return i.callee == 'perror'
    if len(i.ops) <= k:
        return False
    l = f.val(i.ops[k])
    return l is not None and l.op == 'load' and str(l.ops[0]).lstrip('@') == 'stderr'


class Purity:
    """which callees change memory or have another effect"""

    # cached node attributes: their only effect is the cache, whose coherence is a property of its own (C08)
    CACHES = ('NodeDegree', 'NodeStrength', 'FastLogChoose')

    # look-ups in tables filled once: their value depends on the arguments only (that it does is a property of its own)
    TABLES = ('FastLog', 'FastLogFact', 'FastLogChoose', 'FastLogGamma')

    def __init__(self, fns):
        self.fns = fns
        self.eff = {}
        direct = {}
        for n, f in fns.items():
            d = False
            cs = set()
            for i in f.all():
                if i.op == 'store':
                    b = self.base(f, i.ops[1])
                    if b is None or b.op != 'alloca':
                        d = True
                elif i.op == 'call':
                    c = i.callee
                    if c is None:
                        d = True
                    elif c.startswith(IGNORE_CALL) or diagnostic(f, i):
                        pass
                    elif c in fns:
                        cs.add(c)
                    elif not self.pure_ext(c):
                        d = True
            if n in self.CACHES:
                d, cs = False, set()
            direct[n] = (d, cs)
        self.eff = {n: d for n, (d, cs) in direct.items()}
        ch = True
        while ch:
            ch = False
            for n, (d, cs) in direct.items():
                if not self.eff[n] and any(self.eff[c] for c in cs):
                    self.eff[n] = True
                    ch = True

    @staticmethod
    def base(f, op):
        while True:
            i = f.val(op)
            if i is not None and i.op in ('getelementptr', 'bitcast', 'freeze'):
                op = i.ops[0]
                continue
            return i

    @staticmethod
    def pure_ext(c):
        if c.startswith('llvm.') and not c.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
            return True
        return c in PURE_EXT or c.startswith('gsl_sf_')

    def __call__(self, n):
        if n.startswith('llvm.') or n == 'fabs':
            return False
        r = self.eff.get(n)
        if r is None:
            return not self.pure_ext(n)
        return r


class Memory:
    """alias classes of memory (structure, field) or (*, type); which callees read and change which"""

    EXT_CHANGE = {'strcpy': ('i8',), 'strncpy': ('i8',), 'strcat': ('i8',), 'sprintf': ('i8',), 'snprintf': ('i8',),
                  'fgets': ('i8',), 'fscanf': ('i8', 'i32', 'double', 'i64', 'float'), 'fread': ('i8',),
                  'sscanf': ('i8', 'i32', 'double', 'i64', 'float'), 'scanf': ('i8', 'i32', 'double', 'i64', 'float'),
                  '__isoc99_fscanf': ('i8', 'i32', 'double', 'i64', 'float'), 'getline': ('i8', 'ptr', 'i64'),
                  '__isoc99_sscanf': ('i8', 'i32', 'double', 'i64', 'float'), 'tsearch': ('ptr',), 'tdelete': ('ptr',),
                  'qsort': ('i8', 'i32', 'double', 'ptr')}

    def __init__(self, fns, P=None):
        self.fns = fns
        self._c = {}
        keep = None
        if P is not None:
            from . import effects
            E = effects.Effects(P)
            keep = {n: {({'link': 'node_lis', 'member': 'node_lis'}.get(st, st), fl) for st, fl in E.of(n)}
                    for n in E.fns}
        rd, wr, cs = {}, {}, {}
        for n, f in fns.items():
            r, w, c = set(), set(), set()
            for i in f.all():
                if i.op == 'load':
                    k = self.cls(f, i.ops[0], i.ty)
                    if k[0] != 'local':
                        r.add(k)
                elif i.op == 'store':
                    k = self.cls(f, i.ops[1], i.sty)
                    if k[0] != 'local' and not self.fresh_base(f, i.ops[1], i):
                        w.add(k)
                elif i.op == 'call' and i.callee:
                    c.add(i.callee)
                    for t in self.EXT_CHANGE.get(i.callee, ()):
                        w.add(('*', t))
            if n in Purity.CACHES:
                w = set()
            if n in Purity.TABLES:
                r = set()
            if keep is not None and n in keep:
                # stores into objects the callee creates itself disturb nothing of the caller
                w = {k for k in w if k[0] == '*' or k in keep[n]}
            rd[n], wr[n], cs[n] = r, w, c
        for d in (rd, wr):
            ch = True
            while ch:
                ch = False
                for n in fns:
                    for c in cs[n]:
                        if c in d and not d[c] <= d[n]:
                            d[n] |= d[c]
                            ch = True
        self.reads, self.writes = rd, wr

    def fresh_base(self, f, op, at, depth=0):
        """the address lies in an object this function has allocated"""
        i = f.val(op)
        while i is not None and i.op in ('getelementptr', 'bitcast', 'freeze'):
            op = i.ops[0]
            i = f.val(op)
        if i is None or depth > 4:
            return False
        if i.op == 'call':
            return i.callee in ('malloc', 'calloc')
        if i.op != 'load':
            return False
        k = self.cls(f, i.ops[0], i.ty)
        e = f.ex(i.ops[0])
        hit = False
        for j in f.all():
            if j.op == 'store' and self.cls(f, j.ops[1], j.sty) == k:
                if j.ops[0] == 'null':
                    continue
                v = f.val(f.strip(j.ops[0]))
                if v is None or v.op != 'call' or v.callee not in ('malloc', 'calloc'):
                    return False
                if f.ex(j.ops[1]) == e and (j.blk == i.blk and j.pos < i.pos or j.blk != i.blk and
                                            f.dominates(j.blk, i.blk)):
                    hit = True
        return hit

    def cls(self, f, op, ty):
        k = (f.name, op, ty)
        r = self._c.get(k)
        if r is None:
            r = self._cls(f, op, ty)
            self._c[k] = r
        return r

    def _cls(self, f, op, ty):
        o = op
        while True:
            i = f.val(o)
            if i is not None and i.op == 'getelementptr':
                for s in reversed(i.path):
                    if s[0] == 'f':
                        return (s[1], s[2])
                o = i.ops[0]
                continue
            if i is not None and i.op in ('bitcast', 'freeze'):
                o = i.ops[0]
                continue
            break
        if i is not None and i.op == 'alloca':
            if self.escapes(f, i):
                return ('*', ty)
            return ('local', f.name, i.id)
        if i is not None and i.op == 'call' and i.callee in ('malloc', 'calloc', 'allocate_i_vec', 'allocate_d_vec',
                                                              'allocate_i_mat', 'allocate_d_mat'):
            return ('heap', ty)
        return ('*', ty)

    def escapes(self, f, i):
        for u in f.uses('%%%d' % i.id):
            if u.op == 'call':
                return True
            if u.op == 'store' and u.ops[0] == '%%%d' % i.id:
                return True
            if u.op in ('getelementptr', 'bitcast') and any(w.op == 'call' or (w.op == 'store' and w.ops[0] == '%%%d' % u.id)
                                                            for w in f.uses('%%%d' % u.id)):
                return True
        return False

    def changes(self, callee, cls):
        if callee is None:
            return cls[0] != 'local'
        if cls[0] == 'local':
            return False
        c = ('*', cls[1]) if cls[0] == 'heap' else cls
        w = self.writes.get(callee)
        if w is None:
            return c[0] == '*' and c[1] in self.EXT_CHANGE.get(callee, ())
        return c in w or (('heap', c[1]) in w and c[0] == '*' and False)


class Loc(str):
    """source location of an effect, with what it changes at all: the callee, or the class of the memory"""
    head = None


def located(i, head):
    r = Loc(i.loc())
    r.head = head
    return r


class Eff:
    __slots__ = ('nest', 'kind', 'where', 'guard', 'val', 'blk', 'pos', 'loc', 'add', 'bad')

    def __init__(self, nest, kind, where, guard, val, blk, pos, loc):
        self.nest, self.kind, self.where, self.guard, self.val = nest, kind, where, guard, val
        self.blk, self.pos, self.loc = blk, pos, loc
        self.add = None
        self.bad = False


def expand(p, defs, depth=0):
    """replace calls of small pure functions by their definitions (bound variables are opened first)"""
    if not defs or depth > 6:
        return p
    names = set(defs)
    memo = {}

    def go(p):
        r = {}
        for mono, c in p.items():
            t = const(c)
            for a, k in mono:
                q = goa(a)
                if k < 0:
                    q = gsn.pdiv(ONE, q)
                for _ in range(abs(k)):
                    t = mul(t, q)
            r = add(r, t)
        return r

    def gok(k):
        return key(go(unkey(k)))

    def goa(a):
        if a in memo:
            return memo[a]
        t = T(a)
        if not any(T(x)[0] == 'fn' and T(x)[1] in names for x in occ(a)):
            r = {((a, 1),): Fraction(1)}
        elif t[0] in ('sum', 'first'):
            dom = gsn.map_tuple(t[1], gok)
            fr = fresh(dom)
            if gsn.int_dom(dom):
                gsn.INTS.add(fr)
            body = go(subst(unkey(t[2]), {A(('bv', t[3])): {((fr, 1),): Fraction(1)}}))
            r = (msum if t[0] == 'sum' else mfirst)(fr, dom, body)
        elif t[0] == 'mu':
            r = gsn.remu(('mu', gsn.map_tuple(t[1], gok), gok(t[2])) + t[3:], go)
        else:
            t2 = gsn.map_tuple(t, gok)
            if t2[0] == 'fn' and t2[1] in names:
                r = expand(inst(defs[t2[1]], [unkey(k) for k in t2[2:]]), defs, depth + 1)
            else:
                r = gsn.rebuild(t2)
        memo[a] = r
        return r
    return go(p)


def inst(d, args):
    m = {}
    for a in atoms_of(d):
        for x in occ(a):
            t = T(x)
            if t[0] == 'arg' and t[1] < len(args):
                m[x] = args[t[1]]
    # heights: closed definition, arguments free
    return subst(d, m)


def final_ind(p):
    """integer equalities as differences of comparisons, everywhere in p (canonical)"""
    return p


PRINTS = {'printf', 'fprintf', 'fputs', 'puts', 'fputc', 'putchar'}


def choices(guard, args):
    """a call with an argument that is one of two things is one call or another"""
    at = gsn.inds_in(args)
    if not at or len(at) > gsn.SPLIT:
        return [(guard, args)]
    i = {((at[0], 1),): Fraction(1)}
    out = []
    for v in (1, 0):
        g = mul(guard, i if v else sub(ONE, i))
        if g:
            out += choices(g, tuple(key(gsn.sub1(k, at[0], v)) for k in args))
    return out


class Summary:
    uncertain = False
    ctx = None

    def __init__(self, f, pure, defs=None, memory=None, leaf=None, ignore=None):
        self.f = f
        self.memory = memory
        self.g = GSN(f, effectful=pure, leaf=leaf, memory=memory)
        self.final = {}
        self.states = {}        # values carried by loops that are named: (phi, loop, number)
        self.pure = pure
        self.defs = defs or {}
        self.ret = None
        self.retbad = None
        self.effs = []
        self.bad = []           # reasons why the effect list is not fully decided
        self.ignore = ignore or (lambda *a: False)
        self.build()

    # ---- values carried by a loop that have no closed form -----------------------------------
    def stated(self, p, blk):
        """carried values in p, as seen from a block (None: at the return), replaced by numbered names; they are defined
        by the effect list (initial value and step)"""
        g, f = self.g, self.f
        here = g.loopset[blk] if blk is not None else frozenset()
        for _ in range(20):
            m = {}
            for a in atoms_of(p):
                for x in occ(a):
                    t = T(x)
                    if t[0] == 'phi' and t[1] == f.name and isinstance(t[2], int):
                        q = f.ins[t[2]] if t[2] in f.ins else None
                        if q is None or q.blk not in g.loops:
                            continue
                        L = g.loops[q.blk]
                        up = g.loopset[L.h] - {L.h}
                        if not up <= here or g.domain(L) is None:
                            continue
                        m[x] = {((self.state_name(q, L, L.h in here), 1),): Fraction(1)}
            if not m:
                return p
            p = subst(p, m)
        return p

    def state_of(self, e):
        m = {}
        nest = []
        for d, it in e.nest:
            n = gsn.map_tuple(d, lambda kk: key(self.stated(subst(unkey(kk), m), e.blk)))
            if n != d:
                it2 = A(('it',) + T(it)[1:2] + (n,))
                if it in gsn.INTS:
                    gsn.INTS.add(it2)
                m[it] = {((it2, 1),): Fraction(1)}
                it = it2
            nest.append((n, it))
        e.nest = nest
        fz = lambda p: self.stated(subst(p, m), e.blk)
        e.where, e.guard, e.val = fz(e.where), fz(e.guard), fz(e.val)
        if e.add is not None:
            e.add = fz(e.add)

    def state_name(self, q, L, inside):
        g, f = self.g, self.f
        if q.id not in self.states:
            self.states[q.id] = (q, L, sum(1 for z in self.states.values() if z[0].ty == q.ty))
        its = tuple(key({((g.domain(g.loops[h]).it, 1),): Fraction(1)})
                    for h in sorted(g.loopset[L.h], key=lambda h: -len(g.loops[h].blocks)) if inside or h != L.h)
        nm = A(('call', ('<state %s>' if inside else '<last %s>') % g.tyc(q), ('its',) + its, ('#', self.states[q.id][2])))
        if q.ty != 'ptr' and q.ty[0] == 'i':
            gsn.INTS.add(nm)
        return nm

    def state_effects(self):
        """initial value and step of every carried value in use"""
        g, f = self.g, self.f
        done = set()
        while set(self.states) - done:
            for n in sorted(set(self.states) - done):
                done.add(n)
                q, L, k = self.states[n]
                loc = located(q, ('call', '<loop>'))
                try:
                    init = g.init(q, L)
                    d = g.domain(L)
                    ph = atom(('phi', f.name, q.id))
                    lv = g.with_over({(q.id, frozenset(g.loopset[L.h])): ph}, lambda: g.latch(q, L))
                    if init is None or lv is None:
                        raise Opaque()
                    nest, guard = self.nest(L.h)
                    dom = d.sumdom
                    nest = nest[:-1] + [(dom, d.it)]
                    lv = self.inside(nest, self.stated(lv, L.h))
                    init = self.stated(init, L.h)
                    name = {((self.state_name(q, L, True), 1),): Fraction(1)}
                    self.effs.append(Eff(nest, 'call', atom(('do', '<loop>', key(name), key(init), key(lv))), ONE, ONE,
                                         L.h, q.pos, loc))
                except (Opaque, TooBig, RecursionError, gsn.Lost):
                    self.bad.append((loc, 'value carried by a loop is not in closed form'))

    def fin(self, p):
        p = expand(p, self.defs)
        return recanon(recanon(p))

    def build(self):
        f, g = self.f, self.g
        try:
            r = g.ret()
            if r is not None:
                r = self.fin(self.stated(r, None))
                o = has(r, OPAQUE)
                if o:
                    self.retbad = 'value of kind %s' % sorted(o)
                self.ret = r
            elif f.ret != 'void':
                self.retbad = 'several returns'
        except (Opaque, TooBig, RecursionError) as e:
            self.retbad = type(e).__name__
        for b in range(f.n):
            if b in g.dead or (b != 0 and b not in f.idom):
                continue
            for i in f.blocks[b]:
                if i.op == 'store':
                    self.store(i)
                elif i.op == 'call':
                    c = i.callee or '*'
                    if c.startswith(IGNORE_CALL) or diagnostic(f, i):
                        continue
                    if c == '*' or self.pure(c):
                        self.callee(i, c)
        # loops tested at the end
        self.bottom = sum(1 for L in g.loops.values() if (L.h not in {b for b, x in L.exits} or L.h in L.latches) and
                          any(i.op in ('store', 'call', 'phi') and (i.op != 'phi' or i.ty != 'ptr')
                              for x in L.blocks for i in f.blocks[x]))
        self.merge()

    def nest(self, b):
        """(domains, guard) of a block"""
        f, g = self.f, self.g
        hs = sorted(g.loopset[b], key=lambda h: -len(g.loops[h].blocks))
        D, ctx = 0, frozenset()
        guard = ONE
        doms = []
        part = []
        for h in hs:
            L = g.loops[h]
            guard = mul(guard, g.rc(D, h, ctx))
            d = g.domain(L)
            if d is None:
                raise Opaque()
            doms.append(d)
            part.append(b == d.X or not f.dominates(d.X, b))
            D, ctx = h, g.loopset[h]
        if b != D:
            guard = mul(guard, g.rc(D, b, ctx))
        out = []
        for d, pre in zip(doms, part):
            itp = {((d.it, 1),): Fraction(1)}
            if pre:
                # executed once more, with the test that ends the loop
                if d.dom[0] == 'range' and not d.stop:
                    out.append((('range', key(add(unkey(d.dom[1]), ONE))), d.it))
                else:
                    out.append((('plus', d.sumdom), d.it))
                continue
            if d.view == 'while':
                guard = assume_false(guard, sub(ONE, d.cond))
            elif d.dom[0] == 'range':
                guard = in_range(guard, d)
            else:
                e = A(('ind', 'eq', key(itp)))
                guard = top(guard, e, 0)
            dom = d.dom
            if d.stop:
                if not mul(guard, d.stop):
                    dom = d.sumdom
                    guard = assume_false(guard, d.stop)
                else:
                    dom = ('upto',) + d.sumdom[1:]
            out.append((dom, d.it))
        return out, self.inside(out, guard)

    @staticmethod
    def inside(nest, p):
        for dom, it in nest:
            p = gsn.within(p, dom, it)
        return p

    def store(self, i):
        f, g = self.f, self.g
        loc = i.loc()
        if self.memory is not None:
            cls = self.memory.cls(f, i.ops[1], i.sty)
            if cls[0] == 'local':
                return
            loc = located(i, ('*', cls[1]) if cls[0] == 'heap' else cls)
        try:
            nest, guard = self.nest(i.blk)
            if not guard:
                return
            a = g.addr(i.ops[1], i.blk)
            if self.memory is not None:
                oc = occ(A(a))
                dep = [(d, it) for d, it in nest if it in oc]
                if a in self.final:
                    if self.final[a]:
                        return
                else:
                    self.final[a] = False
                    rs = [b for b in range(f.n) if f.term(b).op == 'ret']
                    try:
                        v = g.mem(a, cls, rs[0], 1 << 30)
                        self.final[a] = True
                        if v != g.load(a):
                            e = Eff(dep, 'set', atom(a), ONE, self.inside(dep, v), i.blk, i.pos, loc)
                            self.effs.append(e)
                        return
                    except (gsn.Lost, Opaque, TooBig):
                        pass
            v = self.inside(nest, g.of(i.ops[0], i.blk))
            self.effs.append(Eff(nest, 'set', atom(a), guard, v, i.blk, i.pos, loc))
        except (Opaque, TooBig, RecursionError, gsn.Lost) as e:
            self.bad.append((loc, 'store whose condition or iteration is not in closed form'))

    def callee(self, i, c):
        f, g = self.f, self.g
        if self.ignore(i, c):
            return
        try:
            nest, guard = self.nest(i.blk)
            if not guard:
                return
            args = tuple(key(self.inside(nest, g.of(x, i.blk))) for x in i.ops)
            if c == 'calloc' and len(args) == 2:
                args = (key(mul(unkey(args[0]), unkey(args[1]))),)
            for g1, args1 in choices(guard, args) if c in PRINTS else [(guard, args)]:
                self.effs.append(Eff(nest, 'call', atom(('do', c) + args1), g1, ONE, i.blk, i.pos, located(i, ('call', c))))
        except (Opaque, TooBig, RecursionError):
            self.bad.append((located(i, ('call', c)), 'call of %s whose condition or iteration is not in closed form' % c))

    # ---- canonical list ------------------------------------------------------------------
    def merge(self):
        f = self.f
        for e in list(self.effs):
            self.state_of(e)
        self.state_effects()
        items = self.effs
        groups = {}
        for e in items:
            k = (tuple((d, it) for d, it in e.nest), e.kind, key(e.where))
            groups.setdefault(k, []).append(e)
        res = []
        for k, es in groups.items():
            if len(es) > 1:
                es.sort(key=lambda e: (self.order(e.blk), e.pos))
                e = es[0]
                for n in es[1:]:
                    e = self.combine(e, n)
                    if e is None:
                        break
                if e is None:
                    self.bad.append((es[0].loc, 'several stores to one place'))
                    continue
                es = [e]
            res.append(es[0])
        self.effs = []
        for e in [x for e in res for x in self.split(e)]:
            try:
                c = self.canon(e)
                if c[0] == 'set' and not c[2][2] and not self.load_of(unkey(c[2][0])):
                    continue                # zero into memory that is zero from the start
                self.effs.append(c)
            except (TooBig, RecursionError):
                self.bad.append((e.loc, 'expression too large'))
        for e in self.effs:
            if e[4]:
                self.bad.append((e[3], 'not in closed form'))

    def split(self, e, depth=0):
        """an effect made over one of two lists is two effects, each in its case"""
        for lv, (dom, it) in enumerate(e.nest):
            if dom[0] not in ('list', 'from') or depth >= gsn.SPLIT:
                continue
            at = gsn.inds_in([dom[1]])
            if not at or len(at) > gsn.SPLIT:
                continue
            out = []
            i = {((at[0], 1),): Fraction(1)}
            for v in (1, 0):
                k = key(gsn.sub1(dom[1], at[0], v))
                if not k:
                    continue
                m = {}
                nest = list(e.nest[:lv])
                for l2, (d2, it2) in enumerate(e.nest[lv:]):
                    n = (dom[0], k) if not l2 else gsn.map_tuple(d2, lambda kk: key(subst(unkey(kk), m)))
                    itn = A(('it', T(it2)[1], n))
                    if it2 in gsn.INTS:
                        gsn.INTS.add(itn)
                    m[it2] = {((itn, 1),): Fraction(1)}
                    nest.append((n, itn))
                g = mul(i if v else sub(ONE, i), subst(e.guard, m) if e.guard is not None else ONE)
                if not g:
                    continue
                r = Eff(nest, e.kind, subst(e.where, m), g, None, e.blk, e.pos, e.loc)
                r.val = subst(e.val, m) if e.val is not None else None
                r.add = subst(e.add, m) if e.add is not None else None
                out += self.split(r, depth + 1)
            return out
        return [e]

    def order(self, b):
        f = self.f
        if not hasattr(self, '_rpo'):
            seen, out = set(), []

            def dfs(x):
                st = [(x, iter(f.succ[x]))]
                seen.add(x)
                while st:
                    y, itr = st[-1]
                    for s in itr:
                        if s not in seen:
                            seen.add(s)
                            st.append((s, iter(f.succ[s])))
                            break
                    else:
                        out.append(y)
                        st.pop()
            dfs(0)
            self._rpo = {b: k for k, b in enumerate(reversed(out))}
        return self._rpo.get(b, 10 ** 9)

    def load_of(self, where):
        (m, c), = where.items()
        return GSN.load(T(m[0][0]))

    def combine(self, a, b):
        """a before b"""
        f = self.f
        disj = not mul(a.guard, b.guard)
        r = Eff(a.nest, a.kind, a.where, None, None, b.blk, b.pos, a.loc)
        if a.kind == 'call':
            r.guard = add(a.guard, b.guard)
            r.val = ONE
            r.blk, r.pos = a.blk, a.pos
            return r
        if a.add is not None and b.add is not None:
            r.add = add(mul(a.guard, a.add), mul(b.guard, b.add))
            r.guard = ONE
            r.val = add(self.load_of(a.where), r.add)
            return r
        ga = a.guard
        if disj:
            r.guard = add(a.guard, b.guard)
            r.val = add(mul(a.guard, a.val), mul(b.guard, b.val))
            # val is guarded already: mark by multiplying once more is harmless (guards are 0/1 and disjoint)
            return r
        if not (a.blk == b.blk or f.dominates(a.blk, b.blk)) and False:
            return None
        ld = self.load_of(a.where)
        cur = add(mul(ga, a.val), mul(sub(ONE, ga), ld))
        vb = b.val
        if len(ld) == 1:
            (m, c), = ld.items()
            if len(m) == 1 and m[0][1] == 1:
                vb = subst(vb, {m[0][0]: cur})
        r.guard = sub(add(ga, b.guard), mul(ga, b.guard))
        r.val = add(mul(b.guard, vb), mul(sub(ONE, b.guard), cur))
        return r

    def canon(self, e):
        """(kind, key) with the iteration atoms renamed to their depth"""
        guard, where = e.guard, e.where
        if e.add is not None:
            kind = 'add'
            val = mul(guard, e.add)
            guard = {}
        else:
            kind = e.kind
            val = mul(guard, e.val)
        m = {}
        doms = []
        its = {}
        for lv, (dom, it) in enumerate(e.nest):
            dom = gsn.map_tuple(dom, lambda kk: key(self.fin(subst(unkey(kk), m))))
            itn = A(('it', 1000 + lv, dom))
            if dom[0] == 'range' or (dom[0] in ('until', 'upto') and dom[1][0] == 'range'):
                gsn.INTS.add(itn)
            m[it] = {((itn, 1),): Fraction(1)}
            doms.append(dom)
            its[dom] = itn
        def fz(p):
            p = subst(p, m)
            for d in doms:
                if d[0] in ('from', 'while'):
                    p = gsn.within(p, d, its[d])
            return self.fin(p)
        w, gd, v = fz(where), fz(guard), fz(val)
        if kind == 'set' and gd == ONE:
            w, v = self.at_end(w, v)
        bad = any(has(x, OPAQUE) for x in (w, gd, v)) or any(has(atom(('dom', d)), OPAQUE) for d in doms)
        return (kind, tuple(doms), (key(w), key(gd), key(v)), e.loc, bad)

    def at_end(self, w, v):
        """a store behind the element a search stopped at, made only when the search found nothing, is one behind the
        last element"""
        (mw, c), = w.items()
        old = self.load_of(w)
        d = gsn.simp(sub(v, old))
        for x in occ(mw[0][0]):
            t = T(x)
            if t[0] != 'before':
                continue
            y = unkey(t[1])
            if len(y) != 1:
                continue
            (my, cy), = y.items()
            if len(my) != 1 or my[0][1] != 1 or cy != 1 or T(my[0][0])[0] != 'first':
                continue
            e = A(('ind', 'eq', key(y)))
            if d and all(any(a == e for a, k in mm) for mm in d):
                w2 = subst(w, {x: atom(('lastof', T(my[0][0])[1]))})
                return w2, add(self.load_of(w2), d)
        return w, v

    def closed_keys(self):
        return sorted(((k, d, v) for k, d, v, loc, bad in self.effs if not bad), key=repr)


def in_range(guard, d):
    P = sub(unkey(d.dom[1]), {((d.it, 1),): Fraction(1)})
    c = ind('gt', P)
    m = {}
    if len(c) == 1:
        (mm, k), = c.items()
        if len(mm) == 1 and k == 1:
            m[mm[0][0]] = ONE
    elif len(c) == 2 and () in c:
        for mm, k in c.items():
            if mm and k == -1 and len(mm) == 1:
                m[mm[0][0]] = {}
    # equality form of the bound test
    e = ind('eq', P)
    for mm, k in e.items():
        if mm and len(mm) == 1 and k == 1:
            m[mm[0][0]] = {}
    return subst(guard, m)


def top(p, a, c):
    """p with the atom a replaced by the constant c where it is a factor (not inside other names)"""
    r = {}
    for m, k in p.items():
        t = {tuple((x, e) for x, e in m if x != a): k}
        if any(x == a for x, e in m):
            if not c:
                continue
        r = add(r, t)
    return r


def assume_false(guard, stop):
    """guard under stop == 0, stop a (negated) single indicator"""
    if len(stop) == 1:
        (m, c), = stop.items()
        if len(m) == 1 and c == 1:
            return top(guard, m[0][0], 0)
    if len(stop) == 2 and stop.get(()) == 1:
        for m, c in stop.items():
            if m and len(m) == 1 and c == -1:
                return top(guard, m[0][0], 1)
    return gsn.modulo(guard, sub(ONE, stop))


class Expanded:
    uncertain = False
    ctx = None


def expanded(s, defs):
    """the summary with pure callees replaced by their definitions"""
    r = Expanded()
    r.f, r.retbad, r.bad, r.bottom = s.f, s.retbad, list(s.bad), s.bottom
    fz = lambda p: recanon(recanon(expand(p, defs)))
    r.ret = fz(s.ret) if s.ret is not None else None
    r.effs = []
    for kind, doms, v, loc, bad in s.effs:
        m = {}
        d2 = []
        for lv, d in enumerate(doms):
            n = gsn.map_tuple(d, lambda kk: key(fz(subst(unkey(kk), m))))
            itn = A(('it', 1000 + lv, n))
            if n[0] == 'range' or (n[0] in ('until', 'upto') and n[1][0] == 'range'):
                gsn.INTS.add(itn)
            m[A(('it', 1000 + lv, d))] = {((itn, 1),): Fraction(1)}
            d2.append(n)
        r.effs.append((kind, tuple(d2), tuple(key(fz(subst(unkey(k), m))) for k in v), loc, bad))
    return r


# ---- comparison --------------------------------------------------------------------------

MAXCASES = 7            # depth of the case distinctions made before a difference is reported


def closed_inds(s):
    """indicators that do not depend on an iteration, those inside domains and addresses first"""
    deep, flat = {}, {}
    seen = set()

    def go(a, lvl):
        if (a, lvl) in seen:
            return
        seen.add((a, lvl))
        t = T(a)
        if t[0] == 'ind' and t[1] in ('eq', 'gt', 'fgt') and not any(T(x)[0] in ('bv', 'it', 'mu') for x in gsn.occ(a)):
            d = deep if lvl else flat
            d[a] = d.get(a, 0) + 1
        inner = lvl or t[0] in ('load', 'vload', 'card', 'it', 'before', 'lastof')
        for kk in gsn.subkeys(t):
            for m, c in kk:
                for x, e in m:
                    go(x, inner)
        if t[0] in ('sum', 'first', 'mu'):
            for kk in gsn.subkeys(('', t[1])):
                for m, c in kk:
                    for x, e in m:
                        go(x, True)
    for kind, doms, v, loc, bad in s.effs:
        for d in doms:
            for kk in gsn.subkeys(('', d)):
                for m, c in kk:
                    for x, e in m:
                        go(x, True)
    for kk in all_keys(s):
        for m, c in kk:
            for x, e in m:
                go(x, False)
    return deep, flat


def fixed(s, m):
    """summary s in the case given by m {indicator: 0/1}"""
    r = Expanded()
    r.f, r.retbad, r.bad, r.bottom = s.f, s.retbad, list(s.bad), s.bottom
    r.ctx = s.ctx
    mm = {a: const(v) for a, v in m.items()}
    for a, v in m.items():
        e = gsn.eqval(a) if v else None
        if e is not None:
            mm.setdefault(e[0], const(e[1]))
    fz = lambda p: recanon(recanon(subst(p, mm)))
    r.ret = fz(s.ret) if s.ret is not None else None
    r.effs = []
    for kind, doms, v, loc, bad in s.effs:
        ren, d2 = {}, []
        dead = False
        for lv, d in enumerate(doms):
            n = gsn.map_tuple(d, lambda kk: key(fz(subst(unkey(kk), ren))))
            if n[0] == 'range' and not n[1]:
                dead = True
            itn = A(('it', 1000 + lv, n))
            if n[0] == 'range' or (n[0] in ('until', 'upto') and n[1][0] == 'range'):
                gsn.INTS.add(itn)
            ren[A(('it', 1000 + lv, d))] = {((itn, 1),): Fraction(1)}
            d2.append(n)
        w, g, x = (fz(subst(unkey(k), ren)) for k in v)
        for d in d2:
            g, x = (gsn.within(y, d, A(('it', 1000 + d2.index(d), d))) for y in (g, x))
        g, x = recanon(g), recanon(x)
        if dead or not w or (kind == 'add' and not x) or (kind != 'add' and not g):
            continue
        if kind == 'set' and len(w) == 1 and x == mul(g, GSN.load(T(next(iter(w))[0][0])) or {}):
            continue
        r.effs.append((kind, tuple(d2), (key(w), key(g), key(x)), loc, bad))
    return r


def implied(a, v, others):
    """values other indicators have when indicator a has the value v"""
    me = {((a, 1),): Fraction(1)}
    if not v:
        me = sub(ONE, me)
    r = {a: v}
    for b in others:
        if b == a:
            continue
        p = mul(me, {((b, 1),): Fraction(1)})
        if not p:
            r[b] = 0
        elif p == me:
            r[b] = 1
    return r


def numbered(keys):
    """numbered atoms (calls with effects, local storage) occurring, by name"""
    r = {}
    for k in keys:
        for a in gsn.occ_key(k):
            t = T(a)
            if t[0] == 'call':
                r.setdefault(('call', t[1]), set()).add(t[-1][1])
            elif t[0] == 'alloca':
                r.setdefault(('alloca', t[1]), set()).add(t[2])
    return r


class Renumber:
    """the numbered atoms given other numbers: perm {name: {number: new number}}"""

    def __init__(self, perm):
        self.perm = perm
        self.memo = {}

    def new(self, a):
        x = num_atom(a)
        return None if x is None else self.perm.get(x[0], {}).get(x[1])

    def go(self, p):
        r = {}
        for mono, c in p.items():
            t = const(c)
            for a, k in mono:
                q = self.atom(a)
                if k < 0:
                    q = gsn.pdiv(ONE, q)
                for _ in range(abs(k)):
                    t = mul(t, q)
            r = add(r, t)
        return r

    def key(self, k):
        return key(self.go(unkey(k)))

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        t = T(a)
        if not any(self.new(x) is not None for x in occ(a)):
            r = {((a, 1),): Fraction(1)}
        else:
            t2 = gsn.map_tuple(t, self.key)
            n = self.new(a)
            if n is not None:
                t2 = t2[:-1] + (('#', n),) if t2[0] == 'call' else t2[:2] + (n,)
            if t2[0] in ('first', 'mu') or t2[0] == 'sum' and len(t2[2]) == 1 and t2[2][0][1] == 1:
                r = atom(t2)            # one name for another: the form stays
            else:
                r = gsn.rebuild(t2)
            if a in gsn.INTS:
                gsn.mark_int(r, 'i32')
        self.memo[a] = r
        return r


def all_keys(s):
    ks = []
    if s.ret is not None:
        ks.append(key(s.ret))
    for kind, doms, v, loc, bad in s.effs:
        ks += list(v)
        for d in doms:
            ks += [k for k in gsn.subkeys(('', d))]
    return ks


def compact(s):
    """renumber the numbered atoms 0.. in order of appearance"""
    num = numbered(all_keys(s))
    perm = {n: {o: j for j, o in enumerate(sorted(v))} for n, v in num.items()}
    return perm


def apply(s, perm):
    return apply_to(s.ret, s.effs, perm)


def apply_to(ret, effs, perm):
    rn = Renumber(perm)
    ret = rn.go(ret) if ret is not None else None
    eff = []
    for kind, doms, v, loc, bad in effs:
        d2 = tuple(gsn.map_tuple(d, lambda kk: rn.key(kk)) for d in doms)
        # iteration atoms carry their domain: rename them too
        m = {}
        for lv, (x, y) in enumerate(zip(doms, d2)):
            if x != y:
                m[A(('it', 1000 + lv, x))] = {((A(('it', 1000 + lv, y)), 1),): Fraction(1)}
        v2 = tuple(key(recanon(subst(rn.go(unkey(k)), m))) for k in v)
        eff.append((kind, d2, v2, loc, bad))
    return ret, eff


PRIME = (1 << 61) - 1


def blend(*t):
    return int.from_bytes(hashlib.blake2b(repr(t).encode(), digest_size=8).digest(), 'big') % PRIME or 1


class Print:
    """fingerprints of polynomials in a prime field, the same for any order in which atoms were met: number gives each
    numbered atom (name, number) what stands for its number"""

    def __init__(self, number, base=None, changed=()):
        self.number, self.base, self.changed = number, base, set(changed)
        self.memo = {}

    def poly(self, p):
        r = 0
        for mono, c in p.items():
            t = c.numerator % PRIME
            if c.denominator != 1:
                t = t * pow(c.denominator, -1, PRIME) % PRIME
            for a, k in mono:
                v = self.atom(a)
                if k < 0:
                    v = pow(v, -1, PRIME) if v else 7
                for _ in range(abs(k)):
                    t = t * v % PRIME
            r = (r + t) % PRIME
        return r

    def key(self, k):
        return self.poly(unkey(k))

    def atom(self, a):
        r = self.memo.get(a)
        if r is None:
            if self.base is not None and not (occ(a) & self.changed):
                return self.base.atom(a)
            r = self.memo[a] = self.atom1(a)
        return r

    def atom1(self, a):
        t = T(a)
        if t[0] == 'ind':
            P = unkey(t[2])
            if t[1] == 'gt':
                v, w = self.poly(P), self.poly(sub(ONE, P))
                return blend('gt', v) if v < w else (1 - blend('gt', w)) % PRIME
            v = self.poly(P)
            cs = {c if t[1] == 'eq' else abs(c) for c in P.values()}
            return blend(t[1], min(v * pow(c.numerator, -1, PRIME) * c.denominator % PRIME for c in cs))
        f = lambda k: (('k', self.key(k)),)
        if t[0] == 'sum':
            return blend('sum', gsn.map_tuple(t[1], f)) * self.key(t[2]) % PRIME
        if t[0] == 'call':
            n = ('call', t[1])
            if (n, t[-1][1]) in self.number:
                return blend(*gsn.map_tuple(t[:-1], f), 'no', self.number[(n, t[-1][1])])
        if t[0] == 'alloca':
            n = ('alloca', t[1])
            if (n, t[2]) in self.number:
                return blend(*gsn.map_tuple(t[:2], f), 'no', self.number[(n, t[2])])
        return blend(*gsn.map_tuple(t, f))

    def item(self, doms, v, kind):
        f = lambda k: (('k', self.key(k)),)
        return kind, tuple(gsn.map_tuple(d, f) for d in doms), tuple(self.key(k) for k in v)


def num_atom(a):
    t = T(a)
    if t[0] == 'call':
        return ('call', t[1]), t[-1][1]
    if t[0] == 'alloca':
        return ('alloca', t[1]), t[2]
    return None


_colour = {}


def items_of(s):
    """the items of a summary and the numbered atoms in each: ([item], [{(name, number)}], {(name, number): {atom}})"""
    items = [((), (key(s.ret),), 'ret')] if s.ret is not None else []
    items += [(doms, v, kind) for kind, doms, v, loc, bad in s.effs]
    inside, at = [], {}
    for doms, v, kind in items:
        got = set()
        for k in list(v) + [k for d in doms for k in gsn.subkeys(('', d))]:
            for a in gsn.occ_key(k):
                x = num_atom(a)
                if x is not None:
                    got.add(x)
                    at.setdefault(x, set()).add(a)
        inside.append(got)
    return items, inside, at


def anchors(s, r, rounds=3):
    """{(name, number in s): number in r}: an effect of s and one of r that are the same and can be told from all others
    show which call, or which storage, of the one stands for which of the other"""
    sides = [items_of(s), items_of(r)]
    known = [{}, {}]
    out = {}
    for _ in range(rounds):
        where = [{}, {}]
        for side, (items, inside, at) in enumerate(sides):
            base = Print({x: 1000 + known[side].get(x, 0) for x in at})
            for x in at:
                if x in known[side]:
                    continue
                pr = Print({**base.number, x: -1}, base, at[x])
                for it, ins in zip(items, inside):
                    if x in ins:
                        where[side].setdefault((x[0], repr(pr.item(*it))), []).append(x[1])
        votes = {}
        for c, xs in where[0].items():
            ys = where[1].get(c, ())
            if len(xs) == 1 and len(ys) == 1:
                k = (c[0], xs[0], ys[0])
                votes[k] = votes.get(k, 0) + 1
        n = 0
        for (name, x, y), v in sorted(votes.items(), key=lambda t: (-t[1], repr(t[0]))):
            if any(w >= v for (m, a, b), w in votes.items() if m == name and (a == x) != (b == y)):
                continue
            out[(name, x)] = y
            known[0][(name, x)] = known[1][(name, y)] = len(out)
            n += 1
        if not n:
            break
    return out


def colours(s, rounds=2):
    """{(name, number): (colour of round 1, 2, ...)}: what is done with each numbered call, other numbers hidden"""
    num = numbered(all_keys(s))
    xs = [(n, o) for n, v in num.items() for o in v]
    items, inside, at = items_of(s)
    col = {x: 0 for x in xs}
    out = {x: () for x in xs}
    for _ in range(rounds):
        base = Print({x: 1000 + c for x, c in col.items()})
        new = {}
        for x in xs:
            pr = Print({**base.number, x: -1}, base, at[x])
            sig = [pr.item(*it) for it, ins in zip(items, inside) if x in ins]
            t = (x[0], col[x], tuple(sorted(sig, key=repr)))
            new[x] = _colour.setdefault(t, len(_colour) + 1)
        for x in xs:
            out[x] += (new[x],)
        col = new
    return out


def variants(s, r):
    """renumberings of the calls of s to those of r (numbered 0..), and whether all that matter are tried"""
    ns, nr = numbered(all_keys(s)), numbered(all_keys(r))
    if all(len(v) < 2 for v in list(ns.values()) + list(nr.values())):
        yield {n: {o: j for j, o in enumerate(sorted(v))} for n, v in ns.items()}, True
        return
    cs, cr = colours(s), colours(r)
    groups = []
    base = {}
    anch = None
    for n, v in ns.items():
        base[n] = {}
        left = sorted(v)
        target = {o: j for j, o in enumerate(sorted(nr.get(n, ())))}
        free = sorted(nr.get(n, ()))
        for depth in (2, 'anchor', 1, 0):
            if depth == 'anchor':
                if left and free and max(len(left), len(free)) > 1:
                    anch = anch if anch is not None else anchors(s, r)
                    for x in left[:]:
                        y = anch.get((n, x))
                        if y in free:
                            base[n][x] = target[y]
                            left.remove(x)
                            free.remove(y)
                continue
            for c in sorted({cs[(n, o)][:depth] for o in left}):
                a = [o for o in left if cs[(n, o)][:depth] == c]
                b = [o for o in free if cr[(n, o)][:depth] == c]
                k = min(len(a), len(b))
                if not k or (depth and len(a) != len(b)):
                    continue
                a, b = a[:k], b[:k]
                for x, y in zip(a, b):
                    base[n][x] = target[y]
                    left.remove(x)
                    free.remove(y)
                if k > 1:
                    groups.append((n, a, [target[y] for y in b]))
        for j, o in enumerate(left):
            base[n][o] = len(target) + j
    tot = 1
    for n, a, b in groups:
        for j in range(2, len(a) + 1):
            tot *= j
    if tot > 120:
        yield base, False
        return

    def rec(k):
        if k == len(groups):
            yield {n: dict(v) for n, v in base.items()}, True
            return
        n, a, b = groups[k]
        for q in permutations(b):
            base[n].update(zip(a, q))
            yield from rec(k + 1)
    yield from rec(0)


def compare(s, r, depth=0, frozen=False):
    """differences of summary s (code) from r (reference): list of (what, where, text); s.uncertain when a part of the
    comparison is left open"""
    d, rest = compare1(s, r, frozen)
    if not d or depth >= MAXCASES:
        return d
    if cases_equal(s, *rest, depth, True):
        return []
    if not frozen and any(len(v) > 1 for v in numbered(all_keys(s)).values()) and size(s) + size(r) < SMALL and \
            cases_equal(s, s, r, depth, False):
        return []
    return d


SMALL = 1500


def size(s):
    return len({a for k in all_keys(s) for a in gsn.occ_key(k)})


def cases_equal(s, x, y, depth, frozen):
    """no difference between x and y is left in either case of some indicator"""
    da, fa = closed_inds(x)
    db, fb = closed_inds(y)
    every = sorted(set(da) | set(fa) | set(db) | set(fb))
    cand = sorted(set(da) | set(db), key=lambda a: (-da.get(a, 0) - db.get(a, 0), a)) or \
        sorted(set(fa) ^ set(fb)) or sorted(set(fa) & set(fb))
    if not cand or len(cand) > 12:
        return False
    unc = False
    for v in (1, 0):
        m = implied(cand[0], v, every)
        x1, y1 = fixed(x, m), fixed(y, m)
        if compare(x1, y1, depth + 1, frozen):
            return False
        unc |= x1.uncertain
    s.uncertain = unc
    return True


def promising(vs, x, y, rp):
    """the numberings by the number of effects of x and y that then differ: [(number, numbering, all tried)]"""
    def items(z, base, perm):
        number = {(n, o): 2000 + j for n, v in perm.items() for o, j in v.items()}
        pr = Print(number)
        if base is not None:
            pr.base, pr.changed = base, changed
        out = [pr.item(doms, v, kind) for kind, doms, v, loc, bad in z[1]]
        if z[0] is not None:
            out.append(pr.poly(z[0]))
        return Counter(out)
    want = items(y, None, rp)
    allk = [k for kind, doms, v, loc, bad in x[1] for k in list(v) + [k for d in doms for k in gsn.subkeys(('', d))]]
    if x[0] is not None:
        allk.append(key(x[0]))
    changed = {a for k in allk for a in gsn.occ_key(k) if num_atom(a) is not None}
    base = Print({})
    out = []
    for perm, every in vs:
        got = items(x, base, perm)
        out.append((sum(((got - want) + (want - got)).values()), perm, every))
    return sorted(out, key=lambda t: t[0])


def match(ss, xs, rr, xr):
    """effects without an equal on the other side: (of ss, of rr) as (effect, relaxed effect, place, open)"""
    A_ = [(e[:3], x[:3], e[3], e[4]) for e, x in zip(ss[1], xs[1])]
    B_ = [(e[:3], x[:3], e[3], e[4]) for e, x in zip(rr[1], xr[1])]
    exact = lambda e: {x for k in keys_of(e) for x in gsn.disturbed_names(unkey(k))}
    for k in (0, 1):
        rest = []
        for x in A_:
            for y in B_:
                if x[k] == y[k] and (k == 0 or exact(x[0]) != exact(y[0])):
                    B_.remove(y)
                    break
            else:
                rest.append(x)
        A_ = rest
    return A_, B_


def same_value(ss, xs, rr, xr):
    return ss[0] == rr[0] or (xs[0] == xr[0] and gsn.disturbed_names(ss[0]) != gsn.disturbed_names(rr[0]))


def compare1(s, r, frozen=False):
    """(differences, what is left of both sides)"""
    rp = {} if frozen else compact(r)
    rr, xr = apply(r, rp), None
    best, tied = None, []
    vs = [({}, True)] if frozen else list(variants(s, r))
    rset = sorted((e[:3] for e in rr[1]), key=repr)
    xs0 = None
    if len(vs) > 1:
        ss = promising(vs[:], (s.ret, s.effs), (r.ret, r.effs), rp)
        if ss[0][0]:
            xs0, xr0 = relaxed((s.ret, s.effs)), relaxed((r.ret, r.effs))
            at = {repr(perm): n for n, perm, every in ss}
            ss = [(n, at[repr(perm)], perm, every) for n, perm, every in promising(vs, xs0, xr0, rp)]
            ss.sort(key=lambda x: x[:2])
            vs = [(perm, every) for n, m, perm, every in ss if (n, m) == ss[0][:2]][:4]
        else:
            vs = [(perm, every) for n, perm, every in ss if n == 0][:4]
    for perm, every in vs:
        ss = apply(s, perm)
        if ss[0] == rr[0] and not s.retbad and not r.retbad and not s.bad and not r.bad and \
                sorted((e[:3] for e in ss[1]), key=repr) == rset:
            s.uncertain = False
            return [], None
        if xs0 is None:
            xs0, xr0 = relaxed((s.ret, s.effs)), relaxed((r.ret, r.effs))
        if xr is None:
            xr = apply_to(*xr0, rp)
        xs = apply_to(*xs0, perm)
        left = match(ss, xs, rr, xr)
        n = len(left[0]) + len(left[1]) + (s.ret is not None and r.ret is not None and not same_value(ss, xs, rr, xr))
        if best is None or n < best:
            best, tied = n, []
        if n == best and len(tied) < 6:
            tied.append((ss, xs, every, left))
    out = None
    for ss, xs, every, left in tied:
        d, unc = diff(s, ss, xs, r, rr, xr, every, left)
        if not d and not unc:
            s.uncertain = False
            return [], None
        if out is None or (len(d), unc) < out[0]:
            out = (len(d), unc), d, (ss, xs, left)
    s.uncertain = out[0][1]
    if (s.bottom != r.bottom and out[1]) or (s.uncertain and not out[1]):
        one = single(s, r, tied, rr, xr)
        if one:
            s.uncertain = False
            return one, (s, r)
        s.uncertain = True          # the first round of a loop is written apart from the others
        return [], None
    if not out[1]:
        return [], None
    ss, xs, left = out[2]
    return out[1], (reduced(s, ss, left[0], same_value(ss, xs, rr, xr), rr),
                    reduced(r, rr, left[1], same_value(ss, xs, rr, xr), ss))


def reduced(s, ss, left, same, other):
    """what has no equal on the other side"""
    r = Expanded()
    r.f, r.retbad, r.bad, r.bottom = s.f, s.retbad, list(s.bad), s.bottom
    r.ret = None if same else ss[0]
    keep = [x[0] for x in left]
    r.effs = []
    for e in ss[1]:
        if e[:3] in keep:
            keep.remove(e[:3])
            r.effs.append(e)
    r.ctx = s.ctx or ss[1]
    return r


def relaxed(x):
    """names read after a disturbance replaced by the plain names, in an applied summary"""
    ret, eff = x
    fz = lambda k: key(recanon(gsn.relax(unkey(k))))
    out = []
    for kind, doms, v, loc, bad in eff:
        m = {}
        d2 = []
        for lv, d in enumerate(doms):
            n = gsn.map_tuple(d, lambda kk: key(subst(unkey(fz(kk)), m)))
            itn = A(('it', 1000 + lv, n))
            if n[0] == 'range' or (n[0] in ('until', 'upto') and n[1][0] == 'range'):
                gsn.INTS.add(itn)
            m[A(('it', 1000 + lv, d))] = {((itn, 1),): Fraction(1)}
            d2.append(n)
        out.append((kind, tuple(d2), tuple(key(recanon(subst(unkey(fz(k)), m))) for k in v), loc, bad))
    return (unkey(fz(key(ret))) if ret is not None else None), out


def keys_of(e):
    return list(e[2]) + [q for dd in e[1] for q in gsn.subkeys(('', dd))]


def whiles_of(ks, doms=()):
    return {d for k in ks for a in gsn.occ_key(k) for d in whiles(T(a))} | {d for dd in doms for d in whiles(dd)}


def shapes(ks):
    r = set()
    for k in ks:
        for m, c in k:
            for a, e in m:
                t = T(a)
                if t[0] in ('load', 'vload'):
                    b = t[1][1]
                    root = T(b[0][0][0][0])[:2] if len(b) == 1 and len(b[0][0]) == 1 else ()
                    if root and root[0] not in ('arg', 'call', 'alloca'):
                        root = root[:1]
                    r.add((root, tuple(x[:1] if x[0] == 'i' else x for x in t[1][2])))
                else:
                    r.add(t[:2] if t[0] == 'fn' else t[:1])
    return r


def root_of(k):
    t = T(k[0][0][0][0]) if len(k) == 1 and len(k[0][0]) == 1 else ('',)
    return k if t[0] in ('arg', 'call', 'alloca') else None


def apart(a, w):
    """address a and the address key w start at different objects"""
    t = T(w[0][0][0][0]) if len(w) == 1 and len(w[0][0]) == 1 else ('',)
    x, y = root_of(a[1]), root_of(t[1]) if t[0] == 'addr' else root_of(w)
    return x is not None and y is not None and x != y


def kinds_in(ks):
    """kinds of the names an expression is made of"""
    r = set()
    for k in ks:
        for a in gsn.occ_key(k):
            t = T(a)
            if t[0] in ('load', 'vload'):
                r |= shapes([key(gsn.relax({((a, 1),): Fraction(1)}))])
            elif t[0] in ('fn', 'call'):
                r.add((t[0], t[1].split("'")[0]))
    return r


KNOWN = set()         # functions with a definition of their own


class Apart(Exception):
    pass


class Unify:
    """where two normal forms of the same shape differ: numbers, fields, arguments; Apart when the shapes differ"""
    def __init__(self, known):
        self.memo, self.pairs, self.known = {}, set(), known

    def at(self, a, b):
        if a != b and (a, b) not in self.memo:
            self.memo[a, b] = 1
            self.tuples(T(a), T(b))

    def number(self, c, d):
        self.pair('number', c, d)

    def keys(self, k, q):
        if k == q:
            return
        old = dict(self.memo), set(self.pairs)
        try:
            return self.keys1(k, q)
        except Apart:
            xs = [a for a in sorted({a for m, c in k for a, e in m}) if T(a)[0] == 'ind']
            ys = [a for a in sorted({a for m, c in q for a, e in m}) if T(a)[0] == 'ind']
            if not xs or len(xs) > 6 or len(xs) != len(ys):
                raise
            for x in xs:
                for y in ys:
                    if T(x)[1] == T(y)[1] and not (x != y and x in ys and y in xs):
                        self.memo, self.pairs = dict(old[0]), set(old[1])
                        try:
                            self.pair('condition', 'condition', 'its opposite')
                            self.at(x, y)
                            return self.keys1(k, key(subst(unkey(q), {y: sub(ONE, {((y, 1),): Fraction(1)})})))
                        except Apart:
                            pass
            raise

    def pair(self, *x):
        self.pairs.add(x)
        if len(self.pairs) > 1:
            raise Apart()

    def keys1(self, k, q):
        a, b = dict(k), dict(q)
        for m in set(a) & set(b):
            if a[m] != b[m]:
                self.number(a[m], b[m])
            del a[m], b[m]
        for x, y, sg in ((a, b, 0), (b, a, 1)):
            if () in x and (() not in y) and len(x) == len(y) + 1:
                self.number(*((x[()], Fraction(0)) if not sg else (Fraction(0), x[()])))
                del x[()]
        if len(a) != len(b):
            raise Apart()
        if len(a) > 4:
            raise Apart()
        self.best(sorted(a.items(), key=repr), sorted(b.items(), key=repr), self.term)

    def best(self, xs, ys, f):
        """pair the elements so that they differ in one way only"""
        if not xs:
            return
        for j in range(len(ys)):
            old = dict(self.memo), set(self.pairs)
            try:
                f(xs[0], ys[j])
                self.best(xs[1:], ys[:j] + ys[j + 1:], f)
                return
            except Apart:
                self.memo, self.pairs = old
        raise Apart()

    def term(self, x, y):
        (m, c), (n, d) = x, y
        if c != d:
            self.number(c, d)
        if len(m) != len(n):
            raise Apart()
        p = [z for z in m if z not in n]
        q = [z for z in n if z not in m]
        self.best(p, q, self.power)

    def power(self, x, y):
        if x[1] != y[1]:
            raise Apart()
        self.at(x[0], y[0])

    def tuples(self, t, u):
        if t == u:
            return
        if not (isinstance(t, tuple) and isinstance(u, tuple)):
            raise Apart()
        if gsn.is_key(t) and gsn.is_key(u):
            return self.keys(t, u)
        if len(t) != len(u) or not t:
            raise Apart()
        if t[0] == 'while' and u[0] == 'while' and t != u and t[1] == u[1] and len(t) == 4:
            a, b = [(tuple(key(gsn.relax(unkey(k))) for k in x[2]), key(gsn.relax(unkey(x[3])))) for x in (t, u)]
            if a[1] == b[1] and any(mul(unkey(a[1]), sub(unkey(x), unkey(y))) for x, y in zip(a[0], b[0])):
                return self.pair('step of a loop', ('goes on to',) + t[2], ('goes on to',) + u[2])
        if t[0] == 'f' and u[0] == 'f' and len(t) == 3:
            if t[1] != u[1]:
                raise Apart()
            return self.pair('field', t[1:], u[1:])
        if t[0] == 'arg' and u[0] == 'arg':
            return self.pair('argument', t[1:], u[1:])
        if isinstance(t[0], str) and t[0] != u[0]:
            raise Apart()
        if t[0] in ('fn', 'call') and t[1] != u[1]:
            if {t[1], u[1]} - self.known:
                raise Apart()
            self.pair('function', t[1], u[1])
            t, u = t[2:], u[2:]
        for x, y in zip(t, u):
            self.tuples(x, y)


def single(s, r, tied, rr, xr):
    """the two sides have the same shape and differ in one number, field or argument only"""
    if s.bad or r.bad or s.retbad or r.retbad:
        return []
    for ss, xs, every, (A_, B_) in tied:
        if len(A_) > 6 or len(B_) > 6 or any(x[3] for x in A_ + B_):
            continue
        if s.bottom == r.bottom and same_value(ss, xs, rr, xr) and bool(A_) != bool(B_):
            for x in A_ + B_:
                return [('effect', x[2], 'does %s' % show_eff(x[0], s.f)) if A_ else
                        ('missing', '%s:%d' % (s.f.file, s.f.line), 'lacks %s' % show_eff(x[0], r.f))]
        if len(A_) != len(B_):
            continue
        for side in (0, 1):
            u = Unify(KNOWN)
            sv, rv = (ss, rr) if side == 0 else (xs, xr)
            try:
                if not same_value(ss, xs, rr, xr):
                    u.keys(key(sv[0]), key(rv[0]))

                def pair(x, y):
                    if x[0][0] != y[0][0]:
                        raise Apart()
                    u.tuples(x[side][1], y[side][1])
                    u.tuples(tuple(x[side][2]), tuple(y[side][2]))
                u.best(sorted(A_, key=repr), sorted(B_, key=repr), pair)
            except Apart:
                u = innermost(sv[0], rv[0], [x[side] for x in A_], [x[side] for x in B_])
            if u and len(u.pairs) == 1:
                (kind, x, y), = u.pairs
                where = A_[0][2] if A_ else '%s:%d' % (s.f.file, s.f.line)
                return [('effect' if A_ else 'value', where, 'differs from the definition in one %s: %s instead of %s'
                         % (kind, show_leaf(x, s.f), show_leaf(y, r.f)))]
    return []


def innermost(v, w, xs, ys):
    """the innermost names that occur on one side only, paired so that they differ in one way; with one put for the
    other everything else has to be the same"""
    def names(val, effs):
        out = set()
        ks = [key(val)] if val is not None else []
        ks += [k for e in effs for k in keys_of(e)] + [k for e in effs for d in e[1] for k in gsn.subkeys(('',) + d)]
        for k in ks:
            out |= gsn.occ_key(k)
        return out
    tries = [8]

    def put(v, xs, m):
        memo = {}
        f = lambda k: key(recanon(subst(unkey(k), m, memo)))
        return None if v is None else unkey(f(key(v))), \
            [(x[0], tuple(gsn.map_tuple(d, f) for d in x[1]), tuple(f(k) for k in x[2])) + tuple(x[3:]) for x in xs]

    def whole(u, v, xs):
        if v is not None and w is not None and v != w:
            u.keys(key(v), key(w))

        def pair(x, y):
            if x[0] != y[0]:
                raise Apart()
            u.tuples(x[1], y[1])
            u.tuples(tuple(x[2]), tuple(y[2]))
        u.best(sorted(xs, key=repr), sorted(ys, key=repr), pair)

    def round_(v, xs, pairs, depth):
        a, b = names(v, xs), names(w, ys)
        mine, theirs = a - b, b - a
        low = [sorted(x for x in m if not any(z != x and z in m for z in gsn.occ(x))) for m in (mine, theirs)]
        if not low[0] and not low[1] or not depth:
            if not tries[0]:
                raise Apart()
            tries[0] -= 1
            u = Unify(KNOWN)
            u.pairs = set(pairs)
            whole(u, v, xs)
            return u
        if not low[0] or len(low[0]) != len(low[1]) or len(low[0]) > 8:
            raise Apart()
        return match_(low[0], low[1], {}, pairs, v, xs, depth)

    def match_(left, right, m, pairs, v, xs, depth):
        if not left:
            v, xs = put(v, xs, m)
            return round_(v, xs, pairs, depth - 1)
        x = left[0]
        for y in right:
            for how in (alike, opposite, content):
                u = Unify(KNOWN)
                u.pairs = set(pairs)
                try:
                    z = how(u, x, y)
                    return match_(left[1:], [q for q in right if q != y], {**m, x: z}, u.pairs, v, xs, depth)
                except Apart:
                    pass
        raise Apart()
    try:
        return round_(v, xs, set(), 6)
    except Apart:
        return None


def alike(u, x, y):
    u.at(x, y)
    return atom(T(y))


def opposite(u, x, y):
    """[P > 0] for what is the case unless -P > 0"""
    t, q = T(x), T(y)
    if t[0] != 'ind' or q[0] != 'ind' or t[1] != 'gt' or q[1] != 'gt' or key(neg(unkey(t[2]))) != q[2]:
        raise Apart()
    u.pair('comparison', 'the other', 'strict or not')
    return sub(ONE, atom(q))


def content(u, x, y):
    """the same function of another combination of the same names"""
    t, q = T(x), T(y)
    if t[0] != 'fn' or q[0] != 'fn' or t[1] != q[1] or len(t) != len(q):
        raise Apart()
    other = [j for j in range(2, len(t)) if t[j] != q[j]]
    if len(other) != 1 or not (gsn.is_key(t[other[0]]) and gsn.is_key(q[other[0]])):
        raise Apart()
    k, l = t[other[0]], q[other[0]]
    if {a for m, c in k for a, e in m} != {a for m, c in l for a, e in m}:
        raise Apart()
    u.pair('expression', 'another value of', t[1])
    return atom(q)


def show_leaf(x, f):
    if isinstance(x, tuple) and x and x[0] == 'goes on to':
        return ', '.join(show(unkey(k), f) for k in x[1:])
    if isinstance(x, tuple):
        return '.'.join(str(z) for z in x)
    return str(x)


def diff(s, ss, xs, r, rr, xr, every, left):
    """(differences that are certain, whether something is left open)"""
    out, unc = [], False
    every_key = lambda x: ([key(x[0])] if x[0] is not None else []) + [k for e in x[1] for k in keys_of(e)]
    alla, allb = ss[1] + (s.ctx or []), rr[1] + (r.ctx or [])
    ka, kb = every_key((ss[0], alla)), every_key((rr[0], allb))
    wa = whiles_of(ka, [d for e in alla for d in e[1]])
    wb = whiles_of(kb, [d for e in allb for d in e[1]])
    na, nb = numbered(ka), numbered(kb)
    loose = set()
    for n in set(na) | set(nb):
        la, lb = len(na.get(n, ())), len(nb.get(n, ()))
        if (la != lb and (s.bad or r.bad or s.retbad or r.retbad or n[1].startswith('<'))) or (not every and max(la, lb) > 1):
            loose.add(n)            # numbering of these calls is not settled

    def open_(ks, doms, other):
        """written with names whose meaning depends on how the rest is written"""
        if whiles_of(ks, doms) - other:
            return True
        return bool(loose and set(numbered(ks)) & loose)

    def later(ks):
        """the names read after a possible change"""
        return {key(gsn.relax(atom(T(x)))) for k in ks for x in gsn.disturbed_names(unkey(k))}

    def kin(ks, kr):
        """the same kinds of names are read after a possible change (then the difference is one of content)"""
        a, b = later(ks), later(kr)
        if a == b:
            return True
        sa, sb = shapes(a), shapes(b)
        if sa == sb:
            return True
        # a name read on one side only: could the other side have the stored value itself in its place?
        return not forwarded([k for k in b if shapes([k]) - sa], ks) and \
            not forwarded([k for k in a if shapes([k]) - sb], kr)

    def forwarded(names, ks):
        mine = kinds_in(ks)
        for k in names:
            t = T(k[0][0][0][0]) if len(k) == 1 and len(k[0][0]) == 1 else ()
            if not t or t[0] not in ('load', 'vload'):
                return True
            fs = [x for x in t[1][2] if x[0] == 'f']
            st = fs[-1] if fs else None
            for e in alla + allb:
                h = getattr(e[3], 'head', None)
                if h is None:
                    return True
                if h[0] == 'call' or (h != (st[1], st[2]) if st else h[0] not in ('*', 'local')):
                    continue
                if not st and apart(t[1], e[2][0]):
                    continue
                if e[0] == 'call' or kinds_in([e[2][2]]) <= mine:
                    return True
        return False
    if s.ret is not None and r.ret is not None and not s.retbad and not r.retbad:
        if ss[0] != rr[0] and (xs[0] != xr[0] or gsn.disturbed_names(ss[0]) == gsn.disturbed_names(rr[0])):
            if open_([key(ss[0])], (), wb) or open_([key(rr[0])], (), wa) or \
                    not kin([key(ss[0])], [key(rr[0])]):
                unc = True
            else:
                out.append(('value', '%s:%d' % (s.f.file, s.f.line), 'returns %s ; defined as %s'
                            % (show(ss[0], s.f), show(rr[0], r.f))))
    A_, B_ = left
    badheads = {getattr(l, 'head', None) for l, w in list(s.bad) + list(r.bad)}
    here = '%s:%d' % (s.f.file, s.f.line)
    if None in badheads:
        return out, unc or bool(A_ or B_)
    for mine, theirs, wm, wo in ((A_, B_, wb, wa), (B_, A_, wa, wb)):
        for x in mine:
            h = getattr(x[2], 'head', None)
            if h in badheads or x[3]:
                unc = True
                continue
            cand = [y for y in theirs if getattr(y[2], 'head', None) == h]
            if cand and (open_(keys_of(x[0]), x[0][1], wm) or any(open_(keys_of(y[0]), y[0][1], wo) for y in cand) or
                         any(not kin(keys_of(x[0]), keys_of(y[0])) for y in cand)):
                unc = True
                continue
            if mine is A_:
                out.append(('effect', x[2], 'does %s' % show_eff(x[0], s.f)))
            else:
                out.append(('missing', here, 'lacks %s' % show_eff(x[0], r.f)))
    return out, unc


def whiles(t):
    """while domains inside a tuple"""
    if isinstance(t, tuple):
        if t and t[0] == 'while':
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from whiles(x)


def show_eff(x, f):
    kind, doms, (w, g, v) = x
    S = lambda k: show(unkey(k), f)
    loops = ''.join('for %s in %s: ' % ('x%d' % (1000 + i), gsn.show_dom(d, f)) for i, d in enumerate(doms))
    gd = '' if kind == 'add' or unkey(g) == ONE else 'if %s: ' % S(g)
    if kind == 'call':
        t = T(w[0][0][0][0])
        return loops + gd + '%s(%s)' % (t[1], ', '.join(S(a) for a in t[2:]))
    return loops + gd + '%s %s %s' % (S(w), '+=' if kind == 'add' else '=', S(v))
