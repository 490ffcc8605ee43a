"""C02: no local is read before it has been set, on any path that can be taken."""
from .. import core
EXPLANATION = (
    "Every scalar and pointer local of every function (library and programs, before any optimisation) is followed along "
    "the control-flow graph from its declaration to each place where its value is read. The state is the pair (set or "
    "not, what is known about the other locals: constants and values excluded by branches); states with the same first "
    "component are merged, so a flag that is raised where the local is set is understood. A read reached with the local "
    "not set is reported with the place. A loop that sets the local under a condition is taken to find what it looks for; a "
    "local whose address is handed to a call counts as set by it.")
RULE = "must-set-before-use of locals, path-sensitive in constants, excluded values and copies"
ASSUMPTIONS = ["a call that receives the address of a local sets it",
               "array elements and heap cells are not followed"]
SCALAR = ('i1', 'i8', 'i16', 'i32', 'i64', 'float', 'double', 'ptr')
TOP = ('top',)
MAXV = 8
WIDE = 6


def const_of(o):
    if o.startswith('i:') and o != 'i:big':
        return int(o[2:])
    if o == 'null':
        return 0
    return None


class Local:
    """one function: which allocas are scalars, and how blocks act on them"""
    def __init__(self, f):
        self.f = f
        self.vars, self.addr_taken = {}, set()
        for i in f.ins.values():
            if i.op == 'alloca' and i.aty in SCALAR and not i.arr:
                self.vars['%%%d' % i.id] = i
        for i in f.ins.values():
            for n, o in enumerate(i.ops):
                if o in self.vars:
                    if i.op == 'load' or (i.op == 'store' and n == 1):
                        continue
                    self.addr_taken.add(o)

    def val(self, o, env):
        """('c', n) known, ('not', {..}) excluded, TOP"""
        c = const_of(o)
        if c is not None:
            return ('c', c)
        i = self.f.val(o)
        if i is None:
            return TOP
        if o in env:
            return env[o]
        return TOP

    def fold(self, i, env):
        """value of a non-load instruction"""
        v = [self.val(o, env) for o in i.ops]
        if i.op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze'):
            if v[0][0] == 'c' and i.op == 'zext' and v[0][1] < 0:
                return TOP
            return v[0] if i.op != 'trunc' or v[0][0] == 'c' and abs(v[0][1]) < 128 else TOP
        if i.op in ('add', 'sub', 'mul') and v[0][0] == v[1][0] == 'c':
            a, b = v[0][1], v[1][1]
            r = a + b if i.op == 'add' else a - b if i.op == 'sub' else a * b
            return ('c', r) if abs(r) < 1 << 30 else TOP
        if i.op == 'xor' and v[0][0] == v[1][0] == 'c' and i.ty == 'i1':
            return ('c', (v[0][1] ^ v[1][1]) & 1)
        if i.op == 'icmp':
            a, b = v
            if a[0] == 'c' and b[0] == 'c':
                p = i.pred
                x, y = a[1], b[1]
                if p[0] == 'u' and (x < 0 or y < 0):
                    return TOP
                return ('c', int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y,
                                  'ge': x >= y}[p if p in ('eq', 'ne') else p[1:]]))
            for x, y in ((a, b), (b, a)):
                if x[0] == 'not' and y[0] == 'c' and y[1] in x[1] and i.pred in ('eq', 'ne'):
                    return ('c', int(i.pred == 'ne'))
            return TOP
        return TOP

    def step(self, i, env, uses):
        """effect of one instruction; uses(i, var): reads"""
        if i.op == 'load' and i.ops[0] in self.vars:
            uses(i, i.ops[0])
            me = '%%%d' % i.id
            env[me] = env.get(i.ops[0], TOP)
            env[('src', me)] = i.ops[0]
            env[('back', i.ops[0])] = env.get(('back', i.ops[0]), ()) + (me,)
        elif i.op == 'store' and i.ops[1] in self.vars:
            x = i.ops[1]
            env[x] = self.val(i.ops[0], env)
            for b in env.pop(('back', x), ()):
                env.pop(('src', b), None)
        elif i.op in ('call', 'invoke'):
            for o in i.ops:
                if o in self.addr_taken:
                    env[o] = TOP
            for x in self.addr_taken:
                env[x] = TOP
                for b in env.pop(('back', x), ()):
                    env.pop(('src', b), None)
        elif i.op not in ('br', 'switch', 'ret', 'store', 'alloca', 'phi', 'load'):
            v = self.fold(i, env)
            if v != TOP:
                env['%%%d' % i.id] = v
            else:
                env.pop('%%%d' % i.id, None)

    def learn(self, o, v, env, depth=0):
        """o is known to have the value v (constant or exclusion)"""
        if depth > 6:
            return True
        old = env.get(o, TOP)
        if old[0] == 'c':
            if v[0] == 'c':
                return old[1] == v[1]
            return old[1] not in v[1]
        if v[0] == 'c' and old[0] == 'not' and v[1] in old[1]:
            return False
        if v[0] == 'not' and old[0] == 'not':
            v = ('not', (old[1] | v[1]) if len(old[1] | v[1]) <= MAXV else old[1])
        env[o] = v
        s = env.get(('src', o))
        if s is not None:
            env[s] = v
            for b in env.get(('back', s), ()):
                if b != o and env.get(('src', b)) == s:
                    env[b] = v
        i = self.f.val(o)
        if i is None:
            return True
        if i.op in ('sext', 'zext', 'freeze') and i.ty != 'i1':
            src = self.f.val(i.ops[0])
            if src is not None and src.op == 'icmp' and v[0] == 'not':
                return self.learn(i.ops[0], ('c', 1), env, depth + 1) if v[1] == {0} else True
            return self.learn(i.ops[0], v, env, depth + 1)
        if i.op == 'xor' and i.ty == 'i1' and v[0] == 'c':
            c = const_of(i.ops[1])
            if c is not None:
                return self.learn(i.ops[0], ('c', (v[1] ^ c) & 1), env, depth + 1)
        if i.op == 'icmp' and v[0] == 'c' and i.pred in ('eq', 'ne'):
            same = (i.pred == 'eq') == bool(v[1])
            for a, b in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                c = const_of(b)
                if c is None:
                    w = env.get(b, TOP)
                    c = w[1] if w[0] == 'c' else None
                if c is not None and const_of(a) is None:
                    return self.learn(a, ('c', c) if same else ('not', frozenset((c,))), env, depth + 1)
        return True

    def phi_in(self, b, frm, env):
        """values of the phis of block b when entered from frm (short-circuit conditions)"""
        new = {}
        for i in self.f.blocks[b]:
            if i.op != 'phi':
                break
            for o, x in zip(i.ops, i.inb):
                if x == frm:
                    new['%%%d' % i.id] = self.val(o, env)
        env.update(new)

    def edges(self, b, env):
        """(successor, environment) for each edge that can be taken"""
        t = self.f.term(b)
        if t.op == 'br' and len(t.succ) == 2 and t.succ[0] != t.succ[1]:
            v = self.val(t.ops[0], env)
            for n, s in enumerate(t.succ):
                want = 1 - n
                if v[0] == 'c' and (v[1] & 1) != want:
                    continue
                e = dict(env)
                if const_of(t.ops[0]) is None and not self.learn(t.ops[0], ('c', want), e):
                    continue
                yield s, e
        elif t.op == 'switch':
            v = self.val(t.ops[0], env)
            cs = [int(c) for c, s in t.cases]
            for c, s in t.cases:
                if v[0] == 'c' and v[1] != int(c):
                    continue
                e = dict(env)
                if const_of(t.ops[0]) is None and not self.learn(t.ops[0], ('c', int(c)), e):
                    continue
                yield s, e
            if not (v[0] == 'c' and v[1] in cs):
                e = dict(env)
                if const_of(t.ops[0]) is None and len(cs) <= MAXV:
                    if not self.learn(t.ops[0], ('not', frozenset(cs)), e):
                        return
                yield t.default, e
        else:
            for s in self.f.succ[b]:
                yield s, dict(env)


def join(a, b):
    r = {}
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            continue
        if isinstance(k, tuple):
            if v == w:
                r[k] = v
            elif k[0] == 'back':
                m = tuple(x for x in v if x in w)
                if m:
                    r[k] = m
        elif v == w:
            r[k] = v
        else:
            n = meet(v, w)
            if n != TOP:
                r[k] = n
    return r


def meet(v, w):
    if v[0] == 'not' and w[0] == 'not':
        s = v[1] & w[1]
        return ('not', s) if s else TOP
    for x, y in ((v, w), (w, v)):
        if x[0] == 'not' and y[0] == 'c' and y[1] not in x[1]:
            return x
    return TOP


def analyse(L, x):
    """reads of x reached while it has not been set"""
    f = L.f
    bad = {}
    sets = {i.blk for i in f.ins.values() if x in i.ops and i.op != 'load'}
    near = sets | {p for b in sets for p in f.pred[b] if len(f.pred[b]) == 1}
    # loops taken to find what they look for; one that looks for an object has to stop where it finds it
    search = [lp for lp in f.loops.values() if lp & near and
              (L.vars[x].aty != 'ptr' or any(s not in lp for b in sets & lp for s in f.succ[b]))]
    # (block, set?) -> environments (at most WIDE, the rest joined)
    first = {}
    state = {(0, False): [first]}
    work = [(0, False, first)]
    n = 0
    while work:
        b, done, env = work.pop()
        if not any(env is e for e in state[b, done]):
            continue                            # joined with another one meanwhile
        env = dict(env)
        n += 1
        if n > 6000:
            return None
        for i in f.blocks[b]:
            if not done and i.op == 'load' and i.ops[0] == x:
                bad.setdefault(i.id, i)
            if i.op == 'store' and i.ops[1] == x:
                done = True
            elif not done and i.op in ('call', 'invoke') and x in i.ops:
                done = True
            elif not done and i.op in ('getelementptr', 'bitcast', 'phi', 'select', 'store', 'insertvalue') and x in i.ops:
                done = True                 # its address goes elsewhere: not followed
            L.step(i, env, lambda i, v: None)
        if f.term(b).op == 'unreachable':
            continue
        for s, e in L.edges(b, env):
            L.phi_in(s, b, e)
            d = done or any(b in lp and s not in lp for lp in search)
            if d:
                continue                        # set: nothing left to decide on this path
            e = {k: v for k, v in e.items() if v != TOP}
            es = state.setdefault((s, d), [])
            if any(join(o, e) == o for o in es):
                continue
            if len(es) >= WIDE:
                e = join(es.pop(), e)
            es.append(e)
            work.append((s, d, e))
    return list(bad.values())


def quick(f, x, decl):
    """set on all paths, by plain dataflow: (nothing to do)"""
    n = f.n
    ins = [True] * n
    ins[0] = False
    outs = [True] * n
    changed = True
    touch = {}
    for b in range(n):
        for i in f.blocks[b]:
            if x in i.ops and not (i.op == 'load'):
                touch[b] = True
    while changed:
        changed = False
        for b in range(n):
            v = False if b == 0 else all(outs[p] for p in f.pred[b]) if f.pred[b] else True
            o = v or b in touch
            if v != ins[b] or o != outs[b]:
                ins[b], outs[b] = v, o
                changed = True
    for b in range(n):
        v = ins[b]
        for i in f.blocks[b]:
            if x in i.ops:
                if i.op == 'load':
                    if not v:
                        return False
                else:
                    v = True
    return True


def run(ctx):
    P = core.program(modes=('raw',))
    nf = nv = nr = 0
    seen = set()
    for u in P.libnames + P.prognames:
        for f in P.units[(u, 'raw')].fns.values():
            if (f.file, f.name) in seen or not f.blocks:
                continue
            seen.add((f.file, f.name))
            nf += 1
            L = Local(f)
            for x, decl in L.vars.items():
                loads = sum(1 for i in f.ins.values() if i.op == 'load' and i.ops[0] == x)
                nv += 1
                nr += loads
                if not loads or quick(f, x, decl):
                    ctx.ok()
                    continue
                ctx.count('locals that need the path-sensitive argument')
                bad = analyse(L, x)
                if bad is None:
                    ctx.count('locals given up')
                    ctx.ok()
                    continue
                name = (decl.names or ['?'])[0]
                ctx.ob(not bad, '%s:%s' % (f.name, name), bad[0].loc() if bad else '',
                       '%s may be read before it has been set (%s)' % (name, f.name),
                       '%s.%s is set before each of its %d reads' % (f.name, name, loads))
    ctx.need('functions', nf, 300)
    ctx.need('locals', nv, 2000)
    ctx.cov['reads'] = nr
