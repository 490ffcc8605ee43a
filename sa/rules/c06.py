"""C06: a missing argument, file, field or name is noticed before it is used."""
import re
from .. import core
from .c05 import Text, base, scan_pieces, SCANF
EXPLANATION = (
    "Every place where something from outside can be missing is followed under the assumption that it is: a file that "
    "cannot be opened, a network, rating or query file that cannot be read, a name that is not found, a matrix that "
    "cannot be formed, a field that cannot be converted, and each command-line argument. From there the control-flow "
    "graph is walked along the branches that the missing value allows (tests of it, of what is computed from it and of "
    "the number of arguments are evaluated; calls that never return end the walk). The same is done for every pointer that "
    "the code itself tests, such as the end of a list, from the branch on which it is missing, and, when it is set in a loop, from the start of that loop. Reaching a place that needs the "
    "value (it is dereferenced, handed to a routine that does so without a test of its own, or the text or number that "
    "was not read is used) is reported.")
RULE = "paths on which the value is missing do not reach a use (interprocedural: what a routine needs, what may come back missing)"
ASSUMPTIONS = ["memory can be allocated", "values parked in objects and arrays are not followed"]

SOURCES = {'fopen', 'hsearch', 'getenv', 'opendir', 'fdopen', 'freopen', 'popen', 'gsl_rng_alloc?'}
# library routines whose result is missing when the input is bad (found by the fixpoint below when they stop returning
# NULL themselves); lookups of names that come from the network itself are not among them
FROM_OUTSIDE = {'FBuildNetwork', 'FBuildNetworkBipart', 'ReadRecommenderObservations', 'ReadQueries', 'LaplacianMat',
                'AdjacencyMat', 'LaplacianSpectrum', 'FReadPartition', 'FCreatePartition'}
STATUS = {'EdgeListFileInput'}
NEEDS = {'fclose': [0], 'fprintf': [0], 'fscanf': [0], 'fgets': [2], 'getline': [2], 'feof': [0], 'fputs': [1], 'fputc': [1],
         'fgetc': [0], 'ferror': [0], 'rewind': [0], 'fwrite': [3], 'fread': [3], 'fflush': [], 'strcmp': [0, 1],
         'strcpy': [0, 1], 'strcat': [0, 1], 'strlen': [0], 'atoi': [0], 'atof': [0], 'atol': [0], 'strtol': [0],
         'sscanf': [0], 'fopen': [0], 'gsl_vector_get': [0], 'gsl_matrix_get': [0], 'gsl_vector_free': []}
ALLOCATORS = {'malloc', 'calloc', 'realloc', 'strdup'}
NORETURN = {'exit', '_exit', 'abort', '__assert_fail', 'gsl_error?'}


def const_of(o):
    if o.startswith('i:') and o != 'i:big':
        return int(o[2:])
    return 0 if o == 'null' else None


class Walk:
    """paths from a point on under assumptions about some values"""

    def __init__(self, A, f, bound=None):
        self.A, self.f, self.bound = A, f, bound          # bound: counters beyond it are not followed

    def value(self, o, env):
        c = const_of(o)
        if c is not None:
            return c
        o = self.f.strip(o)
        c = const_of(o)
        if c is not None:
            return c
        if o in env:
            return env[o]
        return None

    def fold(self, i, env):
        v = [self.value(o, env) for o in i.ops]
        if i.op == 'icmp' and None not in v:
            a, b, p = v[0], v[1], i.pred
            if a == 'x' or b == 'x':
                return None
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[
                p if p in ('eq', 'ne') else p[1:]])
        if i.op == 'xor' and None not in v:
            return v[0] ^ v[1]
        if i.op in ('and', 'or') and (i.ty == 'i1'):
            if i.op == 'and' and 0 in v:
                return 0
            if i.op == 'or' and 1 in v:
                return 1
            if None not in v:
                return v[0] & v[1] if i.op == 'and' else v[0] | v[1]
        if i.op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze'):
            return v[0]
        if i.op in ('add', 'sub') and None not in v:
            r = v[0] + v[1] if i.op == 'add' else v[0] - v[1]
            return r if self.bound is None or abs(r) <= self.bound else None
        if i.op == 'select':
            if v[0] is not None:
                return v[1] if v[0] else v[2]
            return v[1] if v[1] is not None and v[1] == v[2] else None
        return None

    def run(self, start, env, visit, live=None):
        """start: (block, position after which to begin); visit(instr, env) -> True to end this path"""
        seen = set()
        work = [(start[0], start[1], None, env)]
        n = 0
        while work:
            b, pos, frm, env = work.pop()
            n += 1
            if n > 3000:
                return False
            env = dict(env)
            stop = False
            if frm is not None:
                new = {}
                for i in self.f.blocks[b]:
                    if i.op != 'phi':
                        break
                    new['%%%d' % i.id] = None
                    for o, x in zip(i.ops, i.inb):
                        if x == frm:
                            new['%%%d' % i.id] = self.value(o, env)
                for k, v in new.items():
                    if v is None:
                        env.pop(k, None)
                    else:
                        env[k] = v
            for i in self.f.blocks[b]:
                if i.pos <= pos or i.op == 'phi':
                    continue
                if visit(i, env):
                    stop = True
                    break
                if i.op in ('call', 'invoke') and i.callee and self.A.never_returns(i.callee):
                    stop = True
                    break
                if i.op == 'unreachable':
                    stop = True
                    break
                me = '%%%d' % i.id
                if i.op not in ('load', 'call', 'store', 'br', 'switch', 'ret'):
                    v = self.fold(i, env)
                    if v is None:
                        env.pop(me, None)
                    else:
                        env[me] = v
                elif me in env and i.pos > pos and frm is not None and env.get(('own', me)):
                    pass
            if stop:
                continue
            t = self.f.term(b)
            if t.op == 'br' and len(t.succ) == 2:
                v = self.value(t.ops[0], env)
                outs = [s for n_, s in enumerate(t.succ) if v is None or (v & 1) == 1 - n_]
            elif t.op == 'switch':
                v = self.value(t.ops[0], env)
                if v is None:
                    outs = list(self.f.succ[b])
                else:
                    outs = [s for c, s in t.cases if int(c) == v] or [t.default]
            else:
                outs = list(self.f.succ[b])
            for s in outs:
                if live is not None and s not in live:
                    continue
                k = (s, b if any(i.op == 'phi' for i in self.f.blocks[s][:1]) else None,
                     tuple(sorted((x, y) for x, y in env.items() if isinstance(x, str))))
                if k in seen:
                    continue
                seen.add(k)
                work.append((s, -1, b, env))
        return True


class Analysis:
    def __init__(self, P):
        self.T = Text(P, 'ssa')
        self.fns = self.T.fns
        self.nr, self.need, self.missing = {}, {}, {}
        self.sources = set(SOURCES) | {n for n in FROM_OUTSIDE if n in self.fns and self.may_miss(n)}
        changed = True
        while changed:
            changed = False
            for n, fs in self.fns.items():
                if n in self.sources or n == 'main':
                    continue
                if any(self.hands_on(f) for f in fs):
                    self.sources.add(n)
                    changed = True

    def may_miss(self, n):
        """returns NULL (of its own) on some path"""
        def go(f, o, seen):
            o = f.strip(o)
            if o == 'null':
                return True
            if o in seen:
                return False
            seen.add(o)
            i = f.val(o)
            return i is not None and i.op in ('phi', 'select') and any(
                go(f, x, seen) for x in (i.ops if i.op == 'phi' else i.ops[1:]))
        return any(go(f, r.ops[0], set()) for f in self.fns[n] for r in f.ins.values() if r.op == 'ret' and r.ops)

    def hands_on(self, f):
        """returns the missing result of a source without an alternative"""
        for c in f.ins.values():
            if c.op == 'call' and c.callee in self.sources and c.callee != f.name:
                got = []

                def visit(i, env, got=got):
                    if i.op == 'ret' and i.ops and not const_of(i.ops[0]) == 0:
                        s = f.strip(i.ops[0])
                        if env.get(s) == 0 and s in env and self.related(f, s, '%%%d' % c.id):
                            got.append(i)
                    return i is c
                Walk(self, f).run((c.blk, c.pos), {'%%%d' % c.id: 0}, visit)
                if got:
                    return True
        return False

    @staticmethod
    def related(f, o, v, seen=None):
        seen = seen if seen is not None else set()
        o = f.strip(o)
        if o == v:
            return True
        if o in seen:
            return False
        seen.add(o)
        i = f.val(o)
        return i is not None and i.op in ('phi', 'select') and any(
            Analysis.related(f, x, v, seen) for x in (i.ops if i.op == 'phi' else i.ops[1:]))

    def never_returns(self, name):
        b = base(name)
        if b in NORETURN:
            return True
        if name not in self.fns:
            return False
        if name in self.nr:
            return self.nr[name]
        self.nr[name] = False
        r = True
        for f in self.fns[name]:
            hit = []
            Walk(self, f).run((0, -1), {}, lambda i, env: (hit.append(i) or True) if i.op == 'ret' else False)
            r = r and not hit
        self.nr[name] = r
        return r

    def needs(self, name, k):
        """the routine uses its k-th argument although it is missing"""
        b = base(name)
        if b in NEEDS:
            return k in NEEDS[b]
        if name not in self.fns:
            return False
        key = (name, k)
        if key in self.need:
            return self.need[key]
        self.need[key] = False
        r = False
        for f in self.fns[name]:
            hit = []
            Walk(self, f).run((0, -1), {'a%d' % k: 0}, lambda i, env: self.hard(f, i, env, hit))
            r = r or bool(hit)
        self.need[key] = r
        return r

    def hard(self, f, i, env, hit, of=None):
        """i needs a value that is missing (0) in env (and comes from 'of', if given)"""
        def gone(o):
            o = f.strip(o)
            return o[:1] in '%a' and env.get(o) == 0 and (of is None or self.related(f, o, of))
        if i.op == 'load' and gone(self.root(f, i.ops[0])) or i.op == 'store' and gone(self.root(f, i.ops[1])):
            hit.append(i)
            return True
        if i.op in ('call', 'invoke') and i.callee:
            for k, o in enumerate(i.ops):
                if gone(o) and self.ptr(f, o) and self.needs(i.callee, k):
                    hit.append(i)
                    return True
        return False

    @staticmethod
    def ptr(f, o):
        i = f.val(f.strip(o))
        return i is None or i.ty in (None, 'ptr')

    @staticmethod
    def root(f, o):
        """pointer an address is formed from"""
        o = f.strip(o)
        i = f.val(o)
        while i is not None and i.op == 'getelementptr':
            o = f.strip(i.ops[0])
            i = f.val(o)
        return o


def run(ctx):
    P = core.program(modes=('ssa',))
    A = Analysis(P)
    T = A.T
    n = {'missing results followed': 0, 'arguments followed': 0, 'conversions followed': 0, 'statuses followed': 0,
         'tested pointers followed': 0}
    for f in T.all:
        W = Walk(A, f)
        for c in sorted(f.ins.values(), key=lambda i: i.id):
            if c.op not in ('call', 'invoke') or not c.callee:
                continue
            b = base(c.callee)
            if c.callee in A.sources or b in A.sources:
                if b == 'hsearch' and not any(o == 'i:0' for o in c.ops):
                    continue                              # ENTER
                n['missing results followed'] += 1
                me = '%%%d' % c.id
                hit = []
                done = W.run((c.blk, c.pos), {me: 0}, lambda i, env: i is c or A.hard(f, i, env, hit))
                if not done and not hit:
                    ctx.count('given up')
                h = hit[0] if hit else None
                ctx.ob(not hit, '%s:%s' % (f.name, b), h.loc() if h else '',
                       'the result of %s (line %s) may be missing here (%s)' % (b, c.line, f.name),
                       '%s: a missing result of %s (line %s) reaches no use' % (f.name, b, c.line))
            if b in SCANF:
                scan(ctx, A, f, c, SCANF[b], n)
            if c.callee in STATUS:
                status(ctx, A, f, c, n)
        tested(ctx, A, f, n)
        if f.name == 'main':
            arguments(ctx, A, f, n)
    for k, v in n.items():
        ctx.cov[k] = v
    ctx.cov['routines whose result may be missing'] = sorted(A.sources & set(A.fns))
    ctx.need('missing results followed', n['missing results followed'], 30)
    ctx.need('arguments followed', n['arguments followed'], 20)
    ctx.need('tested pointers followed', n['tested pointers followed'], 200)


def tested(ctx, A, f, n):
    """what the code itself found to be missing (the end of a list, a name that was not found) is not used after that"""
    W = Walk(A, f, 1)
    users = {}                                            # value -> instructions it is an operand of
    for i in f.ins.values():
        for o in i.ops:
            users.setdefault(o, []).append(i)

    def live(x):
        """blocks from which a use of x, or of what may be x, is reached"""
        todo, seen, blocks = [x], {x}, set()
        while todo:
            for i in users.get(todo.pop(), ()):
                me = '%%%d' % i.id
                if i.op in ('phi', 'select', 'bitcast', 'getelementptr', 'freeze'):
                    if me not in seen:
                        seen.add(me)
                        todo.append(me)
                elif i.op in ('load', 'store', 'call', 'invoke'):
                    blocks.add(i.blk)
        todo = list(blocks)
        while todo:
            for q in pred[todo.pop()]:
                if q not in blocks:
                    blocks.add(q)
                    todo.append(q)
        return blocks
    pred = {b: [] for b in range(len(f.blocks))}
    for b, ss in enumerate(f.succ):
        for s in ss:
            pred[s].append(b)
    after = {}

    def reach(b):
        if b not in after:
            todo, seen = [b], set()
            while todo:
                for s in f.succ[todo.pop()]:
                    if s not in seen:
                        seen.add(s)
                        todo.append(s)
            after[b] = seen
        return after[b]
    for c in sorted(f.ins.values(), key=lambda i: i.id):
        if c.op != 'icmp' or c.pred not in ('eq', 'ne') or c.ops.count('null') != 1:
            continue
        x = f.strip(c.ops[1 - c.ops.index('null')])
        d = f.val(x)
        if d is not None and d.op in ('call', 'invoke') and base(d.callee or '') in ALLOCATORS:
            continue
        if d is None and x[:1] != 'a':
            continue
        n['tested pointers followed'] += 1
        hit = []
        done = W.run((c.blk, c.pos - 1), {x: 0}, lambda i, env: A.hard(f, i, env, hit, x) or i is d, live(x))
        if d is not None and d.op == 'phi' and not hit and any(
                o == 'null' and y not in reach(d.blk) for o, y in zip(d.ops, d.inb)) and c.blk in reach(d.blk) and \
                d.blk in reach(c.blk):
            # set in a loop, and tested there: the loop may not have come to setting it
            n['pointers set in a loop followed'] = n.get('pointers set in a loop followed', 0) + 1
            done = W.run((d.blk, d.pos), {x: 0}, lambda i, env: A.hard(f, i, env, hit, x) or i is d, live(x))
        if not done and not hit:
            ctx.count('given up')
        h = hit[0] if hit else None
        ctx.ob(not hit, '%s:end' % f.name, h.loc() if h else '',
               'what is tested in line %s and found missing is used here (%s)' % (c.line, f.name),
               '%s: what is found missing in line %s is not used after that' % (f.name, c.line))


def arguments(ctx, A, f, n):
    """argv[k] is read only when there are more than k arguments"""
    reads = {}
    for i in f.ins.values():
        if i.op == 'load':
            g = f.val(f.strip(i.ops[0]))
            if g is not None and g.op == 'getelementptr' and f.strip(g.ops[0]) == 'a1' and len(g.path) == 1:
                k = const_of(f.strip(g.path[0][2]))
                if k is not None:
                    reads.setdefault(k, []).append(i)
    for k, ls in sorted(reads.items()):
        if k == 0:
            continue
        ids = {i.id for i in ls}
        hit = []
        for argc in range(1, k + 1):
            Walk(A, f).run((0, -1), {'a0': argc}, lambda i, env: (hit.append((argc, i)) or True) if i.id in ids else False)
        n['arguments followed'] += 1
        ctx.ob(not hit, '%s:argv[%d]' % (f.file, k), hit[0][1].loc() if hit else '',
               'argument %d is used although only %d may have been given' % (k, hit[0][0] - 1 if hit else 0),
               '%s: argument %d is used only when given' % (f.file, k))


def outs(f, i, k):
    """objects of this routine that a reading call fills"""
    r = []
    for o in i.ops[k:]:
        d = Analysis.root(f, o)
        v = f.val(d)
        r.append((d, v))
    return r


def preset(f, d, v, i):
    """the object has a value of its own before the call"""
    for j in f.uses(d):
        if j.op == 'store' and j.ops[1] == d and f.idominates(j, i):
            return True
    return False


def scan(ctx, A, f, c, k, n):
    fm = (A.T.fmts(f, c.ops[k]) or [None])[0]
    ps = scan_pieces(fm) if fm else None
    if ps is None:
        return
    conv = [p for p in ps if p.group('c') not in '%n' and not p.group('sup')]
    args = outs(f, c, k + 1)
    me = '%%%d' % c.id
    for q, ((d, v), p) in enumerate(zip(args, conv)):
        if v is None or v.op != 'alloca' or preset(f, d, v, c):
            continue
        n['conversions followed'] += 1
        hit = []
        W = Walk(A, f)
        for got in [-1] + list(range(q + 1)):
            def visit(i, env):
                if i is c:
                    return True
                if i.op == 'load' and Analysis.root(f, i.ops[0]) == d:
                    hit.append((got, i))
                    return True
                if i.op == 'store' and i.ops[1] == d:
                    return True
                if i.op in ('call', 'invoke') and not (i.callee or '').startswith('llvm.') and any(
                        o[:1] == '%' and Analysis.root(f, o) == d for o in i.ops):
                    if base(i.callee) in SCANF:
                        return True                       # read anew: followed from there
                    hit.append((got, i))
                    return True
                return False
            W.run((c.blk, c.pos), {me: got}, visit)
            if hit:
                break
        ctx.ob(not hit, '%s:%s:%s' % (f.name, base(c.callee), ''.join(x for x in p.group(0) if x.isprintable())), hit[0][1].loc() if hit else '',
               'a field that was not read (line %s, %s) is used here (%s)' % (
                   c.line, 'end of the input' if hit and hit[0][0] < 0 else 'only %d read' % (hit[0][0] if hit else 0), f.name),
               '%s: %s of line %s is used only when it was read' % (f.name, p.group(0), c.line))


def status(ctx, A, f, c, n):
    """results of a reader that says it failed are not used"""
    n['statuses followed'] += 1
    ds = [d for d, v in outs(f, c, 0) if v is not None and v.op == 'alloca']
    hit = []

    def visit(i, env):
        if i is c:
            return True
        if i.op == 'load' and Analysis.root(f, i.ops[0]) in ds:
            hit.append(i)
            return True
        return False
    Walk(A, f).run((c.blk, c.pos), {'%%%d' % c.id: 1}, visit)
    ctx.ob(not hit, '%s:%s' % (f.name, c.callee), hit[0].loc() if hit else '',
           'what %s (line %s) should have read is used although it reported a failure' % (c.callee, c.line),
           '%s: nothing is used after a failure of %s' % (f.name, c.callee))
