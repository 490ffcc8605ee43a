"""Ownership typestate: who owns an allocated object on each path, interprocedurally summarised.

For every allocation site the engine explores (block, state) pairs, where the state is the set of
SSA names / local slots that currently hold the object plus the branch outcomes already taken on
conditions that cannot change (so `if (sw) a = alloc(); ... if (sw) free(a);` is followed exactly).
Nothing is executed: the walk is a typestate dataflow with a bounded fact set."""
from collections import defaultdict

# constructor -> (kind, release functions)
KINDS = {
    'heap': {'free'},
    'file': {'fclose'},
    'graph': {'RemoveGraph'},
    'partition': {'RemovePartition'},
    'bipart': {'RemoveBipart'},
    'i_mat': {'free_i_mat'},
    'd_mat': {'free_d_mat'},
    'i_vec': {'free_i_vec', 'free'},
    'd_vec': {'free_d_vec', 'free'},
    'logchoose': {'FreeFastLogChoose'},
    'log': {'FreeFastLog'},
    'logfact': {'FreeFastLogFact'},
    'loggamma': {'FreeFastLogGamma'},
    'harmonic': {'FreeHarmonicList'},
    'Partition': {'FreePartition'},
    'AdjaArray': {'FreeAdjaArray'},
    'stack': {'stack_free'},
    'queue': {'queue_free'},
    'Stack': {'FreeStack'},
    'labeldict': {'FreeLabelDict'},
    'query': {'FreeQuery'},
    'nodetree': {'FreeNodeTree'},
    'bfslist': {'free'},
    'gsl_vector': {'gsl_vector_free'},
    'gsl_matrix': {'gsl_matrix_free'},
    'gsl_eigen': {'gsl_eigen_symm_free'},
    'gsl_solver': {'gsl_multiroot_fsolver_free'},
    'gsl_rng': {'gsl_rng_free'},
    'nodebox': {'FreeBox', 'free'},
}
CTORS = {
    'malloc': 'heap', 'calloc': 'heap', 'realloc': 'heap', 'strdup': 'heap', 'strndup': 'heap',
    'fopen': 'file', 'CreateHeaderGraph': 'graph', 'CreateHeaderGroup': 'partition', 'CreateBipart': 'bipart',
    'allocate_i_mat': 'i_mat', 'allocate_d_mat': 'd_mat', 'allocate_i_vec': 'i_vec', 'allocate_d_vec': 'd_vec',
    'InitializeFastLogChoose': 'logchoose', 'InitializeFastLog': 'log', 'InitializeFastLogFact': 'logfact',
    'InitializeFastLogGamma': 'loggamma', 'InitializeHarmonicList': 'harmonic', 'CreatePartition': 'Partition',
    'CreateAdjaArray': 'AdjaArray', 'stack_create': 'stack', 'queue_create': 'queue', 'CreateStack': 'Stack',
    'MakeLabelDict': 'labeldict', 'CreateQuery': 'query', 'CreateNodeTree': 'nodetree', 'CreateHeaderList': 'bfslist',
    'gsl_vector_alloc': 'gsl_vector', 'gsl_vector_calloc': 'gsl_vector', 'gsl_matrix_alloc': 'gsl_matrix',
    'gsl_matrix_calloc': 'gsl_matrix', 'gsl_eigen_symm_alloc': 'gsl_eigen',
    'gsl_multiroot_fsolver_alloc': 'gsl_solver', 'gsl_rng_alloc': 'gsl_rng', 'CreateNodeBox': 'nodebox'}
RELEASERS = set().union(*KINDS.values())
# external functions that keep (capture) or release an argument
EXT_CAPTURE = {'tsearch': {0}, 'gsl_multiroot_fsolver_set': set(), 'hsearch': {0, 1}}
EXT_FREE = {'free': 0, 'fclose': 0, 'realloc': 0, 'gsl_vector_free': 0, 'gsl_matrix_free': 0,
            'gsl_eigen_symm_free': 0, 'gsl_multiroot_fsolver_free': 0, 'gsl_rng_free': 0}


# arguments that are only linked into the very list they head: not a transfer of ownership
NOCAPTURE = {('Enqueue', 1), ('Enqueue', 2), ('EnqueueAdjaList', 0), ('EnqueueAdjaList', 1), ('RenewQueue', 0),
             ('RenewQueue', 1), ('Dequeue', 0), ('DequeueOne', 0), ('DequeueOne', 1), ('ClearList', 0)}


class Summaries:
    """param effects: (fn, k) -> 'free' | 'capture' | 'none'; fresh: fn -> kind or None"""

    def __init__(self, P):
        self.P = P
        self.fns = P.libfns()
        self.mustfree = {}
        self.mayfree = {}
        self.capture = {}
        self.retarg = defaultdict(set)
        self.fresh = {}
        self._param_effects()
        self._fresh()

    def callee_free(self, c):
        """index of the argument the callee always releases, or None"""
        if c in EXT_FREE:
            return EXT_FREE[c]
        return self.mustfree.get(c)

    def is_captured(self, c, k):
        if (c, k) in NOCAPTURE:
            return False
        if c in EXT_CAPTURE:
            return k in EXT_CAPTURE[c]
        return k in self.capture.get(c, ())

    # -- fixpoints
    def _param_effects(self):
        cap = {n: set() for n in self.fns}
        mayfree = {n: set() for n in self.fns}
        ch = True
        while ch:
            ch = False
            for n, f in self.fns.items():
                for k in range(len(f.args)):
                    if f.args[k][1] != 'ptr':
                        continue
                    c, fr, ret = self._flow(f, 'a%d' % k, cap, mayfree)
                    if ret and k not in self.retarg[n]:
                        self.retarg[n].add(k)
                        ch = True
                    if c and k not in cap[n]:
                        cap[n].add(k)
                        ch = True
                    if fr and k not in mayfree[n]:
                        mayfree[n].add(k)
                        ch = True
        self.capture = cap
        self.mayfree = mayfree
        # must-free: on every path to a return the argument (or its phi alias) is released
        ch = True
        while ch:
            ch = False
            for n, f in self.fns.items():
                if n in self.mustfree:
                    continue
                for k in mayfree[n]:
                    if self._must(f, 'a%d' % k):
                        self.mustfree[n] = k
                        ch = True
                        break

    def aliases(self, f, op):
        """names that may equal op (forward through phi/select/cast/slots)"""
        out, st = set(), [op]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            for u in f.uses(x):
                if u.op in ('phi', 'select', 'bitcast', 'freeze'):
                    st.append('%%%d' % u.id)
                elif u.op == 'call' and u.callee in self.retarg:
                    for k in self.retarg[u.callee]:
                        if k < len(u.ops) and u.ops[k] == x:
                            st.append('%%%d' % u.id)
                elif u.op == 'store' and u.ops[0] == x:
                    s = f.val(u.ops[1])
                    if s is not None and s.op == 'alloca' and s.aty == 'ptr':
                        for l in f.uses('%%%d' % s.id):
                            if l.op == 'load':
                                st.append('%%%d' % l.id)
        return out

    def _flow(self, f, op, cap, mayfree):
        c = fr = ret = False
        for x in self.aliases(f, op):
            for u in f.uses(x):
                if u.op == 'store' and u.ops[0] == x:
                    s = f.val(u.ops[1])
                    if s is None or s.op != 'alloca':
                        c = True
                elif u.op == 'ret':
                    ret = True
                elif u.op == 'call':
                    for k, o in enumerate(u.ops):
                        if o == x:
                            if u.callee in self.fns:
                                c |= k in cap[u.callee]
                                fr |= k in mayfree[u.callee]
                            else:
                                fr |= EXT_FREE.get(u.callee) == k
                                c |= k in EXT_CAPTURE.get(u.callee, ())
        return c, fr, ret

    def _must(self, f, op):
        al = self.aliases(f, op)
        done = set()
        for x in al:
            for u in f.uses(x):
                if u.op == 'call' and self.callee_free(u.callee) is not None:
                    k = self.callee_free(u.callee)
                    if k < len(u.ops) and u.ops[k] == x:
                        done.add(u.blk)
        if not done:
            return False
        st, seen = [0], set()
        while st:
            b = st.pop()
            if b in seen or b in done:
                continue
            seen.add(b)
            if not f.succ[b]:
                if f.term(b).op == 'ret':
                    return False
            t = f.term(b)
            skip = None
            if t.op == 'br' and len(t.ops) == 1:
                c = f.val(t.ops[0])
                if c is not None and c.op == 'icmp' and 'null' in c.ops and (c.ops[0] in al or c.ops[1] in al):
                    skip = t.succ[0] if c.pred == 'eq' else t.succ[1]
            st.extend(s for s in f.succ[b] if s != skip)
        return True

    def _fresh(self):
        for c, k in CTORS.items():
            self.fresh[c] = k
        ch = True
        while ch:
            ch = False
            for n, f in self.fns.items():
                if n in self.fresh or f.ret != 'ptr':
                    continue
                kinds = set()
                okf = True
                for b in f.exits:
                    t = f.term(b)
                    if t.op != 'ret':
                        continue
                    for o in self._leaves(f, t.ops[0]):
                        if o in ('null', 'undef'):
                            continue
                        i = f.val(o)
                        if i is not None and i.op == 'call' and i.callee in self.fresh and not self._captured(f, o):
                            kinds.add(self.fresh[i.callee])
                        else:
                            okf = False
                if okf and len(kinds) == 1:
                    self.fresh[n] = kinds.pop()
                    ch = True

    def _leaves(self, f, op, seen=None):
        seen = set() if seen is None else seen
        op = f.strip(op)
        if op in seen:
            return
        seen.add(op)
        i = f.val(op)
        if i is not None and i.op in ('phi', 'select'):
            for o in (i.ops if i.op == 'phi' else i.ops[1:]):
                yield from self._leaves(f, o, seen)
        elif i is not None and i.op == 'call' and i.callee in self.retarg and i.callee not in self.fresh:
            for k in self.retarg[i.callee]:
                yield from self._leaves(f, i.ops[k], seen)
            if not self.retarg[i.callee]:
                yield op
        elif i is not None and i.op == 'load':
            s = f.val(i.ops[0])
            if s is not None and s.op == 'alloca' and s.aty == 'ptr':
                for u in f.uses(i.ops[0]):
                    if u.op == 'store' and u.ops[1] == i.ops[0]:
                        yield from self._leaves(f, u.ops[0], seen)
                return
            yield op
        else:
            yield op

    def _captured(self, f, op):
        for x in self.aliases(f, op):
            for u in f.uses(x):
                if u.op == 'store' and u.ops[0] == x:
                    s = f.val(u.ops[1])
                    if s is None or s.op != 'alloca':
                        # storing into the object itself is not a capture
                        a = f.addr(u.ops[1])
                        if a[1] != f.ex(op):
                            return True
                elif u.op == 'call':
                    for k, o in enumerate(u.ops):
                        if o == x and self.is_captured(u.callee, k):
                            return True
        return False


def stable_conds(f):
    """branch conditions whose value cannot change between two tests: functions of arguments and
    constants only. returns {block: (canon, {succ: value})}"""
    def pure(e):
        if not isinstance(e, tuple):
            return True
        if e[0] in ('int', 'flt', 'arg', 'null', 'str', 'glob'):
            return True
        if e[0] == 'phi':
            return const_phi(f, e[1])
        if e[0] in ('cmp', 'op', 'bool', 'neg', 'ftoi', 'sel'):
            return all(pure(x) for x in e[1:])
        return False

    inv = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult',
           'ugt': 'ule', 'ule': 'ugt'}
    out = {}
    for b in range(f.n):
        t = f.term(b)
        if t.op == 'br' and len(t.ops) == 1 and t.succ[0] != t.succ[1]:
            e = f.ex(t.ops[0])
            if not pure(e):
                continue
            if e[0] == 'cmp' and e[1] in ('eq', 'ne') and e[3][0] == 'int':
                v = ('eqc', e[2], e[3][1])
                out[b] = [(t.succ[0], v, e[1] == 'eq'), (t.succ[1], v, e[1] != 'eq')]
            elif e[0] == 'cmp' and e[1] in inv:
                p, neg = e[1], False
                if p in ('ne', 'sge', 'sle', 'uge', 'ule'):
                    p, neg = inv[p], True
                v = ('c', p, e[2], e[3])
                out[b] = [(t.succ[0], v, not neg), (t.succ[1], v, neg)]
            else:
                out[b] = [(t.succ[0], e, True), (t.succ[1], e, False)]
        elif t.op == 'switch':
            e = f.ex(t.ops[0])
            if not pure(e):
                continue
            L = []
            targets = defaultdict(list)
            for v, s in t.cases:
                targets[s].append(v)
            for s, vs in targets.items():
                if len(vs) == 1 and s != t.default:
                    L.append((s, ('eqc', e, vs[0]), True))
            out[b] = L
            out[b] += [(t.default, ('eqc', e, v), False) for v, s in t.cases if t.default not in targets]
    return out


def const_phi(f, iid, seen=()):
    """phi whose incoming values are integer constants or other such phis (a flag variable)"""
    i = f.ins[iid]
    if i.op != 'phi':
        return False
    if iid in seen:
        return True
    for o in i.ops:
        if o.startswith('i:'):
            continue
        j = f.val(o)
        if j is None or j.op != 'phi' or not const_phi(f, j.id, seen + (iid,)):
            return False
    return True


def has_phi(k, pid):
    if not isinstance(k, tuple):
        return False
    if len(k) == 2 and k[0] == 'phi' and k[1] == pid:
        return True
    return any(has_phi(x, pid) for x in k)


def fact_add(facts, key, val):
    """returns new frozenset or None when contradictory"""
    for k, v in facts:
        if k == key:
            return facts if v == val else None
        if k[0] == 'eqc' and key[0] == 'eqc' and k[1] == key[1] and v and val and k[2] != key[2]:
            return None
    if key[0] == 'eqc' and not val:
        for k, v in facts:
            if k[0] == 'eqc' and k[1] == key[1] and v and k[2] != key[2]:
                return facts
    return facts | {(key, val)}


def has_any_phi(k):
    if not isinstance(k, tuple):
        return False
    if len(k) == 2 and k[0] == 'phi':
        return True
    return any(has_any_phi(x) for x in k)


class Walker:
    """explores (block, holders, status, facts) from a start instruction"""

    def __init__(self, S, f):
        self.S = S
        self.f = f
        sc = stable_conds(f)
        cnt = defaultdict(int)
        for b, L in sc.items():
            for k in {x[1] for x in L}:
                cnt[k if k[0] != 'eqc' else ('eqc', k[1])] += 1
        self.sc = {b: [x for x in L if cnt[x[1] if x[1][0] != 'eqc' else ('eqc', x[1][1])] > 1 or has_any_phi(x[1])]
                   for b, L in sc.items()}
        self.flagphis = {i.id for i in f.all() if i.op == 'phi' and const_phi(f, i.id)}
        self._live = None

    def livein(self):
        """SSA liveness: names live at the end of each block"""
        if self._live is None:
            f = self.f
            use = [set() for _ in range(f.n)]
            dfn = [set() for _ in range(f.n)]
            phiuse = [set() for _ in range(f.n)]
            for b in range(f.n):
                for i in f.blocks[b]:
                    if i.op == 'phi':
                        for o, p in zip(i.ops, i.inb):
                            phiuse[p].add(o)
                    else:
                        for o in i.ops:
                            if o not in dfn[b]:
                                use[b].add(o)
                    dfn[b].add('%%%d' % i.id)
            lin = [set() for _ in range(f.n)]
            lout = [set() for _ in range(f.n)]
            ch = True
            while ch:
                ch = False
                for b in range(f.n - 1, -1, -1):
                    o = set(phiuse[b])
                    for s in f.succ[b]:
                        o |= lin[s]
                    i2 = use[b] | (o - dfn[b])
                    if o != lout[b] or i2 != lin[b]:
                        lout[b], lin[b] = o, i2
                        ch = True
            self._live = lout
        return self._live

    def live_after(self, i, name):
        f = self.f
        if name in self.livein()[i.blk]:
            return True
        return any(name in j.ops for j in f.blocks[i.blk][i.pos + 1:])

    def facts_into(self, b):
        """facts that hold on entry to block b because b is dominated by the branch edge"""
        f = self.f
        facts = frozenset()
        for c, L in self.sc.items():
            if f.dominates(c, b) and c != b:
                for s, k, v in L:
                    if s != b and f.dominates(s, b) and len(f.pred[s]) == 1 or (s == b and len(f.pred[s]) == 1):
                        nf = fact_add(facts, k, v)
                        if nf is not None:
                            facts = nf
        return facts

    def edge(self, b, s, state):
        """state after following b->s, or None if contradictory"""
        f = self.f
        holders, status, facts = state
        for t, k, v in self.sc.get(b, ()):
            if t == s:
                facts = fact_add(facts, k, v)
                if facts is None:
                    return None
        t = f.term(b)
        if t.op == 'br' and len(t.ops) == 1 and t.succ[0] != t.succ[1]:
            c = f.val(t.ops[0])
            if c is not None and c.op == 'icmp' and 'null' in c.ops and c.pred in ('eq', 'ne'):
                x = c.ops[0] if c.ops[1] == 'null' else c.ops[1]
                if x in holders:
                    isnull = s == (t.succ[0] if c.pred == 'eq' else t.succ[1])
                    if isnull:
                        return None
        h = set(holders)
        add, rem = set(), set()
        newf = []
        for i in f.blocks[s]:
            if i.op != 'phi':
                break
            if i.id in self.flagphis:
                for o, pb in zip(i.ops, i.inb):
                    if pb == b:
                        if o.startswith('i:'):
                            newf.append((i.id, int(o[2:])))
                        else:
                            src = ('phi', int(o[1:]))
                            vals = [k[2] for k, v in facts if k[0] == 'eqc' and k[1] == src and v]
                            newf.append((i.id, vals[0] if vals else None))
            for o, pb in zip(i.ops, i.inb):
                if pb == b:
                    n = '%%%d' % i.id
                    if o in holders:
                        add.add(n)
                    else:
                        rem.add(n)
        h = (h - rem) | add
        if newf:
            ids = {p for p, v in newf}
            facts = frozenset((k, v) for k, v in facts if not any(has_phi(k, p) for p in ids)) | \
                frozenset((('eqc', ('phi', p), v), True) for p, v in newf if v is not None)
        return (frozenset(h), status, facts)


def leaks(S, f):
    """yield (alloc instr, kind, where, why)"""
    W = Walker(S, f)
    for a in f.calls():
        if a.callee not in S.fresh:
            continue
        kind = S.fresh[a.callee]
        yield from leak_site(S, W, f, a, kind)


def leak_site(S, W, f, a, kind):
    me = '%%%d' % a.id
    start = (frozenset([me]), 'live', W.facts_into(a.blk))
    yield from walk(S, W, f, [(a.blk, a.pos + 1, start)], a, kind)


def walk(S, W, f, work, a, kind):
    seen = set()
    res = {}
    steps = 0
    while work:
        b, pos, st = work.pop()
        if pos == 0:
            if (b, st) in seen:
                continue
            seen.add((b, st))
        steps += 1
        if steps > 60000:
            res[('cap',)] = (a, kind, a, 'state space too large')
            break
        holders, status, facts = st
        h = set(holders)
        dead = False
        for i in f.blocks[b][pos:]:
            if i.op == 'phi':
                continue
            n = '%%%d' % i.id
            if i is a and not any(o in h for k, o in enumerate(i.ops) if S.callee_free(i.callee) == k):
                h.discard(n)
                if any((x[0] == 'slot') or W.live_after(i, x) for x in h if x != n and (isinstance(x, tuple) or x[0] == '%')):
                    continue
                res[('loop',)] = (a, kind, i, 'allocated again in a loop while the previous object is still held')
                dead = True
                break
            if i.op in ('bitcast', 'freeze') and i.ops[0] in h:
                h.add(n)
            elif i.op == 'select' and (i.ops[1] in h or i.ops[2] in h):
                h.add(n)
            elif i.op == 'load':
                if ('slot', i.ops[0]) in h:
                    h.add(n)
                else:
                    h.discard(n)
            elif i.op == 'store':
                s = f.val(i.ops[1])
                slot = s is not None and s.op == 'alloca' and s.aty == 'ptr'
                if i.ops[0] in h:
                    if slot:
                        h.add(('slot', i.ops[1]))
                    else:
                        root = f.addr(i.ops[1])[1]
                        if not any(isinstance(x, str) and f.ex(x) == root for x in h):
                            dead = True
                            break
                elif slot:
                    h.discard(('slot', i.ops[1]))
            elif i.op == 'call':
                hit = None
                for k, o in enumerate(i.ops):
                    if o in h:
                        fr = S.callee_free(i.callee)
                        if fr == k:
                            hit = 'free'
                        elif S.is_captured(i.callee, k) and hit is None:
                            hit = 'cap'
                        elif k in S.mayfree.get(i.callee, ()) and hit is None:
                            hit = 'cap'
                        elif k in S.retarg.get(i.callee, ()):
                            h.add(n)
                if hit == 'free':
                    if i.callee in RELEASERS and i.callee not in KINDS[kind] and \
                            not (kind == 'heap' and i.callee in S.fns):
                        res[('wrong', i.callee)] = (a, kind, i, 'released with %s(), but this object is released with %s()'
                                                    % (i.callee, '/'.join(sorted(KINDS[kind]))))
                    dead = True
                    break
                if hit:
                    dead = True
                    break
            elif i.op == 'ret':
                if i.ops and i.ops[0] in h:
                    dead = True
                    break
                res[('ret', i.blk)] = (a, kind, i, 'still owned when the function returns')
                dead = True
                break
        if dead:
            continue
        st = (frozenset(h), status, facts)
        for s in f.succ[b]:
            ns = W.edge(b, s, st)
            if ns is not None:
                work.append((s, 0, ns))
    yield from res.values()


# fields through which an object owns another: a deep release of the object releases these too
OWNED = {('node_gra', 'next'), ('node_gra', 'neig'), ('node_gra', 'label'), ('node_lis', 'next'),
         ('node_lis', 'nodeLabel'), ('group', 'next'), ('group', 'nodeList'), ('group', 'offspr'), ('binet', 'net1'), ('binet', 'net2'),
         ('node_tree', 'label'), ('Partition', 'modules'), ('Partition', 'nodes'), ('AdjaArray', 'idx'),
         ('AdjaArray', 'neighbors'), ('AdjaArray', 'strength'), ('pred', 'next'), ('Stack', 'items')}
DEEP = {'RemoveGraph', 'RemovePartition', 'RemoveBipart', 'FreeNode', 'FreeAdjacencyList', 'FreeNodeLis',
        'FreePartition', 'FreeAdjaArray', 'ClearPredecessors', 'FreeNodeTree'}
NODEREF_OK = set()


def uses_after_release(S, f):
    """yield (release instr, use instr, description)"""
    W = Walker(S, f)
    for r in f.calls():
        k = S.callee_free(r.callee)
        if k is None or k >= len(r.ops):
            continue
        x = r.ops[k]
        if x in ('null', 'undef') or x.startswith('@'):
            continue
        yield from uaf_site(S, W, f, r, x)


def derived_before(S, f, r, x, deep):
    """names equal to x at the release, plus (for deep releases) names of what x owns"""
    src = f.strip(x)
    D = {x, src}
    if not deep:
        return D
    # casts of the same value
    ch = True
    while ch:
        ch = False
        for i in f.all():
            n = '%%%d' % i.id
            if n in D or i.ty != 'ptr':
                continue
            if i.op in CASTS and i.ops[0] in D:
                D.add(n)
                ch = True
            elif i.op == 'load':
                g = f.val(i.ops[0])
                if g is not None and g.op == 'getelementptr' and g.ops[0] in D and g.path and \
                        g.path[-1][0] == 'f' and (g.path[-1][1], g.path[-1][2]) in OWNED:
                    D.add(n)
                    ch = True
            elif i.op == 'phi':
                cand = [o for o in i.ops if o != n and o not in ('null', 'undef')]
                if f.val(x) is not None and not f.idominates(f.val(x), i):
                    continue        # could denote an earlier object from the same place
                # greatest fixpoint over one cycle: an input that is itself derived from this phi
                if cand and any(o in D for o in cand) and all(o in D or _derives(f, o, n, D) for o in cand):
                    D.add(n)
                    ch = True
    return D


CASTS = ('bitcast', 'freeze')


def _derives(f, o, phi, D, depth=0):
    if o == phi or o in D:
        return True
    i = f.val(o)
    if i is None or depth > 8:
        return False
    if i.op in CASTS:
        return _derives(f, i.ops[0], phi, D, depth + 1)
    if i.op == 'load':
        g = f.val(i.ops[0])
        if g is not None and g.op == 'getelementptr' and g.path and g.path[-1][0] == 'f' and \
                (g.path[-1][1], g.path[-1][2]) in OWNED:
            return _derives(f, g.ops[0], phi, D, depth + 1)
    if i.op == 'phi':
        return all(q in ('null', 'undef') or q == o or _derives(f, q, phi, D, depth + 1) for q in i.ops)
    return False


def uaf_site(S, W, f, r, x):
    names = derived_before(S, f, r, x, r.callee in DEEP)
    slots = set()
    # address the released pointer was loaded from: loading it again yields the released pointer
    src = f.val(f.strip(x))
    addr = None
    if src is not None and src.op == 'load':
        a = f.addr(src.ops[0])
        addr = a if unclobbered(S, f, src, r, a) else None
        s = f.val(src.ops[0])
        if s is not None and s.op == 'alloca':
            slots.add(('slot', src.ops[0]))
    start = (frozenset(names | slots), addr, W.facts_into(r.blk))
    work = [(r.blk, r.pos + 1, start)]
    seen, out, steps = set(), {}, 0
    while work:
        b, pos, st = work.pop()
        if pos == 0:
            if (b, st) in seen:
                continue
            seen.add((b, st))
        steps += 1
        if steps > 40000:
            out[('cap',)] = (r, r, 'state space too large')
            break
        holders, addr, facts = st
        h = set(holders)
        for i in f.blocks[b][pos:]:
            n = '%%%d' % i.id
            if i.op == 'phi':
                if addr is not None and mentions(addr, i.id):
                    addr = None
                continue
            h.discard(n)           # redefinition
            if addr is not None and mentions(addr, i.id):
                addr = None        # the address itself is recomputed (new iteration)
            if i.op in ('bitcast', 'freeze') and i.ops[0] in h:
                h.add(n)
            elif i.op == 'getelementptr' and i.ops[0] in h:
                h.add(n)
            elif i.op == 'load':
                if ('slot', i.ops[0]) in h:
                    h.add(n)
                elif i.ops[0] in h:
                    out[('use', i.id)] = (r, i, 'read')
                    h.discard(n)
                    h.add(n) if False else None
                elif addr is not None and f.addr(i.ops[0]) == addr and i.ty == 'ptr':
                    h.add(n)
            elif i.op == 'store':
                if i.ops[1] in h:
                    out[('use', i.id)] = (r, i, 'written')
                s = f.val(i.ops[1])
                if s is not None and s.op == 'alloca' and s.aty == 'ptr':
                    if i.ops[0] in h:
                        h.add(('slot', i.ops[1]))
                    else:
                        h.discard(('slot', i.ops[1]))
                if addr is not None and clobbers(f.addr(i.ops[1]), addr):
                    addr = None
            elif i.op == 'call':
                c = i.callee or ''
                if not c.startswith('llvm.'):
                    for o in i.ops:
                        if o in h:
                            out[('use', i.id)] = (r, i, 'released again' if S.callee_free(c) is not None else
                                                  'passed to %s()' % c)
                if addr is not None and c in S.fns and not c.startswith(('free_', 'Free')):
                    addr = None
            elif i.op == 'ret':
                if i.ops and i.ops[0] in h:
                    out[('use', i.id)] = (r, i, 'returned')
        for s in f.succ[b]:
            ns = W.edge(b, s, (frozenset(h), addr, facts))
            if ns is not None:
                work.append((s, 0, ns))
    yield from out.values()


def mentions(e, iid):
    if not isinstance(e, tuple):
        return False
    if e and e[0] in ('phi', 'call', 'alloca') and len(e) > 1 and e[1] == iid:
        return True
    return any(mentions(x, iid) for x in e)


def clobbers(store_addr, addr):
    """may a store to store_addr change the pointer kept at addr?"""
    fs = [s for s in store_addr[2] if s[0] == 'f']
    fa = [s for s in addr[2] if s[0] == 'f']
    if fs and fa:
        return fs[-1] == fa[-1]
    if not fs and not fa:
        return True
    return False


def unclobbered(S, f, load, r, addr):
    """no store between the load and the release can have changed what addr holds"""
    def bad(i):
        if i.op == 'store' and clobbers(f.addr(i.ops[1]), addr):
            return True
        if i.op == 'call' and i.callee in S.fns and S.callee_free(i.callee) is None:
            return True
        return mentions(addr, i.id) and i is not load
    if load.blk == r.blk and load.pos < r.pos:
        return not any(bad(i) for i in f.blocks[load.blk][load.pos + 1:r.pos])
    if any(bad(i) for i in f.blocks[load.blk][load.pos + 1:]):
        return False
    if any(bad(i) for i in f.blocks[r.blk][:r.pos]):
        return False
    for b in f.reach(load.blk):
        if b != r.blk and b != load.blk and r.blk in f.reach(b):
            if any(bad(i) for i in f.blocks[b]):
                return False
    return True
