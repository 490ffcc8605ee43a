"""Write effects: which fields of which structures a function may change in objects it did not create itself."""
from collections import defaultdict
from . import own

LINKREF = {('node_lis', 'ref'), ('node_bfs', 'ref'), ('pred', 'ref'), ('query', 'n1'), ('query', 'n2'),
           ('node_tree', 'ref'), ('node_bfs', 'pred')}


class Effects:
    def __init__(self, P, S=None, fns=None):
        self.S = S or own.Summaries(P)
        self.fns = fns or P.libfns()
        self.mods = {n: {} for n in self.fns}       # (root, struct, field) -> example instr
        self._fix()

    # ---- where does a pointer value come from -------------------------------------------
    def roots(self, f, o, seen=None):
        """set of ('arg',k) | 'fresh' | 'ext' | 'stack' | 'glob'"""
        key = (f, o)
        seen = set() if seen is None else seen
        if o in seen:
            return set()
        seen.add(o)
        if o in ('null', 'undef') or o.startswith(('i:', 'f:')):
            return set()
        if o[0] == '@':
            return {'glob'}
        if o[0] == 'a' and o[1:].isdigit():
            return {('arg', int(o[1:]))}
        i = f.val(o)
        if i is None:
            return {'ext'}
        if i.op in ('getelementptr', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
            return self.roots(f, i.ops[0], seen)
        if i.op == 'alloca':
            return {'stack'}
        if i.op in ('phi', 'select'):
            r = set()
            for q in (i.ops if i.op == 'phi' else i.ops[1:]):
                r |= self.roots(f, q, seen)
            return r
        if i.op == 'call' and i.callee == 'GetNodeDict':
            d = f.val(f.strip(i.ops[1]))
            if d is not None and d.op == 'load' and any(u.op == 'call' and u.callee == 'tsearch'
                                                        for u in f.uses(d.ops[0])):
                st = self.tree_refs(f)
                if st:
                    r = set()
                    for u in st:
                        r |= self.roots(f, u.ops[0], seen)
                    return r
        if i.op == 'call' and i.callee in RET_INSIDE:
            return self.roots(f, i.ops[RET_INSIDE[i.callee]], seen)
        if i.op == 'call':
            if i.callee in self.S.fresh or i.callee in own.CTORS:
                return {'fresh'}
            r = set()
            for k in self.S.retarg.get(i.callee, ()):
                if k < len(i.ops):
                    r |= self.roots(f, i.ops[k], seen)
            return r or {'ext'}
        if i.op == 'load':
            g = f.val(i.ops[0])
            base = self.roots(f, i.ops[0], seen)
            if g is not None and g.op == 'alloca':
                r = set()
                for u in f.uses(i.ops[0]):
                    if u.op == 'store' and u.ops[1] == i.ops[0]:
                        r |= self.roots(f, u.ops[0], seen)
                    elif u.op == 'call' and not u.callee.startswith('llvm.'):
                        r |= {'ext'}
                return r or {'ext'}
            if g is not None and g.op == 'getelementptr' and g.path[-1][0] == 'f':
                fld = (g.path[-1][1], g.path[-1][2])
                if fld == ('node_tree', 'ref'):
                    st = self.tree_refs(f)
                    if st:
                        base = set()
                        for u in st:
                            base |= self.roots(f, u.ops[0], seen)
                        return base
                if fld in LINKREF and base & {'fresh', 'stack'}:
                    return (base - {'fresh', 'stack'}) | {'ext'}
                return base
            # element of an array of pointers
            if base & {'fresh', 'stack'}:
                return (base - {'fresh', 'stack'}) | self.array_roots(f, g.ops[0] if g is not None and g.op == 'getelementptr' else i.ops[0], seen)
            return base
        return {'ext'}

    @staticmethod
    def tree_refs(f):
        return [u for u in f.all() if u.op == 'store' and u.sty == 'ptr' and f.addr(u.ops[1])[2] and
                f.addr(u.ops[1])[2][-1][1:] == ('node_tree', 'ref')]

    def array_roots(self, f, arr, seen):
        """what has been stored in a local array of pointers"""
        e = f.ex(arr)
        r = set()
        hit = False
        for i in f.all():
            if i.op == 'store' and i.ops[0][0] in '%a':
                g = f.val(i.ops[1])
                if g is not None and g.op == 'getelementptr' and f.ex(g.ops[0]) == e:
                    hit = True
                    r |= self.roots(f, i.ops[0], seen)
                elif g is not None and f.ex(i.ops[1]) == e:
                    hit = True
                    r |= self.roots(f, i.ops[0], seen)
            elif i.op == 'call' and not (i.callee or '').startswith('llvm.') and any(f.ex(o) == e for o in i.ops if o[0] == '%'):
                if i.callee not in ('free', 'calloc', 'malloc') and i.callee not in own.RELEASERS:
                    # a callee may have filled it
                    hit = True
                    for o in i.ops:
                        if o[0] in '%a' and f.ex(o) != e:
                            v = f.val(o)
                            if v is None or v.ty == 'ptr':
                                r |= self.roots(f, o, seen)
        return r if hit else {'ext'}

    def _fix(self):
        ch = True
        while ch:
            ch = False
            for n, f in self.fns.items():
                for (k, i) in self._local(f):
                    if k not in self.mods[n]:
                        self.mods[n][k] = i
                        ch = True

    def _local(self, f):
        for i in f.all():
            if i.op == 'store':
                r = self.roots(f, i.ops[1])
                fld = self.field(f, i.ops[1])
                if fld is None:
                    continue
                for x in r:
                    if x not in ('fresh', 'stack'):
                        yield (x,) + fld, i
            elif i.op == 'call' and i.callee in self.fns:
                for (x, st, fl) in list(self.mods[i.callee]):
                    if isinstance(x, tuple):
                        if x[1] >= len(i.ops):
                            continue
                        for y in self.roots(f, i.ops[x[1]]):
                            if y not in ('fresh', 'stack'):
                                yield (y, st, fl), i
                    elif x == 'ext':
                        # something reached through references of the arguments
                        ys = set()
                        for o in i.ops:
                            v = f.val(o)
                            if (v is not None and v.ty == 'ptr') or o[0] == 'a':
                                ys |= self.roots(f, o)
                        ys.discard('stack')
                        if 'fresh' in ys:
                            ys.discard('fresh')
                            ys.add('ext?')
                        for y in ys:
                            yield (y if y != 'ext?' else 'ext', st, fl), i
                    else:
                        yield (x, st, fl), i

    @staticmethod
    def field(f, op):
        """(struct, field) written, or ('', '[]') for a bare array/scalar"""
        A = f.addr(op)
        fs = [s for s in A[2] if s[0] == 'f']
        if fs:
            st = fs[-1][1]
            if st == 'node_lis':
                g = f.val(op)
                while g is not None and g.op == 'bitcast':
                    g = f.val(g.ops[0])
                if g is not None and g.op == 'getelementptr':
                    c = cursor_list(f, g.ops[0])
                    if c == {'neig'}:
                        st = 'link'
                    elif c == {'nodeList'}:
                        st = 'member'
            return (st, fs[-1][2])
        b = A[1]
        if b[0] == 'load':
            fs = [s for s in b[1][2] if s[0] == 'f']
            if fs:
                return (fs[-1][1], fs[-1][2] + '[]')
        return ('', '[]')

    def of(self, n):
        """{(struct, field): example} of foreign objects changed by n"""
        out = {}
        for (x, st, fl), i in self.mods[n].items():
            out.setdefault((st, fl), (x, i))
        return out


def cursor_list(f, o, seen=None):
    """field(s) of the list head a cursor walks"""
    seen = set() if seen is None else seen
    if o in seen:
        return set()
    seen.add(o)
    i = f.val(o)
    if i is None:
        return {'?'} if o[0] == 'a' else set()
    if i.op in ('bitcast', 'freeze'):
        return cursor_list(f, i.ops[0], seen)
    if i.op == 'phi':
        r = set()
        for q in i.ops:
            r |= cursor_list(f, q, seen)
        return r
    if i.op == 'load':
        g = f.val(i.ops[0])
        if g is not None and g.op == 'getelementptr' and g.path[-1][0] == 'f':
            if g.path[-1][2] == 'next':
                return cursor_list(f, g.ops[0], seen)
            return {g.path[-1][2]}
    return {'?'}


# accessors that return a pointer into their argument
RET_INSIDE = {'GetNode': 1, 'GetNodeDict': 1, 'GetGroup': 1, 'GetLink': 0, 'GetLastNode': 0, 'CreateNodeGraph': 0,
              'CreateGroup': 0, 'MakeLabelDict': 0, 'tsearch': 0, 'tfind': 1, 'GetEmptyGroup': 0, 'SelectRandomNode': 0}
