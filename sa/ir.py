"""In-memory model of the rgraph program as LLVM IR dumped by irdump: functions, control
flow graph, dominators, loops, control dependence and canonical expressions."""
import json
import re
from functools import lru_cache

CAST_TRANSPARENT = {'sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fpext', 'bitcast', 'ptrtoint',
                    'inttoptr', 'freeze', 'fptrunc'}
COMMUT = {'add', 'fadd', 'mul', 'fmul', 'and', 'or', 'xor'}


class Instr:
    __slots__ = ('id', 'op', 'ty', 'ops', 'line', 'oline', 'names', 'ct', 'callee', 'cv', 'path', 'pred', 'oty',
                 'blk', 'pos', 'inb', 'succ', 'cases', 'default', 'aty', 'sz', 'arr', 'sty', 'at', 'fn')

    def __init__(self, d, blk, pos, fn):
        g = d.get
        self.id = d['i']
        self.op = d['op']
        self.ty = g('ty')
        self.ops = g('ops', [])
        self.line = g('l', 0)
        self.oline = g('lo', self.line)
        self.names = g('nm', [])
        self.ct = g('ct')
        self.callee = g('callee')
        self.cv = g('cv')
        self.path = g('path')
        self.pred = g('pred')
        self.oty = g('oty')
        self.inb = g('in')
        self.succ = g('succ')
        self.cases = g('cases')
        self.default = g('def')
        self.aty = g('aty')
        self.sz = g('sz')
        self.arr = g('arr')
        self.sty = g('sty')
        self.at = g('at')
        self.blk = blk
        self.pos = pos
        self.fn = fn

    def __repr__(self):
        return '<%s:%s %%%d %s %s>' % (self.fn.name, self.line, self.id, self.op, self.callee or '')

    def loc(self):
        return '%s:%d' % (self.fn.file, self.oline or self.line)


def settle(blocks):
    """a local that is set once on entry and then only read, possibly through pointers chosen between several such
    locals, is replaced by its value (the choice between addresses becomes the choice between values)"""
    ins = [x for il in blocks for x in il]
    by = {'%%%d' % x['i']: x for x in ins if 'i' in x}
    uses = {}
    for x in ins:
        for n, o in enumerate(x.get('ops', ())):
            if isinstance(o, str) and o in by:
                uses.setdefault(o, []).append((x, n))
    if not any(x['op'] == 'alloca' and any(u['op'] in ('phi', 'select') for u, n in uses.get(v, ())) for v, x in by.items()):
        return
    at = {id(x): (b, p) for b, il in enumerate(blocks) for p, x in enumerate(il)}
    succ = []
    for il in blocks:
        t = il[-1]
        succ.append(list(t['succ']) if t['op'] == 'br' else [t['def']] + [c[1] for c in t['cases']] if t['op'] == 'switch' else [])

    def reach(a, stop=None):
        seen, todo = set(), [a]
        while todo:
            for y in succ[todo.pop()]:
                if y not in seen and y != stop:
                    seen.add(y)
                    todo.append(y)
        return seen
    ok = {}
    for v, x in by.items():
        if x['op'] == 'alloca':
            st = [u for u, n in uses.get(v, ()) if u['op'] == 'store' and n == 1]
            if len(st) != 1:
                continue
            b, p = at[id(st[0])]
            if b in reach(b):
                continue            # set again and again
            early = (reach(0, b) | {0}) - {b} if b else set()
            for u, n in uses[v]:
                if u is st[0]:
                    continue
                c, q = at[id(u)]
                if u['op'] == 'phi':
                    c, q = u['in'][n], 1 << 30
                if c in early or (c == b and q < p):
                    break
            else:
                ok[v] = st[0]
        elif x['op'] in ('phi', 'select'):
            ok[v] = None
    ch = True
    while ch:
        ch = False
        for v in list(ok):
            x = by[v]
            bad = False
            for u, n in uses.get(v, ()):
                if u is ok[v] and n == 1:
                    continue
                if u['op'] == 'load':
                    continue
                w = '%%%d' % u['i'] if 'i' in u else None
                if u['op'] in ('phi', 'select') and w in ok and not (u['op'] == 'select' and n == 0):
                    continue
                bad = True
            if not bad and x['op'] in ('phi', 'select'):
                bad = any(o not in ok for o in (x['ops'] if x['op'] == 'phi' else x['ops'][1:]))
            if bad:
                del ok[v]
                ch = True
    for v, st in ok.items():
        if st is not None and any(u['op'] in ('phi', 'select') for u, n in uses[v]):
            break
    else:
        return
    for v, st in ok.items():
        x = by[v]
        for u, n in uses.get(v, ()):
            if u['op'] == 'load':
                u['op'] = 'bitcast'
                u['ops'] = [v if st is None else st['ops'][0]]
        if st is None:
            x['ops'] = [o if ok[o] is None else ok[o]['ops'][0] for o in x['ops']] if x['op'] == 'phi' else \
                x['ops'][:1] + [o if ok[o] is None else ok[o]['ops'][0] for o in x['ops'][1:]]
    gone = {id(st) for st in ok.values() if st is not None}
    for b, il in enumerate(blocks):
        blocks[b] = [x for x in il if id(x) not in gone]


class Fn:
    def __init__(self, d, unit):
        settle(d['blocks'])
        self.unit = unit
        self.name = d['name']
        self.file = d['file']
        self.line = d['line']
        self.ret = d['ret']
        self.retc = d['retc']
        self.local = d['local']
        self.args = d['args']
        self.argnames = [a[0] for a in self.args]
        self.blocks = []
        self.ins = {}
        for b, il in enumerate(d['blocks']):
            lst = [Instr(x, b, p, self) for p, x in enumerate(il)]
            self.blocks.append(lst)
            for i in lst:
                self.ins[i.id] = i
        self._cfg()
        self._ex = {}
        self._users = None

    # ---- CFG -------------------------------------------------------------------------
    def _cfg(self):
        n = len(self.blocks)
        self.n = n
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        for b, il in enumerate(self.blocks):
            t = il[-1]
            s = []
            if t.op == 'br':
                s = list(t.succ)
            elif t.op == 'switch':
                s = [t.default] + [c[1] for c in t.cases]
            seen = []
            for x in s:
                if x not in seen:
                    seen.append(x)
            self.succ[b] = seen
            for x in seen:
                self.pred[x].append(b)
        self._dom = None
        self._pdom = None
        self._loops = None
        self._cd = None
        self._reach = {}

    def term(self, b):
        return self.blocks[b][-1]

    @staticmethod
    def _domtree(n, entry, succ, pred):
        order, seen = [], set()
        stack = [(entry, iter(succ(entry)))]
        seen.add(entry)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(succ(y))))
                    break
            else:
                order.append(x)
                stack.pop()
        order.reverse()
        num = {x: i for i, x in enumerate(order)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for x in order:
                if x == entry:
                    continue
                new = None
                for p in pred(x):
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while num[a] > num[c]:
                                    a = idom[a]
                                while num[c] > num[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(x) != new:
                    idom[x] = new
                    ch = True
        return idom

    @property
    def idom(self):
        if self._dom is None:
            self._dom = self._domtree(self.n, 0, lambda b: self.succ[b], lambda b: self.pred[b])
        return self._dom

    @property
    def exits(self):
        return [b for b in range(self.n) if not self.succ[b]]

    @property
    def ipdom(self):
        """immediate post-dominators; virtual exit is -1"""
        if self._pdom is None:
            ex = self.exits
            # blocks that cannot reach an exit (infinite loops) get an artificial edge
            canreach = set()
            st = list(ex)
            while st:
                x = st.pop()
                if x in canreach:
                    continue
                canreach.add(x)
                st.extend(self.pred[x])
            art = set()
            for b in self.idom:
                if b not in canreach:
                    art.add(b)
            roots = set(ex) | art
            self._pdom = self._domtree(self.n + 1, -1,
                                       lambda b: sorted(roots) if b == -1 else self.pred[b],
                                       lambda b: (self.succ[b] + ([-1] if b in roots else [])))
        return self._pdom

    def dominates(self, a, b):
        """block a dominates block b"""
        idom = self.idom
        if b not in idom:
            return True
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    def postdominates(self, a, b):
        pd = self.ipdom
        if b not in pd:
            return False
        while True:
            if a == b:
                return True
            if b == -1:
                return False
            b = pd[b]

    def idominates(self, i, j):
        """instruction i dominates instruction j (strictly, or i is j)"""
        if i.blk == j.blk:
            return i.pos <= j.pos
        return self.dominates(i.blk, j.blk)

    @property
    def cd(self):
        """control dependence: block -> set of (branch block, successor block)"""
        if self._cd is None:
            pd = self.ipdom
            cd = {b: set() for b in range(self.n)}
            for b in range(self.n):
                if len(self.succ[b]) < 2 or b not in pd:
                    continue
                for s in self.succ[b]:
                    x = s
                    stop = pd[b]
                    while x != stop and x != -1:
                        cd[x].add((b, s))
                        if x not in pd:
                            break
                        x = pd[x]
            self._cd = cd
        return self._cd

    def cd_closure(self, b):
        """all (branch, succ) b is transitively control dependent on"""
        out, st, seen = set(), [b], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for e in self.cd[x]:
                out.add(e)
                st.append(e[0])
        return out

    def reach(self, a):
        """blocks reachable from the *end* of block a"""
        if a not in self._reach:
            seen, st = set(), list(self.succ[a])
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                st.extend(self.succ[x])
            self._reach[a] = seen
        return self._reach[a]

    @property
    def loops(self):
        """header -> set of blocks (natural loops, merged per header)"""
        if self._loops is None:
            L = {}
            for b in self.idom:
                for s in self.succ[b]:
                    if self.dominates(s, b):
                        body = L.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(self.pred[x])
            self._loops = L
        return self._loops

    def loops_of(self, b):
        """headers of loops containing block b, innermost first"""
        hs = [h for h, body in self.loops.items() if b in body]
        return sorted(hs, key=lambda h: len(self.loops[h]))

    # ---- values ------------------------------------------------------------------------
    def all(self):
        for bl in self.blocks:
            for i in bl:
                yield i

    def calls(self, *names):
        for i in self.all():
            if i.op in ('call', 'invoke') and i.callee is not None and (not names or i.callee in names):
                yield i

    def val(self, op):
        if op.startswith('%'):
            return self.ins.get(int(op[1:]))
        return None

    @property
    def users(self):
        if self._users is None:
            u = {}
            for i in self.all():
                for o in i.ops:
                    if o[0] in '%a@':
                        u.setdefault(o, []).append(i)
            self._users = u
        return self._users

    def uses(self, op):
        return self.users.get(op, [])

    def strip(self, op):
        """look through value-preserving casts"""
        while True:
            i = self.val(op)
            if i is not None and i.op in CAST_TRANSPARENT:
                op = i.ops[0]
                continue
            return op

    # ---- canonical expressions ----------------------------------------------------------
    def ex(self, op):
        if op in self._ex:
            return self._ex[op]
        self._ex[op] = ('rec', op)
        r = self._mkex(op)
        self._ex[op] = r
        return r

    def _mkex(self, op):
        c = op[0]
        if op.startswith('i:'):
            return ('int', int(op[2:])) if op[2:] != 'big' else ('unk', op)
        if op.startswith('f:'):
            v = float(op[2:])
            return ('int', int(v)) if v == v and abs(v) < 1e15 and v == int(v) else ('flt', v)
        if op == 'null':
            return ('null',)
        if op == 'undef':
            return ('undef',)
        if c == '@':
            nm = op[1:]
            g = self.unit.globals.get(nm)
            if g and 'str' in g and g.get('const'):
                return ('str', g['str'])
            return ('glob', nm)
        if c == 'a':
            k = int(op[1:])
            return ('arg', k)
        i = self.val(op)
        if i is None:
            return ('unk', op)
        if i.op in CAST_TRANSPARENT:
            # a pointer compared/converted keeps its expression
            src = self.val(i.ops[0])
            if i.op in ('zext', 'uitofp', 'sext', 'sitofp') and src is not None and src.ty == 'i1':
                return ('bool', self.ex(i.ops[0]))
            return self.ex(i.ops[0])
        if i.op in ('fptosi', 'fptoui'):
            return ('ftoi', self.ex(i.ops[0]))
        if i.op == 'load':
            return ('load', self.addr(i.ops[0]))
        if i.op == 'getelementptr':
            return self.addr(op)
        if i.op == 'alloca':
            return ('alloca', i.id)
        if i.op == 'phi':
            return ('phi', i.id)
        if i.op in ('call',):
            return ('call', i.id, i.callee)
        if i.op in ('icmp', 'fcmp'):
            return ('cmp', i.pred, self.ex(i.ops[0]), self.ex(i.ops[1]))
        if i.op == 'select':
            return ('sel',) + tuple(self.ex(o) for o in i.ops)
        if i.op == 'fneg':
            return ('neg', self.ex(i.ops[0]))
        a = tuple(self.ex(o) for o in i.ops)
        if i.op in COMMUT:
            a = tuple(sorted(a, key=repr))
        return ('op', i.op) + a

    def addr(self, op):
        """canonical address: ('addr', base, steps)"""
        steps = []
        while True:
            i = self.val(op)
            if i is not None and i.op == 'getelementptr':
                st = []
                for s in i.path:
                    if s[0] == '*':
                        ie = self.ex(s[2])
                        if ie != ('int', 0):
                            st.append(('i', ie))
                    elif s[0] == 'f':
                        st.append(('f', s[1], s[2]))
                    elif s[0] == 'a':
                        st.append(('i', self.ex(s[2])))
                steps = st + steps
                op = i.ops[0]
                continue
            if i is not None and i.op in ('bitcast', 'freeze'):
                op = i.ops[0]
                continue
            break
        # merge nothing: pointer arithmetic p+a+b stays as two steps
        base = self.ex(op)
        if not steps and base[0] == 'addr':
            return base
        if base[0] == 'addr':
            return ('addr', base[1], base[2] + tuple(steps))
        return ('addr', base, tuple(steps))

    def show(self, e, depth=0):
        if not isinstance(e, tuple):
            return str(e)
        k = e[0]
        if depth > 12:
            return '...'
        s = lambda x: self.show(x, depth + 1)
        if k in ('int', 'flt'):
            return '%g' % e[1]
        if k == 'arg':
            return self.argnames[e[1]] or 'arg%d' % e[1]
        if k == 'null':
            return 'NULL'
        if k == 'str':
            return '"%s"' % e[1]
        if k == 'glob':
            return e[1]
        if k == 'phi' or k == 'alloca':
            i = self.ins[e[1]]
            return '/'.join(i.names) if i.names else '%%%d' % e[1]
        if k == 'call':
            i = self.ins[e[1]]
            return '%s(%s)' % (i.callee, ', '.join(s(self.ex(o)) for o in i.ops))
        if k == 'load':
            return self.show_addr(e[1], depth + 1)
        if k == 'addr':
            return '&' + self.show_addr(e, depth + 1)
        if k == 'cmp':
            return '%s %s %s' % (s(e[2]), e[1], s(e[3]))
        if k == 'op':
            return '(' + (' %s ' % e[1]).join(s(x) for x in e[2:]) + ')'
        if k == 'neg':
            return '-' + s(e[1])
        return k + '(' + ', '.join(s(x) for x in e[1:]) + ')'

    def show_addr(self, a, depth=0):
        base = self.show(a[1], depth + 1)
        if not a[2]:
            return '*' + base if a[1][0] != 'alloca' else base
        for st in a[2]:
            if st[0] == 'f':
                base += '->' + st[2]
            else:
                base += '[' + self.show(st[1], depth + 1) + ']'
        return base

    def varname(self, op):
        """source name(s) bound to an SSA value"""
        i = self.val(op)
        if i is not None:
            return i.names
        if op[0] == 'a':
            return [self.argnames[int(op[1:])]]
        return []


class Unit:
    """one linked module"""

    def __init__(self, js, name, islib):
        self.name = name
        self.islib = islib
        self.globals = js['globals']
        self.structs = js['structs']
        self.structtypes = js.get('structtypes', {})
        self.structsize = js.get('structsize', {})
        self.decls = {d['name']: d for d in js['decls']}
        self.inlined = js['inlined']
        self.fns = {}
        for d in js['functions']:
            if d['blocks']:
                f = Fn(d, self)
                self.fns[f.name] = f
        # the widths in a format that reads are limits on the buffers (decided by C05), not part of what is read
        for f in self.fns.values():
            for i in f.ins.values():
                if i.op == 'call' and i.callee and i.callee.endswith('scanf'):
                    for o in i.ops:
                        g = self.globals.get(o[1:]) if o[:1] == '@' else None
                        if g and 'str' in g and 'format' not in g:
                            g['format'] = g['str']
                            g['str'] = re.sub(r'%(\*?)\d+', r'%\1', g['str'])


def load(path, name, islib):
    with open(path) as fh:
        return Unit(json.load(fh), name, islib)


def gives_up(f, b, side):
    """the branch of b to block side leads straight out of every loop to the return; returns the blocks on the way"""
    if f.pred[side] != [b]:
        return None
    region, st = {side}, [side]
    while st:
        for y in f.succ[st.pop()]:
            if y not in region and f.term(y).op != 'ret':
                region.add(y)
                st.append(y)
    if b in region or any(p not in region and p != b for x in region for p in f.pred[x]) or \
            any(f.term(x).op == 'ret' for x in region if f.pred[x] != [b]):
        return None
    return region


def good_start(f, n=1000):
    """a program as it runs when it has been given n arguments, and everything it reads can be read (C06 follows the rest)"""
    cut = False
    for b in range(f.n):
        t = f.term(b)
        if t.op != 'br' or len(t.succ) != 2 or t.succ[0] == t.succ[1]:
            continue
        c = f.val(t.ops[0])
        if c is None or c.op != 'icmp':
            continue
        yes, no = t.succ
        if c.ops[0] == 'a0' and c.ops[1][:2] == 'i:' and c.ops[1] != 'i:big':
            good = yes if holds(c.pred, n, int(c.ops[1][2:])) else no
        elif c.pred in ('eq', 'ne') and c.ops[1] == 'null':
            good = no if c.pred == 'eq' else yes
            v = f.val(c.ops[0])
            vs = [f.val(o) for o in v.ops] if v is not None and v.op in ('phi', 'select') else [v]
            if not any(v is not None and v.op == 'call' and v.callee for v in vs):
                continue
        elif c.ops[1][:2] == 'i:' and (f.val(c.ops[0]) or c).callee == 'snprintf':     # a name that fits
            good = yes if holds(c.pred, 1, int(c.ops[1][2:])) else no
        else:
            continue
        short = no if good == yes else yes
        if gives_up(f, b, short) is None or f.term(good).op == 'ret':
            continue
        t.succ, t.ops = [good], []
        cut = True
        f._cfg()
        f._ex, f._users = {}, None
    if cut:
        drop_dead(f)
    return cut


def holds(pred, a, b):
    p = pred[1:] if pred[0] in 'su' and pred not in ('eq', 'ne') else pred
    return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p]


def good_input(f, ask=False):
    """the routine as it runs on input of the right shape: a conversion that falls short and makes the routine give up
    (leave every loop and return) is what C06 follows; returns whether anything was cut"""
    cut = False
    for b in range(f.n):
        t = f.term(b)
        if t.op != 'br' or len(t.succ) != 2 or t.succ[0] == t.succ[1]:
            continue
        c = f.val(t.ops[0])
        if c is None or c.op != 'icmp' or c.pred not in ('eq', 'ne', 'slt'):
            continue
        v = f.val(c.ops[0])
        if v is None or v.op != 'call' or not v.callee or not v.callee.endswith('scanf') or v.blk != b or c.ops[1][:2] != 'i:':
            continue
        fmt = next((f.unit.globals[o[1:]]['str'] for o in v.ops if o[:1] == '@' and 'str' in f.unit.globals.get(o[1:], ())), None)
        if fmt is None or re.sub(r'%%|%\*', '', fmt).count('%') != int(c.ops[1][2:]):
            continue
        good, short = (t.succ[0], t.succ[1]) if c.pred == 'eq' else (t.succ[1], t.succ[0])
        if gives_up(f, b, short) is None or f.term(good).op == 'ret':
            continue
        loops = [f.loops[h] for h in f.loops if b in f.loops[h]]
        if any(all(x == b for x in L for y in f.succ[x] if y not in L) for L in loops):
            continue            # reading to the end of the file: falling short is how it stops
        if ask:
            return True
        t.succ, t.ops = [good], []
        cut = True
        f._cfg()
        f._ex, f._users = {}, None
    if cut:
        drop_dead(f)
    return cut


def drop_dead(f):
    live, st = {0}, [0]
    while st:
        for y in f.succ[st.pop()]:
            if y not in live:
                live.add(y)
                st.append(y)
    new = {b: n for n, b in enumerate(sorted(live))}
    blocks, ins = [], {}
    for b in sorted(live):
        lst = f.blocks[b]
        for i in lst:
            i.blk = new[b]
            if i.op == 'phi':
                keep = [k for k, p in enumerate(i.inb) if p in live and b in f.succ[p]]
                i.ops, i.inb = [i.ops[k] for k in keep], [new[i.inb[k]] for k in keep]
            elif i.op == 'br':
                i.succ = [new[y] for y in i.succ]
            elif i.op == 'switch':
                i.default, i.cases = new[i.default], [[c[0], new[c[1]]] for c in i.cases]
            ins[i.id] = i
        blocks.append(lst)
    f.blocks, f.ins, f._ex, f._users = blocks, ins, {}, None
    f._cfg()


def text_of(f, o):
    return f.unit.globals.get(o[1:], {}).get('str') if o[:1] == '@' else None


def new_text(f, text):
    n = '.text.%s' % text
    f.unit.globals.setdefault(n, {'str': text, 'const': True})
    return '@' + n


def plain_prints(f):
    """fprintf(stdout, ..), puts, fputs, putchar and fputc as printf and fprintf; prints that follow each other as one"""
    used = {o for i in f.all() for o in i.ops}
    for i in f.all():
        if i.op != 'call' or not i.callee or '%%%d' % i.id in used:
            continue
        c = i.callee
        if c in ('puts', 'fputs', 'putchar', 'fputc', 'putc'):
            end, t = '\n' if c == 'puts' else '', text_of(f, i.ops[0])
            fmt, args = None, []
            if c in ('putchar', 'fputc', 'putc'):
                if i.ops[0][:2] == 'i:' and 0 < int(i.ops[0][2:]) < 127:
                    fmt = chr(int(i.ops[0][2:])).replace('%', '%%')
                else:
                    fmt, args = '%c', [i.ops[0]]
            elif t is not None:
                fmt = t.replace('%', '%%') + end
            else:
                fmt, args = '%s' + end, [i.ops[0]]
            ty = [i.at[0]] * len(args) if i.at else None
            i.callee = 'printf' if c in ('puts', 'putchar') else 'fprintf'
            to = i.ops[1:2] if i.callee == 'fprintf' else []
            if i.at:
                i.at = ['ptr'] * len(to) + ['ptr'] + ty
            i.ops = to + [new_text(f, fmt)] + args
        if i.callee == 'fprintf':
            v = f.val(i.ops[0])
            if v is not None and v.op == 'load' and v.ops[0] == '@stdout':
                i.callee, i.ops = 'printf', i.ops[1:]
                i.at = i.at and i.at[1:]
    for il in f.blocks:
        join_prints(f, il, used)
        split_prints(f, il, used)
        for k, i in enumerate(il):
            i.pos = k
    f._ex, f._users = {}, None


def print_target(f, i):
    """(where the text goes, operands before the format); None when this is no print with a constant format"""
    if i.op != 'call' or i.callee not in ('printf', 'fprintf'):
        return None
    n = 1 if i.callee == 'fprintf' else 0
    if len(i.ops) <= n or text_of(f, i.ops[n]) is None:
        return None
    if not n:
        return 'stdout', 0
    v = f.val(i.ops[0])
    return (v.ops[0] if v is not None and v.op == 'load' and v.ops[0][:1] == '@' else i.ops[0]), 1


def print_order(f):
    """({(text, nth): print}, before(a, b)): the prints with a format of their own, and whether one always comes before another
    on every way that passes both"""
    seen = {}
    for i in f.all():
        t = print_target(f, i)
        if t is not None:
            seen.setdefault(text_of(f, i.ops[t[1]]), []).append((i, t[0]))
    one = {k: v[0] for k, v in seen.items() if len(v) == 1}
    memo = {}

    def onward(b):
        if b not in memo:
            got, st = set(), [b]
            while st:
                x = st.pop()
                for y in f.succ[x]:
                    if y not in got and not f.dominates(y, x):
                        got.add(y)
                        st.append(y)
            memo[b] = got
        return memo[b]

    def before(a, b):
        if a.blk == b.blk:
            return a.pos < b.pos
        return b.blk in onward(a.blk)
    return one, before


def split_prints(f, il, used):
    """one print per line of text"""
    for i in list(il):
        t = print_target(f, i)
        if t is None or '%%%d' % i.id in used:
            continue
        n = t[1]
        lines = re.findall(r'[^\n]*\n|[^\n]+$', text_of(f, i.ops[n]))
        count = [sum(1 + c.count('*') for c in re.findall(r'%([-+ #0-9.*hljztL]*[a-zA-Z%])', x) if c != '%') for x in lines]
        if len(lines) < 2 or sum(count) != len(i.ops) - n - 1:
            continue
        k, at = il.index(i), n + 1
        new = []
        for x, c in zip(lines, count):
            j = object.__new__(type(i))
            for a in getattr(i, '__slots__', None) or vars(i):
                if hasattr(i, a):
                    setattr(j, a, getattr(i, a))
            j.id = max(f.ins) + 1 if new else i.id
            j.ops = i.ops[:n] + [new_text(f, x)] + i.ops[at:at + c]
            j.at = i.at and i.at[:n + 1] + i.at[at:at + c]
            at += c
            f.ins[j.id] = j
            new.append(j)
        il[k:k + 1] = new


def join_prints(f, il, used):
    last = None
    for i in list(il):
        t = print_target(f, i)
        if t is not None and '%%%d' % i.id not in used:
            if last is not None and last[1] == t:
                j, n = last[0], t[1]
                i.ops = i.ops[:n] + [new_text(f, text_of(f, j.ops[n]) + text_of(f, i.ops[n]))] + j.ops[n + 1:] + i.ops[n + 1:]
                if i.at and j.at:
                    i.at = i.at[:n + 1] + j.at[n + 1:] + i.at[n + 1:]
                il.remove(j)
                del f.ins[j.id]
            last = i, t
        elif i.op in ('call', 'store', 'ret', 'br', 'switch', 'memcpy', 'memset'):
            last = None


def without_calls(f, names):
    """leaves out calls of the routines named whose result is not used"""
    used = {o for i in f.all() for o in i.ops}
    for il in f.blocks:
        for i in [i for i in il if i.op == 'call' and i.callee in names and '%%%d' % i.id not in used]:
            il.remove(i)
            del f.ins[i.id]
        for k, i in enumerate(il):
            i.pos = k
    f._ex, f._users = {}, None
