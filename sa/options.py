"""The loop over the options of a program, read off the control-flow graph: for every letter, what it does to each variable.
The loop is then replaced by one call per variable, option_<letter>_<what>..(value before): what = the number it is set to,
atoi / atof / strtol.. (the argument converted), arg (the argument itself), named (set to 1 when the argument is not '-')."""
import re
from . import ir


class NotUnderstood(Exception):
    pass


ARITH = {'add': '+', 'sub': '-', 'mul': '*', 'sdiv': '/', 'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}
SAME = {'strtol': 'atoi', 'atol': 'atoi', 'strtoul': 'atoi', 'strtod': 'atof'}
CONVERSIONS = {'atoi', 'atol', 'atof', 'strtol', 'strtod', 'strtoul'}


def loop_of(f):
    cs = [i for i in f.all() if i.op == 'call' and i.callee == 'getopt']
    if len(cs) != 1:
        return None
    c = cs[0]
    hs = f.loops_of(c.blk)
    while len(hs) > 1 and not any(i.op == 'phi' for i in f.blocks[hs[0]]):     # a `continue` makes a loop of its own
        hs = hs[1:]
    return (c, hs[0], f.loops[hs[0]]) if hs else None


class Options:
    def __init__(self, f):
        self.f = f
        self.call, self.h, self.body = loop_of(f)
        self.fmt = next((f.unit.globals[o[1:]]['str'] for o in self.call.ops if o[:1] == '@' and 'str' in f.unit.globals.get(o[1:], ())), None)
        if self.fmt is None:
            raise NotUnderstood('options given otherwise')
        self.letters = {x: self.fmt[k + 1:k + 2] == ':' for k, x in enumerate(self.fmt) if x != ':'}
        self.inner = {x for x in f.loops_of(self.call.blk) if len(f.loops[x]) < len(self.body)}
        self.phis = [i for i in f.blocks[self.h] if i.op == 'phi']
        self.does = {}           # letter -> list of (named?, {variable: what})
        self.handled = {chr(k[1]) for k in self.constants() if 32 < k[1] < 127 and chr(k[1]) != '?'}
        for x in sorted(set(self.letters) | self.handled):
            self.does[x] = self.letter(ord(x))
        self.does['?'] = self.letter(ord('?'))
        self.end = self.letter(-1)

    def strip(self, o):
        i = self.f.val(o)
        while i is not None and i.op in ('sext', 'zext', 'trunc'):
            o = i.ops[0]
            i = self.f.val(o)
        return o

    def constants(self):
        for i in self.f.all():
            if i.op == 'switch' and self.strip(i.ops[0]) == '%%%d' % self.call.id:
                for c in i.cases:
                    yield i, int(str(c[0]).replace('i:', ''))
            if i.op == 'icmp' and self.strip(i.ops[0]) == '%%%d' % self.call.id and i.ops[1][:2] == 'i:':
                yield i, int(i.ops[1][2:])

    def optarg(self, o):
        i = self.f.val(o)
        return i is not None and i.op == 'load' and i.ops[0] == '@optarg'

    def kind(self, o, env):
        """what value o stands for after one round"""
        seen = 0
        while o in env and seen < 50:
            o = env[o]
            seen += 1
        if o[:2] in ('i:', 'f:', 'd:') or o == 'null':
            return ('const', o)
        i = self.f.val(o)
        if i is not None and i.blk == self.h and i.op == 'phi':
            return ('keep', i.id)
        if self.optarg(o):
            return ('arg',)
        if i is not None and i.op in ('sext', 'zext', 'trunc', 'fptrunc', 'fpext', 'sitofp', 'uitofp'):
            return self.kind(i.ops[0], env)
        if i is not None and i.op in ('fptosi', 'fptoui'):
            return ('whole',) + self.kind(i.ops[0], env)
        if i is not None and (i.op == 'icmp' and i.pred in ('eq', 'ne') and i.ops[1] == 'i:0' or i.op == 'xor' and i.ops[1] in ('i:1', 'i:-1', 'true')):
            k = self.kind(i.ops[0], env)
            if k[0] in ('keep', 'not', 'truth'):
                even = (i.op == 'icmp' and i.pred == 'ne') == (k[0] != 'not')
                return ('truth' if even else 'not',) + k[1:]
        if i is not None and i.op == 'call' and i.callee in CONVERSIONS and self.kind(i.ops[0], env) == ('arg',):
            return (SAME.get(i.callee, i.callee),)
        if i is not None and i.op in ARITH and len(i.ops) == 2:
            k, v = self.kind(i.ops[0], env), self.kind(i.ops[1], env)
            if k[0] == 'const' or v[0] != 'const':
                raise NotUnderstood('%s at line %d' % (i.op, i.line))
            try:
                n = float(v[1].split(':')[-1])
            except ValueError:
                raise NotUnderstood('%s at line %d' % (i.op, i.line))
            op = ARITH[i.op]
            if n == (0 if op in '+-' else 1):
                return k
            return ('%s%s%g' % (k[0], op, n),) + k[1:]
        if i is None or i.blk not in self.body:
            return ('const', o)
        raise NotUnderstood('%s at line %d' % (i.op, i.line))

    def cond(self, i, c):
        """truth of condition i for letter c: True, False, or ('named', truth) when it asks whether the argument is '-'"""
        if i.op == 'xor' and i.ops[1] in ('i:1', 'i:-1', 'true'):
            v = self.cond(self.f.val(i.ops[0]), c)
            return not v if isinstance(v, bool) else ('named', not v[1])
        if i.op != 'icmp' or i.ops[1][:2] != 'i:':
            raise NotUnderstood('condition at line %d' % i.line)
        o, k = self.strip(i.ops[0]), int(i.ops[1][2:])
        if o == '%%%d' % self.call.id:
            return ir.holds(i.pred, c, k)
        v = self.f.val(o)
        if v is not None and v.op == 'load' and self.optarg(v.ops[0]) and k == 45 and i.pred in ('eq', 'ne'):
            return ('named', i.pred == 'ne')
        if v is not None and v.op == 'call' and v.callee == 'strcmp' and k == 0 and self.optarg(v.ops[0]) and i.pred in ('eq', 'ne'):
            g = self.f.unit.globals.get(v.ops[1][1:], {})
            if g.get('str') == '-':
                return ('named', i.pred == 'ne')
        raise NotUnderstood('condition at line %d' % i.line)

    def letter(self, c):
        out = []
        self.paths(c, self.call.blk, self.call.pos, None, {}, {}, None, out, 0)
        return out

    def paths(self, c, b, start, prev, env, mem, named, out, n):
        f = self.f
        if n > 200:
            raise NotUnderstood('loop in the options')
        env, mem = dict(env), dict(mem)
        for i in f.blocks[b][start:]:
            if i.op == 'phi':
                if prev is None or b == self.h:
                    continue
                env['%%%d' % i.id] = i.ops[i.inb.index(prev)]
            elif i.op == 'store':
                v = f.val(i.ops[1])
                if v is None or v.op != 'alloca':
                    raise NotUnderstood('store at line %d' % i.line)
                mem[v.id] = self.kind(i.ops[0], env)
            elif i.op == 'select':
                v = self.cond(f.val(i.ops[0]), c)
                if v is True or v is False:
                    env['%%%d' % i.id] = i.ops[1 if v else 2]
                    continue
                if named is None:
                    for w in (True, False):
                        self.paths(c, b, start, prev, env, mem, w, out, n + 1)
                    return
                env['%%%d' % i.id] = i.ops[1 if v[1] == named else 2]
            elif i.op == 'br':
                if len(i.succ) == 1:
                    y = i.succ[0]
                else:
                    v = self.cond(f.val(i.ops[0]), c)
                    if v is not True and v is not False:
                        if named is None:
                            for w in (True, False):
                                self.paths(c, b, i.pos, prev, env, mem, w, out, n + 1)
                            return
                        v = v[1] == named
                    y = i.succ[0 if v else 1]
                return self.go(c, b, y, env, mem, named, out, n)
            elif i.op == 'switch':
                if self.strip(i.ops[0]) != '%%%d' % self.call.id:
                    raise NotUnderstood('switch at line %d' % i.line)
                y = next((t[1] for t in i.cases if int(str(t[0]).replace('i:', '')) == c), i.default)
                return self.go(c, b, y, env, mem, named, out, n)
            elif i.op == 'call' and i is not self.call and i.callee not in CONVERSIONS and i.callee not in ('strcmp', 'printf', 'fprintf', 'puts'):
                raise NotUnderstood('call of %s at line %d' % (i.callee, i.line))
            elif i.op in ('ret', 'unreachable'):
                raise NotUnderstood('ends inside the loop')

    def go(self, c, b, y, env, mem, named, out, n):
        if y == self.h or y in self.inner:
            what = {}
            for p in self.phis if y == self.h else ():
                k = self.kind(p.ops[p.inb.index(b)], env)
                if k != ('keep', p.id):
                    what['%%%d' % p.id] = k
            for a, k in mem.items():
                what['m%d' % a] = k
            out.append((named, what))
        elif y not in self.body:
            out.append((named, ('leaves', b, y)))
        else:
            self.paths(c, y, 0, b, env, mem, named, out, n + 1)

    # ---- variables -------------------------------------------------------------------------------------
    def name(self, var):
        """option_..: what the letters make of a variable"""
        parts = []
        for x in sorted(self.does):
            rs = self.does[x]
            if any(w[:1] == ('leaves',) for n, w in rs if isinstance(w, tuple)):
                continue
            ks = {n: w.get(var, ('keep',)) for n, w in rs}
            vals = set(ks.values())
            if vals == {('keep',)}:
                continue
            if len(vals) == 1:
                k = vals.pop()
                t = '_'.join(x for x in k if isinstance(x, str)) if k[0] != 'const' else k[1].split(':')[-1].replace('-', 'm').replace('.', 'p')
            elif ks.get(True) == ('const', 'i:1') and ks.get(False) == ('keep',):
                t = 'named'
            else:
                raise NotUnderstood('option -%s' % x)
            if k_other(vals):
                raise NotUnderstood('option -%s copies another variable' % x)
            parts += [x, t]
        return 'option_' + '_'.join(parts) if parts else None


def k_other(vals):
    return any(k[0] == 'keep' and len(k) > 1 for k in vals)


def replace(f):
    """the routine without its loop over the options; the Options that were read, or None"""
    if loop_of(f) is None:
        return None
    o = Options(f)
    h = o.h
    pre = [p for p in f.pred[h] if p not in o.body]
    after = {w[2] for n, w in o.end if isinstance(w, tuple)}
    if len(pre) != 1 or len(after) != 1 or len(o.end) != 1:
        raise NotUnderstood('several ways into or out of the options')
    after = after.pop()
    leave = o.end[0][1][1]
    if f.pred[after] != [leave] or any(i.op == 'phi' and any(i.inb[k] in o.body for k in range(len(i.inb))) for i in f.blocks[after]):
        if not (f.pred[after] and all(p == leave for p in f.pred[after])):
            raise NotUnderstood('several ways out of the options')
    # the header becomes the whole loop: one call per variable, then on
    new = []
    fresh = max(f.ins) + 1
    for p in o.phis:
        n = o.name('%%%d' % p.id)
        init = p.ops[p.inb.index(pre[0])]
        p.op, p.ops, p.inb = ('call', [init], None) if n else ('bitcast', [init], None)
        p.callee, p.at = (n, [p.ty]) if n else (None, None)
        new.append(p)
    cells = sorted({int(v[1:]) for rs in o.does.values() for n, w in rs if isinstance(w, dict) for v in w if v[0] == 'm'})
    for a in cells:
        n = o.name('m%d' % a)
        if n is None:
            continue
        st = next(i for i in f.all() if i.op == 'store' and i.ops[1] == '%%%d' % a)
        ty = next((i.ty for i in f.all() if i.op == 'load' and i.ops[0] == '%%%d' % a), None)
        if ty is None:
            continue
        ld = clone(st, fresh, 'load', ty, ['%%%d' % a])
        cl = clone(st, fresh + 1, 'call', ty, ['%%%d' % fresh])
        cl.callee, cl.at = n, [ty]
        s2 = clone(st, fresh + 2, 'store', st.ty, ['%%%d' % (fresh + 1), '%%%d' % a])
        fresh += 3
        new += [ld, cl, s2]
    t = f.term(h)
    br = clone(t, t.id, 'br', t.ty, [])
    br.succ, br.cases, br.default = [after], None, None
    new.append(br)
    for k, i in enumerate(new):
        i.blk, i.pos = h, k
        f.ins[i.id] = i
    f.blocks[h] = new
    for i in f.blocks[after]:
        if i.op == 'phi':
            i.inb = [h if x == leave else x for x in i.inb]
    f._cfg()
    f._ex, f._users = {}, None
    ir.drop_dead(f)
    return o


FLAG = re.compile(r'option(_[A-Za-z]_(0|1|named))+$')


def flags(f):
    """what the options make of a variable that is only ever 0 or 1 is written as the truth of its being other than 0"""
    fresh = max(f.ins) + 1
    for c in [i for i in f.all() if i.op == 'call' and i.callee and FLAG.match(i.callee) and i.ops[0] in ('i:0', 'i:1')]:
        t, z = '%%%d' % c.id, '%%%d' % (fresh + 1)
        for i in f.all():
            i.ops = [z if o == t else o for o in i.ops]
        ne = clone(c, fresh, 'icmp', 'i1', [t, 'i:0'])
        ne.pred = 'ne'
        zx = clone(c, fresh + 1, 'zext', c.ty, ['%%%d' % fresh])
        fresh += 2
        il = f.blocks[c.blk]
        k = max([il.index(c)] + [n for n, i in enumerate(il) if i.op == 'phi'])
        if any(i.op == 'phi' for i in il[il.index(c):]):
            k = il.index(c)
        il[k + 1:k + 1] = [ne, zx]
        for k, i in enumerate(il):
            i.pos = k
        f.ins[ne.id], f.ins[zx.id] = ne, zx
    f._ex, f._users = {}, None


def clone(i, n, op, ty, ops):
    j = object.__new__(type(i))
    for k in getattr(i, '__slots__', None) or vars(i):
        if hasattr(i, k):
            setattr(j, k, getattr(i, k))
    j.id, j.op, j.ty, j.ops, j.callee, j.at = n, op, ty, ops, None, None
    return j
