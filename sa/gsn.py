"""Gated sum normal form: value numbering of LLVM values in the ring of polynomials over
  - canonical loads, arguments, calls of pure functions,
  - indicators [c] of branch conditions (gated phis),
  - sums over iteration domains (list walks, counted loops) for additive loop-carried values.
Two values with the same normal form are equal for every input (rounding aside) however the arithmetic, the branches
and the loops are written."""
from collections import ChainMap
from fractions import Fraction
from .ir import CAST_TRANSPARENT

_tab = []
_idx = {}


def A(t):
    """intern an atom"""
    k = _idx.get(t)
    if k is None:
        k = len(_tab)
        _idx[t] = k
        _tab.append(t)
    return k


def T(k):
    return _tab[k]


ZERO = {}


def const(c):
    return {(): Fraction(c)} if c else {}


def atom(t):
    return {((A(t), 1),): Fraction(1)}


def add(p, q, s=1):
    r = dict(p)
    if s != 1:
        q = {m: -c for m, c in q.items()} if s == -1 else {m: s * c for m, c in q.items()}
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
            continue
        v = v + c
        if v:
            r[m] = v
        else:
            del r[m]
    return r


def mulm(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, k in n:
        d[a] = d.get(a, 0) + k
    out = []
    for a, k in d.items():
        if not k:
            continue
        if _tab[a][0] == 'ind':
            k = 1
        out.append((a, k))
    out.sort()
    return tuple(out)


def base_ind(a):
    """indicator atom of an integer quantity -> (key of the quantity without constant, kind, threshold):
    'gt' base > threshold, 'eq' base == threshold"""
    t = _tab[a]
    if t[0] != 'ind' or t[1] not in ('gt', 'eq'):
        return None
    r = _bi.get(a)
    if r is None:
        P = unkey(t[2])
        c = P.pop((), Fraction(0))
        r = (key(P), t[1], -c)
        _bi[a] = r
    return r


_bi = {}


def truth_inside(a, dom):
    """value of indicator a (0, 1, None when open) while there is an element of the domain"""
    while dom[0] in ('until', 'upto'):
        dom = dom[1]
    t = _tab[a]
    if dom[0] == 'from':
        return 0 if t[1] == 'eq' and t[2] == dom[1] else None
    if dom[0] == 'list':
        if t[1] == 'eq' and len(t[2]) == 1 and len(t[2][0][0]) == 1:
            l = _tab[t[2][0][0][0][0]]
            if l[0] in ('load', 'vload') and l[1][1] == dom[1] and len(l[1][2]) == 1 and l[1][2][0][-1] == 'next':
                return 0
        return None
    if dom[0] == 'while':
        c = _fc.get(dom)
        if c is None:
            c = _fc[dom] = first_cond(dom)
        if c == {((a, 1),): Fraction(1)}:
            return 1
        if c == sub(ONE, {((a, 1),): Fraction(1)}):
            return 0
        return None
    if dom[0] != 'range':
        return None
    b = base_ind(a)
    if b is None or not b[0]:
        return None
    r = _rb.get(dom[1])
    if r is None:
        P = unkey(dom[1])
        c = P.pop((), Fraction(0))
        r = _rb[dom[1]] = (key(P), key(scale(P, -1)), 1 - c)
    if b[0] == r[0]:
        if b[1] == 'gt':
            return 1 if r[2] > b[2] else None
        return 0 if b[2] < r[2] else None
    if b[0] == r[1]:                                # -base <= -low
        if b[1] == 'gt':
            return 0 if -r[2] <= b[2] else None
        return 0 if b[2] > -r[2] else None
    return None


_rb = {}
_fc = {}


def first_cond(dom):
    """condition under which a loop over its own state runs at all"""
    vs = sorted({t[1] for k in dom[2] + (dom[3],) for m, c in k for a, e in m for x in occ(a) for t in [_tab[x]]
                 if t[0] == 'bv'})
    for base in vs:
        m = {A(('bv', base + j)): unkey(i) for j, i in enumerate(dom[1])}
        c = subst(unkey(dom[3]), m)
        if not any(_tab[x][0] == 'bv' for a in atoms_of(c) for x in occ(a)):
            return c
    return {}


def unguard(p):
    """a loop value under the condition that the loop runs at all is the loop value: it starts with the initial one"""
    out = None
    for m, c in p.items():
        for a, k in m:
            if _tab[a][0] != 'ind':
                continue
            for s, e in m:
                t = _tab[s]
                if e != 1 or not (t[0] == 'mu' or t[0] == 'sum' and t[1][0] in ('max', 'min')):
                    continue
                dom, init = (t[1], t[2]) if t[0] == 'mu' else (t[1][1], t[1][2])
                v = truth_inside(a, dom)
                if v is None:
                    continue
                if out is None:
                    out = dict(p)
                out.pop(m)
                rest = tuple(x for x in m if x[0] not in (a, s))
                r = {rest: c}
                g = mul(r, {((a, 1),): Fraction(1)})
                q = mul(g, unkey(init))
                if v:
                    q = add(q, sub(mul(r, {((s, 1),): Fraction(1)}), mul(r, unkey(init))))
                return unguard(add(out, q))
    return p


def modulo(p, c):
    """normal form of p while the condition c (made of a few indicators) holds"""
    at = atoms_of(c)
    if not at or len(at) > 5 or len(c) < 2 or any(_tab[a][0] != 'ind' for a in at):
        return p
    if not any(a in at for m in p for a, e in m):
        return p
    k = key(c)
    nf = _nf.get(k)
    if nf is None:
        nf = _nf[k] = normal_forms(c, sorted(at))
    if not nf:
        return p
    r = {}
    for m, x in p.items():
        own = frozenset(a for a, e in m if a in at and e > 0)
        f = nf.get(own)
        if f is None:
            r = add(r, {m: x})
            continue
        rest = {tuple((a, e) for a, e in m if a not in own): x}
        for s, y in f.items():
            r = add(r, mul(rest, {tuple((a, 1) for a in sorted(s)): y}) if s else scale(rest, y))
    return r


_nf = {}


def normal_forms(c, at):
    """products of the indicators that the condition makes equal to a combination of smaller ones"""
    sat = []
    for bits in range(1 << len(at)):
        v = {a: bits >> j & 1 for j, a in enumerate(at)}
        s = sum(x * (1 if all(v[a] for a, e in m) else 0) for m, x in c.items())
        if s not in (0, 1):
            return {}
        if s:
            sat.append(v)
    if not sat:
        return {}
    basis = []              # (pivot, row, combination)
    out = {}
    subsets = sorted((tuple(a for j, a in enumerate(at) if b >> j & 1) for b in range(1 << len(at))),
                     key=lambda t: (len(t), t))
    for t in subsets:
        row = [Fraction(int(all(v[a] for a in t))) for v in sat]
        comb = {}
        for pv, rw, cb in basis:
            if row[pv]:
                q = row[pv] / rw[pv]
                row = [x - q * y for x, y in zip(row, rw)]
                for s, y in cb.items():
                    comb[s] = comb.get(s, 0) + q * y
        pv = next((j for j, x in enumerate(row) if x), None)
        if pv is None:
            out[frozenset(t)] = {s: y for s, y in comb.items() if y}
        else:
            cb = {s: -y for s, y in comb.items()}
            cb[frozenset(t)] = Fraction(1)
            basis.append((pv, row, cb))
    return out


def loop_cond(dom, it, p):
    """condition of a loop over its own state for the element it, its state named as in p"""
    ty = {}
    ik = key({((it, 1),): Fraction(1)})
    for a in atoms_of(p):
        for x in occ(a):
            t = _tab[x]
            if t[0] == 'st' and t[2] == ik:
                ty[t[1]] = x
    if not ty:
        return None
    vs = sorted({t[1] for k in dom[2] + (dom[3],) for m, c in k for a, e in m for x in occ(a) for t in [_tab[x]]
                 if t[0] == 'bv'})
    for base in vs:
        m = {A(('bv', base + j)): {((x, 1),): Fraction(1)} for j, x in ty.items()}
        c = subst(unkey(dom[3]), m)
        if not any(_tab[x][0] == 'bv' for a in atoms_of(c) for x in occ(a)):
            return c
    return None


def under(p, c):
    """p where the condition c holds"""
    if len(c) == 1:
        (m, v), = c.items()
        if len(m) == 1 and v == 1:
            return replaced(p, m[0][0], ONE)
    if len(c) == 2 and c.get(()) == 1:
        for m, v in c.items():
            if m and len(m) == 1 and v == -1:
                return replaced(p, m[0][0], {})
    return modulo(p, c)


def replaced(p, a, v):
    """p with the factor a replaced"""
    r = {}
    for m, x in p.items():
        if any(b == a for b, e in m):
            r = add(r, mul(v, {tuple((b, e) for b, e in m if b != a): x}))
        else:
            r = add(r, {m: x})
    return r


def within(p, dom, it=None):
    """p while there is an element of the domain"""
    if dom[0] == 'while' and it is not None and len(dom[3]) > 1:
        for c in (loop_cond(dom, it, p), first_cond(dom)):
            if c:
                p = modulo(p, c)
    m = {}
    for a in atoms_of(p):
        for x in occ(a):
            if _tab[x][0] == 'ind' and _tab[x][1] in ('eq', 'gt'):
                v = truth_inside(x, dom)
                if v is not None:
                    m[x] = const(v)
    return subst(p, m) if m else p


_found = {}          # found before the end of a range: that the range has elements


def one_atom(p):
    ((((a, k),), c),) = p.items()
    return a


def ind_prod(m):
    """monomial with comparable indicators merged; None when it is zero"""
    if len(m) < 2:
        return m
    if _found:
        for f, k in m:
            c = _found.get(f)
            if c:
                for a, e in m:
                    if _tab[a][0] == 'ind' and a != f:
                        x = {((a, 1),): Fraction(1)}
                        if c == x:
                            m = tuple(y for y in m if y[0] != a)
                        elif c == sub(ONE, x):
                            return None
        if len(m) < 2:
            return m
    sums = [a for a, k in m if k > 0 and _tab[a][0] in ('sum', 'card') and
            _tab[a][1][0] in ('list', 'from', 'range', 'until', 'while')]
    if sums:
        out = None
        for a, k in m:
            if _tab[a][0] == 'ind':
                for s in sums:
                    v = truth_inside(a, _tab[s][1])
                    if v == 0:
                        return None
                    if v == 1:
                        out = tuple((b, e) for b, e in (out or m) if b != a)
                        break
        if out is not None:
            m = out
            if len(m) < 2:
                return m
    groups = {}
    for a, k in m:
        b = base_ind(a)
        if b is not None:
            groups.setdefault(b[0], []).append((b[1], b[2], a))
    drop = set()
    for g in groups.values():
        if len(g) < 2:
            continue
        eqs = [x for x in g if x[0] == 'eq']
        gts = [x for x in g if x[0] == 'gt']
        if eqs:
            v = eqs[0][1]
            if any(x[1] != v for x in eqs) or any(v <= x[1] for x in gts):
                return None
            drop |= {x[2] for x in gts}
        elif len(gts) > 1:
            mx = max(gts, key=lambda x: x[1])
            drop |= {x[2] for x in gts if x is not mx}
    if drop:
        return tuple((a, k) for a, k in m if a not in drop)
    return m


class TooBig(Exception):
    pass


FAR = 1 << 30


def mul(p, q):
    r = {}
    if len(p) * len(q) > 200000:
        raise TooBig()
    if len(p) == 1 and () in p:
        return scale(q, p[()])
    if len(q) == 1 and () in q:
        return scale(p, q[()])
    for m, c in p.items():
        for n, d in q.items():
            k = ind_prod(mulm(m, n)) if m and n else m or n
            if k is None:
                continue
            v = r.get(k)
            v = c * d if v is None else v + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def scale(p, c):
    if c == 1:
        return dict(p)
    return {m: v * c for m, v in p.items()} if c else {}


def neg(p):
    return scale(p, -1)


def sub(p, q):
    return add(p, q, -1)


def key(p):
    return tuple(sorted(p.items()))


def unkey(k):
    return dict(k)


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def cval(p):
    return p.get((), Fraction(0))


ONE = const(1)


def rsqrt(c):
    if c <= 0:
        return None
    from math import isqrt
    n, d = isqrt(c.numerator), isqrt(c.denominator)
    return Fraction(n, d) if n * n == c.numerator and d * d == c.denominator else None


_ps = {}


def psqrt(q):
    """r with r*r == q, r of at least two terms"""
    if len(q) < 3 or len(q) > 60:
        return None
    k = key(q)
    if k in _ps:
        return _ps[k]
    _ps[k] = None
    if any(_tab[a][0] == 'ind' for m in q for a, e in m):
        return None
    cand = []
    for m, c in q.items():
        if all(e % 2 == 0 for a, e in m):
            s = rsqrt(c)
            if s is not None:
                cand.append((tuple((a, e // 2) for a, e in m), s))
    cand.sort()
    for m0, s0 in cand[:1] + cand[-1:]:
        r = {m0: s0}
        for m, s in cand:
            if m == m0:
                continue
            x = q.get(mulm(m0, m))
            if x is not None and abs(x) == 2 * s * s0:
                r[m] = s if x > 0 else -s
        if len(r) >= 2 and mul(r, r) == q:
            _ps[k] = r
            return r
    return None


def pdiv(p, q):
    if not q:
        return mul(p, atom(('inv', ())))
    if is_const(q):
        return scale(p, 1 / cval(q))
    if len(q) == 1:
        (m, c), = q.items()
        if not any(_tab[a][0] == 'ind' for a, k in m):
            return mul(p, {tuple((a, -k) for a, k in m): 1 / c})
    every = set.intersection(*({a for a, k in m if _tab[a][0] == 'ind'} for m in q))
    if every:                       # a divisor is not zero
        r = {}
        for m, c in q.items():
            m = tuple((a, k) for a, k in m if a not in every)
            r[m] = r.get(m, 0) + c
        r = {m: c for m, c in r.items() if c}
        if r:
            return pdiv(p, r)
    at = inds_in([key(q)])
    if at and len(at) <= SPLIT:
        zero = []

        def build(ks):
            if not ks[0]:
                zero.append(1)
                return {}
            return pdiv(ONE, unkey(ks[0]))
        r = cases([key(q)], build)
        if not zero:
            return mul(p, r)
    r = psqrt(q)
    if r is not None:
        return pdiv(pdiv(p, r), r)
    lead = q[min(q)]
    # common monomial factor
    common = None
    for m in q:
        d = dict(m)
        common = d if common is None else {a: min(k, d[a]) for a, k in common.items() if a in d}
    common = {a: k for a, k in common.items() if k > 0 and _tab[a][0] != 'ind'}
    cm = tuple(sorted((a, -k) for a, k in common.items()))
    q2 = {mulm(m, cm): c / lead for m, c in q.items()}
    return mul(p, {mulm(cm, ((A(('inv', key(q2))), 1),)): 1 / lead})


def atoms_of(p):
    return {a for m in p for a, k in m}


_occ = {}


def occ(a):
    """all atoms occurring in atom a (including itself)"""
    r = _occ.get(a)
    if r is None:
        r = {a}
        for x in subkeys(_tab[a]):
            r |= occ_key(x)
        r = frozenset(r)
        _occ[a] = r
    return r


def occ_key(k):
    r = set()
    for m, c in k:
        for a, e in m:
            r |= occ(a)
    return r


def is_key(x):
    return isinstance(x, tuple) and (x == () or (isinstance(x[0], tuple) and len(x[0]) == 2 and
                                                 isinstance(x[0][1], Fraction)))


def subkeys(t):
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and is_key(x):
                yield x
            else:
                for y in subkeys(('',) + x):
                    yield y


def map_tuple(t, f):
    return tuple((f(x) if x else x) if (isinstance(x, tuple) and x and is_key(x)) else
                 (map_tuple(x, f) if isinstance(x, tuple) else x) for x in t)


def subst_atom(a, m, memo):
    """atom a (not itself in m) with the atoms of m replaced inside it"""
    r = memo.get(a)
    if r is None:
        r = memo[a] = subst_atom1(a, m, memo)
    return r


def subst_atom1(a, m, memo):
    t = _tab[a]
    full = lambda kk: key(subst(unkey(kk), m, memo))
    if t[0] in ('sum', 'first', 'mu'):
        j = 3 if t[0] == 'mu' else 2
        h = t[j + 1]
        bs = {A(('bv', h))} | ({A(('bv', h + 1))} if t[0] == 'mu' else set())
        if bs & set(m):
            # the bound names are not free in the body; in the domain and the initial value they may be
            m2 = {k: v for k, v in m.items() if k not in bs}
            memo2 = {}
            body = key(subst(unkey(t[j]), m2, memo2)) if t[j] and m2 else t[j]
            r = map_tuple(t[:j], full) + (body,) + t[j + 1:]
            return rebuild(r) if r != t else {((a, 1),): Fraction(1)}
    return rebuild(map_tuple(t, full))


_memo = {}


def subst(p, m, memo=None):
    """m: {atom id: poly}"""
    if not m:
        return p
    if memo is None:
        memo = {}
        if len(m) < 20 and not any(_tab[a][0] == 'it' and -DET < _tab[a][1] < 0 for a in m):
            memo = _memo.setdefault(tuple(sorted((a, key(q)) for a, q in m.items())), memo)
    ms = set(m)
    r = {}
    for mono, c in p.items():
        ch = [(a, k) for a, k in mono if a in m or not ms.isdisjoint(occ(a))]
        if not ch:
            v = r.get(mono)
            v = c if v is None else v + c
            if v:
                r[mono] = v
            else:
                del r[mono]
            continue
        t = {tuple(x for x in mono if x not in ch): c}
        for a, k in ch:
            q = m.get(a)
            if q is None:
                q = subst_atom(a, m, memo)
            if k < 0:
                q = pdiv(ONE, q)
            for _ in range(abs(k)):
                t = mul(t, q)
        r = add(r, t)
    return r


def rebuild(t):
    """renormalise an atom after substitution"""
    if t[0] == 'ind':
        return ind(t[1], unkey(t[2]))
    if t[0] == 'inv':
        return pdiv(ONE, unkey(t[1]))
    if t[0] == 'load':
        return GSN.load(t[1])
    if t[0] == 'fn':
        return fn_atom(t[1], t[2:])
    if t[0] == 'sum':
        if not t[2]:
            return {}
        if t[1][0] == 'range' and not t[1][1]:
            return {}
        fr = opening(t[1], t[3], t[2])
        return msum(fr, t[1], subst(unkey(t[2]), {A(('bv', t[3])): {((fr, 1),): Fraction(1)}}))
    if t[0] == 'mu':
        return remu(t, lambda x: x)
    if t[0] == 'first' and t[2]:
        fr = opening(t[1], t[3], t[2])
        return mfirst(fr, t[1], subst(unkey(t[2]), {A(('bv', t[3])): {((fr, 1),): Fraction(1)}}))
    if t[0] == 'card':
        return dom_card(t[1])
    if t[0] == 'first' and not t[2]:
        return {} if t[1][0] != 'range' else unkey(t[1][1])
    if t[0] == 'ftoi' and int_poly(unkey(t[1])):
        return unkey(t[1])
    if t[0] == 'it' and int_dom(t[2]) or t[0] == 'call' and t[1] in ('<state i>', '<last i>'):
        INTS.add(A(t))
    return atom(t)


SPLIT = 3


def inds_in(keys):
    return sorted({a for k in keys for m, c in k for a, e in m if _tab[a][0] == 'ind'})


def cases(keys, build):
    """case distinction over the indicators occurring in the keys: what a construct applied to a choice stands for is
    the choice between the constructs"""
    at = inds_in(keys)
    if not at or len(at) > SPLIT:
        return build(keys)
    a = at[0]
    i = {((a, 1),): Fraction(1)}
    hi = cases([key(sub1(k, a, 1)) for k in keys], build)
    lo = cases([key(sub1(k, a, 0)) for k in keys], build)
    return add(mul(i, hi), mul(sub(ONE, i), lo))


def sub1(k, a, v):
    """key with the factor a of its monomials replaced by 0 or 1"""
    r = {}
    for m, c in k:
        if any(x == a for x, e in m):
            if not v:
                continue
            m = tuple((x, e) for x, e in m if x != a)
        r[m] = r.get(m, 0) + c
        if not r[m]:
            del r[m]
    if v:
        ev = eqval(a)
        if ev is not None and any(ev[0] in occ(x) for m in r for x, e in m) and \
                not any(e < 0 and ev[0] in occ(x) for m in r for x, e in m):
            r = subst(r, {ev[0]: const(ev[1])})
    return r


def fn_atom(n, args):
    args = tuple(args)
    if inds_in([x for x in args if is_key(x)]) and all(is_key(x) or not x for x in args):
        return cases(list(args), lambda ks: fn_atom1(n, ks))
    return fn_atom1(n, args)


def fn_atom1(n, args):
    if n == 'log' and unkey(args[0]) == ONE:
        return {}
    if n == 'exp' and not args[0]:
        return ONE
    return atom(('fn', n) + tuple(args))


NONNEG = set()          # names of callees / fields known to be nonnegative integers


def nonneg(a):
    t = _tab[a]
    if t[0] == 'load':
        st = t[1][2]
        return bool(st) and st[-1][0] == 'f' and st[-1][2] in ('size', 'inlinks', 'outlinks', 'totlinks')
    if t[0] == 'fn':
        return t[1] in ('CountNodes', 'NLinksToGroup', 'NG2GLinks', 'NNonEmptyGroups', 'NodeDegree', 'TotalNLinks')
    if t[0] == 'first':
        return t[1][0] == 'range'
    return t[0] in ('card', 'ind', 'it') and (t[0] != 'it' or t[2][0] == 'range')


def ind(kind, P):
    """indicator polynomial of: 'gt' P>0 (integers), 'eq' P==0, 'fgt' P>0 (floating point)"""
    if is_const(P):
        v = cval(P)
        return const(1 if (v == 0 if kind == 'eq' else v > 0) else 0)
    # boolean-valued polynomials
    if kind in ('eq', 'gt'):
        b = as_bool(P)
        if b == 'id':
            return sub(ONE, P) if kind == 'eq' else P
    if any(_tab[a][0] == 'ind' for a in atoms_of(P)) and len(inds_in([key(P)])) <= SPLIT:
        return cases([key(P)], lambda ks: ind(kind, unkey(ks[0])))
    if kind == 'fgt' and int_poly(P):
        kind = 'gt'
    if kind == 'eq':
        k = sorted(P)
        l = P[k[-1]]
        P = scale(P, 1 / l)
        den = 1
        for c in P.values():
            den = den * c.denominator
        return atom(('ind', 'eq', key(P)))
    # sign facts
    ms = list(P.items())
    non = {m: c for m, c in ms if m != ()}
    if kind == 'gt' and all(all(k > 0 and nonneg(a) for a, k in m) for m in non):
        c0 = cval(P)
        if all(c > 0 for c in non.values()):
            if c0 >= 1:
                return const(1)
            if c0 == 0:
                return sub(ONE, ind('eq', P)) if len(non) == 1 else atom(('ind', 'gt', key(P)))
        if all(c < 0 for c in non.values()):
            if c0 <= 0:
                return {}
            if len(non) == 1 and c0 <= -list(non.values())[0]:
                return ind('eq', non)
    if kind == 'gt':
        # something is found before the end of a range: only one of the two directions is used, and the range has elements
        for m in non:
            if len(m) == 1 and m[0][1] == 1 and _tab[m[0][0]][0] == 'first' and _tab[m[0][0]][1][0] == 'range':
                n = unkey(_tab[m[0][0]][1][1])
                F = sub(n, {m: Fraction(1)})
                if P == F or P == sub(ONE, F):
                    f = atom(('ind', 'gt', key(F)))
                    _found[one_atom(f)] = ind('gt', n)
                    return f if P == F else sub(ONE, f)
    k = sorted(m for m in P if m != ())
    if P[k[-1]] < 0:
        if kind == 'gt':
            return sub(ONE, ind('gt', sub(ONE, P)))
        # a<b  vs  !(b<=a): keep, only scale
        l = -P[k[-1]]
        return atom(('ind', 'fgt', key(scale(P, 1 / l))))
    if kind == 'fgt':
        P = scale(P, 1 / P[k[-1]])
    return atom(('ind', kind, key(P)))


INTS = set()


def int_atom(a):
    t = _tab[a]
    if t[0] == 'sum':
        return int_poly(unkey(t[2])) and (t[1][0] not in ('max', 'min') or int_poly(unkey(t[1][2])))
    return a in INTS or t[0] in ('mu', 'mv', 'st') and t[-1] == 'i' or t[0] in ('card', 'ind', 'bv', 'pos', 'ftoi', 'idiv', 'irem') or nonneg(a) or \
        (t[0] == 'arg' and t[2] == 'i')


def int_poly(p):
    return all(c.denominator == 1 for c in p.values()) and \
        all(k > 0 and int_atom(a) for m in p for a, k in m) or even_int(p)


def even_int(p):
    q = scale(p, 2)
    return all(c.denominator == 1 for c in q.values()) and all(k > 0 and int_atom(a) for m in q for a, k in m) and even(q)


def mark_int(p, ty):
    if ty and ty[0] == 'i' and ty != 'i1' and len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            INTS.add(m[0][0])


def eqval(a):
    """atom x and constant v when indicator atom a is [x==v] with a single linear atom"""
    t = _tab[a]
    if t[0] != 'ind' or t[1] != 'eq':
        return None
    P = unkey(t[2])
    ms = [m for m in P if m != ()]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
        return ms[0][0][0], -cval(P) / P[ms[0]]
    return None


def simp(p):
    """use the equality indicators of a monomial in its other factors"""
    r = {}
    for m, c in p.items():
        t = {m: c}
        for a, k in m:
            e = eqval(a)
            if e is None:
                continue
            x, v = e
            rest = tuple((b, kk) for b, kk in m if b != a)
            if v == 0 and _tab[x][0] in ('load', 'vload') and _tab[x][1][2] and _tab[x][1][2][-1][-1] == 'next':
                # the list is empty
                none = {s: unkey(_tab[s][2]) if _tab[s][0] == 'mu' else {} for b, kk in rest if kk > 0 for s in occ(b)
                        if _tab[s][0] in ('sum', 'first', 'card', 'mu') and _tab[s][1][0] in ('list', 'until') and
                        truth_inside(a, _tab[s][1]) == 0}
                if none:
                    t = simp(mul(subst({rest: c}, none), {((a, 1),): Fraction(1)}))
                    break
            if not any(x in occ(b) for b, kk in rest):
                continue
            if v == 0 and _tab[x][0] == 'call' and _tab[x][1] in ('calloc', 'malloc'):
                continue        # nothing is computed from memory that was not obtained
            if any(kk < 0 and x in occ(b) for b, kk in rest):
                continue
            q = {rest: c}
            if v == 0 and _tab[x][0] == 'first':
                # ran off the end: the element before is the last one
                bx = A(('before', key({((x, 1),): Fraction(1)})))
                if any(bx in occ(b) for b, kk in rest):
                    q = subst(q, {bx: atom(('lastof', _tab[x][1]))})
            q = subst(q, {x: const(v)})
            t = simp(mul(q, {((a, 1),): Fraction(1)}))
            break
        r = add(r, t)
    return r


def as_bool(P):
    at = atoms_of(P)
    if not at or len(at) > 8 or any(_tab[a][0] != 'ind' for a in at):
        return None
    at = sorted(at)
    for bits in range(1 << len(at)):
        v = {a: bits >> j & 1 for j, a in enumerate(at)}
        s = 0
        for m, c in P.items():
            x = c
            for a, k in m:
                x *= v[a]
            s += x
        if s not in (0, 1):
            return None
    return 'id'


def height_key(k):
    h = 0
    for a in occ_key(k):
        t = _tab[a]
        if t[0] == 'bv':
            h = max(h, t[1] + 1)
    return h


def int_dom(dom):
    """elements are integers"""
    return dom[0] == 'range' or (dom[0] in ('until', 'upto', 'prev', 'plus') and int_dom(dom[1]))


_fresh = [0]


def fresh(dom):
    _fresh[0] += 1
    a = A(('it', -_fresh[0], dom))
    if int_dom(dom):
        INTS.add(a)
    return a


DET = 10 ** 9


def opening(dom, h, *body):
    """name for the bound element of height h of a construct over dom while it is taken apart: the same each time, so
    that what is found about the parts is found once"""
    a = A(('it', -DET - h, dom))
    if any(a in occ(x) or _tab[x][0] == 'mv' and _tab[x][1] == a for k in body for x in occ_key(k)):
        return fresh(dom)
    if int_dom(dom):
        INTS.add(a)
    return a


def msum(v, dom, delta):
    """sum over the domain of delta, v the bound iteration atom (id)"""
    if dom == ('from', ()):
        return {}
    if dom[0] in ('list', 'from') and inds_in([dom[1]]) and len(inds_in([dom[1]])) <= SPLIT:
        return cases([dom[1]], lambda ks: msum(v, (dom[0], ks[0]), delta))
    r = {}
    delta = within(simp(delta), dom, v)
    card = None
    for m, c in delta.items():
        dep = tuple((a, k) for a, k in m if v in occ(a))
        ind_ = tuple((a, k) for a, k in m if v not in occ(a))
        base = {ind_: c}
        if not dep:
            if card is None:
                card = dom_card(dom)
            r = add(r, mul(base, card))
            continue
        h = height_key(((dep, Fraction(1)),))
        bv = A(('bv', h))
        q = subst({dep: Fraction(1)}, {v: {((bv, 1),): Fraction(1)}})
        for m2, c2 in q.items():
            free = tuple((a, k) for a, k in m2 if not free_in(bv, a))
            bound = tuple((a, k) for a, k in m2 if free_in(bv, a))
            t = mul(base, {free: c2})
            if bound:
                r = add(r, mul(t, atom(('sum', dom, ((bound, Fraction(1)),), h))))
            else:
                r = add(r, mul(t, dom_card(dom)))
    return r


def free_in(b, a):
    """bound variable b occurs in atom a outside a scope of the same height"""
    if a == b:
        return True
    if b not in occ(a):
        return False
    t = _tab[a]
    if t[0] in ('sum', 'first') and A(('bv', t[3])) == b:
        return any(free_in_key(b, x) for x in subkeys(('', t[1])))
    if t[0] == 'mu' and b in (A(('bv', t[4])), A(('bv', t[4] + 1))):
        return any(free_in_key(b, x) for x in subkeys(('', t[1], t[2])))
    return any(free_in_key(b, x) for x in subkeys(t))


def free_in_key(b, k):
    return any(free_in(b, a) for m, c in k for a, e in m)


def mfirst(v, dom, cond):
    """first element of the domain satisfying cond (end of the domain when there is none)"""
    if dom == ('from', ()):
        return {}
    if dom[0] in ('list', 'from') and inds_in([dom[1]]) and len(inds_in([dom[1]])) <= SPLIT:
        return cases([dom[1]], lambda ks: mfirst(v, (dom[0], ks[0]), cond))
    cond = simp(cond)
    if not cond:
        return {} if dom[0] != 'range' else unkey(dom[1])
    h = height_key(key(cond))
    q = subst(cond, {v: atom(('bv', h))})
    return atom(('first', dom, key(q), h))


def mmu(v, pv, dom, init, step, ty):
    """value after stepping through the domain: x := step(element v, x = pv), starting with init"""
    step = simp(step)
    if step == {((pv, 1),): Fraction(1)}:
        return init
    if dom[0] == 'range':
        r = settled(v, pv, dom, init, step)
        if r is not None:
            return r
    h = height_key(key(step))
    q = subst(step, {v: atom(('bv', h)), pv: atom(('bv', h + 1))})
    return atom(('mu', dom, key(init), key(q), h, ty))


def settled(v, pv, dom, init, step):
    """closed form of what only the first round of a count changes"""
    if any(pv in occ(a) for a in atoms_of(init)):
        return None
    some = ind('gt', unkey(dom[1]))
    if not any(v in occ(a) and a != pv for a in atoms_of(step)):
        if not is_const(init):
            return None
        x = subst(step, {pv: init})
        if any(pv in occ(a) for a in atoms_of(x)):
            return None
        y = subst(step, {pv: x})
        if x != y:
            return None
        return add(init, mul(some, sub(x, init)))
    later = {a: ONE for a in atoms_of(step) if T(a)[0] == 'ind' and T(a)[1] == 'gt' and unkey(T(a)[2]) == {((v, 1),): Fraction(1)}}
    if not later or simp(subst(step, later)) != {((pv, 1),): Fraction(1)}:
        return None
    x = recanon(subst(step, {v: {}, pv: init}))
    return add(init, mul(some, sub(x, init)))


def remu(t, f):
    """rebuild a mu atom, f applied to its step"""
    dom = t[1]
    if dom[0] == 'range' and not dom[1]:
        return unkey(t[2])
    fr = opening(dom, t[4], t[3])
    pv = A(('mv', fr, t[5]))
    step = f(subst(unkey(t[3]), {A(('bv', t[4])): {((fr, 1),): Fraction(1)},
                                 A(('bv', t[4] + 1)): {((pv, 1),): Fraction(1)}}))
    return mmu(fr, pv, dom, unkey(t[2]), step, t[5])


def recanon(p):
    """rebuild every atom bottom-up, so that forms obtained by substitution are in canonical shape"""
    m = {}
    r = {}
    for mono, c in p.items():
        t = const(c)
        for a, k in mono:
            q = recanon_atom(a)
            if k < 0:
                q = pdiv(ONE, q)
            for _ in range(abs(k)):
                t = mul(t, q)
        r = add(r, t)
    return simp(unguard(r))


_rc = {}


def recanon_atom(a):
    r = _rc.get(a)
    if r is not None:
        return r
    t = _tab[a]
    if t[0] in ('sum', 'first'):
        fr = opening(t[1], t[3], t[2])
        dom = map_tuple(t[1], lambda kk: key(recanon(unkey(kk))))
        inner = recanon(subst(unkey(t[2]), {A(('bv', t[3])): {((fr, 1),): Fraction(1)}}))
        fr2 = fr
        r = (msum if t[0] == 'sum' else mfirst)(fr2, dom, inner)
    elif t[0] in ('it', 'bv', 'arg', 'mv'):
        r = {((a, 1),): Fraction(1)}
    elif t[0] == 'mu':
        r = remu(('mu', map_tuple(t[1], lambda kk: key(recanon(unkey(kk)))), key(recanon(unkey(t[2])))) + t[3:], recanon)
    else:
        r = rebuild(map_tuple(t, lambda kk: key(recanon(unkey(kk)))))
    if t[0] != 'it' or t[1] >= 0:
        _rc[a] = r
    return r


_rx = {}


def relax(p):
    """disturbed names (values read after a call or store that may have changed them) replaced by the plain ones"""
    r = {}
    for mono, c in p.items():
        t = const(c)
        for a, k in mono:
            q = relax_atom(a)
            if k < 0:
                q = pdiv(ONE, q)
            for _ in range(abs(k)):
                t = mul(t, q)
        r = add(r, t)
    return r


def relax_atom(a):
    r = _rx.get(a)
    if r is not None:
        return r
    o = occ(a)
    if not any(is_disturbed(_tab[x]) for x in o):
        r = {((a, 1),): Fraction(1)}
    else:
        t = map_tuple(_tab[a], lambda kk: key(relax(unkey(kk))))
        if t[0] == 'vload':
            r = GSN.load(t[1]) or atom(('vload', t[1], ('at',)))
        elif t[0] == 'fn' and "'" in t[1]:
            n, k = t[1].split("'")
            r = fn_atom(n, t[2:len(t) - int(k)])
        else:
            r = rebuild(t)
    _rx[a] = r
    return r


def disturbed_names(p):
    return {x for a in atoms_of(p) for x in occ(a) if is_disturbed(_tab[x])}


def is_disturbed(t):
    """a value read after a call or store that may have changed it: ('vload', address, moment) or ("name'k", arguments,
    the last k of them the moment)"""
    return t[0] == 'vload' or t[0] == 'fn' and "'" in t[1]


def has(p, kinds):
    """names of atoms of the given kinds occurring in p"""
    return {T(x)[0] for a in atoms_of(p) for x in occ(a)} & set(kinds)


def dom_card(dom):
    if dom == ('from', ()):
        return {}
    if dom[0] in ('list', 'from') and inds_in([dom[1]]) and len(inds_in([dom[1]])) <= SPLIT:
        return cases([dom[1]], lambda ks: dom_card((dom[0], ks[0])))
    if dom[0] == 'range':
        return unkey(dom[1])
    if dom[0] == 'until' and dom[1][0] == 'range':
        return atom(('first', dom[1], dom[2], dom[3]))
    return atom(('card', dom))


def even(p):
    for c in p.values():
        if c.denominator != 1:
            return False
    at = sorted(atoms_of(p))
    if any(k < 0 for m in p for a, k in m) or len(at) > 10:
        return False
    for bits in range(1 << len(at)):
        v = {a: bits >> i & 1 for i, a in enumerate(at)}
        t = 0
        for m, c in p.items():
            x = int(c)
            for a, k in m:
                x *= v[a]
            t += x
        if t % 2:
            return False
    return True


IMPURE = {'gsl_rng_uniform', 'gsl_rng_uniform_pos', 'gsl_rng_get', 'malloc', 'calloc', 'geometric_dist_val'}


class Dom:
    """domain of a loop: element atom it, cursor phi p, first stopping element, exit-edge conditions"""
    pass


class Loop:
    def __init__(self, g, h):
        f = g.f
        self.g, self.h = g, h
        self.blocks = f.loops[h]
        self.latches = [p for p in f.pred[h] if p in self.blocks]
        self.entries = [p for p in f.pred[h] if p not in self.blocks]
        self.exits = [(b, s) for b in self.blocks for s in f.succ[b] if s not in self.blocks and s not in g.dead]
        self.level = len([x for x in f.loops if h in f.loops[x]])

    @property
    def simple(self):
        """one exit, from the header, one latch edge set"""
        return len({b for b, s in self.exits}) == 1 and self.exits[0][0] == self.h and len(self.exits) == 1


class GSN:
    """normal forms of one function"""

    def __init__(self, f, leaf=None, domhook=None, rename=None, argmap=None, effectful=None, memory=None):
        self.f = f
        self.leaf = leaf
        self.domhook = domhook
        self.rename = rename or {}
        self.argmap = argmap or {}
        self.effectful = effectful
        self.memory = memory
        self._mods = {}
        self._called = {}
        self._fwd = {}
        self.ordinals = {}
        self.over = {}          # assumed values of carried names; those of a loop hold inside it only
        self.cur = frozenset()
        self._ctx = {self.cur: (self.over, {}, set())}
        self._narrow = {}
        self.depth, self.partial = 0, []
        self._doms = {}
        self.working, self.guesses, self.guessed, self.low = [], {}, {}, FAR      # loops being worked out, what was found meanwhile
        self.memo = {}
        self._cyc = self._depth = 0
        self.dead = self._dead()
        self.loops = {h: Loop(self, h) for h in f.loops}
        self.loopset = {}
        for b in range(f.n):
            self.loopset[b] = frozenset(h for h in f.loops if b in f.loops[h])
        self.opaque = set()
        self.over, self.memo, self._stack = self._ctx[self.cur]
        self._inner = {}

    def _dead(self):
        """blocks that never return (exit, abort)"""
        f = self.f
        ok = {b for b in range(f.n) if f.term(b).op == 'ret'}
        st = list(ok)
        while st:
            x = st.pop()
            for p in f.pred[x]:
                if p not in ok:
                    ok.add(p)
                    st.append(p)
        loops = set()
        return {b for b in range(f.n) if b not in ok and f.term(b).op in ('unreachable', 'br')}

    # ---- values ------------------------------------------------------------------------
    def of(self, op, cb):
        """normal form of op as seen from block cb"""
        i = self.f.val(op)
        if i is None:
            return self._simple(op)
        ctx = self.loopset[cb] & self.loopset[i.blk]
        k = (op, ctx)
        n = self.narrow(ctx)
        o, m, st = self._ctx[n]
        if k in m:
            return self.known(m, k)
        if k in st:
            return atom(('rec', self.f.name, i.id))
        st.add(k)
        old = self.enter(n)
        self.depth += 1
        low, self.low = self.low, FAR
        try:
            r = self._val(i, op, cb)
        except BaseException:
            self.low = min(low, self.low)
            raise
        finally:
            self.depth -= 1
            self.enter(old)
            st.discard(k)
        mark_int(r, i.ty)
        m[k] = r
        self.keep(m, k, low)
        if self.depth:
            if has(r, ('rec',)):
                self.partial.append((m, k))
        elif self.partial:              # values that met one still being worked out
            for mm, kk in self.partial:
                mm.pop(kk, None)
            self.partial = []
        return r

    def known(self, m, k):
        if self.guesses:
            self.low = min(self.low, self.guessed.get((id(m), k), FAR))
        return m[k]

    def keep(self, m, k, low):
        """m[k] has just been found; low: what was open before"""
        if self.low < FAR:
            self.guesses.setdefault(self.low, []).append((m, k))
            self.guessed[id(m), k] = self.low
        self.low = min(low, self.low)

    def enter(self, n):
        """make n the assumptions in force"""
        old = self.cur
        self.cur = n
        self.over, self.memo, self._stack = self._ctx[n]
        return old

    def narrow(self, loops):
        """the assumptions about the current iterations of some loops only"""
        if not self.cur:
            return self.cur
        k = (self.cur, loops)
        n = self._narrow.get(k)
        if n is None:
            n = self._narrow[k] = frozenset(x for x in self.cur if x[0][1] <= loops)
            if n not in self._ctx:
                self._ctx[n] = ({x[0]: unkey(x[1]) for x in n}, {}, set())
        return n

    def _simple(self, op):
        f = self.f
        if op.startswith('i:'):
            return const(int(op[2:])) if op[2:] != 'big' else atom(('big', op))
        if op.startswith('f:'):
            v = float(op[2:])
            if v != v or abs(v) > 1e290:
                return atom(('flt', repr(v)))
            return const(Fraction(v).limit_denominator(10 ** 12))
        if op == 'null':
            return {}
        if op == 'undef':
            return atom(('undef',))
        if op[0] == 'a' and op[1:].isdigit():
            if int(op[1:]) in self.argmap:
                return self.argmap[int(op[1:])]
            k = int(op[1:])
            ty = f.args[k][1] if k < len(f.args) else '?'
            return atom(('arg', k, 'p' if ty == 'ptr' else ('i' if ty[0] == 'i' else 'f')))
        e = f.ex(op)
        return atom(('c',) + e)

    def _val(self, i, op, cb):
        f = self.f
        # defined in a loop that does not contain the use: only header instructions survive
        out = self.loopset[i.blk] - self.loopset[cb]
        if out:
            if i.op == 'phi' and i.blk in self.loops:
                return self.header_phi(i, cb)
            v = self.of(op, i.blk)
            for h in sorted(out, key=lambda h: len(self.loops[h].blocks)):
                v = self.leave(self.loops[h], v, cb)
                if v is None:
                    self.opaque.add(i.id)
                    return atom(('out', f.name, i.id))
            return v
        ub = i.blk
        if (i.id, frozenset(self.loopset[ub] & self.loopset[i.blk])) in self.over:
            return self.over[(i.id, frozenset(self.loopset[ub] & self.loopset[i.blk]))]
        if self.leaf is not None:
            r = self.leaf(self, i, ub)
            if r is not None:
                return r
        o = i.ops
        V = lambda x: self.of(x, ub)
        if i.op in CAST_TRANSPARENT:
            return V(o[0])
        if i.op in ('add', 'fadd'):
            return add(V(o[0]), V(o[1]))
        if i.op in ('sub', 'fsub'):
            return sub(V(o[0]), V(o[1]))
        if i.op in ('mul', 'fmul'):
            return mul(V(o[0]), V(o[1]))
        if i.op == 'fneg':
            return neg(V(o[0]))
        if i.op == 'shl':
            q = V(o[1])
            if is_const(q):
                return scale(V(o[0]), 2 ** int(cval(q)))
        if i.op == 'fdiv':
            q = V(o[1])
            if q:
                return self.divide(V(o[0]), o[1], ub)
        if i.op in ('sdiv', 'udiv'):
            p, q = V(o[0]), V(o[1])
            if is_const(q) and cval(q) == 2 and even(p):
                return scale(p, Fraction(1, 2))
            return atom(('idiv', key(p), key(q)))
        if i.op in ('srem', 'urem'):
            return atom(('irem', key(V(o[0])), key(V(o[1]))))
        if i.op in ('fptosi', 'fptoui'):
            p = V(o[0])
            if int_poly(p):
                return p
            return atom(('ftoi', key(p)))
        if i.op == 'icmp':
            return self.icmp(i.pred, V(o[0]), V(o[1]))
        if i.op == 'fcmp':
            return self.fcmp(i.pred, V(o[0]), V(o[1]))
        if i.op == 'select':
            c = V(o[0])
            return add(mul(c, V(o[1])), mul(sub(ONE, c), V(o[2])))
        if i.op in ('and', 'or', 'xor') and i.ty == 'i1':
            a, b = V(o[0]), V(o[1])
            ab = mul(a, b)
            if i.op == 'and':
                return ab
            return sub(add(a, b), ab if i.op == 'or' else scale(ab, 2))
        if i.op == 'phi':
            return self.phi(i, ub)
        if i.op == 'load':
            a = self.addr(o[0], ub)
            if self.memory is not None:
                return self.mem_at(a, self.memory.cls(f, o[0], i.ty), ub, i.pos)
            return self.load(a)
        if i.op == 'getelementptr':
            a = self.addr(op, ub)
            if not a[2]:
                return self.of(self.base(op), ub)
            return atom(a)
        if i.op == 'call':
            return self.call(i, ub)
        if i.op == 'alloca':
            same = [j.id for j in f.all() if j.op == 'alloca' and j.aty == i.aty]
            return atom(('alloca', str(i.aty), same.index(i.id)))
        self.opaque.add(i.id)
        return atom(('op', i.op) + tuple(key(V(x)) for x in o))

    def divide(self, p, op, ub, depth=0):
        """p divided by op, factor by factor when op is written as a product"""
        i = self.f.val(op)
        while i is not None and i.op in CAST_TRANSPARENT and self.leaf is None:
            op = i.ops[0]
            i = self.f.val(op)
        if i is not None and i.op in ('fmul', 'mul') and depth < 6 and self.loopset[i.blk] <= self.loopset[ub] and \
                (i.id, frozenset(self.loopset[i.blk])) not in self.over:
            return self.divide(self.divide(p, i.ops[0], ub, depth + 1), i.ops[1], ub, depth + 1)
        if i is not None and i.op == 'fdiv' and depth < 6 and self.loopset[i.blk] <= self.loopset[ub]:
            return mul(self.divide(p, i.ops[0], ub, depth + 1), self.of(i.ops[1], ub))
        return pdiv(p, self.of(op, ub))

    def base(self, op):
        f = self.f
        while True:
            i = f.val(op)
            if i is not None and i.op in ('getelementptr', 'bitcast', 'freeze'):
                op = i.ops[0]
                continue
            return op

    def addr(self, op, ub):
        steps = []
        f = self.f
        o = op
        while True:
            i = f.val(o)
            if i is not None and i.op == 'getelementptr':
                st = []
                for s in i.path:
                    if s[0] == 'f':
                        st.append(('f', s[1], s[2]))
                    else:
                        k = key(self.of(s[2], ub))
                        if s[0] == '*' and not k:
                            continue
                        st.append(('i', k))
                steps = st + steps
                o = i.ops[0]
                continue
            if i is not None and i.op in ('bitcast', 'freeze'):
                o = i.ops[0]
                continue
            break
        b = key(self.of(o, ub))
        # pointer normal form that is itself an address
        if len(b) == 1 and b[0][1] == 1 and len(b[0][0]) == 1 and b[0][0][0][1] == 1:
            t = T(b[0][0][0][0])
            if t[0] == 'addr':
                return ('addr', t[1], t[2] + tuple(steps))
        return ('addr', b, tuple(steps))

    @staticmethod
    def load(a):
        ks = [a[1]] + [x[1] for x in a[2] if x[0] == 'i']
        if inds_in(ks) and len(inds_in(ks)) <= SPLIT:
            def build(ks):
                it = iter(ks)
                b = next(it)
                return GSN.load(('addr', b, tuple(('i', next(it)) if x[0] == 'i' else x for x in a[2])))
            return cases(ks, build)
        if len(a[2]) == 1 and a[2][0][0] == 'f' and a[2][0][2] == 'next' and len(a[1]) == 1 and a[1][0][1] == 1:
            m = a[1][0][0]
            if len(m) == 1 and m[0][1] == 1 and T(m[0][0])[0] == 'before':
                return unkey(T(m[0][0])[1])
            if len(m) == 1 and m[0][1] == 1 and T(m[0][0])[0] == 'lastof' and T(m[0][0])[1][0] == 'list':
                return {}
        if len(a[1]) == 1 and a[1][0][1] == 1 and len(a[1][0][0]) == 1 and a[1][0][0][0][1] == 1:
            t = T(a[1][0][0][0][0])
            if t[0] == 'call' and t[1] == 'calloc':
                return {}
        return atom(('load', a))

    def call(self, i, ub):
        f = self.f
        if i.callee is None or i.callee in IMPURE:
            return self.impure(i, ub)
        n = i.callee
        if self.effectful is not None and self.effectful(n):
            return self.impure(i, ub)
        if n in ('llvm.fabs.f64', 'fabs'):
            n = 'fabs'
        n = self.rename.get(n, n)
        if n.startswith('llvm.') and n.endswith('.f64'):
            n = n[5:-4]
        args = tuple(key(self.of(x, ub)) for x in i.ops)
        if self.memory is not None and n in self.memory.reads and self.disturbed(self.memory.reads[n], i.blk, i.pos):
            v = self.moment(self.memory.reads[n], i.blk, i.pos)
            n += "'%d" % len(v)
            args += v
        if n == 'pow' and len(i.ops) == 2:
            e = self.of(i.ops[1], ub)
            if is_const(e) and cval(e).denominator == 1 and 0 <= cval(e) <= 6:
                r = ONE
                b = self.of(i.ops[0], ub)
                for _ in range(int(cval(e))):
                    r = mul(r, b)
                return r
        return fn_atom(n, args)

    def impure(self, i, ub):
        """value of a call that is not a function of its arguments: named by callee, arguments, enclosing iterations and
        order of appearance"""
        args = tuple(key(self.of(x, ub)) for x in i.ops)
        if i.callee == 'calloc' and len(i.ops) == 2:
            args = (key(mul(unkey(args[0]), unkey(args[1]))),)
        its = []
        for h in sorted(self.loopset[i.blk], key=lambda h: -len(self.loops[h].blocks)):
            d = self.domain(self.loops[h])
            if d is None:
                return atom(('opq', 'call', self.f.name, i.id))
            its.append(key({((d.it, 1),): Fraction(1)}))
        t = ('call', i.callee or '*') + args + (('its',) + tuple(its),)
        k = self.ordinals.get(i.id)
        if k is None:
            same = [j.id for j in self.f.all() if j.op == 'call' and j.callee == i.callee]
            k = same.index(i.id)
            self.ordinals[i.id] = k
        return atom(t + (('#', k),))

    # ---- conditions ----------------------------------------------------------------------
    def icmp(self, pred, a, b):
        if pred in ('eq', 'ne'):
            # what a routine does with a file is said for a file that opens; C06 follows one that does not
            opened = sub(a, b)
            if len(opened) == 1:
                (m, c), = opened.items()
                if len(m) == 1 and m[0][1] == 1 and T(m[0][0])[:2] == ('call', 'fopen'):
                    return ZERO if pred == 'eq' else ONE
        if pred == 'eq':
            return ind('eq', sub(a, b))
        if pred == 'ne':
            return sub(ONE, ind('eq', sub(a, b)))
        p = pred[1:]
        if p == 'gt':
            return ind('gt', sub(a, b))
        if p == 'lt':
            return ind('gt', sub(b, a))
        if p == 'ge':
            return ind('gt', add(sub(a, b), ONE))
        return ind('gt', add(sub(b, a), ONE))

    def fcmp(self, pred, a, b):
        p = pred[1:] if pred[0] in 'ou' else pred
        if p == 'eq':
            return ind('eq', sub(a, b))
        if p == 'ne':
            return sub(ONE, ind('eq', sub(a, b)))
        if p == 'gt':
            return ind('fgt', sub(a, b))
        if p == 'lt':
            return ind('fgt', sub(b, a))
        if p == 'ge':
            return sub(ONE, ind('fgt', sub(b, a)))
        if p == 'le':
            return sub(ONE, ind('fgt', sub(a, b)))
        return atom(('ind', 'fcmp' + pred, key(sub(a, b))))

    # ---- phis ----------------------------------------------------------------------------
    def phi(self, i, ub):
        f = self.f
        if i.blk in self.loops:
            return self.header_phi(i, ub)
        r = {}
        try:
            D = f.idom[i.blk]
            ctx = self.loopset[i.blk]
            up = [h for h in self.loopset[D] if h not in ctx]
            if up:
                D = max(up, key=lambda h: len(self.loops[h].blocks))
            for o, p in zip(i.ops, i.inb):
                if p in self.dead:
                    continue
                c = self.edgecond(D, p, i.blk, ctx)
                if c:
                    r = add(r, mul(c, self.of_edge(o, p, i.blk)))
            return r
        except Opaque:
            self.opaque.add(i.id)
            return atom(('phi', f.name, i.id))

    def of_edge(self, o, p, x):
        """value of o on the edge p->x"""
        i = self.f.val(o)
        if i is None:
            return self._simple(o)
        left = self.loopset[p] - self.loopset[x]
        if not left:
            return self.of(o, p)
        return self.of(o, x)

    def rc(self, D, x, ctx=None):
        """condition under which control starting at D passes x; ctx: the loops whose current iteration is meant
        (a header D outside ctx stands for the whole loop)"""
        if ctx is None:
            ctx = self.loopset[D]
        if x == D:
            return ONE
        n = self.narrow(ctx)
        m = self._ctx[n][1]
        k = ('rc', D, x, ctx)
        if k in m:
            if m[k] is None:
                raise Opaque()
            return self.known(m, k)
        f = self.f
        if x == 0:
            raise Opaque()
        m[k] = None
        r = {}
        old = self.enter(n)
        low, self.low = self.low, FAR
        try:
            for y in f.pred[x]:
                if y in self.dead or y not in f.idom:
                    continue
                if x in self.loops and y in self.loops[x].blocks:
                    continue                       # back edge
                r = add(r, self.edgecond(D, y, x, ctx))
        except BaseException:
            del m[k]
            self.low = min(low, self.low)
            raise
        finally:
            self.enter(old)
        m[k] = r
        self.keep(m, k, low)
        return r

    def edgecond(self, D, y, x, ctx=None):
        """condition, starting at D, that the edge y->x is taken"""
        if ctx is None:
            ctx = self.loopset[D]
        f = self.f
        ent = self.loopset[y] - ctx
        if not ent:
            if y != D and not f.dominates(D, y):
                raise Opaque()
            return mul(self.rc(D, y, ctx), self.ec(y, x))
        outer = max(ent, key=lambda h: len(self.loops[h].blocks))
        L = self.loops[outer]
        if x in L.blocks:
            raise Opaque()
        if outer != D and not f.dominates(D, outer):
            raise Opaque()
        c = self.rc(D, outer, ctx)
        if len(L.exits) == 1:
            return c
        d = self.domain(L)
        if d is None:
            if len({b for b, s in L.exits}) == 1 and len({s for b, s in L.exits}) == 1:
                return c
            raise Opaque()
        return mul(c, d.edges[(y, x)])

    def ec(self, y, x):
        """condition of the edge y->x"""
        f = self.f
        live = [s for s in f.succ[y] if s not in self.dead]
        if len(live) == 1:
            return ONE
        t = f.term(y)
        if t.op == 'br':
            if t.succ[0] == t.succ[1]:
                return ONE
            c = self.of(t.ops[0], y)
            return c if t.succ[0] == x else sub(ONE, c)
        if t.op == 'switch':
            v = self.of(t.ops[0], y)
            r = {}
            if t.default == x:
                r = ONE
                for cv, b in t.cases:
                    if b != x:
                        r = sub(r, ind('eq', sub(v, const(int(cv)))))
                return r
            for cv, b in t.cases:
                if b == x:
                    r = add(r, ind('eq', sub(v, const(int(cv)))))
            return r
        raise Opaque()

    def domain(self, L):
        n = self.narrow(self.loopset[L.h] - {L.h})
        k = (L.h, n)
        if k not in self._doms:
            doms = self._doms
            doms[k] = None
            old = self.enter(n)
            low, self.low = self.low, FAR
            self.working.append(k)
            here = len(self.working) - 1
            try:
                doms[k] = self._domain(L)
            except BaseException:
                del doms[k]
                raise
            finally:
                self.enter(old)
                self.working.pop()
                if self.low >= here:
                    self.low = FAR
                elif doms.get(k, 0) is None:
                    self.keep(doms, k, FAR)
                for j in [j for j in self.guesses if j >= here]:        # found without knowing how this loop runs
                    for m, x in self.guesses.pop(j):
                        m.pop(x, None)
                        self.guessed.pop((id(m), x), None)
                self.low = min(self.low, low)
        elif self._doms[k] is None:
            if k in self.working:
                self.low = min(self.low, self.working.index(k))
            elif self.guesses:
                self.low = min(self.low, self.guessed.get((id(self._doms), k), FAR))
        return self._doms[k]

    def _domain(self, L):
        f = self.f
        h = L.h
        if not L.exits:
            return None
        if self.domhook is not None:
            d = self.domhook(self, L)
            if d is not None:
                return d
        cand = []
        for p in f.blocks[h]:
            if p.op != 'phi':
                continue
            if p.ty == 'ptr' and self.latch_is_next(p, L):
                init = self.init(p, L)
                if init is not None:
                    cand.append((p, 'next', init))
                    cand.append((p, 'self', init))
            elif p.ty != 'ptr':
                st = self.step(p, L)
                if st is not None:
                    init = self.init(p, L)
                    if init is not None:
                        cand.append((p, st, init))
        bs = sorted({b for b, s in L.exits})
        X = [b for b in bs if all(f.dominates(b, c) for c in bs) and all(f.dominates(b, c) for c in L.latches)]
        if not X:
            return None
        X = X[0]
        for p, kind, init in cand:
            d = self.try_domain(L, X, p, kind, init)
            if d is not None:
                d.X = X
                return d
        d = self.while_domain(L, X)
        if d is not None:
            d.X = X
        return d

    def while_domain(self, L, X):
        """loop controlled by the state it computes: domain named by the initial values, the steps and the condition"""
        f = self.f
        h = L.h
        phis = [q for q in f.blocks[h] if q.op == 'phi']
        dom0 = ('while?', f.name, h)
        it0 = A(('it', L.level, dom0))
        itp = {((it0, 1),): Fraction(1)}
        pa = {A(('phi', f.name, q.id)): q for q in phis}
        over = {(q.id, frozenset(self.loopset[h])): atom(('phi', f.name, q.id)) for q in phis}
        over[('while', frozenset(self.loopset[h]))] = ONE

        def conds():
            try:
                if self.rc(h, X) != ONE:
                    return None
                c = {}
                for s in {s for s in f.succ[X] if s in L.blocks}:
                    c = add(c, self.ec(X, s))
                others = {}
                for b, s in L.exits:
                    if b != X:
                        others[(b, s)] = self.edgecond(h, b, s)
                return c, others, {q.id: self.latch(q, L) for q in phis}
            except (Opaque, TooBig):
                return None
        dk = (h, self.cur)
        ctx0, doms0 = self._ctx, self._doms          # what is found meanwhile holds meanwhile only
        self._ctx = {n: (o, ChainMap({}, m), st) for n, (o, m, st) in ctx0.items()}
        self._doms = ChainMap({}, doms0)
        self.enter(self.cur)
        d0 = self._doms[dk] = Dom()
        d0.dom, d0.it, d0.p, d0.stop = dom0, it0, None, {}
        d0.view = None
        d0.sumdom = dom0
        d0.first = {}
        d0.edges = {}
        d0.X = X
        try:
            r = self.with_over(over, conds)
        except KeyError:
            r = None
        finally:
            self._ctx, self._doms = ctx0, doms0
            for n in self._narrow.values():
                if n not in ctx0:
                    ctx0[n] = ({x[0]: unkey(x[1]) for x in n}, {}, set())
            self.enter(self.cur)
        if r is None:
            return None
        c, others, steps = r
        same = {}
        for q in phis:
            w = steps[q.id]
            if w is not None and not has(w, ('phi', 'rec', 'out', 'opq')):
                v = self.init(q, L)
                if v is not None and (v == w or disturbed_names(w) and relax(v) == relax(w)):
                    same[A(('phi', f.name, q.id))] = w
        if same:
            c = subst(c, same)
            others = {e: subst(v, same) for e, v in others.items()}
            steps = {n: (None if v is None else subst(v, same)) for n, v in steps.items()}
        others = {e: under(v, c) for e, v in others.items()}
        if any(has(v, ('opq', 'op')) for v in others.values()):
            return None
        ctl = []
        todo = [c] + list(others.values())
        while todo:
            p = todo.pop()
            for a in atoms_of(p):
                for x in occ(a):
                    if x in pa and pa[x] not in ctl:
                        q = pa[x]
                        ctl.append(q)
                        if steps[q.id] is None:
                            return None
                        todo.append(steps[q.id])
                    elif T(x)[0] in ('rec', 'out', 'opq', 'op', 'phi') and x not in pa and not self.outer_phi(x, L):
                        return None
        if len(ctl) > 8:
            return None
        inits = {}
        for q in ctl:
            v = self.init(q, L)
            if v is None or has(v, ('rec', 'out', 'opq', 'op')) or \
                    any(T(x)[0] == 'phi' and not self.outer_phi(x, L) for b in atoms_of(v) for x in occ(b)):
                return None
            inits[q.id] = v
        # their order: by type and first value, then by what they become, whatever the states of outer loops are called
        outer = {x: atom(('bv', 900)) for p in list(inits.values()) + [steps[q.id] for q in ctl] for a in atoms_of(p)
                 for x in occ(a) if T(x)[0] == 'phi' and x not in pa}
        kind = {q.id: (repr(q.ty), key(subst(inits[q.id], outer))) for q in ctl}
        if len(set(kind.values())) != len(ctl):
            order = sorted(set(kind.values()))
            m = {A(('phi', f.name, q.id)): atom(('bv', 901 + order.index(kind[q.id]))) for q in ctl}
            m.update(outer)
            m[it0] = atom(('bv', 900 + 99))
            kind = {q.id: kind[q.id] + (key(subst(steps[q.id], m)),) for q in ctl}
            if len(set(kind.values())) != len(ctl):
                return None
        ctl.sort(key=lambda q: kind[q.id])
        # names of the state inside the domain description
        ks = [key(c)] + [key(steps[q.id]) for q in ctl]
        hh = max([height_key(k) for k in ks])
        m = {A(('phi', f.name, q.id)): atom(('bv', hh + 1 + j)) for j, q in enumerate(ctl)}
        m[it0] = atom(('bv', hh))
        dom = ('while', tuple(key(inits[q.id]) for q in ctl), tuple(key(subst(steps[q.id], m)) for q in ctl),
               key(subst(c, m)))
        it = A(('it', L.level, dom))
        itp = {((it, 1),): Fraction(1)}
        D = Dom()
        D.dom, D.it, D.p = dom, it, None
        D.ctl = {q.id: j for j, q in enumerate(ctl)}
        D.view = 'while'
        D.unbounded = False
        D.sumdom = dom
        st = {A(('phi', f.name, q.id)): atom(('st', j, key(itp), self.tyc(q))) for j, q in enumerate(ctl)}
        st[it0] = itp
        oth = {e: subst(v, st) for e, v in others.items()}
        D.stop = {}
        for v in oth.values():
            D.stop = add(D.stop, v)
        D.cond = subst(c, st)
        D.edges = {e: {} for e in oth}
        if not D.stop:
            D.first = atom(('endof', dom))
            for e in L.exits:
                if e[0] == X:
                    D.edges[e] = ONE
            return D
        if any(occ(a) & self.inner_phis(L) for a in atoms_of(D.stop)) or len([e for e in L.exits if e[0] == X]) != 1:
            return None
        # left in the middle of an iteration: the edges in terms of the iteration it is left in
        D.first = mfirst(it, dom, D.stop)
        at_first = {it: D.first}
        left = any_ = subst(D.cond, at_first)
        h_ = height_key(key(D.stop))
        D.sumdom = ('until', dom, key(subst(D.stop, {it: atom(('bv', h_))})), h_)
        br = sorted((key(v), e, v) for e, v in oth.items() if v)
        for j, (kk, e, v) in enumerate(br):
            w = left if j == len(br) - 1 else mul(any_, subst(v, at_first))
            D.edges[e] = add(D.edges.get(e, {}), w)
            left = sub(left, w)
        for e in L.exits:
            if e[0] == X:
                D.edges[e] = add(D.edges.get(e, {}), sub(ONE, any_))
        return D

    @staticmethod
    def tyc(i):
        return 'p' if i.ty == 'ptr' else ('i' if i.ty[0] == 'i' else 'f')

    def try_domain(self, L, X, p, kind, init):
        f = self.f
        h = L.h
        k = (p.id, frozenset(self.loopset[h]))
        if kind == 'next':
            dom = ('list', key(init))
        elif kind == 'self':
            dom = self.from_first(init)
        else:
            dom = ('range?', key(init), kind)
        it = A(('it', L.level, dom))
        itp = {((it, 1),): Fraction(1)}
        if kind == 'next':
            pv = atom(('before', key(itp)))
        elif kind == 'self':
            pv = itp
        else:
            INTS.add(it)
            pv = add(init, scale(itp, kind))

        def conds():
            try:
                stay = [s for s in f.succ[X] if s in L.blocks]
                c = {}
                for s in set(stay):
                    c = add(c, mul(self.rc(h, X), self.ec(X, s)))
                others = {}
                for b, s in L.exits:
                    if b != X:
                        others[(b, s)] = self.edgecond(h, b, s)
                if self.rc(h, X) != ONE:
                    return None
                return c, others
            except (Opaque, TooBig):
                return None
        r = self.with_over({k: pv, ('try', k[1]): ONE}, conds)
        if r is None:
            return None
        c, others = r
        phis = {A(('phi', f.name, q.id)) for q in f.blocks[h] if q.op == 'phi'}

        def inv(q):
            return not any(occ(a) & (phis | {it}) or
                           any(T(x)[0] in ('rec', 'call', 'out') and T(x)[0] != 'call' for x in occ(a))
                           for a in atoms_of(q))
        inr = None
        unbounded = False
        if kind in ('next', 'self'):
            e = A(('ind', 'eq', key(itp)))
            if e in atoms_of(c) and not subst(c, {e: ONE}):
                inr = {e: {}}
                size = None
            elif kind == 'next' or not self.has_next_view(p, L):
                # no end test: the search is taken to succeed
                if e in atoms_of(c) or not any(it in occ(a) for a in atoms_of(c)) or f.term(X).op != 'br':
                    return None
                if any(T(x)[0] == 'before' for a in atoms_of(c) for x in occ(a)) and kind == 'next':
                    return None
                inr = {}
                size = None
                unbounded = True
            else:
                return None
        else:
            for a in sorted(atoms_of(c)):
                t = T(a)
                if t[0] != 'ind' or t[1] not in ('gt', 'eq') or it not in occ(a):
                    continue
                P = unkey(t[2])
                co = P.get(((it, 1),))
                if co is None or abs(co) != 1:
                    continue
                rest = {m: v for m, v in P.items() if m != ((it, 1),)}
                if not inv(rest):
                    continue
                if t[1] == 'eq':
                    val, n = 1, scale(rest, -co)
                elif co == -1:
                    val, n = 0, rest
                else:
                    val, n = 1, add(neg(rest), ONE)
                if not subst(c, {a: const(val)}):
                    inr = {a: const(1 - val)}
                    size = n
                    break
            if inr is None:
                return None
            dom2 = ('range', key(size))
            it2 = A(('it', L.level, dom2))
            INTS.add(it2)
            up = {((it2, 1),): Fraction(1)}
            lo = init
            if kind < 0:
                lo = add(sub(init, size), ONE)
        q = subst(c, inr)
        edges = {}
        oth = {e: subst(v, inr) for e, v in others.items()}
        if kind not in ('next', 'self'):
            nobreak = q == ONE and not any(oth.values())
            if kind < 0 and not nobreak:
                return None
            m = {it: up}
            q = subst(q, m)
            oth = {e: subst(v, m) for e, v in oth.items()}
            dom, it = dom2, it2
            itp = up
        xe = [(b, s) for b, s in L.exits if b == X]
        stopx = sub(ONE, q)
        stop = stopx
        for v in oth.values():
            stop = add(stop, v)
        D = Dom()
        D.dom, D.p, D.view, D.it = dom, p, (kind if kind in ('next', 'self') else ('up', lo)), it
        D.stop = stop
        D.unbounded = unbounded
        if any(occ(a) & self.inner_phis(L) for a in atoms_of(stop)) or (unbounded and not stop):
            return None
        # the edges in terms of the first stopping element
        D.sumdom = dom
        if stop:
            D.first = mfirst(it, dom, stop)
            fa = D.first
            if unbounded:
                none = {}
            elif dom[0] == 'range':
                none = sub(ONE, ind('gt', sub(unkey(dom[1]), fa)))
            else:
                none = ind('eq', fa)
            any_ = sub(ONE, none)
            h_ = height_key(key(stop))
            D.sumdom = ('until', dom, key(subst(stop, {it: atom(('bv', h_))})), h_)
            br = []
            for e in xe:
                if stopx:
                    br.append((key(stopx), e, stopx))
            for e, v in oth.items():
                if v:
                    br.append((key(v), e, v))
            br.sort(key=lambda t: t[0])
            left = any_
            for j, (kk, e, v) in enumerate(br):
                if j == len(br) - 1:
                    edges[e] = left
                else:
                    w = mul(any_, subst(v, {it: fa}))
                    edges[e] = add(edges.get(e, {}), w)
                    left = sub(left, w)
            for e in xe:
                edges[e] = add(edges.get(e, {}), none)
        else:
            D.first = {} if dom[0] != 'range' else unkey(dom[1])
            for e in xe:
                edges[e] = ONE
        for e in oth:
            edges.setdefault(e, {})
        D.edges = edges
        if len(xe) != 1:
            return None
        return D

    def inner_phis(self, L):
        """names of the values carried by L and by the loops inside it"""
        r = self._inner.get(L.h)
        if r is None:
            r = self._inner[L.h] = {A(('phi', self.f.name, q.id)) for h in self.loops if h in L.blocks
                                    for q in self.f.blocks[h] if q.op == 'phi'}
        return r

    def outer_phi(self, x, L):
        """x is a value carried by a loop around L"""
        t = T(x)
        return t[0] == 'phi' and t[1] == self.f.name and isinstance(t[2], int) and x not in self.inner_phis(L) and \
            any(q.id == t[2] for h in self.loopset[L.h] if h != L.h for q in self.f.blocks[h] if q.op == 'phi')

    def has_next_view(self, p, L):
        """the header reads p->next (the element the iteration is about is the one after the cursor)"""
        f = self.f
        for i in f.blocks[L.h]:
            if i.op == 'load' and self._isnext('%%%d' % i.id, p, set()):
                return True
        return False

    def leave(self, L, v, cb):
        """value v computed in the last iteration of L, as seen after the loop"""
        d = self.domain(L)
        phis = [q for q in self.f.blocks[L.h] if q.op == 'phi']
        m = {}
        ats = {x for a in atoms_of(v) for x in occ(a)}
        for q in phis:
            a = A(('phi', self.f.name, q.id))
            if a in ats:
                w = self.of('%%%d' % q.id, cb)
                if has(w, ('phi', 'out', 'rec')) and (d is None or w != {((a, 1),): Fraction(1)}):
                    return None
                m[a] = w
        if d is None:
            # values that do not change in the loop
            if m or any(T(x)[0] in ('it', 'rec', 'pos') and T(x)[0] != 'it' for x in ats):
                return None
            return v if self.invariant_form(v, L) else None
        m[d.it] = d.first
        return subst(v, m)

    def invariant_form(self, v, L):
        for a in atoms_of(v):
            for x in occ(a):
                t = T(x)
                if t[0] in ('phi', 'rec', 'out', 'opq') or (t[0] == 'it' and t[1] >= L.level) or t[0] == 'pos':
                    return False
        return True

    def from_first(self, init):
        if len(init) == 1:
            (m, c), = init.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                t = T(m[0][0])
                if t[0] in ('load', 'vload') and t[1][2] and t[1][2][-1][0] == 'f' and t[1][2][-1][2] == 'next' and \
                        len(t[1][2]) == 1:
                    return ('list', t[1][1])
                if t[0] == 'it':
                    return ('list', key(atom(('before', key(init)))))
        k = key(init)
        if 0 < len(inds_in([k])) <= SPLIT:
            bad = []

            def build(ks):
                d = self.from_first(unkey(ks[0])) if ks[0] else ('from',)
                if d[0] != 'list':
                    bad.append(1)
                    return {}
                return unkey(d[1])
            b = cases([k], build)
            if not bad:
                return ('list', key(b))
        return ('from', k)

    def latch_is_next(self, p, L):
        """every latch value of p is p->next (on every path of the iteration)"""
        f = self.f
        want = ('load', ('addr', ('phi', p.id), None))
        for o, b in zip(p.ops, p.inb):
            if b in L.blocks:
                if not self._isnext(o, p, set()):
                    return False
        return True

    def _isnext(self, o, p, seen):
        f = self.f
        i = f.val(f.strip(o))
        if i is None or i.id in seen:
            return i is not None
        seen.add(i.id)
        if i.op == 'phi' and i.blk != p.blk:
            return all(self._isnext(q, p, seen) for q in i.ops)
        if i.op == 'load':
            g = f.val(i.ops[0])
            return g is not None and g.op == 'getelementptr' and g.path[-1][0] == 'f' and g.path[-1][2] == 'next' and \
                f.strip(g.ops[0]) == '%%%d' % p.id and len([s for s in g.path if s[0] == 'f']) == 1
        return False

    def step(self, p, L):
        f = self.f
        st = set()
        for o, b in zip(p.ops, p.inb):
            if b in L.blocks:
                i = f.val(o)
                if i is None or i.op not in ('add', 'sub'):
                    return None
                q, k = i.ops
                if f.strip(q) != '%%%d' % p.id or not k.startswith('i:'):
                    return None
                st.add(int(k[2:]) * (1 if i.op == 'add' else -1))
        return st.pop() if len(st) == 1 and st <= {1, -1} else None

    def init(self, p, L):
        vals = [(o, b) for o, b in zip(p.ops, p.inb) if b not in L.blocks]
        if len(vals) != 1:
            # several entries: gate them
            try:
                D = self.f.idom[L.h]
                r = {}
                for o, b in vals:
                    if b in self.dead:
                        continue
                    r = add(r, mul(mul(self.rc(D, b), self.ec(b, L.h)), self.of(o, b)))
                return r
            except Opaque:
                return None
        return self.of(vals[0][0], vals[0][1])

    def invariant(self, op, L):
        """value of op if it does not change in L"""
        i = self.f.val(op)
        if i is None:
            return self._simple(op)
        if i.blk in L.blocks:
            v = self.of(op, L.h)
            # a value computed in the loop from invariant parts
            for a in atoms_of(v):
                for x in occ(a):
                    t = T(x)
                    if t[0] in ('phi', 'rec', 'out', 'opq') or (t[0] == 'it' and t[1] >= L.level) or t[0] == 'pos':
                        return None
            return v
        return self.of(op, L.entries[0]) if L.entries else None

    def iter_atom(self, L, dom):
        return A(('it', L.level, dom))

    def header_phi(self, i, ub):
        f = self.f
        L = self.loops[i.blk]
        inside = i.blk in self.loopset[ub]
        d = self.domain(L)
        if d is not None and d.p is not None and d.p.id == i.id:
            v = {((d.it, 1),): Fraction(1)} if inside else d.first
            if d.view == 'self':
                return v
            if d.view == 'next':
                if not v:
                    return atom(('lastof', d.dom))
                return atom(('before', key(v)))
            return add(d.view[1], v)
        if d is not None and d.view == 'while' and i.id in d.ctl:
            v = key({((d.it, 1),): Fraction(1)}) if inside else key(d.first)
            return atom(('st', d.ctl[i.id], v, self.tyc(i)))
        init = self.init(i, L)
        if init is None:
            self.opaque.add(i.id)
            return atom(('phi', f.name, i.id))
        k = (i.id, frozenset(self.loopset[i.blk]))
        # invariant?
        inner = self.with_over({k: init}, lambda: self.latch(i, L))
        if inner is not None and inner == init:
            return init
        if inner is not None and not has(inner, ('phi', 'rec', 'out')) and disturbed_names(inner) and relax(inner) == relax(init):
            return inner            # the same expression, read again in every iteration
        ph = atom(('phi', f.name, i.id))
        pid = A(('phi', f.name, i.id))
        lv = self.with_over({k: ph}, lambda: self.latch(i, L))
        if lv is None:
            self.opaque.add(i.id)
            return ph
        delta = sub(lv, ph)
        dep = any(pid in occ(a) for a in atoms_of(delta))
        if inside:
            if not dep and d is not None:
                itp = {((d.it, 1),): Fraction(1)}
                phs = self.inner_phis(L)
                if not any(T(x)[0] == 'rec' or x in phs for a in atoms_of(delta) for x in occ(a)):
                    prev = ('range', key(itp)) if d.dom[0] == 'range' else ('prev', d.dom, key(itp))
                    fr = fresh(prev)
                    if T(d.it)[2][0] == 'range':
                        INTS.add(fr)
                    return add(init, msum(fr, prev, subst(delta, {d.it: {((fr, 1),): Fraction(1)}})))
            if dep and d is not None:
                r = self.mu(i, L, d, init, lv, pid, True)
                if r is not None:
                    return r
            return ph
        phis = self.inner_phis(L)
        ats = {x for a in atoms_of(delta) for x in occ(a)}
        if d is None or any(T(x)[0] == 'rec' for x in ats):
            self.opaque.add(i.id)
            return ph
        if dep:
            r = self.extremum(i, L, d, init, lv, ph, pid)
            if r is not None:
                return r
            r = self.last_write(i, L, d, init, lv, pid)
            if r is not None:
                return r
            r = self.mu(i, L, d, init, lv, pid, False)
            if r is not None:
                return r
            self.opaque.add(i.id)
            return ph
        if ats & phis:
            self.opaque.add(i.id)
            return ph
        try:
            return add(init, msum(d.it, d.sumdom, delta))
        except TooBig:
            self.opaque.add(i.id)
            return ph

    def mu(self, i, L, d, init, lv, pid, inside):
        """loop-carried value that is not a sum: iterated step"""
        f = self.f
        for a in atoms_of(lv):
            for x in occ(a):
                if T(x)[0] == 'rec' or (T(x)[0] in ('phi', 'out') and x != pid and not self.outer_phi(x, L)):
                    return None
        ty = 'p' if i.ty == 'ptr' else ('i' if i.ty[0] == 'i' else 'f')
        return self.mu_of(d, init, lv, pid, inside, ty)

    def mu_of(self, d, init, lv, pid, inside, ty):
        if inside:
            itp = {((d.it, 1),): Fraction(1)}
            prev = ('range', key(itp)) if d.dom[0] == 'range' else ('prev', d.dom, key(itp))
            fr = fresh(prev)
            if d.dom[0] == 'range':
                INTS.add(fr)
            dom = prev
        else:
            fr = fresh(d.sumdom)
            dom = d.sumdom
        pv = A(('mv', fr, ty))
        try:
            return mmu(fr, pv, dom, init, subst(lv, {d.it: {((fr, 1),): Fraction(1)}, pid: {((pv, 1),): Fraction(1)}}), ty)
        except (TooBig, RecursionError):
            return None

    def extremum(self, i, L, d, init, lv, ph, pid):
        """m = x>m ? x : m"""
        for a in atoms_of(lv):
            t = T(a)
            if t[0] != 'ind' or t[1] not in ('gt', 'fgt') or pid not in occ(a):
                continue
            one = subst(lv, {a: ONE})
            nul = subst(lv, {a: {}})
            P = unkey(t[2])
            for x, y in ((one, nul), (nul, one)):
                if y != ph or any(pid in occ(b) for b in atoms_of(x)):
                    continue
                D_ = sub(x, ph)
                # P proportional to x - ph (up to a constant for integers)
                for sg in (1, -1):
                    q = P.get(((pid, 1),))
                    if q is None:
                        continue
                    R = scale(P, -sg / abs(q)) if False else P
                    z = sub(scale(P, 1 / abs(q)), scale(D_, sg))
                    if is_const(z) and abs(cval(z)) <= 1:
                        # condition true -> x>m (sg=1) ; x chosen when true (x is one)
                        big = (sg == 1) == (x is one)
                        h = height_key(key(x)) if d.it in {b for c in atoms_of(x) for b in occ(c)} else 0
                        bx = subst(x, {d.it: atom(('bv', h))})
                        return atom(('sum', ('max' if big else 'min', d.sumdom, key(init)),
                                     key(bx), h))
        return None

    def last_write(self, i, L, d, init, lv, pid):
        """flag = c ? v : flag with v, c loop constants or element conditions: last element with c wins"""
        ph = {((pid, 1),): Fraction(1)}
        # lv = (1-c)*ph + w
        coef = {}
        rest = {}
        for m, c in lv.items():
            e = dict(m)
            if pid in e:
                if e[pid] != 1:
                    return None
                del e[pid]
                coef = add(coef, {tuple(sorted(e.items())): c})
            else:
                rest[m] = c
        if any(pid in occ(a) for a in atoms_of(coef)) or any(pid in occ(a) for a in atoms_of(rest)):
            return None
        c = sub(ONE, coef)
        if not c or any(T(a)[0] != 'ind' for a in atoms_of(c)):
            return None
        # constant written value
        v = None
        for m, k in c.items():
            if m in rest and k:
                v = rest[m] / k
                break
        if v is None:
            v = Fraction(0)
        if sub(rest, scale(c, v)):
            return None
        if d.stop:
            return None
        fa = mfirst(d.it, d.dom, c)
        none = sub(ONE, ind('gt', sub(unkey(d.dom[1]), fa))) if d.dom[0] == 'range' else ind('eq', fa)
        return add(mul(none, init), scale(sub(ONE, none), v))

    def latch(self, i, L):
        try:
            r = {}
            vals = [(o, b) for o, b in zip(i.ops, i.inb) if b in L.blocks]
            if len(vals) == 1:
                return self.of(vals[0][0], vals[0][1])
            for o, b in vals:
                r = add(r, mul(mul(self.rc(L.h, b), self.ec(b, L.h)), self.of(o, b)))
            return r
        except (Opaque, TooBig):
            return None

    def with_over(self, m, fn):
        n = frozenset([x for x in self.cur if x[0] not in m] + [(x, key(v)) for x, v in m.items()])
        if n not in self._ctx:
            o = dict(self.over)
            o.update(m)
            self._ctx[n] = (o, {}, set())
        old = self.enter(n)
        try:
            return fn()
        finally:
            self.enter(old)

    # ---- memory --------------------------------------------------------------------------
    def mods(self, cls):
        """{block: [(pos, instr, 'st'|'call')]} of the instructions that may change memory of class cls"""
        r = self._mods.get(cls)
        if r is None:
            r = {}
            f, M = self.f, self.memory
            for b in range(f.n):
                if b in self.dead or (b and b not in f.idom):
                    continue
                for i in f.blocks[b]:
                    if i.op == 'store':
                        if M.cls(f, i.ops[1], i.sty) == cls:
                            r.setdefault(b, []).append((i.pos, i, 'st'))
                    elif i.op == 'call' and M.changes(i.callee, cls):
                        r.setdefault(b, []).append((i.pos, i, 'call'))
            self._mods[cls] = r
        return r

    def disturbed(self, classes, b, pos):
        """some instruction that can run before (b,pos) may change one of the classes"""
        f = self.f
        for c in classes:
            for mb, lst in self.mods(c).items():
                if mb == b:
                    if any(p < pos for p, i, k in lst):
                        return True
                    if any(b in self.loops[h].blocks for h in self.loopset[b]):
                        return True
                elif b in f.reach(mb):
                    return True
        return False

    def moment(self, classes, b, pos):
        """when a value that changes is read: the iterations of the loops that change it, and how many of the
        instructions that may change it come before"""
        f = self.f
        ms = {(mb, p) for c in classes for mb, lst in self.mods(c).items() for p, i, k in lst}
        n = sum(1 for mb, p in ms if (mb == b and p < pos) or (mb != b and self.before(mb, b)))
        out = []
        for h in sorted(self.loopset[b], key=lambda h: -len(self.loops[h].blocks)):
            L = self.loops[h]
            if any(mb in L.blocks for mb, p in ms):
                d = self.domain(L)
                if d is not None:
                    out.append(key({((d.it, 1),): Fraction(1)}))
        return tuple(out) + (key(const(n)),)

    def before(self, x, y):
        """y is reached from x without a back edge"""
        r = self._fwd.get(x)
        if r is None:
            f = self.f
            r = set()
            st = [x]
            while st:
                z = st.pop()
                for s in f.succ[z]:
                    if s not in r and not (s in self.loops and z in self.loops[s].blocks):
                        r.add(s)
                        st.append(s)
            self._fwd[x] = r
        return y in r

    def mem_at(self, a, cls, b, pos):
        m = self.mods(cls)
        if not m:
            return self.load(a)
        if self._depth > 400:
            raise TooBig()
        n = self.narrow(self.loopset[b])
        memo = self._ctx[n][1]
        k = ('mem', a, b, pos)
        if k in memo:
            return self.known(memo, k)
        old = self.enter(n)
        low, self.low = self.low, FAR
        try:
            if len(a[2]) == 1 and a[2][0][-1] == 'next' and len(a[1]) == 1 and a[1][0][1] == 1 and \
                    len(a[1][0][0]) == 1 and T(a[1][0][0][0][0])[0] in ('before', 'it') and \
                    not any(k == 'st' for l in m.values() for p, i, k in l):
                r = self.load(a)        # the cursor of a walk: calls made on the way leave the list walked alone
            else:
                r = self.mem(a, cls, b, pos)
        except Lost:
            r = atom(('vload', a, ('at',) + self.moment([cls], b, pos)))
        except BaseException:
            self.low = min(low, self.low)
            raise
        finally:
            self.enter(old)
        memo[k] = r
        self.keep(memo, k, low)
        return r

    def touches(self, a, cls, blocks, ctxb):
        """store to a, or call that may change it, in the blocks?"""
        for b, lst in self.mods(cls).items():
            if b in blocks:
                for p, i, kind in lst:
                    if kind == 'call':
                        return True
                    x = self.addr(i.ops[1], b)
                    if x == a or self.overlap(x, a):
                        return True
        return False

    def after_call(self, cls, b, pos):
        """a call that may change the class comes before, on some way, and nothing is stored in between"""
        m = self.mods(cls)
        last = [kind for p, i, kind in m.get(b, ()) if p < pos]
        if last:
            return last[-1] == 'call'
        r = self._called.get(cls)
        if r is None:
            f = self.f
            r = set()
            todo = [x for x, lst in m.items() if lst[-1][2] == 'call']
            while todo:
                for y in f.succ[todo.pop()]:
                    if y not in r and y not in self.dead:
                        r.add(y)
                        if y not in m:
                            todo.append(y)
            self._called[cls] = r
        return b in r

    def mem(self, a, cls, b, pos):
        """value of location a before position pos of block b"""
        if self.after_call(cls, b, pos):
            raise Lost()
        n = self.narrow(self.loopset[b])
        o, memo, st = self._ctx[n]
        k = ('memrun', a, b, pos)
        if k in memo:
            if self.known(memo, k) is None:
                raise Lost()
            return memo[k]
        if k in st:
            self._cyc += 1
            raise Lost()
        cyc = self._cyc
        st.add(k)
        self._depth += 1
        old = self.enter(n)
        low, self.low = self.low, FAR
        try:
            r = memo[k] = self.mem1(a, cls, b, pos)
            self.keep(memo, k, low)
            return r
        except Lost:
            if cyc == self._cyc:
                memo[k] = None
                self.keep(memo, k, low)
            else:
                self.low = min(low, self.low)
            raise
        except BaseException:
            self.low = min(low, self.low)
            raise
        finally:
            self.enter(old)
            self._depth -= 1
            st.discard(k)

    def mem1(self, a, cls, b, pos):
        f = self.f
        for p, i, kind in reversed(self.mods(cls).get(b, ())):
            if p >= pos:
                continue
            if kind == 'call':
                raise Lost()
            x = self.addr(i.ops[1], b)
            if x == a:
                return self.of(i.ops[0], b)
            if self.overlap(x, a):
                raise Lost()
        if b == 0:
            return self.load(a)
        if b in self.loops:
            return self.mem_header(a, cls, self.loops[b])
        return self.mem_join(a, cls, b, f.pred[b], f.idom[b])

    @staticmethod
    def overlap(x, a):
        """two different addresses inside one array that may be the same element"""
        if x[1] != a[1] or len(x[2]) != len(a[2]):
            return False
        for p, q in zip(x[2], a[2]):
            if p != q:
                if p[0] != 'i' or q[0] != 'i':
                    return False
                d = sub(unkey(p[1]), unkey(q[1]))
                if is_const(d) and is_const(unkey(p[1])):
                    return False
        return True

    def mem_join(self, a, cls, b, preds, D):
        f = self.f
        preds = [p for p in preds if p not in self.dead and p in f.idom or p == 0]
        if len(preds) == 1:
            return self.mem_edge(a, cls, preds[0], b)
        ctx = self.loopset[b] if b not in self.loops else self.loopset[b] - {b}
        # blocks between D and b
        reg = set()
        st = list(preds)
        while st:
            x = st.pop()
            if x in reg or x == D:
                continue
            reg.add(x)
            st.extend(p for p in f.pred[x] if p in f.idom or p == 0)
        up = [h for h in self.loopset[D] if h not in ctx]
        if not up and not self.touches(a, cls, reg, b):
            return self.mem(a, cls, D, 1 << 30)
        if up:
            D = max(up, key=lambda h: len(self.loops[h].blocks))
        vals = [self.mem_edge(a, cls, p, b) for p in preds]
        if all(v == vals[0] for v in vals):
            return vals[0]
        r = {}
        for p, v in zip(preds, vals):
            c = self.edgecond(D, p, b, ctx)
            if c:
                r = add(r, mul(c, v))
        return r

    def mem_edge(self, a, cls, p, b):
        left = self.loopset[p] - self.loopset[b] - ({b} if b in self.loops else set())
        left = [h for h in left if b not in self.loops[h].blocks]
        if left:
            L = self.loops[max(left, key=lambda h: len(self.loops[h].blocks))]
            return self.mem_after(a, cls, L, p, b)
        return self.mem(a, cls, p, 1 << 30)

    def mem_entry(self, a, cls, L):
        f = self.f
        return self.mem_join(a, cls, L.h, L.entries, f.idom[L.h]) if len(L.entries) != 1 else \
            self.mem_edge(a, cls, L.entries[0], L.h)

    def depends(self, a, L):
        d = self.domain(L)
        return d is not None and d.it in occ(A(a))

    def mem_after(self, a, cls, L, p, b):
        if not self.touches(a, cls, L.blocks, b):
            return self.mem_entry(a, cls, L)
        d = self.domain(L)
        if d is None:
            raise Lost()
        f = self.f
        pre = {x for x in L.blocks if x == d.X or not f.dominates(d.X, x)}
        if self.touches(a, cls, pre, b):
            raise Lost()
        if self.depends(a, L):
            if d.stop or not self.separate(a, L):
                raise Lost()
            return self.mem_latch(a, cls, L)
        if d.stop:
            for mb, lst in self.mods(cls).items():
                if mb in L.blocks and any(self.addr(i.ops[1], mb) == a for q, i, kind in lst if kind == 'st'):
                    c = mul(self.rc(L.h, mb, self.loopset[L.h]), d.stop) if self.loopset[mb] == self.loopset[L.h] else ONE
                    if c:
                        raise Lost()
        return self.mem_loop(a, cls, L, False)

    def mem_latch(self, a, cls, L):
        if len(L.latches) == 1:
            return self.mem(a, cls, L.latches[0], 1 << 30)
        r = {}
        for l in L.latches:
            r = add(r, mul(mul(self.rc(L.h, l), self.ec(l, L.h)), self.mem(a, cls, l, 1 << 30)))
        return r

    def mem_header(self, a, cls, L):
        k = (('m', a), frozenset(self.loopset[L.h]))
        if k in self.over:
            return self.over[k]
        if not self.touches(a, cls, L.blocks, L.h):
            return self.mem_entry(a, cls, L)
        if self.depends(a, L):
            if self.overlapped(a, cls, L):
                raise Lost()
            if self.separate(a, L):
                return self.mem_entry(a, cls, L)
            return self.load(a) or atom(('vload', a, ('at',)))     # what is there at the time
        return self.mem_loop(a, cls, L, True)

    def overlapped(self, a, cls, L):
        """another element of the array is written in the loop and may be this one in another iteration"""
        for b, lst in self.mods(cls).items():
            if b in L.blocks:
                for p, i, kind in lst:
                    if kind == 'st':
                        x = self.addr(i.ops[1], b)
                        if x != a and self.overlap(x, a):
                            return True
        return False

    def separate(self, a, L):
        """a names another location in every iteration of L"""
        it = self.domain(L).it
        if any(it in occ(x) for x in atoms_of(unkey(a[1]))):
            return True
        for s in a[2]:
            if s[0] == 'i' and ((it, 1),) in unkey(s[1]):
                return True
        return False

    def mem_type(self, a, cls, L):
        """type of what is stored in the loop where a is, as in tyc"""
        tys = {i.sty for b, lst in self.mods(cls).items() if b in L.blocks for p, i, kind in lst if kind == 'st'}
        ty = next(iter(tys)) if len(tys) == 1 else 'm'
        return 'p' if ty == 'ptr' else 'i' if ty[0] == 'i' else 'f' if ty in ('double', 'float') else 'm'

    def mem_loop(self, a, cls, L, inside):
        """location a, the same in every iteration, at the start of an iteration / after the loop"""
        f = self.f
        d = self.domain(L)
        init = self.mem_entry(a, cls, L)
        k = (('m', a), frozenset(self.loopset[L.h]))
        if k in self.over and inside:
            return self.over[k]
        phd = ('phi', f.name, ('m', a))
        ph, pid = atom(phd), A(phd)
        if f.term(L.latches[0]).op and len(L.latches) >= 1:
            inner = self.with_over({k: init}, lambda: self.lost_latch(a, cls, L))
            if inner is not None and inner == init:
                return init
        lv = self.with_over({k: ph}, lambda: self.lost_latch(a, cls, L))
        if lv is None or d is None:
            raise Lost()
        delta = sub(lv, ph)
        if any(pid in occ(x) for x in atoms_of(delta)):
            if any(T(x)[0] in ('phi', 'rec', 'out') and x != pid and not self.outer_phi(x, L)
                   for b in atoms_of(lv) for x in occ(b)):
                raise Lost()
            r = self.mu_of(d, init, lv, pid, inside, self.mem_type(a, cls, L))
            if r is None:
                raise Lost()
            return r
        if any(T(x)[0] in ('phi', 'rec') and not self.outer_phi(x, L) for b in atoms_of(delta) for x in occ(b)):
            raise Lost()
        if inside:
            itp = {((d.it, 1),): Fraction(1)}
            prev = ('range', key(itp)) if d.dom[0] == 'range' else ('prev', d.dom, key(itp))
            fr = fresh(prev)
            if d.dom[0] == 'range':
                INTS.add(fr)
            return add(init, msum(fr, prev, subst(delta, {d.it: {((fr, 1),): Fraction(1)}})))
        return add(init, msum(d.it, d.sumdom, delta))

    def lost_latch(self, a, cls, L):
        try:
            return self.mem_latch(a, cls, L)
        except (Lost, Opaque, TooBig):
            return None

    def ret(self):
        f = self.f
        rs = [b for b in range(f.n) if f.term(b).op == 'ret']
        if len(rs) != 1 or not f.term(rs[0]).ops:
            return None
        return simp(self.of(f.term(rs[0]).ops[0], rs[0]))

    # ---- display -------------------------------------------------------------------------
    def show(self, p):
        return show(p, self.f)


class Opaque(Exception):
    pass


class Lost(Exception):
    """the value of a memory location is not traceable"""


def show(p, f=None):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items()):
        s = '*'.join(show_atom(a, f) + ('' if k == 1 else '^%d' % k) for a, k in m)
        if not s:
            s = str(c)
        elif c != 1:
            s = ('-' if c == -1 else str(c) + '*') + s
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')


def show_dom(d, f):
    if d[0] == 'range':
        return '0..%s' % show(unkey(d[1]), f)
    if d[0] == 'until':
        return '%s until y%d: %s' % (show_dom(d[1], f), d[3], show(unkey(d[2]), f))
    if d[0] == 'prev':
        return '%s before %s' % (show_dom(d[1], f), show(unkey(d[2]), f))
    if d[0] in ('max', 'min'):
        return '%s(%s) of %s' % (d[0], show(unkey(d[2]), f), show_dom(d[1], f))
    if d[0] == 'while':
        return 'while(%s)' % '; '.join([show(unkey(x), f) for x in d[1] + d[2] + (d[3],)])
    if d[0] == 'plus':
        return 'last+%s' % show_dom(d[1], f)
    if d[0] in ('list', 'from'):
        return '%s(%s)' % ('after' if d[0] == 'list' else 'from', show(unkey(d[1]), f))
    return str(d)


_shown = {}


def show_atom(a, f=None):
    k = (a, f.name if f is not None else None)
    r = _shown.get(k)
    if r is None:
        r = show_atom1(a, f)
        if len(r) > 1500:
            r = r[:1000] + ' ... ' + r[-300:]
        _shown[k] = r
    return r


def show_atom1(a, f=None):
    t = T(a)
    k = t[0]
    S = lambda q: show(unkey(q), f)
    if k == 'arg':
        return (f.argnames[t[1]] if f is not None and t[1] < len(f.argnames) else 'arg%d' % t[1])
    if k == 'ind':
        return '[%s%s]' % (S(t[2]), {'eq': '==0', 'gt': '>0', 'fgt': '>0.'}.get(t[1], t[1]))
    if k == 'fn':
        return '%s(%s)' % (t[1], ', '.join(S(x) for x in t[2:]))
    if k == 'load':
        return show_addr(t[1], f)
    if k == 'vload':
        return show_addr(t[1], f) + "'"
    if k == 'addr':
        return '&' + show_addr(t, f)
    if k == 'it':
        return 'x%d' % t[1]
    if k == 'bv':
        return 'y%d' % t[1]
    if k == 'sum':
        return 'SUM{%s}(%s)' % (show_dom(t[1], f), S(t[2]))
    if k == 'first':
        return 'FIRST{%s}(y%d: %s)' % (show_dom(t[1], f), t[3], S(t[2]))
    if k == 'card':
        return '#{%s}' % show_dom(t[1], f)
    if k == 'mu':
        return 'ITER{%s}(y%d := %s ; %s)' % (show_dom(t[1], f), t[4] + 1, S(t[2]), S(t[3]))
    if k == 'st':
        return 'state%d(%s)' % (t[1], S(t[2]))
    if k == 'inv':
        return '1/(%s)' % S(t[1])
    if k in ('ftoi', 'idiv', 'irem'):
        return '%s(%s)' % (k, ', '.join(S(x) for x in t[1:]))
    if k in ('before', 'pos'):
        return '%s(%s)' % (k, S(t[1]))
    if k == 'call':
        return '%s(%s)#%d' % (t[1], ', '.join(S(x) for x in t[2:] if not x or x[0] not in ('its', '#')), t[-1][1])
    if k == 'alloca':
        return 'local%d' % t[2]
    if k == 'c':
        return str(t[-1])
    return str(t)


def show_addr(A_, f):
    s = show(unkey(A_[1]), f)
    if ' ' in s:
        s = '(%s)' % s
    if not A_[2]:
        return '*' + s
    for st in A_[2]:
        s += '->' + st[2] if st[0] == 'f' else '[' + show(unkey(st[1]), f) + ']'
    return s
