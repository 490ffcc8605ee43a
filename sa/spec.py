"""Comparison of library routines with reference definitions (sa/spec/*.c): both are compiled through the same pipeline,
turned into gated-sum normal form (value returned, stores, calls with an effect) and compared."""
import multiprocessing, os, signal, sys, time, re
from . import core, gsn, summ, ir, options, own

_G = {}


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def defs_for(s, fns, pure, M, cache, depth=0):
    """definitions of the pure callees occurring in a summary"""
    out = {}
    names = set()
    ps = ([s.ret] if s.ret is not None else []) + [gsn.unkey(k) for e in s.effs for k in e[2]] + \
        [gsn.unkey(k) for e in s.effs for d in e[1] for k in gsn.subkeys(('', d))]
    todo = list(ps)
    while todo:
        p = todo.pop()
        for a in gsn.atoms_of(p):
            for x in gsn.occ(a):
                t = gsn.T(x)
                if t[0] == 'fn' and t[1] in fns and t[1] not in names:
                    names.add(t[1])
                    d = definition(t[1], fns, pure, M, cache)
                    if d is not None:
                        out[t[1]] = d
                        todo.append(d)
    return out


def definition(n, fns, pure, M, cache):
    if n in cache:
        return cache[n]
    cache[n] = None
    if n in summ.Purity.CACHES or pure(n):
        return None
    f = fns[n]
    try:
        g = gsn.GSN(f, effectful=pure, memory=M)
        r = g.ret()
        if r is not None:
            r = gsn.recanon(gsn.recanon(r))
            if not gsn.has(r, summ.OPAQUE + ('call', 'alloca', 'vload')) and len(gsn.show(r)) < 3000:
                cache[n] = r
    except (gsn.Opaque, gsn.TooBig, gsn.Lost, RecursionError):
        pass
    return cache[n]


def misplaced(f, r):
    """lines written to one file in another order than the definition says"""
    a, fa = ir.print_order(f)
    b, fb = ir.print_order(r)
    names = sorted(set(a) & set(b))
    for n, x in enumerate(names):
        for y in names[n + 1:]:
            (i, ti), (j, tj), (p, tp), (q, tq) = a[x], a[y], b[x], b[y]
            if ti != tj or tp != tq:
                continue
            if fa(j, i) and not fa(i, j):
                i, j, p, q = j, i, q, p
            if fa(i, j) and not fa(j, i) and fb(q, p) and not fb(p, q):
                return [('order', '%s:%d' % (f.file, j.line), 'writes %r before %r' % (ir.text_of(f, i.ops[0 if i.callee == 'printf' else 1]),
                                                                                      ir.text_of(f, j.ops[0 if j.callee == 'printf' else 1])))]
    return []


def one(task):
    spec, name, limit = task
    F, S, pure, M = _G['v']
    res = {'fn': name, 'ret': None, 'eff': None, 'diff': [], 'why': [], 'n': 0}
    if name not in F:
        res['why'].append('not in the library')
        return res
    if name in OPEN:
        res['why'].append('options not read')
        res['ret'] = res['eff'] = False
        return res
    f, r = F[name], S[spec]
    allf = dict(F)
    allf.update(S)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        a = summ.Summary(f, pure, memory=M)
        b = summ.Summary(r, pure, memory=M)
        if a.retbad or a.bad:
            res['why'].append('code: %s %s' % (a.retbad or '', '; '.join('%s %s' % x for x in a.bad[:3])))
        if b.retbad or b.bad:
            res['why'].append('reference: %s %s' % (b.retbad or '', '; '.join('%s %s' % x for x in b.bad[:3])))
        res['ret'] = (not a.retbad and not b.retbad) if f.ret != 'void' else None
        res['eff'] = not a.bad and not b.bad
        res['n'] = len(a.effs) + (1 if a.ret is not None else 0)
        if not r.ret == f.ret:
            res['why'].append('return types differ')
        d = summ.compare(a, b)
        if d or a.uncertain:
            cache = {}
            da = defs_for(a, allf, pure, M, cache)
            db = defs_for(b, allf, pure, M, cache)
            if da or db:
                da.update(db)
                ea = summ.expanded(a, da)
                d = summ.compare(ea, summ.expanded(b, da))
                a.uncertain = ea.uncertain
        if not d and not a.uncertain:
            d = misplaced(f, r)
        res['diff'] = d
        if a.uncertain and not d:
            res['why'].append('reads after a possible change differ')
            res['eff'] = res['ret'] = False
        if not d:
            s = gsn.show(a.ret, f)[:300] if a.ret is not None and not a.retbad else \
                ('; '.join(summ.show_eff((k, dd, v), f) for k, dd, v, l, bb in a.effs[:2])[:300])
            res['form'] = s
    except Timeout:
        res['why'].append('time limit')
        res['ret'] = res['eff'] = False
    except (RecursionError, MemoryError) as e:
        res['why'].append(type(e).__name__)
        res['ret'] = res['eff'] = False
    except Exception as e:                       # an unsupported construct: not decided
        res['why'].append('unsupported (%r)' % (e,))
        res['ret'] = res['eff'] = False
    finally:
        signal.alarm(0)
    res['t'] = time.time() - t0
    return res


RELEASES = own.RELEASERS | set(own.EXT_FREE) - {'realloc'} | {'FreePartition', 'FreeAdjaArray'}   # C03 and C04 follow them


OPEN = set()     # programs whose loop over the options is not understood


def init(files):
    OPEN.clear()
    mains = any(x.startswith('programs') for x in files)
    P = core.program(progs=mains, specs=files)
    F = dict(P.libfns())
    S = P.specfns()
    if mains:
        for n, u in P.progs().items():
            n = os.path.basename(n)[:-2]
            f = u.fns.get('main')
            if f is not None:
                f.name = n
                ir.good_start(f)
                ir.plain_prints(f)
                ir.without_calls(f, RELEASES)
                try:
                    options.replace(f)
                    open_ = any(i.op == 'call' and i.callee and i.callee.startswith('getopt') for g in u.fns.values() for i in g.all())
                except options.NotUnderstood:
                    open_ = True
                if open_:
                    OPEN.add(n)
                options.flags(f)
                F[n] = f
        for f in S.values():
            ir.plain_prints(f)
            ir.without_calls(f, RELEASES)
            options.flags(f)
    allf = dict(F)
    allf.update(S)
    for n, f in F.items():
        if 'spec_' + n not in S or not ir.good_input(S['spec_' + n], True):     # a definition that says what bad input gives
            ir.good_input(f)
    pure = summ.Purity(allf)
    M = summ.Memory(allf, P)
    _G['v'] = (F, S, pure, M)
    summ.KNOWN |= {n for n in F if 'spec_' + n in S}
    return F, S


def run(ctx, files, need, what, limit=60, only=None):
    """files: reference files; need: least number of routines that must be decided"""
    F, S = init(files)
    tasks = []
    for n in sorted(S):
        if n.startswith('spec_') and (only is None or n[5:] in only):
            tasks.append((n, n[5:], limit))
    tasks.sort(key=lambda t: -len(F[t[1]].blocks) if t[1] in F else 0)
    mp = multiprocessing.get_context('fork')
    with mp.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=4) as pool:
        results = pool.map(one, tasks, chunksize=1)
    dec = und = 0
    undecided = []
    for r in sorted(results, key=lambda r: r['fn']):
        f = F.get(r['fn'])
        full = r['ret'] is not False and r['eff']
        part = r['ret'] or r['eff']
        if part:
            dec += 1
        if not full:
            undecided.append('%s: %s' % (r['fn'], '; '.join(r['why'])[:160]))
        ctx.count('values and effects compared with a definition', r['n'] if part else 0)
        if not r['diff']:
            if part:
                ctx.ob(True, '', '', '', '%s = %s' % (r['fn'], r.get('form', '')))
            continue
        for kind, loc, text in r['diff'][:3]:
            ctx.report('%s:%s' % (r['fn'], kind), loc, '%s %s' % (r['fn'], text[:1500]))
    ctx.cov['routines not decided'] = undecided
    ctx.need('routines compared with their definition' + what, dec, need)
    return results
