"""C04: nothing is read, written, handed on or released after it has been released."""
from .. import core, own
EXPLANATION = (
    "From every release (free, fclose, GSL and library destructors, and functions proved by a fixpoint to release "
    "their argument) the control-flow graph is followed with the set of names that still denote the released object "
    "or, for deep releases, anything it owns; a load, store, call argument, second release or return of one of them "
    "is reported. Calls that release one list element (RemoveLink, RemoveNodeFromGroup, the queue operations) end the "
    "life of every cursor on that element. A separate obligation: only destructors and the listed consuming "
    "functions may release an object handed to them by the caller.")
RULE = "released-object dataflow (may), interprocedural release summaries, who-may-release-an-argument"
ASSUMPTIONS = ["pointers saved in arrays are not followed"]

# list operations: callee -> (index of the argument whose list changes, field of that list, index of the argument that
# names the referenced node, both directions)
ELEMENT = {'RemoveLink': ('neig', [(0, 1), (1, 0)]),
           'RemoveNodeFromGroup': ('nodeList', [(0, 1)]), 'RemoveNodeFromGroupFast': ('nodeList', [(0, 1)])}

def cursor_list(f, o, seen=None):
    """field of the list head a cursor walks, or None"""
    seen = set() if seen is None else seen
    if o in seen:
        return set()
    seen.add(o)
    i = f.val(o)
    if i is None:
        return set()
    if i.op == 'phi':
        r = set()
        for q in i.ops:
            r |= cursor_list(f, q, seen)
        return r
    if i.op == 'load':
        g = f.val(i.ops[0])
        if g is not None and g.op == 'getelementptr' and g.path[-1][0] == 'f':
            if g.path[-1][2] == 'next':
                return cursor_list(f, g.ops[0], seen)
            return {g.path[-1][2]}
    return set()


def killed_cursors(f, c):
    """cursor values on the very element that call c releases"""
    field, pairs = ELEMENT[c.callee]
    out = []
    for (lst, ref) in pairs:
        r = f.val(f.strip(c.ops[ref]))
        if r is None or r.op != 'load':
            continue
        g = f.val(r.ops[0])
        if g is None or g.op != 'getelementptr' or g.path[-1][0] != 'f' or g.path[-1][2] != 'ref':
            continue
        cur = g.ops[0]
        if cursor_list(f, cur) == {field}:
            out.append(cur)
    return out


def run(ctx):
    P = core.program(progs=True)
    S = own.Summaries(P)
    nrel = nfn = ncur = 0
    todo = list(P.all_fns())
    for f in sorted(todo, key=lambda f: (f.file, f.name)):
        nfn += 1
        W = own.Walker(S, f)
        for r in f.calls():
            k = S.callee_free(r.callee)
            if k is not None and k < len(r.ops):
                x = r.ops[k]
                if x in ('null', 'undef') or x.startswith('@'):
                    continue
                nrel += 1
                bad = list(own.uaf_site(S, W, f, r, x))
                if not bad:
                    ctx.ob(True, '', '', '', '%s: nothing uses %s after %s() at line %d' %
                           (f.name, f.show(f.ex(x)), r.callee, r.oline))
                for (_, u, how) in bad:
                    ctx.report('%s:%s:%s' % (f.name, r.callee, f.show(f.ex(x))), u.loc(),
                               '%s: %s, released by %s() at line %d, is %s at line %d' %
                               (f.name, f.show(f.ex(x)), r.callee, r.oline, how, u.oline))
            if r.callee in ELEMENT:
                for cur in killed_cursors(f, r):
                    ncur += 1
                    for (_, u, how) in own.uaf_site(S, W, f, r, cur):
                        ctx.report('%s:%s:cursor' % (f.name, r.callee), u.loc(),
                                   '%s: the list element whose node is removed by %s() at line %d is %s at line %d' %
                                   (f.name, r.callee, r.oline, how, u.oline))
                ctx.ok()
    ctx.need('functions analysed', nfn, 280)
    ctx.need('release sites followed', nrel, 250)
    ctx.cov['element removals through a cursor'] = ncur
    # who may release an argument
    dtors = set(own.RELEASERS) | {'RemovePartition', 'ClearPredecessors', 'free_node_tree'}
    for n, f in sorted(S.fns.items()):
        if not any(t == 'ptr' for _, t in [(a[0], a[1]) for a in f.args]):
            continue
        for k in sorted(S.mayfree.get(n) or ()):
            ok = n in dtors or n in PRIMARY or not consumes(S, f, k)
            ctx.ob(ok, '%s:consumes' % n, '%s:%d' % (f.file, f.line),
                   '%s releases its argument %s, which belongs to the caller' % (n, f.argnames[k]))
        ctx.ok()


def consumes(S, f, k):
    """does a feasible path release the caller's object?"""
    W = own.Walker(S, f)
    work = [(0, (frozenset(['a%d' % k]), None, frozenset()))]
    seen = set()
    while work:
        b, st = work.pop()
        if (b, st) in seen:
            continue
        seen.add((b, st))
        h = set(st[0])
        for i in f.blocks[b]:
            if i.op == 'phi':
                continue
            n = '%%%d' % i.id
            h.discard(n)
            if i.op in own.CASTS and i.ops[0] in h:
                h.add(n)
            elif i.op == 'call' and i.callee in S.fns or i.op == 'call' and i.callee in own.EXT_FREE:
                fr = {S.callee_free(i.callee)} | set(S.mayfree.get(i.callee, ()))
                if any(q < len(i.ops) and i.ops[q] in h for q in fr if q is not None):
                    return True
        for s in f.succ[b]:
            ns = W.edge(b, s, (frozenset(h), st[1], st[2]))
            if ns is not None:
                work.append((s, ns))
    return False


PRIMARY = {'FreeNodeLis', 'FreeAdjacencyList', 'FreeNode'}
