"""C03: library routines give back everything they allocate for themselves, on every return path,
with the matching release function; destructors and list removals release all they own."""
from .. import core, own
EXPLANATION = (
    "Ownership typestate over every allocation site of the library (malloc/calloc/realloc, the library's own "
    "constructors, GSL and stdio objects). From each site all control-flow paths are followed with the set of names "
    "that hold the object; interprocedural summaries (computed to a fixpoint) say which functions return fresh "
    "objects, which release, keep or hand back an argument. A path that reaches a return while the function still "
    "owns the object, or loses it in a loop, or releases it with the wrong function, is reported with its line. "
    "Two more obligations: an element unlinked from a list is released on every path, and each destructor releases "
    "every component its object owns.")
RULE = "ownership typestate with must-release at every return"
ASSUMPTIONS = ["an object stored into memory reachable from elsewhere has changed owner",
               "paths that end in exit() need not release"]

# destructor -> components (structure, field) it must release; 'self' is the object
DTORS = {
    'FreeNode': [('node_gra', 'label'), ('node_gra', 'neig'), 'self'],
    'FreeNodeLis': [('node_lis', 'nodeLabel'), 'self'],
    'FreeAdjacencyList': [('node_lis', 'next'), 'self'],
    'RemoveGraph': [('node_gra', 'next'), 'self'],
    'FreeNodeTree': [('node_tree', 'label'), 'self'],
    'FreeLabelDict': [('node_t', 'left'), ('node_t', 'right'), ('node_t', 'key'), 'self'],
    'free_node_tree': [('node_t', 'left'), ('node_t', 'right'), ('node_t', 'key'), 'self'],
    'ClearPredecessors': [('pred', 'next'), 'self'],
    'RemovePartition': [('group', 'next'), ('group', 'nodeList'), ('group', 'offspr'), 'self'],
    'RemoveBipart': [('binet', 'net1'), ('binet', 'net2'), 'self'],
    'FreePartition': [('Partition', 'nodes'), ('Partition', 'modules'), ('Partition', 'nodes', '[]'),
                      ('Partition', 'modules', '[]'), 'self'],
    'FreeAdjaArray': [('AdjaArray', 'idx'), ('AdjaArray', 'neighbors'), ('AdjaArray', 'strength'), 'self'],
    'FreeStack': [('Stack', 'items'), 'self'],
    'FreeQuery': ['self'],
    'FreeBox': ['self'],
    'free_i_mat': ['[]', 'self'], 'free_d_mat': ['[]', 'self'], 'free_i_vec': ['self'], 'free_d_vec': ['self'],
    'FreeFastLogChoose': ['self'], 'FreeFastLog': ['self'], 'FreeFastLogFact': ['self'], 'FreeFastLogGamma': ['self'],
    'FreeHarmonicList': ['self'], 'stack_free': ['self'], 'queue_free': ['self'],
}
# partitions made by the old code keep a sub-partition only in 'offspr'; see DESIGN


def unlink_sites(f):
    for i in f.all():
        if i.op == 'store' and i.sty == 'ptr':
            A = f.addr(i.ops[1])
            if not A[2] or A[2][-1][0] != 'f':
                continue
            v = f.ex(i.ops[0])
            if v[0] == 'load' and v[1][0] == 'addr' and len(v[1][2]) == 1 and v[1][2][0][0] == 'f' and \
                    v[1][2][0][2] == 'next' and v[1][1] == ('load', A):
                ld = f.val(f.strip(i.ops[0]))          # load y->next
                g = f.val(ld.ops[0])                   # gep y, next
                yield i, A, g.ops[0]


def comp_of(f, e):
    """what a released expression is: ('self',) / (struct, field[, '[]'])"""
    if e == ('arg', 0):
        return 'self'
    if e[0] == 'load':
        st = e[1][2]
        idx = False
        base = e[1]
        if st and st[-1][0] == 'i':
            idx = True
            st = st[:-1]
            if not st:
                b = base[1]
                if b == ('arg', 0):
                    return '[]'
                if b[0] == 'load' and b[1][2] and b[1][2][-1][0] == 'f':
                    return (b[1][2][-1][1], b[1][2][-1][2], '[]')
                return None
        if not st and base[1] == ('arg', 0):
            return '[]'
        if st and st[-1][0] == 'f':
            return (st[-1][1], st[-1][2], '[]') if idx else (st[-1][1], st[-1][2])
    return None


def released(S, f):
    """component -> list of release call instrs"""
    out = {}
    for c in f.calls():
        k = S.callee_free(c.callee)
        if k is None:
            if c.callee == f.name:
                k = 0
            else:
                continue
        todo = {c.ops[k]} | set(S._leaves(f, c.ops[k]))
        for o in todo:
            e = f.ex(o)
            if e[0] == 'phi':      # cursor over an array or a list: p = phi(init, next)
                i = f.ins[e[1]]
                for o2 in i.ops:
                    cc = comp_of(f, f.ex(o2))
                    if cc:
                        out.setdefault(cc, []).append(c)
                continue
            cc = comp_of(f, e)
            if cc:
                out.setdefault(cc, []).append(c)
    return out


def guarded_only_by_null_or_loops(f, c):
    ins = set()
    for (b, s) in f.cd_closure(c.blk):
        t = f.term(b)
        if t.op != 'br':
            return t
        if any(b in f.loops[h] for h in f.loops):
            # a test that leaves a loop around the release
            if any(b in body and any(x not in body for x in f.succ[b]) for body in f.loops.values()):
                continue
        cond = f.val(t.ops[0])
        if cond is not None and cond.op == 'icmp' and 'null' in cond.ops:
            continue
        # loop guard produced by loop rotation: same comparison as an exit test
        if any(s in body or f.reach(s) & body for h, body in f.loops.items() if c.blk in body) and \
                cond is not None and cond.op == 'icmp':
            continue
        return t
    return None


def run(ctx):
    P = core.program(progs=False)
    S = own.Summaries(P)
    nsite = nfn = 0
    for n, f in sorted(S.fns.items()):
        nfn += 1
        sites = [c for c in f.calls() if c.callee in S.fresh]
        if sites:
            W = own.Walker(S, f)
        for a in sites:
            nsite += 1
            kind = S.fresh[a.callee]
            bad = list(own.leak_site(S, W, f, a, kind))
            nm = '/'.join(x for x in a.names if not x.endswith('@inl')) or 'result'
            if not bad:
                ctx.ob(True, '', '', '', '%s: %s = %s() at line %d is released or handed over on every path'
                       % (n, nm, a.callee, a.oline))
            for (_, _, w, why) in bad:
                ctx.report('%s:%s:%s' % (n, a.callee, nm), a.loc(),
                           '%s: object from %s() (%s) allocated at line %d is %s (line %d)' %
                           (n, a.callee, nm, a.oline, why, w.oline))
        for st, A, y in unlink_sites(f):
            ctx.count('list removals')
            W2 = own.Walker(S, f)
            bad = unlink_leak(S, W2, f, st, y)
            ctx.ob(not bad, '%s:unlink:%s' % (n, f.show_addr(A)), st.loc(),
                   '%s: the element taken out of %s is not released on every path%s' %
                   (n, f.show_addr(A), (' (return at line %d)' % bad[0].oline) if bad else ''))
    ctx.need('library functions analysed', nfn, 250)
    ctx.need('allocation sites followed', nsite, 150)
    nd = 0
    for d, comps in DTORS.items():
        f = S.fns.get(d)
        if f is None:
            continue
        rel = released(S, f)
        for comp in comps:
            nd += 1
            cs = rel.get(comp, [])
            name = comp if isinstance(comp, str) else '->'.join(comp)
            good = [c for c in cs if guarded_only_by_null_or_loops(f, c) is None]
            ctx.ob(bool(good), '%s:component:%s' % (d, name), '%s:%d' % (f.file, f.line),
                   'destructor %s does not release %s%s' % (d, name, '' if not cs else
                                                           ' unconditionally (release at line %d)' % cs[0].oline))
    ctx.need('destructor components', nd, 30)


def unlink_leak(S, W, f, st, y):
    bad = []
    start = (frozenset([y]), 'live', W.facts_into(st.blk))
    class A:            # pseudo allocation site
        pass
    # already released or re-linked before the store? then nothing is owed
    for i in f.blocks[st.blk][:st.pos]:
        if i.op == 'call' and S.callee_free(i.callee) is not None and y in i.ops:
            return []
    for r in own.walk(S, W, f, [(st.blk, st.pos + 1, start)], None, 'heap'):
        bad.append(r[2])
    return bad
