"""C07: a routine changes only the parts of its arguments that it is its job to change."""
import json, os
from .. import core, effects, build
EXPLANATION = (
    "For every library function the set of structure fields it may write in objects it did not create itself is "
    "computed to a fixpoint over the call graph (roots of every written address traced through loads, phis, local "
    "arrays, lookup tables and callees; link records and group-membership records are told apart by the list they are "
    "reached from). The set has to stay inside the reviewed table sa/tables/effects.json: empty for analyses, measures, "
    "output and copying routines (apart from the scratch marks and caches every traversal may use), group labels and "
    "group contents for the samplers, and the stated fields for the editing routines.")
RULE = "interprocedural write-effect (mod-set) inclusion"
ASSUMPTIONS = ["traversal marks (state, predecessor lists) and the cached degree/strength are scratch, not content"]
TABLE = os.path.join(build.HERE, 'tables', 'effects.json')
SCRATCH = {'node_gra.degree', 'node_gra.strength', 'node_gra.state', 'pred.next', 'node_tree.ref'} | \
          {'node_bfs.' + x for x in ('next', 'last', 'prev', 'd', 'pred', 'ref')}
FRIENDLY = {'node_gra': 'node', 'node_lis': 'list record', 'link': 'link', 'member': 'group membership', 'group': 'group'}


def sets(P):
    E = effects.Effects(P)
    out = {}
    for n in E.fns:
        out[n] = {'%s.%s' % k: v for k, v in E.of(n).items() if k[0] and '%s.%s' % k not in SCRATCH}
    return E, out


def run(ctx):
    P = core.program(progs=False)
    E, cur = sets(P)
    tab = json.load(open(TABLE))
    nf = npure = 0
    for n, allowed in sorted(tab.items()):
        f = E.fns.get(n)
        if f is None:
            continue
        nf += 1
        npure += not allowed
        al = set(allowed)
        # a record reached through an argument may be either kind
        for a in list(al):
            if a.startswith('node_lis.'):
                al |= {a.replace('node_lis', 'link'), a.replace('node_lis', 'member')}
        if any(a.startswith('link.') for a in al) and any(a.startswith('member.') for a in al):
            al |= {a.replace('link.', 'node_lis.') for a in al if a.startswith('link.')}
        bad = {k: v for k, v in cur[n].items() if k not in al}
        if not bad:
            ctx.ob(True, '', '', '', '%s writes %s' % (n, ', '.join(sorted(cur[n])) or 'nothing of its arguments'))
        for k, (root, i) in sorted(bad.items()):
            st, fl = k.split('.', 1)
            ctx.report('%s:%s' % (n, k), i.loc(), '%s changes %s of %s%s' % (
                n, 'the field %s' % fl, 'a %s' % FRIENDLY.get(st, st),
                ' through %s()' % i.callee if i.op == 'call' else ''))
    ctx.need('functions whose write effects are bounded', nf, 250)
    ctx.need('functions required to leave their arguments unchanged', npure, 120)
