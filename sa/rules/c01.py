"""C01: given the same input, arguments and seed, every program and library routine takes the
same decisions: who-may-call, who-may-write and dataflow rules over the whole linked program."""
from .. import core
EXPLANATION = (
    "Every function of the library and of the 21 programs is compiled to LLVM IR and searched for the ways a run "
    "could depend on anything but its input and seed: calls to clock/process/environment/other-generator APIs, "
    "ordering or printing of pointer values, conversion of pointers to numbers, memory that outlives a call "
    "(any store to a global or static object), creation or reseeding of a generator inside the library, and in the "
    "programs, generators that are used before being seeded or seeded with anything but the unmodified number the "
    "user supplied.")
RULE = "forbidden-callee + no-mutable-global + pointer-value taint + seed provenance (must-dominate)"
ASSUMPTIONS = ["libc, GSL and libm calls outside the forbidden list are functions of their arguments and stream state",
               "reads of locals never set are decided by C02; heap cells never set are not decided"]

FORBIDDEN = set('''time gettimeofday clock clock_gettime times ftime rand srand rand_r random srandom random_r
initstate setstate drand48 erand48 lrand48 nrand48 mrand48 jrand48 srand48 seed48 lcong48 getpid getppid gettid
getuid geteuid getenv secure_getenv getrandom getentropy arc4random arc4random_uniform arc4random_buf
gsl_rng_env_setup tmpnam tempnam mktemp mkstemp gethostname uname localtime localtime_r gmtime ctime ctime_r
pthread_create pthread_self fork setlocale sysconf getrusage gethostid rand48 __rdtsc'''.split())
FORBIDDEN_INTRIN = ('llvm.readcyclecounter', 'llvm.frameaddress', 'llvm.returnaddress', 'llvm.x86.rdtsc')
LIB_RNG = {'gsl_rng_alloc', 'gsl_rng_set', 'gsl_rng_clone', 'gsl_rng_memcpy', 'gsl_rng_free', 'gsl_rng_fread',
           'gsl_rng_state', 'gsl_rng_size', 'gsl_rng_print_state', 'gsl_rng_name', 'gsl_rng_types_setup'}
PARSERS = {'atoi', 'atol', 'atoll', 'strtol', 'strtoul', 'strtoll', 'strtoull', '__isoc23_strtol', '__isoc23_strtoul',
           '__isoc23_strtoull', '__isoc23_strtoll'}
# which argument of each program its documentation calls the seed (programs using getopt/scanf: None)
SEED_ARG = {
    'utils/main_modularbipart.c': 6, 'utils/main_netlayout.c': 2, 'utils/main_netrandomize.c': 2,
    'reliability/main_reliability_links.c': 2, 'reliability/main_reliability_links_gibbs.c': 2,
    'reliability/main_reliability_links_gibbs_sparse.c': 2, 'reliability/main_reliability_links_k.c': 3,
    'reliability/main_reliability_reconstruct.c': 2, 'recommender/main_multi_recommend_2.c': 3,
    'recommender/main_multi_recommend_k.c': 4, 'recommender/main_multi_recommend_k_gibbs.c': 4,
    'conflict/main_conflict.c': 2, 'multiblock/main_reliability_links_mb.c': 2,
    'multiblock/main_reliability_links_mb_OR.c': 2, 'multiblock/main_reliability_links_mb_gibbs.c': 2,
    'multiblock/main_reliability_links_mb_gibbs_OR.c': 2, 'only_deg/main_only_degeneration_mb.c': 2,
    'only_deg/main_only_degeneration_mb_gibbs.c': 2}
# programs documented as having no seed parameter: they use a constant
CONST_SEED = {'utils/main_multinetlayout.c'}


def rootglob(f, op):
    """global object an address is based on, or None"""
    while True:
        if op.startswith('@'):
            return op[1:].split('+')[0]
        i = f.val(op)
        if i is None:
            return None
        if i.op in ('getelementptr', 'bitcast'):
            op = i.ops[0]
            continue
        return None


def leaves(f, op, seen=None):
    """origins of an integer value: yields ('const',v) ('parse',argv index or None) ('scan',) ('bad',why)"""
    seen = set() if seen is None else seen
    op = f.strip(op)
    if op in seen:
        return
    seen.add(op)
    if op.startswith('i:'):
        yield ('const', int(op[2:]))
        return
    i = f.val(op)
    if i is None:
        yield ('bad', 'argument')
        return
    if i.op == 'phi' or i.op == 'select':
        for o in (i.ops if i.op == 'phi' else i.ops[1:]):
            yield from leaves(f, o, seen)
        return
    if i.op == 'call':
        if i.callee in PARSERS:
            s = f.ex(i.ops[0])
            if s[0] == 'load' and s[1][0] == 'addr' and s[1][1] == ('arg', 1) and len(s[1][2]) == 1:
                idx = s[1][2][0][1]
                yield ('parse', idx[1] if idx[0] == 'int' else None)
            elif s[0] == 'load' and s[1][1] == ('arg', 1):
                yield ('parse', 0)
            else:
                yield ('parse', None)
        else:
            yield ('bad', 'result of %s()' % i.callee)
        return
    if i.op == 'load':
        a = f.ex(i.ops[0])
        src = f.val(f.strip(i.ops[0]))
        if src is not None and src.op == 'alloca':
            for u in f.uses('%%%d' % src.id):
                if u.op == 'store' and u.ops[1] == '%%%d' % src.id:
                    yield from leaves(f, u.ops[0], seen)
                elif u.op == 'call' and u.callee and 'scanf' in u.callee:
                    yield ('scan',)
                elif u.op in ('load',) or (u.op == 'call' and (u.callee or '').startswith('llvm.lifetime')):
                    pass
                else:
                    yield ('bad', 'address escapes to %s' % (u.callee or u.op))
            return
        yield ('bad', 'memory')
        return
    yield ('bad', 'arithmetic (%s)' % i.op)


def run(ctx):
    P = core.program()
    nf = ncall = nst = 0
    entry_ints = set()
    for f in P.all_fns():
        nf += 1
        inlib = f.unit.islib
        for i in f.all():
            if i.op == 'call':
                ncall += 1
                c = i.callee or ''
                key = '%s:call-%s' % (f.name, c)
                bad = c in FORBIDDEN or c.startswith(FORBIDDEN_INTRIN)
                ctx.ob(not bad, key, i.loc(), '%s calls %s(): its result does not depend on input and seed' % (f.name, c))
                if inlib and c in LIB_RNG:
                    ctx.report(key, i.loc(), 'library function %s calls %s(): only the caller\'s generator may be used, '
                               'and only to draw from it' % (f.name, c))
                # %p and devices
                for k, o in enumerate(i.ops):
                    e = f.ex(o)
                    if e[0] == 'str' and (c.endswith('printf') or c in ('fprintf', 'printf', 'sprintf', 'snprintf')):
                        s = e[1].replace('%%', '')
                        if '%p' in s:
                            ctx.report('%s:%%p' % f.name, i.loc(), '%s prints a pointer value' % f.name)
                    if e[0] == 'str' and c in ('fopen', 'open') and (e[1].startswith('/dev') or e[1].startswith('/proc')):
                        ctx.report('%s:dev' % f.name, i.loc(), '%s reads %s' % (f.name, e[1]))
                    g = rootglob(f, o)
                    gv = f.unit.globals.get(g) if g else None
                    if gv is not None and not gv['const'] and not gv['decl']:
                        ctx.ob(reads_only(f, i, k), '%s:global-%s' % (f.name, g), i.loc(),
                               '%s passes the mutable global %s to %s()' % (f.name, g, c))
            elif i.op == 'icmp' and i.oty == 'ptr' and i.pred not in ('eq', 'ne'):
                ctx.report('%s:ptr-order' % f.name, i.loc(), '%s orders two pointers (%s): addresses differ from run to run'
                           % (f.name, i.pred))
            elif i.op == 'ptrtoint':
                # the only accepted source is an integer the same program stored in ENTRY.data
                e = f.ex(i.ops[0])
                okv = e[0] == 'load' and e[1][2] and e[1][2][-1][0] == 'f' and e[1][2][-1][2] == 'data'
                if not okv:
                    us = f.uses('%%%d' % i.id)
                    okv = bool(us) and all(u.op == 'sub' and all((f.val(o) is not None and f.val(o).op == 'ptrtoint')
                                                                 for o in u.ops) for u in us)
                ctx.ob(okv, '%s:ptrtoint' % f.name, i.loc(), '%s turns a pointer into a number (%s)'
                       % (f.name, f.show(e)))
            elif i.op == 'store':
                nst += 1
                g = rootglob(f, i.ops[1])
                ctx.ob(g is None, '%s:global-%s' % (f.name, g), i.loc(),
                       '%s writes %s, which outlives the call (static or global state)' % (f.name, g))
    ctx.need('functions analysed', nf, 300)
    ctx.need('call sites analysed', ncall, 2000)
    ctx.need('stores analysed', nst, 1000)
    # seeds
    ns = 0
    for n, u in P.progs().items():
        for f in u.fns.values():
            for a in f.calls('gsl_rng_alloc'):
                ns += 1
                rv = '%%%d' % a.id
                us = [x for x in f.uses(rv) if x.op == 'call']
                stored = [x for x in f.uses(rv) if x.op not in ('call', 'icmp', 'phi', 'br')]
                sets = [x for x in us if x.callee == 'gsl_rng_set']
                loc = a.loc()
                ctx.ob(f.ex(a.ops[0]) == ('load', ('addr', ('glob', 'gsl_rng_mt19937'), ())), n + ':type', loc,
                       '%s: the generator type is not the fixed gsl_rng_mt19937' % n)
                if not ctx.ob(len(sets) == 1 and not stored, n + ':set-once', loc,
                              '%s: the generator must be seeded exactly once (found %d gsl_rng_set calls)' % (n, len(sets))):
                    continue
                s = sets[0]
                hs = set(f.loops_of(s.blk)) - set(f.loops_of(a.blk))
                ctx.ob(not hs, n + ':set-loop', s.loc(), '%s reseeds the generator inside a loop' % n)
                for x in us:
                    if x is not s and x.callee != 'gsl_rng_free':
                        ctx.ob(f.idominates(s, x), n + ':seed-before-use', x.loc(),
                               '%s: the generator reaches %s() before it is seeded' % (n, x.callee))
                lv = set(leaves(f, s.ops[1]))
                bad = [l for l in lv if l[0] == 'bad']
                ctx.ob(not bad, n + ':seed-value', s.loc(), '%s: the seed is not the user\'s number unchanged: it comes from %s'
                       % (n, ', '.join(b[1] for b in bad)))
                if n in CONST_SEED:
                    ctx.ob(all(l[0] in ('const', 'parse') for l in lv), n + ':seed-src', s.loc(), 'seed of ' + n)
                else:
                    src = [l for l in lv if l[0] in ('parse', 'scan')]
                    want = SEED_ARG.get(n)
                    ok = bool(src) if want is None else (('parse', want) in src and len(src) == 1)
                    ctx.ob(ok, n + ':seed-src', s.loc(),
                           '%s: the generator is not seeded with the seed argument the user gave (argv[%s]); it gets %s'
                           % (n, want, sorted(map(str, lv))))
                    if want is not None:
                        ctx.ob(len(lv) == 1, n + ':seed-default', s.loc(),
                               '%s: the seed can be something other than the user\'s argument: %s' % (n, sorted(map(str, lv))))
    ctx.need('generators seeded in programs', ns, 15)
    for (un, g) in [(u.name, g) for u in P.units.values() for g, d in u.globals.items()
                    if not d['const'] and not d['decl']]:
        ctx.count('mutable-looking globals checked for writes')


def reads_only(f, i, k):
    c = i.callee or ''
    return c.startswith('llvm.memcpy') and k == 1 or c in ('strlen', 'strcmp', 'printf', 'fprintf', 'memcpy')
