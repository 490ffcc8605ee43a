"""C17: Programs do what their command line says and print what they compute."""
import os, re
from .. import spec, core, ir, options
EXPLANATION = (
    "The main routine of every program is compiled from the current tree and compared with a reference definition of the "
    "program (sa/spec/programs*.c): which files it opens and how it reads them, which library routines it calls with which "
    "command-line values, and what it writes where, in normal form as for the other reference definitions. Branches on "
    "which a program only gives up (missing arguments, files, networks) and calls that give memory or files back are left "
    "out on both sides. A loop over options is read off the control-flow graph: for every letter, what becomes of every "
    "variable; it is then replaced by one symbolic value per variable. On top of that every program must be satisfied with "
    "the arguments it uses, accept every option it handles, take an argument exactly for the options that use one, and give "
    "effect to every option its usage text documents.")
RULE = 'normal form of every main routine equals that of its definition; options and argument counts agree with their use'
ASSUMPTIONS = ["rounding and integer overflow are ignored", "the order of output to different files is not compared"]
FILES = (['programs.c'], ['programs_netcarto.c'], ['programs_legacy.c'])


def run(ctx):
    own(ctx)
    n = 0
    for files in FILES:
        before = ctx.cov.get('routines compared with their definition', 0)
        spec.run(ctx, files, 0, '', 120 * (5 if ctx.tier == 'thorough' else 1))
        n += ctx.cov.get('routines compared with their definition', 0)
        ctx.cov['routines compared with their definition'] = n
    ctx.need('programs compared with their definition', n, 25)


def own(ctx):
    P = core.program()
    for name, u in P.progs().items():
        f = u.fns.get('main')
        if f is None:
            continue
        prog = os.path.basename(name)[5:-2]
        demands(ctx, prog, f)
        if options.loop_of(f) is not None:
            letters(ctx, prog, f)


def indices(f):
    """positions of argv that are read; None when they are not all known"""
    out = set()
    for i in f.all():
        if 'a1' in i.ops:
            if i.op == 'load':
                out.add(0)
            elif i.op == 'getelementptr' and len(i.ops) == 2 and i.ops[1][:2] == 'i:' and i.ops[1] != 'i:big':
                out.add(int(i.ops[1][2:]))
            else:
                return None
    return out


def demands(ctx, prog, f):
    at = indices(f)
    if not at:
        return
    for i in f.all():
        if i.op == 'icmp' and i.ops[0] == 'a0' and i.ops[1][:2] == 'i:':
            k = int(i.ops[1][2:])
            enough = ir.holds(i.pred, max(at) + 1, k) == ir.holds(i.pred, 1000, k)
            ctx.ob(enough, prog + ':arguments', '%s:%d' % (f.file, i.line), '%s is not satisfied with the %d arguments it uses' % (prog, max(at)),
                   '%s runs when given the %d arguments it uses' % (prog, max(at)))


def letters(ctx, prog, f):
    try:
        o = options.Options(f)
    except options.NotUnderstood as e:
        ctx.cov.setdefault('programs whose options are not decided', []).append('%s: %s' % (prog, e))
        return
    loc = '%s:%d' % (f.file, o.call.line)
    for x in sorted(o.handled):
        ctx.ob(x in o.letters, '%s:-%s' % (prog, x), loc, 'option -%s is handled but never accepted' % x, '-%s of %s is accepted' % (x, prog))
    text = ' '.join(g['str'] for g in f.unit.globals.values() if 'str' in g)
    said = dict(re.findall(r'\n\s*-(\w)( [A-Z]+)? *:', text))
    for x, rs in sorted(o.does.items()):
        uses = any(isinstance(w, dict) and any(k[0] == 'arg' or k[0] in options.CONVERSIONS for k in w.values()) or n is not None for n, w in rs)
        if x in o.letters and x in o.handled:
            ctx.ob(not uses or o.letters[x], '%s:-%s' % (prog, x), loc, 'option -%s uses an argument it is not given' % x,
                   'the argument of -%s of %s' % (x, prog))
    for x, arg in sorted(said.items()):
        ok = x in o.letters and any(w for n, w in o.does.get(x, ()))
        ctx.ob(ok, '%s:-%s' % (prog, x), loc, 'the documented option -%s has no effect' % x, '-%s of %s takes effect' % (x, prog))
        if ok:
            ctx.ob(bool(arg) == o.letters[x], '%s:-%s' % (prog, x), loc, 'option -%s %s an argument, its documentation says otherwise' %
                   (x, 'takes' if o.letters[x] else 'does not take'), 'argument of -%s of %s as documented' % (x, prog))
