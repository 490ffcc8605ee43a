"""Check driver: runs one rule module on the current /repo tree, compares what it reports with
known_findings.txt, writes evidence/<id>.json and sets the exit code."""
import json, os, re, sys, time, traceback, importlib
from . import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Broken(Exception):
    """the rule lost its anchors: neither a pass nor a violation"""


class Ctx:
    def __init__(self, pid, tier, prog_modes=('ssa',)):
        self.pid = pid
        self.tier = tier
        self.obligations = 0
        self.discharged = 0
        self.viol = []          # (key, location, message)
        self.samples = []
        self.cov = {}
        self.notes = []

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def ob(self, ok, key, loc, msg, sample=None):
        """one proof obligation; key identifies the construct independently of line numbers"""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if sample and len(self.samples) < 40:
                self.samples.append(sample)
        else:
            self.viol.append((key, loc, msg))
        return ok

    def report(self, key, loc, msg):
        self.obligations += 1
        self.viol.append((key, loc, msg))

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def need(self, what, got, least):
        self.cov[what] = got
        if got < least:
            raise Broken('%s: found %d, need at least %d' % (what, got, least))


def known_entries(pid):
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) :: (.*)', ln.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


_prog_cache = {}


def program(modes=('ssa',), progs=True, specs=()):
    k = (tuple(modes), progs, tuple(specs))
    if k not in _prog_cache:
        _prog_cache[k] = build.Program(modes=modes, progs=progs, specs=specs)
    return _prog_cache[k]


def run(pid, tier='quick'):
    sys.setrecursionlimit(20000)
    t0 = time.time()
    mod = importlib.import_module('sa.rules.' + pid.lower())
    ctx = Ctx(pid, tier)
    evdir = os.environ.get('RGRAPH_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    try:
        mod.run(ctx)
        if hasattr(mod, 'selftest'):
            mod.selftest(ctx)
        if ctx.obligations == 0:
            raise Broken('no obligations generated')
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 3
    except build.BuildError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 3
    known = known_entries(pid)
    new, old = [], {}
    seen = set()
    for key, loc, msg in ctx.viol:
        if key in known:
            old.setdefault(key, (loc, msg))
        elif (key, loc) not in seen:
            seen.add((key, loc))
            new.append((key, loc, msg))
    rep = os.path.join(evdir, pid + '.report.txt')
    with open(rep, 'w') as fh:
        for key, loc, msg in new:
            fh.write('VIOLATION %s\n  at   %s\n  rule %s\n  what %s\n' % (key, loc, pid, msg))
        for key, (loc, msg) in old.items():
            fh.write('known finding %s\n  at   %s\n  what %s\n' % (key, loc, msg))
    cov = dict(ctx.cov)
    cov.update({'explanation': getattr(mod, 'EXPLANATION', mod.__doc__ or ''),
                'rule': getattr(mod, 'RULE', ''),
                'obligations': ctx.obligations, 'discharged': ctx.discharged,
                'known_findings_matched': len(old),
                'examples': ctx.samples[:12],
                'reported': [{'what': m, 'where': l, 'key': k} for k, l, m in new]})
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 3),
          'violations': len(new),
          'assumptions': getattr(mod, 'ASSUMPTIONS', [])}
    with open(os.path.join(evdir, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    for key, (loc, msg) in old.items():
        print('KNOWN-FINDING: property=%s %s %s: %s' % (pid, key, loc, msg))
    for key, loc, msg in new:
        print('%s: %s [%s]' % (loc, msg, key))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    print('OK property=%s obligations=%d discharged=%d known=%d' % (pid, ctx.obligations, ctx.discharged, len(old)))
    return 0
