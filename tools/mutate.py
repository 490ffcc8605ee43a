"""Mutation survey of the reference comparisons (development aid, not a check).
   python3 tools/mutate.py [-n per function] [-s seed] SPEC.c[,SPEC.c] [FUNCTION...]"""
import os, re, sys, random, shutil, subprocess, tempfile, glob, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('MUT_REPO', '/repo')


def strip(s):
    """comments and strings blanked, same length"""
    out = list(s)
    i = 0
    while i < len(s):
        if s.startswith('/*', i):
            j = s.find('*/', i + 2) + 2
        elif s.startswith('//', i):
            j = s.find('\n', i)
        elif s[i] in '"\'':
            j = i + 1
            while s[j] != s[i]:
                j += 2 if s[j] == '\\' else 1
            j += 1
        else:
            i += 1
            continue
        for k in range(i, j):
            if out[k] != '\n':
                out[k] = ' '
        i = j
    return ''.join(out)


def functions(path):
    s = open(path, encoding='latin-1').read()
    c = strip(s)
    res = {}
    for m in re.finditer(r'(?m)^[A-Za-z_][\w \t\*]*?[\s\*](\w+)\s*\(|^(\w+)\s*\(', c):
        n = m.group(1) or m.group(2)
        i = c.index('(', m.start())
        d = 0
        while True:
            d += {'(': 1, ')': -1}.get(c[i], 0)
            i += 1
            if d == 0:
                break
        k = re.match(r'\s*\{', c[i:])
        if not k:
            continue
        a = i + k.end()
        d, j = 1, a
        while d:
            d += {'{': 1, '}': -1}.get(c[j], 0)
            j += 1
        res[n] = (a, j - 1)
    return s, c, res


def mutants(s, c, a, b):
    body = c[a:b]
    out = []

    def rep(x, y, t):
        out.append((x, y, t))
    for m in re.finditer(r'<=|>=|==|!=|(?<![-<])<(?![<=])|(?<![->])>(?![>=])', body):
        o = m.group(0)
        for t in {'<': ['<=', '>'], '<=': ['<'], '>': ['>=', '<'], '>=': ['>'], '==': ['!='], '!=': ['==']}[o]:
            rep(m.start(), m.end(), t)
    for m in re.finditer(r'(?<=[\w\)\]] )([-+*/])(?= [\w\(])|(?<=[\w\)\]])([-+])(?=\d)', body):
        o = m.group(0)
        rep(m.start(), m.end(), {'+': '-', '-': '+', '*': '/', '/': '*'}[o])
    for m in re.finditer(r'\+\+|--|\+=|-=|\*=|/=', body):
        rep(m.start(), m.end(), {'++': '--', '--': '++', '+=': '-=', '-=': '+=', '*=': '/=', '/=': '*='}[m.group(0)])
    for m in re.finditer(r'(?<![\w.])(\d+)(\.\d*)?(?![\w.])', body):
        v = m.group(0)
        rep(m.start(), m.end(), '1' if float(v) == 0 else ('0' if float(v) == 1 else str(int(float(v)) + 1)))
        if float(v) == 1:
            rep(m.start(), m.end(), '2')
    for m in re.finditer(r'&&|\|\|', body):
        rep(m.start(), m.end(), {'&&': '||', '||': '&&'}[m.group(0)])
    for m in re.finditer(r'(?m)^[ \t]*([\w(*][^;{}\n=]*(?:=[^;{}]*)?|[\w>.-]+(?:\+\+|--)|[^;{}\n]*\([^;{}]*\));', body):
        t = m.group(0).strip()
        if re.match(r'(struct|int|double|char|void|FILE|unsigned|static|const|return|size_t|for|while|if|else|do)\b', t):
            continue
        rep(m.start(), m.end(), ' ' * 1 + ';')
    PAIRS = [('node1', 'node2'), ('n1', 'n2'), ('net1', 'net2'), ('inlinks', 'outlinks'), ('totlinks', 'inlinks'),
             ('inlinksW', 'inlinks'), ('totlinksW', 'totlinks'), ('coorX', 'coorY'), ('newg', 'oldg'), ('i', 'j'),
             ('weight', 'btw'), ('num', 'inGroup'), ('p1', 'p2'), ('oldsize', 'newsize'), ('r', 'l'), ('NodeDegree', 'NodeStrength'),
             ('n3', 'n4'), ('g1', 'g2'), ('nod1', 'nod2'), ('old', 'new')]
    for x, y in PAIRS:
        if re.search(r'\b%s\b' % x, body) and (re.search(r'\b%s\b' % y, body) or x in ('weight', 'coorX', 'num', 'inlinksW',
                                                                               'totlinksW', 'totlinks', 'inlinks', 'NodeDegree')):
            for p, q in ((x, y), (y, x)):
                for m in re.finditer(r'\b%s\b' % p, body):
                    rep(m.start(), m.end(), q)
    for m in re.finditer(r'\bwhile \(|\bif \(', body):
        pass
    return [(a + x, a + y, t) for x, y, t in out]


def sources():
    return sorted(glob.glob(REPO + '/src/*.c')) + sorted(glob.glob(REPO + '/[a-su-z]*/main_*.c'))


def named(f, fn):
    return os.path.basename(f)[:-2] if fn == 'main' else fn


def scratch(w, path, text):
    """a tree of the library, or the library and one program, with a changed file"""
    os.mkdir(w + '/src')
    for f in glob.glob(REPO + '/src/*.[ch]'):
        if f != path:
            os.symlink(f, w + '/src/' + os.path.basename(f))
    d = os.path.join(w, os.path.relpath(os.path.dirname(path), REPO))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, os.path.basename(path)), 'w', encoding='latin-1') as fh:
        fh.write(text)


def check(job):
    path, fn, spec, x, y, t, s = job
    w = tempfile.mkdtemp(prefix='mut.', dir='/tmp/w')
    try:
        scratch(w, path, s[:x] + t + s[y:])
        e = dict(os.environ, RGRAPH_REPO=w, LIM=os.environ.get('LIM', '60'))
        r = subprocess.run([sys.executable, os.path.join(HERE, 'one.py'), spec, fn], env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        o = r.stdout
        if 'cannot compile' in o or 'BuildError' in o:
            return job, 'nocompile', ''
        if 'DIFF' in o:
            return job, 'caught', ''
        if 'UND' in o:
            return job, 'undecided', o
        if 'EQUAL' in o:
            return job, 'missed', ''
        return job, 'error', o[-300:]
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    a = sys.argv[1:]
    n, seed, verbose = 6, 1, 1
    while a and a[0].startswith('-'):
        if a[0] == '-n':
            n = int(a[1])
        elif a[0] == '-s':
            seed = int(a[1])
        a = a[2:]
    specs, only = a[0].split(','), set(a[1:])
    rnd = random.Random(seed)
    names = {}
    for sp in specs:
        for x in re.findall(r'\bspec_(\w+)\s*\(', open(os.path.join(HERE, '..', 'sa', 'spec', sp)).read()):
            names[x] = sp
    jobs = []
    for f in sources():
        s, c, fs = functions(f)
        for k, (x, y) in fs.items():
            k = named(f, k)
            if k in names and (not only or k in only):
                m = mutants(s, c, x, y)
                rnd.shuffle(m)
                jobs += [(f, k, names[k]) + z + (s,) for z in m[:n]]
    cnt = {}
    per = {}
    with ThreadPoolExecutor(6) as ex:
        for job, res, o in ex.map(check, jobs):
            cnt[res] = cnt.get(res, 0) + 1
            per.setdefault(job[1], {}).setdefault(res, 0)
            per[job[1]][res] += 1
            if res in ('missed', 'error') or (res == 'undecided' and verbose):
                path, fn, spec, x, y, t, s = job
                ln = s.count('\n', 0, x) + 1
                line = s[s.rfind('\n', 0, x) + 1:s.find('\n', y)]
                k = x - s.rfind('\n', 0, x) - 1
                print('%-9s %s %s:%d %s  [%s -> %s] %s' % (res, fn, os.path.basename(path), ln, ' '.join(line.split()),
                                                          ' '.join(s[x:y].split()), t, o.strip()[-200:] if res != 'missed' else ''), flush=True)
    print(cnt)


if __name__ == '__main__':
    main()
