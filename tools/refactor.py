"""False-alarm survey: behaviour-preserving rewrites must never be reported (development aid, not a check).
   python3 tools/refactor.py [-n per function] [-s seed] [-k edits at once] SPEC.c[,SPEC.c] [FUNCTION...]"""
import os, re, sys, random, glob, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mutate
REPO = mutate.REPO


def close(c, i, o='(', e=')'):
    """index after the bracket matching the one at i"""
    d = 0
    while True:
        d += {o: 1, e: -1}.get(c[i], 0)
        i += 1
        if d == 0:
            return i


def stmt_end(c, i):
    """end of the statement starting at i"""
    while c[i].isspace():
        i += 1
    if c[i] == '{':
        return close(c, i, '{', '}')
    m = re.match(r'(if|for|while|switch)\s*(?=\()', c[i:])
    if m:
        j = close(c, i + m.end())
        j = stmt_end(c, j)
        if m.group(1) == 'if':
            e = re.match(r'\s*else\b', c[j:])
            if e:
                return stmt_end(c, j + e.end())
        return j
    m = re.match(r'do\b', c[i:])
    if m:
        j = stmt_end(c, i + 2)
        return c.index(';', j) + 1
    d = 0
    while c[i] != ';' or d:
        d += {'(': 1, ')': -1, '{': 1, '}': -1}.get(c[i], 0)
        i += 1
    return i + 1


def split_semi(t):
    out, d, cur = [], 0, ''
    for ch in t:
        d += {'(': 1, ')': -1, '[': 1, ']': -1}.get(ch, 0)
        if ch == ';' and not d:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur]


def edits(s, c, a, b, rnd):
    """[(kind, x, y, new text)] over function body a..b; s the text, c the text with comments blanked"""
    out = []
    S = lambda x, y: c[x:y] if '"' not in s[x:y] else s[x:y]
    txt = lambda x, y: s[x:y]
    n = [0]

    def fresh():
        n[0] += 1
        return 'rf_%d_%d' % (rnd.randrange(10**6), n[0])
    stm = lambda i: re.search(r'[;{})]\s*$|\belse\s*$', c[a - 1:i]) is not None
    for m in re.finditer(r'\bfor\s*\(', c[a:b]):
        i = a + m.start()
        j = close(c, a + m.end() - 1)
        e = stmt_end(c, j)
        h = split_semi(txt(a + m.end(), j - 1))
        if len(h) != 3:
            continue
        body = txt(j, e)
        if not re.search(r'\bcontinue\b', c[j:e]):
            out.append(('for-while', i, e, '{ %s; while (%s) { %s %s; } }' % (h[0], h[1] or '1', body, h[2])))
            if h[1].strip():
                out.append(('for-dowhile', i, e, '{ %s; if (%s) do { %s %s; } while (%s); }' % (h[0], h[1], body, h[2], h[1])))
                out.append(('for-guard', i, e, '{ %s; if (%s) { for (;%s;%s) %s } }' % (h[0], h[1], h[1], h[2], body)))
                out.append(('for-break', i, e, 'for (%s;;%s) { if (!(%s)) break; %s }' % (h[0], h[2], h[1], body)))
    for m in re.finditer(r'\bwhile\s*\(', c[a:b]):
        i = a + m.start()
        j = close(c, a + m.end() - 1)
        if re.match(r'\s*;', c[j:]):
            continue
        e = stmt_end(c, j)
        cond, body = txt(a + m.end(), j - 1), txt(j, e)
        out.append(('while-for', i, e, 'for (; %s;) %s' % (cond, body)))
        out.append(('while-break', i, e, 'while (1) { if (!(%s)) break; %s }' % (cond, body)))
        w = re.match(r'\s*\(\s*(\w+)\s*=\s*(\1->next)\s*\)\s*!=\s*NULL\s*$', cond)
        if w and not re.search(r'\bcontinue\b', c[j:e]):
            p = w.group(1)
            out.append(('cursor', i, e, '{ %s = %s->next; while (%s != NULL) { %s %s = %s->next; } }' % (p, p, p, body, p, p)))
            out.append(('while-guard', i, e, '{ if (%s->next != NULL) while (%s) %s }' % (p, cond, body)))
            out.append(('cursor-for', i, e, '{ for (%s = %s->next; %s; %s = %s->next) { %s } }' % (p, p, p, p, p, body)))
        w = re.match(r'\s*(\w+)->next\s*!=\s*NULL\s*$', cond)
        if w:
            p = w.group(1)
            w2 = re.match(r'\s*\{\s*%s\s*=\s*%s->next\s*;' % (p, p), c[j:e])
            if w2 and not re.search(r'\bcontinue\b', c[j:e]):
                out.append(('cursor2', i, e, '{ %s = %s->next; while (%s) { %s %s = %s->next; } }'
                            % (p, p, p, '{' + txt(j + w2.end(), e), p, p) if 0 else
                            'while ((%s) != NULL) %s' % ('%s->next' % p, body)))
    for m in re.finditer(r'\bif\s*\(', c[a:b]):
        i = a + m.start()
        j = close(c, a + m.end() - 1)
        e = stmt_end(c, j)
        cond = txt(a + m.end(), j - 1)
        el = re.match(r'\s*else\b', c[e:])
        blk = lambda t: t if t.strip().startswith('{') else '{ %s }' % t
        if el:
            e2 = stmt_end(c, e + el.end())
            out.append(('if-swap', i, e2, 'if (!(%s)) %s else %s' % (cond, blk(txt(e + el.end(), e2)), blk(txt(j, e)))))
        else:
            out.append(('if-swap', i, e, 'if (!(%s)) ; else %s' % (cond, txt(j, e))))
            w = re.match(r'\s*(.*?)\s*&&\s*(.*)$', cond, re.S)
            if w and w.group(1).count('(') == w.group(1).count(')') and '||' not in cond:
                out.append(('if-nest', i, e, 'if (%s) { if (%s) %s }' % (w.group(1), w.group(2), txt(j, e))))
        if stm(i) and not re.search(r'\belse\s*$', c[a:i]) and not re.search(r'(?<![=!<>])=(?!=)', cond):
            f = fresh()
            e2 = stmt_end(c, i)
            out.append(('cond-var', i, e2, '{ int %s = (%s) ? 1 : 0; if (%s) %s }' % (f, cond, f, txt(j, e2))))
    for m in re.finditer(r'(?<=[;{}\n])\s*([\w\[\]>.-]+)\s*\+\+\s*;', c[a:b]):
        out.append(('inc', a + m.start(), a + m.end(), '%s += 1;' % m.group(1)))
        out.append(('inc2', a + m.start(), a + m.end(), '%s = %s + 1;' % (m.group(1), m.group(1))))
    for m in re.finditer(r'(?<=[;{}\n])(\s*)([\w\[\]>.-]+)\s*([-+*/])=\s*([^;=]+);', c[a:b]):
        out.append(('opassign', a + m.start(), a + m.end(), '%s%s = %s %s (%s);' % (m.group(1), m.group(2), m.group(2), m.group(3), txt(a + m.start(4), a + m.end(4)))))
    # two independent neighbours swapped
    ST = re.compile(r'(?<=[;{}\n])\s*([\w\[\]>.-]+)\s*([-+]?=)\s*([^;=(]+);\s*([\w\[\]>.-]+)\s*([-+]?=)\s*([^;=(]+);')
    for m in ST.finditer(c[a:b]):
        l1, r1, l2, r2 = m.group(1), m.group(3), m.group(4), m.group(6)
        if re.search(r'\bif\s*\([^;{}]*\)\s*$|\belse\s*$|\bfor\s*\([^{}]*$', c[a:a + m.start()]):
            continue
        f1, f2 = re.split(r'->', l1)[-1], re.split(r'->', l2)[-1]
        ids = lambda t: set(re.findall(r'[A-Za-z_]\w*', t))
        if f1 != f2 and re.sub(r'\W.*', '', f1) not in ids(r2) | ids(l2) and re.sub(r'\W.*', '', f2) not in ids(r1) | ids(l1):
            t1 = '%s %s %s;' % (l1, m.group(2), r1)
            t2 = '%s %s %s;' % (l2, m.group(5), r2)
            out.append(('swap', a + m.start(), a + m.end(), '\n' + t2 + ' ' + t1))
    for m in re.finditer(r'\breturn\b\s*\(?([^;"]+);', c[a:b]):
        pass
    for m in re.finditer(r'(?<=[;{}\n])\s*(free|FreePartition|RemoveGraph|FreeStack)\s*\(\s*\w+\s*\);\s*(free|FreePartition|RemoveGraph|FreeStack)\s*\(\s*\w+\s*\);', c[a:b]):
        q = m.group(0).strip().split(';')
        if q[0].strip() != q[1].strip() and not re.search(r'\)\s*$|else\s*$', c[a:a + m.start() + 1]):
            out.append(('swap-free', a + m.start(), a + m.end(), '\n%s; %s;' % (q[1].strip(), q[0].strip())))
    out.append(('noop', a, a, ' ; '))
    return out


def check(job):
    path, fn, spec, new, names = job
    w = tempfile.mkdtemp(prefix='ref.', dir='/tmp/w')
    try:
        mutate.scratch(w, path, new)
        e = dict(os.environ, RGRAPH_REPO=w, LIM=os.environ.get('LIM', '60'))
        r = subprocess.run([sys.executable, os.path.join(HERE, 'one.py'), spec, fn], env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        o = r.stdout
        for t, n in (('cannot compile', 'nocompile'), ('BuildError', 'nocompile'), ('DIFF', 'ALARM'), ('UND', 'undecided'),
                     ('EQUAL', 'quiet')):
            if t in o:
                return job, n, o
        return job, 'error', o
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    a = sys.argv[1:]
    n, seed, k = 5, 1, 2
    while a and a[0].startswith('-'):
        if a[0] == '-n':
            n = int(a[1])
        elif a[0] == '-s':
            seed = int(a[1])
        elif a[0] == '-k':
            k = int(a[1])
        a = a[2:]
    specs, only = a[0].split(','), set(a[1:])
    rnd = random.Random(seed)
    names = {}
    for sp in specs:
        for x in re.findall(r'\bspec_(\w+)\s*\(', open(os.path.join(HERE, '..', 'sa', 'spec', sp)).read()):
            names[x] = sp
    jobs = []
    for f in mutate.sources():
        s, c, fs = mutate.functions(f)
        for fn, (x, y) in fs.items():
            fn = mutate.named(f, fn)
            if fn not in names or (only and fn not in only):
                continue
            seen = set()
            for _ in range(n * 3):
                if len(seen) >= n:
                    break
                es = edits(s, c, x, y, rnd)
                rnd.shuffle(es)
                pick = []
                for e in es:
                    if all(e[2] <= p[1] or e[1] >= p[2] for p in pick):
                        pick.append(e)
                    if len(pick) >= k:
                        break
                t = s
                for e in sorted(pick, key=lambda e: -e[1]):
                    t = t[:e[1]] + e[3] + t[e[2]:]
                if t in seen:
                    continue
                seen.add(t)
                jobs.append((f, fn, names[fn], t, [(e[0], s.count('\n', 0, e[1]) + 1) for e in pick]))
    cnt = {}
    with ThreadPoolExecutor(6) as ex:
        for job, res, o in ex.map(check, jobs):
            cnt[res] = cnt.get(res, 0) + 1
            if res == 'ALARM' and os.environ.get('KEEP'):
                with open('%s/%s.%d.c' % (os.environ['KEEP'], job[1], cnt[res]), 'w', encoding='latin-1') as fh:
                    fh.write(job[3])
            if res in ('ALARM', 'undecided', 'error') or os.environ.get('V') and res == 'nocompile':
                print('%-9s %s %s %s :: %s' % (res, job[1], os.path.basename(job[0]), job[4], o.strip()[-int(os.environ.get('W', '300')):]), flush=True)
    print(cnt)


if __name__ == '__main__':
    main()
