"""Compile /repo's current sources to LLVM IR and load them (nothing of rgraph is run)."""
import os, re, subprocess, sys, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor
from . import ir

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('RGRAPH_REPO', '/repo')
PROG_DIRS = ['netcarto', 'utils', 'reliability', 'recommender', 'conflict', 'multiblock', 'only_deg']
CFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-w',
          '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion',
          '-Wno-error=incompatible-function-pointer-types', '-Wno-return-type', '-Wno-error=return-type',
          '-std=gnu17', '-fno-builtin', '-ffp-contract=off', '-emit-llvm', '-c']


class BuildError(Exception):
    pass


def dumper():
    exe = os.path.join(VERIF, 'build', 'irdump')
    src = os.path.join(HERE, 'dumper', 'irdump.cpp')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    def cfg(*a):
        return subprocess.check_output(['llvm-config-18'] + list(a), text=True).split()
    cmd = ['clang++-18', '-O1', '-w'] + cfg('--cxxflags') + [src, '-o', tmp] + cfg('--ldflags') + \
        cfg('--libs', '--link-shared')
    subprocess.check_call(cmd)
    os.replace(tmp, exe)
    return exe


def lib_sources(repo=None):
    return sorted(glob.glob(os.path.join(repo or REPO, 'src', '*.c')))


def prog_sources(repo=None):
    out = []
    for d in PROG_DIRS:
        out += sorted(glob.glob(os.path.join(repo or REPO, d, '*.c')))
    return out


class Program:
    """lib: the library unit; progs: {relative path of main file: unit}"""

    def __init__(self, modes=('ssa',), progs=True, repo=None, api=None, specs=()):
        self.repo = repo or REPO
        self.units = {}
        exe = dumper()
        api = api or os.path.join(HERE, 'api.txt')
        work = tempfile.mkdtemp(prefix='rgsa.')
        try:
            libs = lib_sources(self.repo)
            pg = prog_sources(self.repo) if progs else []
            if len(libs) < 10:
                raise BuildError('library sources not found under %s/src' % self.repo)

            def comp(src):
                rel = os.path.relpath(src, self.repo)
                out = os.path.join(work, rel.replace('/', '__') + '.bc')
                r = subprocess.run(['clang-18'] + CFLAGS + ['-I' + os.path.join(self.repo, 'src'), rel, '-o', out],
                                   cwd=self.repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise BuildError('cannot compile %s:\n%s' % (rel, r.stdout[-2000:]))
                return rel, out
            with ThreadPoolExecutor(8) as ex:
                bcs = dict(ex.map(comp, libs + pg))
            self.specnames = ['spec/' + x for x in specs]
            if specs:
                txt = open(api).read() if os.path.exists(api) else ''
                names_ = []
                for x in specs:
                    src = os.path.join(HERE, 'spec', x)
                    names_ += re.findall(r'\bspec_\w+(?=\s*[(,])', open(src).read())
                    out = os.path.join(work, 'spec__' + x + '.bc')
                    r = subprocess.run(['clang-18'] + CFLAGS + ['-I' + os.path.join(self.repo, 'src'),
                                        '-I' + os.path.join(HERE, 'spec'), src, '-o', out],
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode:
                        raise BuildError('cannot compile reference %s:\n%s' % (x, r.stdout[-2000:]))
                    bcs['spec/' + x] = out
                api = os.path.join(work, 'api.txt')
                with open(api, 'w') as fh:
                    fh.write(txt + '\n' + '\n'.join(sorted(set(names_))) + '\n')
            self.prognames = [os.path.relpath(x, self.repo) for x in pg]
            self.libnames = [os.path.relpath(x, self.repo) for x in libs]

            def dump(job):
                name, mode, ins, only = job
                out = os.path.join(work, 'o_%s_%s.json' % (name.replace('/', '__'), mode))
                cmd = [exe, '--mode=' + mode, '--out=' + out]
                if only:
                    cmd.append('--only-file=' + only)
                if os.path.exists(api):
                    cmd.append('--api=' + api)
                r = subprocess.run(cmd + ins, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise BuildError('irdump failed on %s: %s' % (name, r.stdout[-1000:]))
                return (name, mode, out)

            def dump_all(jobs):
                with ThreadPoolExecutor(8) as ex:
                    for name, mode, out in ex.map(dump, jobs):
                        self.units[(name, mode)] = ir.load(out, name, name in self.libnames)
            names = self.libnames + self.prognames + self.specnames
            dump_all([(n, m, [bcs[n]], None) for m in modes for n in names])
            # helpers introduced in one file and called from another: link the two so they are inlined
            helper = {}
            for n in names:
                for h in self.units[(n, modes[0])].inlined:
                    helper.setdefault(h, n)
            again = []
            for n in names:
                ext = set()
                todo = [n]
                while todo:
                    x = todo.pop()
                    for d in self.units[(x, modes[0])].decls.values():
                        if not d['def'] and d['name'] in helper:
                            y = helper[d['name']]
                            if y != n and y not in ext and (y in self.libnames):
                                ext.add(y)
                                todo.append(y)
                if ext:
                    again += [(n, m, [bcs[n]] + [bcs[y] for y in sorted(ext)], n) for m in modes]
            self.cross_linked = sorted({a[0] for a in again})
            dump_all(again)
        finally:
            shutil.rmtree(work, ignore_errors=True)

    def libfns(self, mode='ssa'):
        """name -> function, for the library"""
        out = {}
        for n in self.libnames:
            for k, f in self.units[(n, mode)].fns.items():
                out[k] = f
        return out

    def specfns(self, mode='ssa'):
        out = {}
        for n in self.specnames:
            out.update(self.units[(n, mode)].fns)
        return out

    def progs(self, mode='ssa'):
        return {n: self.units[(n, mode)] for n in self.prognames}

    def all_fns(self, mode='ssa'):
        for n in self.libnames + self.prognames:
            for f in self.units[(n, mode)].fns.values():
                yield f

    def fn(self, name, mode='ssa'):
        f = self.libfns(mode).get(name)
        if f is None:
            raise KeyError(name)
        return f
