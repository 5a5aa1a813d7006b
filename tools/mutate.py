#!/usr/bin/env python3
"""mutate.py list FILE... | run OUT WORKERS PER_FILE SEED [FILE...]: small syntactic changes of the library's sources, made in scratch
copies, to find behaviour that no check looks at. A tool for developing the checks; no check uses it."""
import concurrent.futures, json, os, queue, random, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'cpp/src/'
I = 'cpp/include/copc-lib/'
PLAN = {
    L + 'hierarchy/key.cpp': 'C11 C12 C02', I + 'hierarchy/key.hpp': 'C11 C37 C33', L + 'geometry/box.cpp': 'C12 C09 C35',
    L + 'las/header.cpp': 'C17 C13 C33 C18 C10 C03', I + 'las/header.hpp': 'C17 C13 C19 C34 C12', L + 'las/point.cpp': 'C15 C16 C37 C14 C13',
    I + 'las/point.hpp': 'C14 C15 C16', L + 'las/points.cpp': 'C16 C26 C15 C38', I + 'las/points.hpp': 'C26 C16 C38',
    L + 'las/vlr.cpp': 'C32 C17 C38 C37', I + 'las/vlr.hpp': 'C37 C17', L + 'las/utils.cpp': 'C27', I + 'las/utils.hpp': 'C13 C15',
    L + 'las/laz_config.cpp': 'C19 C17 C38', I + 'las/laz_config.hpp': 'C19 C17', L + 'copc/extents.cpp': 'C25 C18 C34 C32', I + 'copc/extents.hpp': 'C25 C37',
    L + 'copc/copc_config.cpp': 'C17 C25 C18', I + 'copc/copc_config.hpp': 'C19 C17 C18', L + 'copc/info.cpp': 'C17', I + 'copc/info.hpp': 'C17 C34',
    L + 'io/base_reader.cpp': 'C32 C33 C24 C34', L + 'io/copc_base_io.cpp': 'C07 C06 C33 C04', L + 'io/copc_reader.cpp': 'C06 C07 C08 C09 C10 C32 C33 C24 C36',
    I + 'io/copc_reader.hpp': 'C36 C06 C24', I + 'io/copc_writer.hpp': 'C18 C36 C05', L + 'io/copc_writer_internal.cpp': 'C02 C03 C01 C38 C05 C23',
    L + 'io/copc_writer_public.cpp': 'C02 C04 C18 C01 C05', L + 'io/laz_base_writer.cpp': 'C03 C20 C38 C23 C05', I + 'io/laz_base_writer.hpp': 'C38 C05 C23 C03',
    L + 'io/laz_reader.cpp': 'C06 C20 C36 C24', I + 'io/laz_reader.hpp': 'C36 C06', L + 'io/laz_writer.cpp': 'C20 C04', I + 'io/laz_writer.hpp': 'C20 C36 C05',
    I + 'laz/compressor.hpp': 'C21 C20', I + 'laz/decompressor.hpp': 'C21 C24 C20', I + 'hierarchy/entry.hpp': 'C33 C37 C07 C32',
    L + 'hierarchy/page.cpp': 'C02 C07 C37', I + 'hierarchy/page.hpp': 'C02 C07 C37', I + 'io/internal/copc_writer_internal.hpp': 'C02 C23 C03 C38',
    I + 'io/base_reader.hpp': 'C24 C33 C32', I + 'io/copc_base_io.hpp': 'C07 C06 C04',
    I + 'hierarchy/internal/page.hpp': 'C02 C07 C37 C33', I + 'hierarchy/internal/hierarchy.hpp': 'C02 C07 C33',
    I + 'geometry/vector3.hpp': 'C27 C35', I + 'geometry/box.hpp': 'C12', I + 'utils.hpp': 'C27 C37',
    'python/bindings.cpp': 'C35 C30 C29 C28', 'python/copclib/mp/read.py': 'C28', 'python/copclib/mp/transform.py': 'C29', 'python/copclib/mp/utils.py': 'C28',
}
SKIP = re.compile(r'^\s*(//|#|/\*|\*|using|namespace|typedef|template|class|struct|static_assert|throw|"|import|from|def |"""|public:|private:|protected:)|std::cout|ss <<|std::endl|\bassert\b|keep_alive|py::arg')


def mutants(path, text):
    out = []
    doc = False
    for n, line in enumerate(text.split('\n')):
        if path.endswith('.py'):
            if line.count('"""') == 1:
                doc = not doc
                continue
            if doc:
                continue
        if SKIP.search(line) or not line.strip():
            continue
        code = line.split('//')[0] if not path.endswith('.py') else line.split('#')[0]

        def rep(pat, to, kind):
            for m in re.finditer(pat, code):
                new = code[:m.start()] + (to(m) if callable(to) else m.expand(to)) + code[m.end():]
                out.append((n, kind, new))
        rep(r' <= ', ' < ', 'rel')
        rep(r' < ', ' <= ', 'rel')
        rep(r' >= ', ' > ', 'rel')
        rep(r' > ', ' >= ', 'rel')
        rep(r' == ', ' != ', 'rel')
        rep(r' != ', ' == ', 'rel')
        rep(r' && ', ' || ', 'log')
        rep(r' \|\| ', ' && ', 'log')
        rep(r' and ', ' or ', 'log')
        rep(r' or ', ' and ', 'log')
        rep(r' \+ (?!")', ' - ', 'ari')
        rep(r' - ', ' + ', 'ari')
        rep(r'(?<=[\w\)]) \* (?=[\w\(])', ' / ', 'ari')
        rep(r' / ', ' * ', 'ari')
        rep(r'\btrue\b', 'false', 'bool')
        rep(r'\bfalse\b', 'true', 'bool')
        rep(r'\bTrue\b', 'False', 'bool')
        rep(r'\bFalse\b', 'True', 'bool')
        rep(r'(?<![\w.">])(\d+)(?![\w."])', lambda m: str(int(m.group(1)) + 1), 'num')
        rep(r'_min\b', '_max', 'name')
        rep(r'_max\b', '_min', 'name')
        rep(r'(?<=[.>])min\b', 'max', 'name')
        rep(r'(?<=[.>])max\b', 'min', 'name')
        rep(r'(?<=[.>])x\b', 'y', 'name')
        rep(r'(?<=[.>])z\b', 'x', 'name')
        m = re.match(r'^(\s*(?:else )?if )\((.*)\)\s*$', code)
        if m:
            out.append((n, 'neg', '%s(!(%s))' % m.groups()))
        m = re.match(r'^(\s*)(if|elif) (.*):$', code)
        if m and path.endswith('.py'):
            out.append((n, 'neg', '%s%s not (%s):' % m.groups()))
        m = re.match(r'^(\s+)([\w.>\-\[\]\(\)\*:&]+)(\(.*\)|(?: [+\-*/|&]?= ).*);\s*$', code)
        if m and not re.match(r'\s*(return|auto|const|int|double|uint|bool|std::\w+<|size_t)', code) and code.count('(') == code.count(')'):
            out.append((n, 'del', m.group(1) + ';'))
    if path.endswith('bindings.cpp'):
        # a member bound to its neighbour's function
        rows = [(n, l, re.findall(r'&(\w+(?:::\w+)*)::(\w+)', l)) for n, l in enumerate(text.split('\n')) if re.match(r'\s*\.def', l)]
        rows = [r for r in rows if r[2]]
        for a, b in list(zip(rows, rows[1:])) + list(zip(rows[1:], rows)):
            if a[2][0][0] == b[2][0][0] and a[2] != b[2]:
                out.append((a[0], 'swap', re.sub(r'&(\w+(?:::\w+)*)::(\w+)', '&%s::%s' % b[2][0], a[1])))
    return out


def apply(text, mu):
    lines = text.split('\n')
    lines[mu[0]] = mu[2]
    return '\n'.join(lines)


class Worker:
    def __init__(self, k):
        self.dir = '/tmp/mut%d' % k
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.repo = self.dir + '/repo'
        os.makedirs(self.repo)
        subprocess.run('git -C /repo archive HEAD | tar x -C %s' % self.repo, shell=True, check=True)
        self.env = dict(os.environ, VERIF_REPO=self.repo, VERIF_BUILD=self.dir + '/b', VERIF_OUT=self.dir + '/o', VERIF_FAILFAST='1')

    def run(self, f, mu, checks):
        p = os.path.join(self.repo, f)
        orig = open(p).read()
        try:
            open(p, 'w').write(apply(orig, mu))
            if f.endswith('.cpp') and 'bindings' not in f:
                r = subprocess.run(['g++', '-std=c++17', '-fsyntax-only', '-w', '-include', HERE + '/lazperf/prelude.hpp', '-I' + self.repo + '/cpp/include', '-I' + HERE + '/lazperf', p],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    return 'nocompile', '', 0
            t0 = time.time()
            for c in checks.split():
                r = subprocess.run(['python3', HERE + '/run.py', c], env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 2:
                    return 'nocompile', '', time.time() - t0
                if r.returncode == 1:
                    l = [x for x in r.stdout.splitlines() if x.startswith('  ')]
                    return 'caught', c + ' ' + (l or [''])[0][:120], time.time() - t0
                if r.returncode:
                    return 'error', c + ' ' + r.stdout[-300:], time.time() - t0
            return 'SURVIVED', checks, time.time() - t0
        finally:
            open(p, 'w').write(orig)
            # keep the objects of the unchanged tree only as long as there is room
            b = self.dir + '/b'
            if os.path.isdir(b):
                fs = sorted((os.path.getatime(os.path.join(b, x)), os.path.join(b, x)) for x in os.listdir(b))
                if len(fs) > 400:
                    for _, x in fs[:len(fs) - 300]:
                        os.unlink(x)


def main():
    if sys.argv[1] == 'list':
        for f in sys.argv[2:]:
            t = open('/repo/' + f).read()
            for mu in mutants(f, t):
                print(f, mu[0] + 1, mu[1], '|', mu[2].strip())
        return
    out, nw, per, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    files = sys.argv[6:] or list(PLAN)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['new']))
    q = queue.Queue()
    rnd = random.Random(seed)
    jobs = []
    for f in files:
        if not os.path.exists('/repo/' + f):
            print('no', f)
            continue
        ms = mutants(f, open('/repo/' + f).read())
        rnd.shuffle(ms)
        jobs += [(f, m) for m in ms[:per] if (f, m[0] + 1, m[2]) not in done]
    print(len(jobs), 'mutants', flush=True)
    for j in jobs:
        q.put(j)
    lock = threading.Lock()

    def loop(k):
        w = Worker(k)
        while True:
            try:
                f, m = q.get_nowait()
            except queue.Empty:
                break
            res, what, t = w.run(f, m, PLAN[f])
            with lock:
                with open(out, 'a') as o:
                    o.write(json.dumps(dict(file=f, line=m[0] + 1, kind=m[1], new=m[2], res=res, what=what, t=round(t, 1))) + '\n')
                if res not in ('caught', 'nocompile'):
                    print(res, f, m[0] + 1, m[1], m[2].strip(), what, flush=True)
        shutil.rmtree(w.dir)
    ts = [threading.Thread(target=loop, args=(k,)) for k in range(nw)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
