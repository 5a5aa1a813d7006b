#!/usr/bin/env python3
"""seedgen.py [make|verify|check] [ID...]: writes /verif/seeded/<id> from tools/seeds/*.py, confirms in a scratch copy of /repo
that the demonstration passes without and fails with the change, and (check) runs the property's check against the changed copy."""
import concurrent.futures, glob, importlib.util, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'cdeb806'
DEMO_SH = '''#!/bin/bash
# Exit 0 when the property holds on the tree in the current directory.
set -e
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export R D T
{ find "$R/cpp/src" -name '*.cpp'; echo "$D/lazperf/lazperf_standin.cpp"; echo "$D/demo.cpp"; } | xargs -P 8 -I{} sh -c '
 g++ -std=c++17 -O0 -w -pthread -include "$D/lazperf/prelude.hpp" -I"$R/cpp/include" -I"$D/lazperf" -c {} -o "$T/$(echo {} | tr / _).o"'
g++ -pthread "$T"/*.o -o "$T/demo"
mkdir "$T/w"; cd "$T/w"
timeout 120 "$T/demo"
'''
PY_SH = '''#!/bin/bash
# Exit 0 when the property holds on the tree in the current directory.
set -e
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export R D T
mkdir -p "$T/o" "$T/p/copclib"
cp -r "$R"/python/copclib/. "$T/p/copclib"
{ find "$R/cpp/src" -name '*.cpp'; echo "$D/lazperf/lazperf_standin.cpp"; echo "$R/python/bindings.cpp"; } | xargs -P 8 -I{} sh -c '
 g++ -std=c++17 -O0 -w -fPIC -pthread -include "$D/lazperf/prelude.hpp" -I"$R/cpp/include" -I"$D/lazperf" -I"$D/pymini" -I/usr/include/python3.12 -c {} -o "$T/o/$(echo {} | tr / _).o"'
g++ -shared -pthread "$T"/o/*.o -o "$T/p/copclib/_core.so"
mkdir "$T/w"; cd "$T/w"
PYTHONPATH="$T/p" PYTHONDONTWRITEBYTECODE=1 timeout 200 python3-vt "$D/demo.py"
'''
DEMO_HPP = open(os.path.join(HERE, 'tools', 'seeds', 'demo.hpp')).read()


def seeds():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds', '*.py'))):
        spec = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s['id'] not in out
            out[s['id']] = s
    return out


def scratch():
    t = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    subprocess.run('git -C /repo archive HEAD | tar x -C %s' % t, shell=True, check=True)
    subprocess.run('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True, cwd=t, check=True)
    return t


def make(s):
    d = os.path.join(HERE, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = scratch()
    try:
        for f, a, b in s['edits']:
            p = os.path.join(t, f)
            x = open(p).read()
            assert x.count(a) == 1, (s['id'], f, x.count(a), a)
            open(p, 'w').write(x.replace(a, b))
        diff = subprocess.run(['git', 'diff'], cwd=t, stdout=subprocess.PIPE, text=True, check=True).stdout
        base = {}
        orig = False
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                cur = subprocess.run(['git', '-C', '/repo', 'show', BASE + ':' + l[6:]], stdout=subprocess.PIPE, text=True).stdout.splitlines()
            elif l.startswith('-') and not l.startswith('---') and l[1:].strip():
                if l[1:] in cur:
                    orig = True
                else:
                    print(s['id'], 'note: not an original line:', l)
        if not orig:
            print(s['id'], 'WARNING: no original line changed')
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        shutil.rmtree(t)
    shutil.copytree(os.path.join(HERE, 'lazperf'), os.path.join(d, 'lazperf'))
    if s.get('python'):
        shutil.copytree(os.path.join(HERE, 'pymini'), os.path.join(d, 'pymini'))
        open(os.path.join(d, 'demo.py'), 'w').write(s['python'])
        open(os.path.join(d, 'demo.sh'), 'w').write(PY_SH)
    else:
        open(os.path.join(d, 'demo.hpp'), 'w').write(DEMO_HPP)
        open(os.path.join(d, 'demo.cpp'), 'w').write('#include "demo.hpp"\n' + s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def verify(i, check=False, tier='quick'):
    s = seeds()[i]
    d = os.path.join(HERE, 'seeded', i)
    t = scratch()
    try:
        r0 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=t, check=True)
        r1 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        msg = '%s %s demo: clean=%d patched=%d %s' % (i, s['property'], r0.returncode, r1.returncode,
              'OK' if r0.returncode == 0 and r1.returncode not in (0,) and 'error:' not in r1.stdout else 'BAD\n' + r0.stdout[-1500:] + '\n---\n' + r1.stdout[-1500:])
        if r1.returncode:
            msg += ' | ' + (r1.stdout.strip().splitlines() or [''])[-1][:150]
        if check:
            b = tempfile.mkdtemp(prefix='seedb-', dir='/tmp')
            t0 = time.time()
            try:
                for p in [s['property']] + s.get('also', []):
                    r = subprocess.run(['python3', os.path.join(HERE, 'run.py'), p, '--tier', tier], env=dict(os.environ, VERIF_REPO=t, VERIF_BUILD=b, VERIF_OUT=b),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    hit = 'VIOLATION property=' + p in r.stdout
                    first = [l for l in r.stdout.splitlines() if l.startswith('  ')][:1]
                    msg += '\n   check %s: exit %d %s (%.0fs) %s' % (p, r.returncode, 'CAUGHT' if hit and r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR ' + r.stdout[-800:], time.time() - t0, (first or [''])[0][:300])
            finally:
                shutil.rmtree(b)
        return msg
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    alls = seeds()
    ids = ids or sorted(alls)
    if cmd == 'make':
        for i in ids:
            make(alls[i])
    else:
        with concurrent.futures.ThreadPoolExecutor(1 if cmd == 'check' else 2) as ex:
            for m in ex.map(lambda i: verify(i, cmd == 'check'), ids):
                print(m, flush=True)
