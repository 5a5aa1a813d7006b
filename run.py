#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE]
Builds the check of one property against the current tree of /repo, explores its bounded space and reports.
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: the check itself failed."""
import concurrent.futures, glob, hashlib, json, mmap, os, shutil, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, '.build'))
CXX = os.environ.get('VERIF_CXX', 'g++')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
LAZ = os.path.join(HERE, 'lazperf')
MC = os.path.join(HERE, 'mc')
sys.path.insert(0, HERE)
from registry import REGISTRY   # noqa: E402

BASE = ['-std=c++17', '-g1', '-w', '-D_GLIBCXX_ASSERTIONS', '-include', os.path.join(LAZ, 'prelude.hpp'),
        '-I' + os.path.join(REPO, 'cpp/include'), '-I' + LAZ, '-I' + MC, '-pthread']
FLAVOURS = {
    'asan': ['-O1', '-fsanitize=address,null,bounds,return,integer-divide-by-zero', '-fno-sanitize-recover=all',
             '-fno-omit-frame-pointer'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'plain': ['-O2'],
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b'\0')
    return h.hexdigest()[:20]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def headers_digest():
    fs = []
    for root in (os.path.join(REPO, 'cpp'), LAZ, MC, os.path.join(HERE, 'checks')):
        for d, _, names in os.walk(root):
            fs += [os.path.join(d, n) for n in names if n.endswith(('.hpp', '.h', '.hxx', '.ipp', '.inc', '.tpp'))]
    return sha(*[x for f in sorted(fs) for x in (f, read(f))])


def compile_one(args):
    src, obj, flags = args
    if os.path.exists(obj):
        return
    tmp = obj + '.%d.tmp' % os.getpid()
    r = subprocess.run([CXX] + BASE + flags + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors='replace')
    if r.returncode:
        raise BuildError('compiling %s failed:\n%s' % (src, r.stdout[-4000:]))
    os.replace(tmp, obj)


def build(mains, flavour, name, extra=()):
    """Compile /repo's sources, the laz-perf stand-in, the explorer and the given mains; return the binary."""
    flags = FLAVOURS[flavour] + list(extra)
    hd = headers_digest()
    srcs = sorted(glob.glob(os.path.join(REPO, 'cpp/src/**/*.cpp'), recursive=True))
    srcs += [os.path.join(LAZ, 'lazperf_standin.cpp'), os.path.join(MC, 'mc.cpp')] + list(mains)
    os.makedirs(BUILD, exist_ok=True)
    jobs = []
    for s in srcs:
        key = sha(s, read(s), hd, ' '.join(BASE + flags), CXX)
        jobs.append((s, os.path.join(BUILD, os.path.basename(s)[:-4] + '-' + key + '.o'), flags))
    # the harness first: it is usually the slowest translation unit
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(compile_one, reversed(jobs)))
    out = os.path.join(BUILD, '%s-%s' % (name, sha(*[j[1] for j in jobs])))
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run([CXX] + flags + ['-pthread'] + [j[1] for j in jobs] + ['-o', tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode:
            raise BuildError('linking failed:\n' + r.stdout[-4000:])
        os.replace(tmp, out)
    return out


PYTHON = '/opt/veriftools/pyvenv/bin/python3'


def build_python(tmp, check):
    """Compile /repo's bindings and sources into an extension module, lay out the package with /repo's Python files as they
    are, and return a command that explores the given check with it."""
    if not os.path.exists(PYTHON):
        raise BuildError(PYTHON + ' is missing')
    inc = subprocess.run([PYTHON, '-c', 'import sysconfig; print(sysconfig.get_path("include"))'], stdout=subprocess.PIPE,
                         text=True, check=True).stdout.strip()
    flags = ['-O1', '-fPIC', '-I' + os.path.join(HERE, 'pymini'), '-I' + inc]
    hd = headers_digest() + sha(*[read(f) for f in sorted(glob.glob(os.path.join(HERE, 'pymini/pybind11/*.h')))])
    srcs = sorted(glob.glob(os.path.join(REPO, 'cpp/src/**/*.cpp'), recursive=True))
    srcs += [os.path.join(LAZ, 'lazperf_standin.cpp'), os.path.join(REPO, 'python/bindings.cpp')]
    os.makedirs(BUILD, exist_ok=True)
    jobs = [(s, os.path.join(BUILD, os.path.basename(s)[:-4] + '-' + sha(s, read(s), hd, ' '.join(BASE + flags), CXX) + '.o'), flags)
            for s in srcs]
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(compile_one, reversed(jobs)))
    core = os.path.join(BUILD, '_core-%s.so' % sha(*[j[1] for j in jobs]))
    if not os.path.exists(core):
        r = subprocess.run([CXX, '-shared', '-pthread'] + [j[1] for j in jobs] + ['-o', core + '.%d.tmp' % os.getpid()],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode:
            raise BuildError('linking failed:\n' + r.stdout[-4000:])
        os.replace(core + '.%d.tmp' % os.getpid(), core)
    pkg = os.path.join(tmp, 'pkg')
    if not os.path.exists(pkg):
        os.makedirs(pkg)
        shutil.copytree(os.path.join(REPO, 'python/copclib'), os.path.join(pkg, 'copclib'))
        shutil.copy(core, os.path.join(pkg, 'copclib', '_core.so'))
    cmd = os.path.join(tmp, check + '.sh')
    with open(cmd, 'w') as f:
        f.write('#!/bin/sh\nexec %s %s %s %s "$@"\n' % (PYTHON, os.path.join(HERE, 'pymc/runner.py'), pkg, check))
    os.chmod(cmd, 0o755)
    return cmd


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=97:hard_rss_limit_mb=6000:allocator_may_return_null=0:detect_stack_use_after_return=0:print_summary=1',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=97', TSAN_OPTIONS='exitcode=96:halt_on_error=1:second_deadlock_stack=1')
OUT = os.environ.get('VERIF_OUT', HERE)   # where evidence and replays go
FAILFAST = bool(os.environ.get('VERIF_FAILFAST'))   # stop at the first violation (for developing)
STOP = threading.Event()
HANG = float(os.environ.get('VERIF_HANG', '45'))


def run_process(cmd, env, shm, hang):
    """Run one explorer process; kill it when its heartbeat stops. Returns (returncode or 'hang', output tail)."""
    with tempfile.TemporaryFile() as log:
        p = subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        last, since = None, time.time()
        rc = None
        while True:
            try:
                rc = p.wait(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                hb = struct.unpack('<Q', read(shm)[:8])[0]
            except Exception:
                hb = None
            if STOP.is_set():
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise RuntimeError('stopped')
            if hb != last:
                last, since = hb, time.time()
            elif time.time() - since > hang:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 'hang'
                break
        log.seek(0, 2)
        size = log.tell()
        log.seek(max(0, size - 6000))
        return rc, log.read().decode('utf8', 'replace')


def shm_trace(shm):
    b = read(shm)
    n = struct.unpack('<I', b[8:12])[0]
    return list(struct.unpack('<%dH' % min(n, 8192), b[12:12 + 2 * min(n, 8192)]))


def replay_once(binary, scenario, trace, tmp, known, hang):
    out = os.path.join(tmp, 'replay-%s.json' % threading.get_ident())
    shm = out + '.shm'
    for f in (out, shm):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [binary, '--replay', scenario, '--trace', ','.join(map(str, trace)), '--out', out]
    for k in known:
        cmd += ['--known', k]
    rc, log = run_process(cmd, dict(ENV, MC_SHM=shm, MC_TMP=tmp), shm, hang)
    res = json.load(open(out)) if rc in (0, 1) and os.path.exists(out) else None
    return rc, log, res


def explore(binary, scenario, shard, nshards, tmp, known, cap):
    tag = '%s-%d' % (sha(scenario), shard)
    out, shm = os.path.join(tmp, tag + '.json'), os.path.join(tmp, tag + '.shm')
    cmd = [binary, '--run', scenario, '--shard', '%d/%d' % (shard, nshards), '--out', out]
    if cap:
        cmd += ['--cap', str(cap)]
    for k in known:
        cmd += ['--known', k]
    scratch = os.path.join(tmp, tag + '.d')
    os.makedirs(scratch, exist_ok=True)
    for attempt in (0, 1):
        if os.path.exists(out):
            os.unlink(out)
        rc, log = run_process(cmd, dict(ENV, MC_SHM=shm, MC_TMP=scratch), shm, HANG)
        if rc in (0, 1) and os.path.exists(out):
            res = json.load(open(out))
            if rc == 0 and 'violation' not in res:
                if os.path.exists(out + '.states'):
                    b = read(out + '.states')
                    res['state_set'] = struct.unpack('<%dQ' % (len(b) // 8), b)
                    os.unlink(out + '.states')
                return res
            v = res['violation']
            # replay before report: the same schedule must fail again
            rc2, log2, res2 = replay_once(binary, scenario, v['trace'], scratch, known, 2 * HANG)
            if rc2 == 1 and res2 and 'violation' in res2 or rc2 in (97, 96, 'hang') or isinstance(rc2, int) and rc2 < 0:
                return res
            # depends on what ran before in this process: the whole (deterministic) run must fail the same way again
            if attempt == 1:
                res['violation']['msg'] += ' [only when run after the preceding executions of this scenario]'
                res['violation']['whole'] = True
                return res
            continue
        if rc == 3:
            raise RuntimeError('explorer error in %s: %s' % (scenario, log[-2000:]))
        # crash, sanitizer report or hang
        trace = shm_trace(shm) if os.path.exists(shm) else []
        kind = 'hang' if rc == 'hang' else 'crash (exit %s)' % rc
        rc2, log2, res2 = replay_once(binary, scenario, trace, scratch, known, 2 * HANG)
        again = rc2 == 'hang' or (rc2 not in (0, 3) and not (rc2 == 1 and not res2))
        if again or attempt == 1:
            log = (log2 if again else log)
            lines = [l for l in log.splitlines() if 'ERROR' in l or 'runtime error' in l or 'Assertion' in l or
                     'SUMMARY' in l or 'terminate' in l or 'WARNING' in l] or log.splitlines()[-3:]
            msg = kind + ': ' + ' | '.join(lines)[:600]
            if rc2 == 1 and res2 and 'violation' in res2:
                msg = res2['violation']['msg']
            return dict(scenario=scenario, executions=0, pruned=0, known_executions=0, transitions=0, checks=0, traces=0,
                        states=0, outcomes=0, maxdepth=0, capped=False, known=[], samples=[],
                        violation=dict(key='hang' if rc == 'hang' else 'crash', msg=msg, trace=trace, ops='', log=log[-3000:]))
    raise RuntimeError('%s: unexplained result %s: %s' % (scenario, rc, log[-2000:]))


def known_keys(prop):
    keys = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                if rest.startswith('key='):
                    k, _, d = rest[4:].partition(' ')
                    keys[k] = d
    return keys


def save_replay(prop, rec):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop, sha(json.dumps(rec, sort_keys=True))[:10]))
    with open(p, 'w') as f:
        json.dump(dict(property=prop, **rec), f, indent=1)
    return p


def run_check(prop, reg, tier, tmp):
    t0 = time.time()
    mains = [os.path.join(HERE, 'checks', m) for m in reg.get('src', [])]
    flavours = reg.get('flavours', ['asan'])
    known = known_keys(prop)
    cap = reg.get('cap', 0) if tier == 'thorough' else 0
    results = []
    tbuild = 0
    for fl in flavours:
        tb = time.time()
        binary = build_python(tmp, reg['py']) if 'py' in reg else build(mains, fl, prop + '-' + fl, reg.get('flags', []))
        tbuild += time.time() - tb
        listing = subprocess.run([binary, '--list'], stdout=subprocess.PIPE, text=True, env=ENV, check=True).stdout
        jobs = []
        for l in listing.splitlines():
            t, sh, name = l.split(' ', 2)
            if int(t) == 1 and tier != 'thorough':
                continue
            if name.startswith('tsan:') != (fl == 'tsan'):
                continue
            for i in range(int(sh)):
                jobs.append((name, i, int(sh)))
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(explore, binary, n, i, k, tmp, list(known), cap) for n, i, k in jobs]
            try:
                for f in concurrent.futures.as_completed(futs):
                    r = f.result()
                    results.append(r)
                    if FAILFAST and 'violation' in r:
                        STOP.set()
                        for g in futs:
                            g.cancel()
                        break
            except BaseException:
                for f in futs:
                    f.cancel()
                raise
    tot = lambda k: sum(r[k] for r in results)   # noqa: E731
    viol = [r for r in results if 'violation' in r]
    samples = []
    for r in sorted(results, key=lambda r: r['scenario']):
        for s in r['samples'][-1:]:
            if len(samples) < 12:
                samples.append(dict(scenario=r['scenario'], ops=s))
    union = {}
    for r in results:   # the shards of one scenario may reach the same states
        if 'state_set' in r:
            union.setdefault(r['scenario'], set()).update(r.pop('state_set'))
            r['states'] = 0
    cov = dict(states=tot('states') + sum(len(s) for s in union.values()), transitions=tot('transitions'),
               traces_validated_against_impl=tot('traces'), samples=samples or [dict(scenario='none', ops='')],
               oracle_comparisons=tot('checks'), distinct_outcomes=tot('outcomes'), pruned_executions=tot('pruned'),
               scenarios=len({r['scenario'] for r in results}), deepest_history=max([r['maxdepth'] for r in results] or [0]),
               capped_scenarios=sorted({r['scenario'] for r in results if r.get('capped')}),
               exhaustive=not any(r.get('capped') for r in results) and not viol,
               bounds=reg.get('bounds', ''), build_s=round(tbuild, 1))
    return cov, viol, sorted({k for r in results for k in r['known']}), known, time.time() - t0


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    os.environ['VERIF_TIER'] = ENV['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    reg = REGISTRY[prop]
    tmp = ENV['TMPDIR'] = tempfile.mkdtemp(prefix='mc-%s-' % prop)
    try:
        if '--replay' in args:
            rec = json.load(open(args[args.index('--replay') + 1]))
            binary = build_python(tmp, reg['py']) if 'py' in reg else build([os.path.join(HERE, 'checks', m) for m in reg['src']], 'tsan' if rec['scenario'].startswith('tsan:') else 'asan', prop + '-replay',
                           reg.get('flags', []))
            os.environ['MC_VERBOSE'] = ENV['MC_VERBOSE'] = '1'
            rc, log, res = replay_once(binary, rec['scenario'], rec['trace'], tmp, [], 300)
            print(log)
            print(json.dumps(res, indent=1) if res else 'exit: %s' % rc)
            return 0 if rc == 0 else 1
        cov, viol, hit, known, wall = run_check(prop, reg, tier, tmp)
        ev = dict(property=prop, tier=tier, seed=seed, level=reg.get('level', 'model_checking'), coverage=cov,
                  assumptions=reg.get('assumptions', []), wall_s=round(wall, 2), violations=len(viol))
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: states=%d transitions=%d traces=%d comparisons=%d outcomes=%d scenarios=%d build=%.1fs wall=%.1fs%s' % (
            prop, tier, cov['states'], cov['transitions'], cov['traces_validated_against_impl'],
            cov.get('oracle_comparisons', 0), cov.get('distinct_outcomes', 0), cov.get('scenarios', 0),
            cov.get('build_s', 0), wall, '' if cov.get('exhaustive', True) or viol else ' CAPPED ' + str(cov.get('capped_scenarios'))))
        for k in hit:
            print('KNOWN-FINDING: property=%s %s %s' % (prop, k, known.get(k, '')))
        if viol:
            for r in sorted(viol, key=lambda r: r['scenario'])[:5]:
                v = r['violation']
                path = save_replay(prop, dict(scenario=r['scenario'], **v))
                print('  %s: %s' % (r['scenario'], v['msg'][:1500]))
                if v.get('ops'):
                    print('    history: %s' % v['ops'][:1500])
                print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        return 0
    except BuildError as e:
        print('BUILD ERROR: %s' % e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
