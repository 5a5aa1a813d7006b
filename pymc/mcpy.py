"""Stateless model checker for Python bodies: runs a scenario once per sequence of choices until every sequence was
explored. Same command line and results as mc.cpp."""
import hashlib, json, mmap, os, struct, sys, time, traceback

SCENARIOS = []
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'


class Fail(BaseException):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


class Pruned(BaseException):
    pass


class KnownHit(BaseException):
    pass


class ShardSkip(BaseException):
    pass


def scenario(name, tier=0, shards=1):
    def deco(f):
        SCENARIOS.append((name, f, tier, shards))
        return f
    return deco


def h64(s):
    if isinstance(s, str):
        s = s.encode('utf8', 'surrogatepass')
    return struct.unpack('<Q', hashlib.blake2b(s, digest_size=8).digest())[0]


class Shm:
    def __init__(self, path):
        size = 8 + 4 + 2 * 8192 + 4
        fd = os.open(path, os.O_RDWR | os.O_CREAT, 0o600)
        os.ftruncate(fd, size)
        self.m = mmap.mmap(fd, size)
        os.close(fd)
        self.hb = 0

    def beat(self):
        self.hb += 1
        struct.pack_into('<Q', self.m, 0, self.hb)

    def set(self, pos, c):
        if pos < 8192:
            struct.pack_into('<H', self.m, 12 + 2 * pos, c & 0xffff)
            struct.pack_into('<I', self.m, 8, pos + 1)
        self.beat()

    def reset(self):
        struct.pack_into('<I', self.m, 8, 0)
        self.beat()


class Stats:
    def __init__(self):
        self.executions = self.pruned = self.known = self.transitions = self.checks = self.traces = self.maxdepth = 0
        self.states, self.outcomes, self.samples, self.known_keys, self.capped = set(), set(), [], set(), False


class Ctx:
    def __init__(self, st, trace, arity, shard=0, nshards=1, shm=None, known=()):
        self.st, self.trace, self.arity = st, list(trace), list(arity)
        self.pos, self.shard, self.nshards, self.shm, self.known = 0, shard, nshards, shm, known
        self.ops, self.checks, self.extra = [], 0, 0

    def choose(self, n, what=''):
        if n <= 0:
            print('mc: empty choice', what, file=sys.stderr)
            os._exit(3)
        if self.pos < len(self.trace):
            c = self.trace[self.pos]
            if self.pos < len(self.arity) and self.arity[self.pos] != n or c >= n:
                print('mc: divergence while replaying a prefix:', what, self.arity[self.pos:self.pos + 1], n, file=sys.stderr)
                os._exit(3)
            if self.pos >= len(self.arity):
                self.arity.append(n)
        else:
            c = 0
            self.trace.append(0)
            self.arity.append(n)
        self.pos += 1
        if self.shm:
            self.shm.set(self.pos - 1, c)
        if self.nshards > 1 and self.pos == 3:
            h = h64(struct.pack('<3I', *self.trace[:3]))
            if h % self.nshards != self.shard:
                raise ShardSkip()
        return c

    def flip(self, what=''):
        return self.choose(2, what) == 1

    def pick(self, seq, what=''):
        return seq[self.choose(len(seq), what)]

    def op(self, s):
        self.ops.append(s)
        self.st.transitions += 1
        if self.shm:
            self.shm.beat()
        if os.environ.get('MC_VERBOSE'):
            print('  op:', s, file=sys.stderr, flush=True)

    def step(self, n=1):
        self.st.transitions += n
        if self.shm:
            self.shm.beat()

    def state(self, canon):
        h = h64(canon)
        new = h not in self.st.states
        self.st.states.add(h)
        return new

    def outcome(self, s):
        self.st.outcomes.add(h64(s))

    def fail(self, key, msg):
        if key in self.known:
            self.st.known_keys.add(key)
            raise KnownHit()
        raise Fail(key, msg)

    def check(self, ok, key, msg):
        self.checks += 1
        if not ok:
            self.fail(key, msg() if callable(msg) else msg)

    def eq(self, got, want, key):
        self.checks += 1
        if not (got == want):
            self.fail(key, '%s: got %.300r, want %.300r' % (key, got, want))

    def raises(self, f, key, kinds=Exception):
        self.checks += 1
        try:
            f()
        except kinds:
            return
        except Exception as e:
            self.fail(key, '%s: raised %r' % (key, e))
        self.fail(key, key + ': was accepted')


def execute(body, c, st):
    bad, count = None, True
    try:
        body(c)
    except Pruned:
        st.pruned += 1
    except KnownHit:
        st.known += 1
    except ShardSkip:
        count = False
    except Fail as f:
        bad = (f.key, f.msg)
    except Exception as e:
        if 'exception' in c.known:
            st.known += 1
            st.known_keys.add('exception')
        else:
            tb = traceback.extract_tb(e.__traceback__)
            bad = ('exception', 'unexpected exception: %s: %.500s (%s)' % (
                type(e).__name__, e, ' < '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in reversed(tb[-5:]))))
    if count:
        st.executions += 1
        st.checks += c.checks
        st.traces += 1 + c.extra
        st.maxdepth = max(st.maxdepth, len(c.ops))
        if st.executions in (1, 7, 97, 997):
            st.samples.append('; '.join(c.ops[:14]) + ('; ...' if len(c.ops) > 14 else ''))
    return bad


def write_result(path, name, st, bad=None, c=None):
    r = dict(scenario=name, executions=st.executions, pruned=st.pruned, known_executions=st.known,
             transitions=st.transitions, checks=st.checks, traces=st.traces, states=len(st.states),
             outcomes=len(st.outcomes), maxdepth=st.maxdepth, capped=st.capped, known=sorted(st.known_keys), samples=st.samples)
    if bad:
        r['violation'] = dict(key=bad[0], msg=bad[1], trace=c.trace[:c.pos], ops='; '.join(c.ops[:200]))
    with open(path, 'w') as f:
        json.dump(r, f)


def main():
    a = sys.argv[1:]
    opt = dict(out='/dev/stdout', run=None, replay=None, trace='', shard='0/1', cap='0')
    known = set()
    while a:
        k = a.pop(0)
        if k == '--list':
            for name, _, tier, shards in SCENARIOS:
                print(tier, shards, name)
            return 0
        if k == '--known':
            known.add(a.pop(0))
        else:
            opt[k[2:]] = a.pop(0)
    shm = Shm(os.environ['MC_SHM']) if os.environ.get('MC_SHM') else None
    found = [s for s in SCENARIOS if s[0] == (opt['replay'] or opt['run'])]
    if not found:
        print('mc: no such scenario', file=sys.stderr)
        return 3
    name, body = found[0][:2]
    st = Stats()
    if opt['replay']:
        c = Ctx(st, [int(x) for x in opt['trace'].split(',') if x], [], shm=shm, known=known)
        bad = execute(body, c, st)
        write_result(opt['out'], name, st, bad, c)
        return 1 if bad else 0
    shard, nshards = map(int, opt['shard'].split('/'))
    tr, ar, cap, start = [], [], float(opt['cap']), time.time()
    while True:
        if shm:
            shm.reset()
        c = Ctx(st, tr, ar, shard, nshards, shm, known)
        bad = execute(body, c, st)
        if bad:
            write_result(opt['out'], name, st, bad, c)
            return 1
        tr, ar = c.trace[:c.pos], c.arity[:c.pos]
        while tr and tr[-1] + 1 >= ar[-1]:
            tr.pop()
            ar.pop()
        if not tr:
            break
        tr[-1] += 1
        if cap and time.time() - start > cap:
            st.capped = True
            break
    write_result(opt['out'], name, st)
    if nshards > 1:
        with open(opt['out'] + '.states', 'wb') as f:
            f.write(struct.pack('<%dQ' % len(st.states), *st.states))
    return 0
