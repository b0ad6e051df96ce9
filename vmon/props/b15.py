"""B15: concurrent use."""
import random
import subprocess
import sys
import threading
import time

from vmon import ct, env
from vmon.props import _battery as A
from vmon.rec import expect, same

TECHNIQUE = 'differential monitor over recorded histories: each operation of a concurrent run must give what it gave alone; delays injected into the native library and tiny switch intervals vary the schedule'
RULE = """Evaluation = one operation (blinding with a given random source and unblinding, failed unblinding, reading, writing, hashes, addresses, keys,
scripts, trees) done in one of 2 to 8 threads at once, each with its own selected chain, compared with its result alone.  Native calls are delayed by up to
300 us outside the interpreter lock, the switch interval is down to a microsecond.  Directed: fresh processes whose first use of the library happens in
several threads at once.  Forced schedules: one operation is stopped at a chosen line (or byte code) of the library, another one is done completely, then the
first goes on; places not stopped at before are preferred, and for the first use in a process each line is tried in a process of its own.
Distinct = (operation, chain, threads, result kind), runs of 4 successive events of different threads, and places of stopping."""
NATIVE = True
QUICK = 110
REQUIRED = {'compared': 900, 'blind': 220, 'fresh': 12, 'overlaps': 700, 'forced': 350, 'stopped': 350, 'places': 250, 'first-use': 60}
CHAINS = ('elements', 'elements', 'elements/liquidv1', 'elements/elementsregtest', 'bitcoin')


def tasks(r, n):
    out = []
    for _ in range(n):
        op = r.choice(A.CONF + [A.op_blind]) if r.random() < .45 else r.choice(A.PLAIN)
        chain = r.choice(CHAINS)
        if op is A.op_address and not chain.startswith('elements'):
            chain = 'elements'
        out.append((op, r.randrange(10 ** 9), chain))
    return out


def alone(t):
    from bitcointx import ChainParams
    op, seed, chain = t
    with ChainParams(chain):
        return A.run(op, seed)


def thread(i, todo, gate, log, out, nest):
    from bitcointx import select_chain_params
    r = random.Random(nest)
    try:
        select_chain_params('elements')
        gate.wait(60)
        for n, t in todo:
            log.append((i, 'begin', t[0].__name__))
            v = alone(t)
            log.append((i, 'end', t[0].__name__))
            out[n] = v
            if r.random() < .3:
                time.sleep(0)
    except Exception as e:
        out[('thread', i)] = repr(e)


def episode(ctx):
    r, rec = ctx.rng, ctx.rec
    n = r.choice((2, 3, 4, 8))
    todo = tasks(r, r.choice((8, 12, 16)))
    # the same operation also in several threads at once
    todo += [r.choice(todo)] * r.choice((0, n))
    want = [alone(t) for t in todo]
    z = ct.Z(ctx.native) if 'z' not in ctx.data else ctx.data['z']
    ctx.data['z'] = z
    old = sys.getswitchinterval()
    sys.setswitchinterval(r.choice((1e-6, 1e-5, 1e-4, 5e-3)))
    z.delay(r.choice((0, 20, 100, 300)))
    out, log, gate = {}, [], threading.Barrier(n)
    try:
        ts = [threading.Thread(target=thread, args=(i, [(k, todo[k]) for k in range(i, len(todo), n)], gate, log, out, r.getrandbits(32)), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(200)
            expect(not t.is_alive(), 'stuck', 'an operation in a thread does not end', log=repr(log[-8:]))
    finally:
        z.delay(0)
        sys.setswitchinterval(old)
    for k, v in out.items():
        expect(not isinstance(k, tuple), 'thread-error', 'a thread failed: %s' % v)
    for k, t in enumerate(todo):
        same(out.get(k), want[k], 'differs-' + t[0].__name__, 'the result of an operation differs when done concurrently', op=t[0].__name__, seed=t[1], chain=t[2], threads=n)
        rec.ev()
        rec.count('compared')
        rec.count('blind', t[0] is A.op_blind)
        rec.feat(t[0].__name__, t[2], n, str(want[k])[:6] == 'raised')
    # overlap seen: an operation begins while another thread's is under way
    open_ = set()
    for i, e, name in list(log):
        if e == 'begin':
            rec.count('overlaps', bool(open_ - {i}))
            open_.add(i)
        else:
            open_.discard(i)
    for k in range(len(log) - 3):
        if len({x[0] for x in log[k:k + 4]}) > 1:
            base = log[k][0]
            rec.feat('order', tuple(((x[0] - base) % n,) + x[1:] for x in log[k:k + 4]))
    rec.sample(threads=n, operations=len(todo), order=repr(log[:6]))


class Stop:
    """runs an operation in this thread and stops at chosen events of the library's own lines until another operation is done"""
    LOCK_WAIT = .4

    def __init__(self, places, opcodes=False):
        self.places, self.opcodes = places, opcodes      # places: {event number: operation}
        self.n, self.seen, self.at, self.results = 0, {}, [], []

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(self.root):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event != ('opcode' if self.opcodes else 'line') or frame.f_lineno is None:
            return self.local
        k, self.n = self.n, self.n + 1
        where = (frame.f_code.co_filename[len(self.root):], frame.f_lineno)
        self.seen.setdefault(where, []).append(k)
        if k in self.places:
            self.at.append(where)
            t = threading.Thread(target=self.other, args=(self.places[k],), daemon=True)
            t.start()
            t.join(self.LOCK_WAIT)      # it may wait for something this thread holds
            self.threads.append(t)
        return self.local

    def other(self, op):
        self.results.append((op, alone(op)))

    def run(self, op):
        self.root = env.REPO + '/elementstx/'
        self.threads = []
        sys.settrace(self.trace)
        try:
            v = alone(op)
        finally:
            sys.settrace(None)
        for t in self.threads:
            t.join(100)
            expect(not t.is_alive(), 'stuck', 'an operation begun while another was stopped does not end', op=op[0].__name__)
        return v


def forced(ctx, n):
    """one operation stopped in the middle of another"""
    r, rec = ctx.rng, ctx.rec
    done, seen = (ctx.data.setdefault(k, set()) for k in ('places', 'stopped-at'))
    for _ in range(n):
        first, second, third = (tasks(r, 1)[0] for _ in range(3))
        if r.random() < .3:
            second = first[:1] + (second[1],) + first[2:]
        opcodes = r.random() < .15
        probe = Stop({}, opcodes)
        want = probe.run(first)
        wants = {second: alone(second), third: alone(third)}
        if not probe.seen:
            continue
        places = {}
        for op in (second, third)[:r.choice((1, 1, 2))]:
            new = [w for w in probe.seen if w not in done]
            w = r.choice(sorted(new) or sorted(probe.seen))
            done.add(w)
            places[r.choice(probe.seen[w])] = op
        s = Stop(places, opcodes)
        got = s.run(first)
        info = dict(first=first[0].__name__, seed=first[1], chain=first[2], at=repr(s.at), other=repr([(o[0].__name__,) + o[1:] for o in places.values()]))
        same(got, want, 'stopped-' + first[0].__name__, 'the result of an operation that was stopped while another one was done differs', **info)
        for op, v in s.results:
            same(v, wants[op], 'between-' + op[0].__name__, 'the result of an operation done while another one was stopped differs', **info)
            rec.count('stopped')
        rec.ev(1 + len(s.results))
        rec.count('forced')
        for w in s.at:
            rec.feat('place', w)
            rec.count('places', w not in seen)
            seen.add(w)


def d_forced(ctx):
    forced(ctx, 130)


FIRST = '''
import os, sys, random, traceback
import bitcointx, elementstx
from vmon.props import _battery as A, b15
elementstx.set_custom_secp256k1_path(sys.argv[1])
seed, step = int(sys.argv[2]), int(sys.argv[3])
def child(k):
    r = random.Random(seed + k)
    ops = (A.op_unblind_bad, A.op_unblind_bad, A.op_blind)
    a, b = ((r.choice(ops), r.randrange(10**9), 'elements') for _ in range(2))
    s = b15.Stop({} if k is None else {k: b})
    v = s.run(a)
    print(k, s.n, s.at and s.at[0][1], a[0].__name__, a[1], v.replace(chr(10), ' '), flush=True)
    for o, v in s.results:
        print(k, s.n, s.at[0][1], o[0].__name__, o[1], v.replace(chr(10), ' '), flush=True)
for k in range(step, 130, 4):
    pid = os.fork()
    if not pid:
        try:
            child(k)
        except BaseException:
            traceback.print_exc()
            os._exit(1)
        os._exit(0)
    st = os.waitpid(pid, 0)[1]
    if st:
        print('died', k, st, flush=True)
'''


def first_use(step):
    """first use of the library stopped at each of its lines, used by somebody else, and gone on with"""
    def go(ctx):
        seed = ctx.rng.randrange(10 ** 6)
        p = subprocess.run([env.PY, '-B', '-c', FIRST, ctx.native, str(seed), str(step)], env=env.worker_env(), capture_output=True, text=True, timeout=400)
        expect(p.returncode == 0, 'first-use', 'first use failed: %s' % p.stderr[-600:], seed=seed)
        for line in p.stdout.splitlines():
            expect(not line.startswith('died'), 'first-use-died', 'first use of the library, stopped at event %s while another thread used it, failed: %s' % (
                line.split()[1], p.stderr[-900:]), seed=seed, line=line)
            k, n, at, name, s, got = line.split(' ', 5)
            want = alone((getattr(A, name), int(s), 'elements')).replace('\n', ' ')
            same(got, want, 'first-use-' + name, 'the result of an operation differs when the first use is stopped in the middle', event=k, at=at, seed=s)
            ctx.rec.ev()
            ctx.rec.count('first-use')
            ctx.rec.feat('first-use', at)
    go.__name__ = 'first_use_%d' % step
    return go


FRESH = '''
import sys, threading, random
import bitcointx, elementstx
from vmon.props import _battery as A, b15
path, seed, n, setpath = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
if path != '-':
    elementstx.set_custom_secp256k1_path(path)
r = random.Random(seed)
todo = [(A.op_blind if path != '-' and k %% 2 == 0 else r.choice(A.PLAIN), r.randrange(10**9), r.choice(('elements', 'elements/liquidv1'))) for k in range(2 * n)]
sys.setswitchinterval(1e-6)
out, log, gate = {}, [], threading.Barrier(n)
ts = [threading.Thread(target=b15.thread, args=(i, [(k, todo[k]) for k in range(i, len(todo), n)], gate, log, out, i)) for i in range(n)]
[t.start() for t in ts]
[t.join() for t in ts]
import elementstx.core.secp256k1 as Z
h = Z.get_secp256k1()
assert Z.get_secp256k1() is h
assert h.cap.has_zkp is (path != '-')
for k, t in enumerate(todo):
    print(t[0].__name__, t[1], t[2], str(out.get(k, out)).replace('\\n', ' '))
'''.replace('%%', '%')


def fresh(n, native):
    def go(ctx):
        r = ctx.rng
        for _ in range(3):
            seed = r.randrange(10 ** 6)
            p = subprocess.run([env.PY, '-B', '-c', FRESH, ctx.native if native else '-', str(seed), str(n), ''], env=env.worker_env(), capture_output=True, text=True, timeout=300)
            expect(p.returncode == 0, 'fresh', 'first use in %d threads failed: %s' % (n, p.stderr[-600:]), seed=seed)
            lines = p.stdout.splitlines()
            expect(len(lines) == 2 * n, 'fresh', 'results are missing: %s' % p.stderr[-300:])
            for line in lines:
                name, s, chain, got = line.split(' ', 3)
                want = alone((getattr(A, name), int(s), chain)).replace('\n', ' ')
                same(got, want, 'fresh-' + name, 'the result of an operation differs when the library is first used in several threads', seed=s, chain=chain, threads=n)
                ctx.rec.ev()
                ctx.rec.feat('fresh', name, n, native)
            ctx.rec.count('fresh')
    go.__name__ = 'fresh_%d_%s' % (n, 'extended' if native else 'plain')
    return go


DIRECTED = [fresh(2, True), fresh(4, True), fresh(8, True), fresh(4, False), fresh(3, True), fresh(8, False)] + [first_use(k) for k in range(4)] + [d_forced] * 4
