"""Runner.

  main.py check PID quick|thorough     run one check (VERIF_SEED, VERIF_TIER honoured)
  main.py all quick|thorough [PID..]   run many, print a table
  main.py replay FILE                  run again the episode of a recorded violation
  main.py worker ...                   (internal)

A check spawns worker processes.  Episode i of property PID with seed S is a pure function of (PID, S, i): the same
episode gives the same inputs whatever the number of workers.  Quick runs a fixed number of episodes."""
import argparse
import collections
import faulthandler
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from vmon import env  # noqa
from vmon.rec import Recorder, Violation, jsonable  # noqa

EPISODE_LIMIT = 240     # seconds; typical episodes take well under one second
QUICK_CAP = 500         # seconds; a quick check that is not done by then gives no answer
THOROUGH_S = 540


class Hang(BaseException):
    pass


class Ctx:
    def __init__(self, pid, tier, seed, native):
        self.pid, self.tier, self.seed, self.native = pid, tier, seed, native
        self.rec = Recorder()
        self.rng = None
        self.index = None
        self.data = {}

    def for_episode(self, i):
        self.index = i
        self.rng = random.Random('%s/%d/%d' % (self.pid, self.seed, i))
        return self


def load(pid):
    return importlib.import_module('vmon.props.' + pid.lower())


class LineCov:
    """Which lines of the code under test ran (sys.monitoring; each line is reported once, then disabled)."""
    TOOL = 4

    def __init__(self):
        self.lines = collections.defaultdict(set)
        self.root = os.path.join(os.path.abspath(env.REPO), 'elementstx') + os.sep
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'vmon')
        m.register_callback(self.TOOL, m.events.LINE, self.hit)
        m.set_events(self.TOOL, m.events.LINE)

    def hit(self, code, line):
        if code.co_filename.startswith(self.root):
            self.lines[code.co_filename[len(self.root):]].add(line)
        return sys.monitoring.DISABLE

    def dump(self):
        return {k: sorted(v) for k, v in self.lines.items() if not k.startswith('tests')}


def run_episode(mod, ctx, i):
    """True if the episode was completed without a violation"""
    ctx.for_episode(i)
    directed = mod.DIRECTED
    name = None
    try:
        signal.alarm(EPISODE_LIMIT)
        if i < len(directed):
            name = directed[i].__name__
            directed[i](ctx)
        else:
            mod.episode(ctx)
        return True
    except Violation as v:
        ctx.rec.violation(v, {'index': i, 'directed': name})
    except Hang:
        ctx.rec.violation(Violation('hang', 'episode did not finish in %d s' % EPISODE_LIMIT, traceback=traceback.format_exc()[-3000:]),
                          {'index': i, 'directed': name})
    except (env.SetupError, MemoryError):
        raise
    except Exception as e:
        ctx.rec.violation(Violation('unexpected-' + type(e).__name__, 'unexpected %s: %s' % (type(e).__name__, e),
                                    traceback=traceback.format_exc()[-4000:]), {'index': i, 'directed': name})
    finally:
        signal.alarm(0)
    return False


def prepare(mod, ctx):
    def on_alarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    env.import_repo(ctx.native, getattr(mod, 'CHAIN', 'elements'))
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    if not hasattr(mod, 'DIRECTED'):
        mod.DIRECTED = []


def worker(a):
    faulthandler.enable()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mod = load(a.pid)
    ctx = Ctx(a.pid, a.tier, a.seed, a.native)
    try:
        cov = LineCov()
    except Exception:
        cov = None
    prepare(mod, ctx)
    i, n = map(int, a.shard.split('/'))
    end = time.monotonic() + a.seconds
    done = 0
    progress = open(a.out + '.progress', 'w')
    keys = set()
    while (a.episodes is None or i < a.episodes) and time.monotonic() < end:
        progress.seek(0)
        progress.write('%d\n' % i)
        progress.flush()
        ok = run_episode(mod, ctx, i)
        if not ok:
            v = ctx.rec.violations[-1]
            if v['key'] in keys:
                ctx.rec.violations.pop()
            keys.add(v['key'])
            if len(keys) >= ctx.rec.MAX_VIOLATIONS:
                done += 1
                break
        done += 1
        i += n
    if hasattr(mod, 'finish'):
        mod.finish(ctx)
    r = ctx.rec.dump()
    r.update(episodes=done, complete=a.episodes is None or i >= a.episodes, lines=cov.dump() if cov else {},
             maxrss_kb=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss)
    with open(a.out, 'w') as f:
        json.dump(r, f)
    return 0


def known_keys(pid):
    r = {}
    p = os.path.join(env.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            w = line.split(None, 3)
            if len(w) >= 4 and w[0] == 'known:' and w[1] == 'property=' + pid and w[2].startswith('key='):
                r[w[2][4:]] = w[3].strip()
    return r


def replay_path(pid, key):
    name = '%s-%s.json' % (pid, hashlib.sha256(key.encode()).hexdigest()[:10])
    for d in (os.path.join(env.VERIF, 'replays'), tempfile.gettempdir()):
        try:
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, name)
            open(p, 'w').close()
            return p
        except OSError:
            pass
    return name


def executable_lines():
    """Lines of function bodies in the code under test, from its code objects (denominator for evidence)"""
    tot = {}
    root = os.path.join(os.path.abspath(env.REPO), 'elementstx')
    for d, _, fs in os.walk(root):
        if os.sep + 'tests' in d:
            continue
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                lines = set()

                def walk(c):
                    for _, _, ln in c.co_lines():
                        if ln and c.co_name != '<module>':
                            lines.add(ln)
                    for k in c.co_consts:
                        if hasattr(k, 'co_code'):
                            walk(k)
                try:
                    walk(compile(open(p).read(), p, 'exec'))
                except SyntaxError:
                    pass
                tot[os.path.relpath(p, root)] = lines
    return tot


def run_phase(mod, pid, tier, seed, flavor, native_kind, episodes, seconds, t0):
    """Run the workers of one phase; returns (results, problems)"""
    native = None
    if native_kind:
        native = env.build_native(flavor)
    n = min(getattr(mod, 'WORKERS', 8), os.cpu_count() or 1)
    wenv = env.worker_env(flavor if native_kind else 'plain')
    results, problems = [], []
    with tempfile.TemporaryDirectory(prefix='vmon-') as td:
        procs = []
        for k in range(n):
            out = os.path.join(td, 'w%d.json' % k)
            cmd = [env.PY, os.path.join(HERE, 'main.py'), 'worker', pid, '--shard', '%d/%d' % (k, n), '--seed', str(seed),
                   '--tier', tier, '--out', out, '--seconds', str(seconds)]
            if episodes is not None:
                cmd += ['--episodes', str(episodes)]
            if native:
                cmd += ['--native', native]
            err = open(out + '.err', 'wb')
            procs.append((subprocess.Popen(cmd, env=wenv, stdout=err, stderr=err, cwd=td), out))
        deadline = time.monotonic() + seconds + EPISODE_LIMIT + 30
        for p, out in procs:
            hung = False
            try:
                rc = p.wait(timeout=max(1, deadline - time.monotonic()))
            except subprocess.TimeoutExpired:
                p.send_signal(signal.SIGABRT)      # faulthandler prints the stack
                try:
                    rc = p.wait(timeout=10)
                except subprocess.TimeoutExpired:
                    p.kill()
                    rc = p.wait()
                hung = True
            with open(out + '.err', 'rb') as f:
                err = f.read()[-6000:].decode('utf-8', 'replace')
            at = None
            try:
                at = int(open(out + '.progress').read().split()[0])
            except Exception:
                pass
            if rc == 0 and os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            elif hung:
                problems.append(('violation', 'hang', 'worker made no progress in a call into the code under test', err, at))
            elif rc < 0 or rc == 77 or 'ERROR: AddressSanitizer' in err or 'runtime error:' in err:
                kind = 'sanitizer' if 'Sanitizer' in err or 'runtime error:' in err else 'crash-signal-%d' % -rc
                problems.append(('violation', kind, 'the process died (rc %d) in episode %s' % (rc, at), err, at))
            else:
                problems.append(('error', 'worker', 'worker failed (rc %d)' % rc, err, at))
    return results, problems


def check(pid, tier, quiet=False):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = load(pid)
    phases = getattr(mod, 'PHASES', None) or [('plain', getattr(mod, 'NATIVE', None), mod.QUICK)]
    results, problems = [], []
    for flavor, native_kind, episodes in phases:
        if tier == 'quick':
            r, p = run_phase(mod, pid, tier, seed, flavor, native_kind, episodes, QUICK_CAP, t0)
        else:
            sec = float(os.environ.get('VMON_THOROUGH_S', getattr(mod, 'THOROUGH_S', THOROUGH_S))) / len(phases)
            r, p = run_phase(mod, pid, tier, seed, flavor, native_kind, None, sec, t0)
        results += r
        problems += p
    ev = sum(r['evaluations'] for r in results)
    feats = set()
    counts = collections.Counter()
    lines = collections.defaultdict(set)
    samples, violations = [], []
    for r in results:
        feats.update(r['features'])
        counts.update(r['counts'])
        for s in r['samples']:
            if len(samples) < 4:
                samples.append(s)
        violations += r['violations']
        for k, v in r['lines'].items():
            lines[k].update(v)
    for kind, key, msg, err, at in problems:
        if kind == 'violation':
            violations.append({'key': key, 'msg': msg, 'data': {'stderr': err}, 'episode': {'index': at, 'directed': None}})
    errors = [p for p in problems if p[0] == 'error']
    known = known_keys(pid)
    fresh, seen = [], {}
    for v in sorted(violations, key=lambda v: (v['key'], v['episode']['index'] or 0)):
        if v['key'] in seen:
            continue
        seen[v['key']] = v
        if v['key'] not in known:
            fresh.append(v)
    missing = []
    for name, least in getattr(mod, 'REQUIRED', {}).items():
        if counts.get(name, 0) < least:
            missing.append('%s: %d < %d' % (name, counts.get(name, 0), least))
    if not all(r['complete'] for r in results) and tier == 'quick' and not fresh:
        missing.append('time cap reached before the fixed workload was done')
    tot = executable_lines()
    covered = {f: '%d/%d' % (len(lines[f] & l), len(l)) for f, l in sorted(tot.items()) if l and lines[f] & l}
    if os.environ.get('VMON_LINES'):
        with open(os.path.join(os.environ['VMON_LINES'], pid + '.json'), 'w') as f:
            json.dump({k: sorted(v) for k, v in lines.items()}, f)
    wall = time.monotonic() - t0
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': len(feats), 'rule': ' '.join(mod.RULE.split()),
            'samples': samples, 'episodes': sum(r['episodes'] for r in results), 'observed': dict(sorted(counts.items())),
            'repo_function_lines_executed': covered, 'workers': len(results),
            'max_worker_rss_mb': max([r['maxrss_kb'] for r in results] or [0]) // 1024,
            'phases': [{'native': '%s (%s)' % (nk, fl) if nk else 'none', 'episodes': e if tier == 'quick' else 'time-bounded'} for fl, nk, e in phases],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': len(fresh),
    }
    if getattr(mod, 'EXHAUSTIVE', False):
        evidence['coverage']['exhaustive'] = True
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for k, v in seen.items():
        if k in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    for v in fresh:
        p = replay_path(pid, v['key'])
        with open(p, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'violation': v}, f, indent=1)
        print('  %s: %s (episode %s)' % (v['key'], v['msg'][:600], v['episode']['directed'] or v['episode']['index']))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    if not quiet or fresh or errors:
        print('%s %s seed=%d: %d episodes, %d evaluations, %d distinct, %.1f s, violations %d' % (
            pid, tier, seed, evidence['coverage']['episodes'], ev, len(feats), wall, len(fresh)))
    if fresh:
        return 1
    if errors:
        print('ERROR: %s' % errors[0][2])
        print(errors[0][3])
        return 2
    if missing and not known.keys() & seen.keys():
        print('INCONCLUSIVE: required coverage not reached: ' + '; '.join(missing))
        return 2
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    v = d['violation']
    mod = load(d['property'])
    phases = getattr(mod, 'PHASES', None) or [('plain', getattr(mod, 'NATIVE', None), 0)]
    flavor, nk, _ = phases[-1]
    if os.environ.get('VMON_CHILD') != '1':
        e = env.worker_env(flavor if nk else 'plain')
        e['VMON_CHILD'] = '1'
        return subprocess.call([env.PY, os.path.join(HERE, 'main.py'), 'replay', path], env=e)
    ctx = Ctx(d['property'], d['tier'], d['seed'], env.build_native(flavor) if nk else None)
    prepare(mod, ctx)
    if run_episode(mod, ctx, v['episode']['index'] or 0):
        print('replay: the episode holds now')
        return 0
    print(json.dumps(ctx.rec.violations[-1], indent=1))
    return 1


def all_pids():
    m = json.load(open(os.path.join(env.VERIF, 'MANIFEST.json')))
    return [c['property'] for c in m['checks']]


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest='cmd', required=True)
    w = sp.add_parser('worker')
    w.add_argument('pid')
    w.add_argument('--shard')
    w.add_argument('--seed', type=int)
    w.add_argument('--tier')
    w.add_argument('--out')
    w.add_argument('--seconds', type=float)
    w.add_argument('--episodes', type=int)
    w.add_argument('--native')
    c = sp.add_parser('check')
    c.add_argument('pid')
    c.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    c = sp.add_parser('all')
    c.add_argument('tier')
    c.add_argument('pids', nargs='*')
    c = sp.add_parser('replay')
    c.add_argument('path')
    sp.add_parser('build')
    a = ap.parse_args()
    if a.cmd == 'worker':
        return worker(a)
    try:
        if a.cmd == 'check':
            return check(a.pid, a.tier)
        if a.cmd == 'build':
            print(env.build_native('plain'), env.build_native('asan'))
            return 0
    except env.SetupError as e:
        print('ERROR: %s' % e)
        return 2
    if a.cmd == 'replay':
        return replay(a.path)
    bad = 0
    for p in a.pids or all_pids():
        rc = check(p, a.tier)
        sys.stdout.flush()
        if rc:
            print('   rc=%d' % rc)
            bad = 1
    return bad


if __name__ == '__main__':
    sys.exit(main())
