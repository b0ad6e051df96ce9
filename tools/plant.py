#!/usr/bin/env python3
"""Make and judge planted bugs, without touching /repo: every run sees a private copy of it mounted over /repo.

  plant.py make SPEC.py...          write seeded/<id>/ from a file with ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO, [ZKP=True]
  plant.py test [-j N] [--no-check] [--checks P,P] [ID...]  build, stable tests, demo with and without the patch, the property's quick check
  plant.py quiet [-j N] PATCH CHECK...  run checks on a tree with a behaviour-preserving patch; they have to be quiet"""
import threading
import argparse, concurrent.futures as cf, json, os, re, runpy, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')

DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONHASHSEED=0 LC_ALL=C.UTF-8
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
%sexec "$PY" -B "$here/demo.py"
'''
ZKP_SH = '''work=$(mktemp -d) || exit 0
trap 'rm -rf "$work"' EXIT
gcc %s-fPIC -shared -fvisibility=hidden -o "$work/libzkp.so" "$here/zkp.c" -lsecp256k1 || exit 0
export DEMO_LIB="$work/libzkp.so"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def scratch(patch=None):
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    r = os.path.join(d, 'repo')
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    if patch:
        p = sh(['git', '-C', r, 'apply', patch])
        if p.returncode:
            raise SystemExit('patch does not apply: %s %s' % (patch, p.stderr))
    return d, r


def inside(repo, cmd, timeout=900, cwd='/repo'):
    """cmd with repo mounted over /repo, in a mount namespace of its own"""
    try:
        return sh(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && cd %s && %s' % (repo, cwd, cmd)], timeout=timeout)
    except subprocess.TimeoutExpired as e:
        class R: pass
        r = R(); r.returncode = 124; r.stdout = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or ''); r.stderr = 'timeout'
        return r


def make(spec):
    s = runpy.run_path(spec)
    d, r = scratch()
    try:
        for f, old, new in s['EDITS']:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                raise SystemExit('%s: %d occurrences in %s of %r' % (spec, t.count(old), f, old))
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', '-C', r, 'diff']).stdout
    finally:
        shutil.rmtree(d)
    out = os.path.join(SEEDED, s['ID'])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    z = ''
    if s.get('ZKP'):
        shutil.copy(os.path.join(VERIF, 'native', 'zkp.c'), out)
        asan = s['ZKP'] == 'asan'
        z = ZKP_SH % ('-O1 -fsanitize=address ' if asan else '-O2 ')
        if asan:
            z += 'export LD_PRELOAD=$(gcc -print-file-name=libasan.so) PYTHONMALLOC=malloc ASAN_OPTIONS=detect_leaks=0\n'
    body = DEMO_SH % z
    if z:
        body = body.replace('exec "$PY" -B "$here/demo.py"', '"$PY" -B "$here/demo.py"')
    open(os.path.join(out, 'demo.sh'), 'w').write(body)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    open(os.path.join(out, 'demo.py'), 'w').write(s['DEMO'].lstrip('\n'))
    print('made', s['ID'])


def stable(repo):
    out = repo + '/../t.json'
    r = inside(repo, 'bash /opt/vp/build.sh && bash /opt/vp/test.sh ' + os.path.abspath(out))
    if not os.path.exists(out):
        return 'build or tests failed: ' + (r.stdout + r.stderr)[-500:]
    got = json.load(open(out))
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    txt = json.dumps(got)
    passed = set(got.get('passed', [])) or {k for k, v in got.get('tests', got).items() if v in ('pass', 'passed', True)}
    miss = [t for t in base if t not in passed]
    return '' if not miss else 'stable tests fail: %s' % miss[:3]


def demo(bug, repo):
    d = tempfile.mkdtemp(prefix='demo-', dir='/tmp')
    try:
        for f in os.listdir(os.path.join(SEEDED, bug)):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(SEEDED, bug, f), d)
        return inside(repo, 'bash %s/demo.sh' % d, timeout=300)
    finally:
        shutil.rmtree(d)


def check(pid, repo, seed='1'):
    out = tempfile.mkdtemp(prefix='verif-', dir='/tmp')
    v = os.path.join(out, 'verif')
    subprocess.run("mkdir %s && cd %s && tar -cf - --exclude=.git --exclude=./seeded --exclude=./evidence --exclude=./replays . | tar -xf - -C %s"
                   % (v, VERIF, v), shell=True, check=True)
    try:
        t = time.time()
        r = inside(repo, 'env VERIF_SEED=%s VERIF_TIER=quick ./check %s quick' % (seed, pid), cwd=v)
        keys = re.findall(r'VIOLATION property=%s.*' % pid, r.stdout)
        return r.returncode, time.time() - t, keys, r.stdout + r.stderr
    finally:
        shutil.rmtree(out)


def test(bug, a):
    meta = json.load(open(os.path.join(SEEDED, bug, 'meta.json')))
    d, r = scratch(os.path.join(SEEDED, bug, 'patch.diff'))
    d0, r0 = scratch()
    res = []
    try:
        s = stable(r)
        if s:
            res.append(s)
        c = demo(bug, r0)
        if c.returncode:
            res.append('demo fails unpatched: %s' % (c.stdout + c.stderr)[-400:])
        c = demo(bug, r)
        if not c.returncode:
            res.append('demo passes patched')
        elif 'AssertionError' not in c.stderr and 'SystemExit' not in c.stderr and not a.q:
            res.append('(demo ends with %s)' % (c.stdout + c.stderr).strip().split('\n')[-1][:150])
        if not a.no_check:
            for pid in (a.checks.split(',') if a.checks else [meta['property']]):
                rc, t, keys, out = check(pid, r)
                res.append('%s: %s rc=%d %.0fs %s' % (pid, 'CAUGHT' if rc == 1 and keys else 'MISSED', rc, t, '' if rc == 1 else out.strip()[-300:]))
                with LOCK:
                    f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'detected.json')
                    d_ = json.load(open(f)) if os.path.exists(f) else {}
                    d_.setdefault(bug, {})[pid] = re.findall(r'(?m)^  ([\w.-]+): ', out) if rc == 1 and keys else 'missed'
                    json.dump(d_, open(f, 'w'), indent=0, sort_keys=True)
                if rc == 1:
                    res.append('      ' + ' | '.join(x.strip()[:170] for x in out.split('\n') if x and 'VIOLATION' not in x)[:500])
    finally:
        shutil.rmtree(d)
        shutil.rmtree(d0)
    return bug, res


LOCK = threading.Lock()


def main():
    p = argparse.ArgumentParser()
    p.add_argument('cmd')
    p.add_argument('args', nargs='*')
    p.add_argument('-j', type=int, default=2)
    p.add_argument('-q', action='store_true')
    p.add_argument('--no-check', action='store_true')
    p.add_argument('--checks')
    a = p.parse_args()
    if a.cmd == 'make':
        for s in a.args:
            make(s)
    elif a.cmd == 'test':
        ids = a.args or sorted(os.listdir(SEEDED))
        with cf.ThreadPoolExecutor(a.j) as ex:
            for f in cf.as_completed([ex.submit(test, b, a) for b in ids]):
                b, res = f.result()
                print(b, *['\n   ' + x for x in res or ['ok']], flush=True)
    elif a.cmd == 'quiet':
        patch, pids = os.path.abspath(a.args[0]), a.args[1:]
        d, r = scratch(patch)
        try:
            print('tests:', stable(r) or 'ok')
            with cf.ThreadPoolExecutor(a.j) as ex:
                for pid, (rc, t, keys, out) in zip(pids, ex.map(lambda x: check(x, r), pids)):
                    print(pid, 'quiet' if rc == 0 else 'NOT QUIET rc=%d' % rc, '%.0fs' % t, '' if rc == 0 else out[-600:], flush=True)
        finally:
            shutil.rmtree(d)


main()
