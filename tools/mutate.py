#!/usr/bin/env python3
"""Mutation campaign: small changes all over the package that the stable tests do not notice, and which (scaled-down) checks do.

  mutate.py list                     all mutants
  mutate.py run OUT [-j N] [--sample K] [--seed S] [--ids a,b] [--frac F] [--rare]

Works on scratch copies (VMON_REPO); /repo is not touched.  Line coverage of each check (VMON_LINES) in --lines orders the checks."""
import argparse, ast, concurrent.futures as cf, glob, json, os, random, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
FILES = ['core/__init__.py', 'core/script.py', 'wallet.py', 'blech32.py', 'liquid_addr.py', '__init__.py', 'core/secp256k1.py']
ROOT = '/repo/elementstx/'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.BitAnd: '|', ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<', ast.Mult: '+', ast.FloorDiv: '*', ast.BitXor: '|'}
SWAP = {'nAmount': 'nInflationKeys', 'nInflationKeys': 'nAmount', 'assetBlindingNonce': 'assetEntropy', 'assetEntropy': 'assetBlindingNonce',
        'issuanceAmountRangeproof': 'inflationKeysRangeproof', 'inflationKeysRangeproof': 'issuanceAmountRangeproof', 'surjectionproof': 'rangeproof',
        'rangeproof': 'surjectionproof', 'vin': 'vout', 'vout': 'vin', 'vtxinwit': 'vtxoutwit', 'vtxoutwit': 'vtxinwit', 'nValue': 'nAsset', 'nAsset': 'nValue',
        'asset_blinding_factor': 'blinding_factor', 'blinding_factor': 'asset_blinding_factor', 'is_explicit': 'is_commitment', 'is_commitment': 'is_explicit',
        'is_null': 'is_explicit', 'scriptWitness': 'pegin_witness', 'pegin_witness': 'scriptWitness', 'nLockTime': 'nVersion', 'raw': 'value'}


def mutants():
    out = []
    for f in FILES:
        src = open(ROOT + f).read()
        lines = src.split('\n')
        offs = [0]
        for x in lines:
            offs.append(offs[-1] + len(x.encode()) + 1)
        b = src.encode()
        tree = ast.parse(src)

        def pos(n):
            return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

        def add(n, s, e, new, what):
            m = b[:s] + new.encode() + b[e:]
            try:
                compile(m, f, 'exec')
            except (SyntaxError, ValueError):
                return
            out.append({'file': f, 'line': n.lineno, 'end': n.end_lineno, 's': s, 'e': e, 'new': new, 'old': b[s:e].decode(), 'what': what})
        skip = set()
        infunc = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef,)):
                for d in n.decorator_list + [n.args] + ([n.returns] if n.returns else []):
                    for k in ast.walk(d):
                        skip.add(k)
                if n.name == '__repr__':
                    for k in ast.walk(n):
                        skip.add(k)
                for s in n.body:
                    for k in ast.walk(s):
                        infunc.add(k)
            if isinstance(n, ast.AnnAssign):
                for k in ast.walk(n.annotation):
                    skip.add(k)
            if isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
                for k in ast.walk(n):
                    if k is not n:
                        skip.add(k)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('cast', 'UnblindingFailure', 'BlindingFailure', 'ensure_isinstance'):
                for k in ast.walk(n):
                    if k is not n:
                        skip.add(k)
            if isinstance(n, ast.JoinedStr):
                for k in ast.walk(n):
                    skip.add(k)
        for n in ast.walk(tree):
            if n in skip:
                continue
            if n not in infunc and not (isinstance(n, ast.Constant)):
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                s = pos(n.left)[1]
                e = pos(n.comparators[0])[0]
                new = CMP.get(type(n.ops[0]))
                seg = b[s:e].decode()
                if '(' in seg or ')' in seg:
                    continue
                add(n, s, e, ' %s ' % new, 'compare')
            elif isinstance(n, ast.BoolOp):
                a, c = n.values[0], n.values[1]
                s, e = pos(a)[1], pos(c)[0]
                seg = b[s:e].decode()
                w, v = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
                if w in seg:
                    add(n, s, e, seg.replace(w, v, 1), 'bool')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                s, e = pos(n)
                o = pos(n.operand)[0]
                add(n, s, o, '', 'not')
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                s, e = pos(n)
                add(n, s, e, str(n.value + 1), 'const')
                if n.value > 0:
                    add(n, s, e, str(n.value - 1), 'const')
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                s, e = pos(n)
                add(n, s, e, str(not n.value), 'const')
            elif isinstance(n, ast.Constant) and type(n.value) is bytes:
                s, e = pos(n)
                add(n, s, e, repr(n.value + b'\0') if not n.value else repr(n.value[:-1] + bytes([n.value[-1] ^ 1])), 'bytes')
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
                s, e = pos(n.left)[1], pos(n.right)[0]
                seg = b[s:e].decode()
                if '(' in seg or ')' in seg or '\n' in seg:
                    continue
                add(n, s, e, ' %s ' % BIN[type(n.op)], 'binop')
            elif isinstance(n, ast.Attribute) and n.attr in SWAP:
                s, e = pos(n)
                add(n, e - len(n.attr), e, SWAP[n.attr], 'attr')
            elif isinstance(n, ast.If):
                s, e = pos(n.test)
                add(n.test, s, e, 'True', 'if')
                add(n.test, s, e, 'False', 'if')
            elif isinstance(n, ast.IfExp):
                s, e = pos(n.test)
                add(n.test, s, e, 'True', 'ifexp')
                add(n.test, s, e, 'False', 'ifexp')
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                s, e = pos(n)
                add(n, s, e, 'pass', 'drop')
            elif isinstance(n, (ast.Raise, ast.Continue, ast.Break)):
                s, e = pos(n)
                add(n, s, e, 'pass', 'drop')
            elif isinstance(n, ast.AugAssign):
                s, e = pos(n)
                add(n, s, e, 'pass', 'drop')
            elif isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
                s, e = pos(n)
                if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                    add(n, s, e, 'pass', 'drop')
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('bytes', 'list', 'tuple', 'bytearray') and len(n.args) == 1 and not n.keywords:
                s, e = pos(n)
                a0, a1 = pos(n.args[0])
                add(n, s, e, '(' + b[a0:a1].decode() + ')', 'unwrap')
            elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args) and not (
                    isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'issubclass', 'hasattr')):
                (s, e0), (s1, e) = pos(n.args[0]), pos(n.args[1])
                if b[s:e0] != b[s1:e]:
                    add(n, s, e, b[s1:e].decode() + b[e0:s1].decode() + b[s:e0].decode(), 'argswap')
    uniq, seen = [], set()
    for m in out:
        k = (m['file'], m['s'], m['e'], m['new'])
        if k not in seen and m['new'] != m['old']:
            seen.add(k)
            m['id'] = '%s:%d:%d:%s' % (m['file'], m['line'], m['s'], m['new'][:12])
            uniq.append(m)
    return uniq


def rare(ms, seed):
    """the same changes, taking effect only where some condition on a loop index, an argument or a length holds"""
    r = random.Random(seed)
    out, seen = [], set()
    for f in FILES:
        b = open(ROOT + f, 'rb').read()
        lines = b.split(b'\n')
        offs = [0]
        for x in lines:
            offs.append(offs[-1] + len(x) + 1)
        tree = ast.parse(b)
        pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
        nodes = []

        def walk(n, fn, loops):
            if isinstance(n, ast.FunctionDef):
                fn, loops = n, []
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ('enumerate', 'range'):
                t = n.target.elts[0] if isinstance(n.target, ast.Tuple) else n.target
                for k in n.body:
                    walk(k, fn, loops + [t.id])
                return
            if isinstance(n, (ast.expr, ast.stmt)) and fn is not None:
                nodes.append((n, fn, loops))
            for k in ast.iter_child_nodes(n):
                walk(k, fn, loops)
        walk(tree, None, [])
        for m in ms:
            if m['file'] != f:
                continue
            c = [(pos(n)[1] - pos(n)[0], n, fn, lo) for n, fn, lo in nodes if pos(n)[0] <= m['s'] and m['e'] <= pos(n)[1]
                 and isinstance(n, (ast.Compare, ast.BoolOp, ast.BinOp, ast.UnaryOp, ast.Constant, ast.Attribute, ast.Call, ast.Name, ast.Subscript) if m['new'] != 'pass' else ast.stmt)
                 and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load)]
            if not c:
                continue
            _, n, fn, lo = min(c, key=lambda x: x[0])
            preds = ['%s == %d' % (v, k) for v in lo for k in (1, 2, 3)] * 2
            a = {x.arg: ast.unparse(x.annotation) if x.annotation else '' for x in fn.args.args + fn.args.kwonlyargs}
            for v, t in a.items():
                if v in ('cls', 'f', 'strfn'):
                    continue
                if v == 'self':
                    preds += ["len(getattr(self, '%s', ())) %s" % (x, y) for x in ('vin', 'vout', 'commitment', 'scriptPubKey', 'vtxinwit', 'rangeproof') for y in ('== 3',)
                              if 'self.' + x in ast.unparse(fn)]
                elif 'Transaction' in t:
                    preds += ['len(%s.vin) > 2' % v, 'len(%s.vout) == 3' % v, '%s.nVersion != 2' % v, '%s.nLockTime != 0' % v]
                elif t == 'int':
                    preds += ['%s == 2' % v, '%s > 2' % v, '%s > 1000000' % v]
                elif 'Callable' in t:
                    continue
                elif any(x in t for x in ('List', 'Sequence')):
                    preds += ['len(%s) == 3' % v, 'len(%s) > 4' % v]
                elif any(x in t for x in ('bytes', 'Script', 'Pub', 'Uint256', 'CAsset')):
                    preds += ["len(getattr(%s, 'data', %s) or ()) %% 7 == 3" % (v, v), "len(getattr(%s, 'data', %s) or ()) > 252" % (v, v), "sum(bytes(getattr(%s, 'data', %s))) %% 5 == 3" % (v, v)]
            if not preds:
                continue
            for pr in r.sample(preds, min(2, len(preds))):
                s0, e0 = pos(n)
                if m['new'] == 'pass':
                    new = 'if not (%s): %s' % (pr, b[s0:e0].decode())
                else:
                    new = '((%s) if %s else (%s))' % ((b[s0:m['s']] + m['new'].encode() + b[m['e']:e0]).decode(), pr, b[s0:e0].decode())
                try:
                    compile(b[:s0] + new.encode() + b[e0:], f, 'exec')
                except (SyntaxError, ValueError):
                    continue
                k = (f, s0, new)
                if k not in seen:
                    seen.add(k)
                    out.append({'file': f, 'line': n.lineno, 'end': n.end_lineno, 's': s0, 'e': e0, 'new': new, 'old': b[s0:e0].decode(), 'what': 'rare ' + m['what'],
                                'id': '%s:%d:%d:%s' % (f, n.lineno, s0, __import__('hashlib').md5(new.encode()).hexdigest()[:8])})
    return out


def tests(repo):
    T = 'elementstx/tests/test_elements_sidechain_transactions.py::Test_Elements_CTransaction'
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8', PYTHONPATH=repo)
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--deselect', T + '::test_blind_unnblind_sign', '--deselect',
                            T + '::test_split_blinding_multi_sign', 'elementstx/tests'], cwd=repo, env=e, capture_output=True, timeout=120)
        return r.returncode
    except subprocess.TimeoutExpired:
        return 99


def run(m, a):
    import importlib
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp/mut')
    t0 = time.time()
    try:
        repo = d + '/repo'
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        p = repo + '/elementstx/' + m['file']
        b = open(p, 'rb').read()
        open(p, 'wb').write(b[:m['s']] + m['new'].encode() + b[m['e']:])
        if tests(repo):
            return dict(m, result='tests')
        order = []
        for f in glob.glob(a.lines + '/*.json'):
            pid = os.path.basename(f)[:-5]
            l = LINES.setdefault(pid, json.load(open(f)))
            hit = any(x in l.get(m['file'], ()) for x in range(m['line'], m['end'] + 1))
            order.append((not hit, COST.get(pid, 99), pid))
        order.sort()
        # lines outside of functions run at import, before coverage starts: all checks are candidates
        if any(not h for h, _, _ in order):
            order = [o for o in order if not o[0]]
        for _, _, pid in order:
            mod = MODS[pid]
            ph = getattr(mod, 'PHASES', None) or [('plain', getattr(mod, 'NATIVE', None), mod.QUICK)]
            fl, nk, n = ph[0]
            out = d + '/out.json'
            if os.path.exists(out):
                os.remove(out)
            from vmon import env
            cmd = [env.PY, V + '/vmon/main.py', 'worker', pid, '--shard', '0/1', '--seed', str(a.cseed), '--tier', 'quick', '--out', out, '--seconds', '100', '--episodes',
                   str(max(len(getattr(mod, 'DIRECTED', [])) + 3, int(n * a.frac)))]
            if nk:
                cmd += ['--native', env.build_native(fl)]
            e = dict(env.worker_env(fl if nk else 'plain'), VMON_REPO=repo, VMON_STOP='1')
            try:
                r = subprocess.run(cmd, env=e, capture_output=True, timeout=400, cwd=d)
            except subprocess.TimeoutExpired:
                return dict(m, result=pid + ' (hang)', t=time.time() - t0)
            if r.returncode or not os.path.exists(out):
                return dict(m, result=pid + ' (died)', t=time.time() - t0, err=r.stderr[-300:].decode('utf-8', 'replace'))
            v = json.load(open(out))['violations']
            if v:
                return dict(m, result=pid, key=v[0]['key'], t=time.time() - t0)
        return dict(m, result='SURVIVED', ran=len(order), t=time.time() - t0)
    finally:
        shutil.rmtree(d)


LINES, MODS, COST = {}, {}, {}


def main():
    import importlib
    p = argparse.ArgumentParser()
    p.add_argument('cmd')
    p.add_argument('out', nargs='?')
    p.add_argument('-j', type=int, default=8)
    p.add_argument('--sample', type=int)
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--cseed', type=int, default=1)
    p.add_argument('--ids')
    p.add_argument('--frac', type=float, default=.3)
    p.add_argument('--rare', action='store_true')
    p.add_argument('--lines', default='/tmp/lines')
    a = p.parse_args()
    ms = mutants()
    if a.rare:
        ms = rare(ms, a.seed)
    if a.cmd == 'list':
        for m in ms:
            print(m['id'], m['what'], repr(m['old'][:60]), '->', repr(m['new'][:60]))
        print(len(ms))
        return
    COST.update(json.load(open(V + '/tools/cost.json')))
    for f in glob.glob(a.lines + '/*.json'):
        pid = os.path.basename(f)[:-5]
        MODS[pid] = importlib.import_module('vmon.props.' + pid.lower())
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(x)['id'] for x in open(a.out)}
    if a.ids:
        w = set(a.ids.split(','))
        ms = [m for m in ms if m['id'] in w]
    random.Random(a.seed).shuffle(ms)
    if a.sample:
        ms = ms[:a.sample]
    ms = [m for m in ms if m['id'] not in done]
    with cf.ThreadPoolExecutor(a.j) as ex, open(a.out, 'a') as f:
        for x in cf.as_completed([ex.submit(run, m, a) for m in ms]):
            f.write(json.dumps(x.result()) + '\n')
            f.flush()


main()
