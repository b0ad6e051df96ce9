"""B14: plain and extended crypto library."""
import os
import shutil
import subprocess
import tempfile

from vmon import ct, gen, env, bridge as B
from vmon.props import _battery as A
from vmon.rec import expect, same

TECHNIQUE = 'differential run of the same operations in two processes, one per kind of library, plus monitored refusals and loading histories in fresh processes'
RULE = """Evaluation = one operation (reading, writing, hashes, addresses, keys, issuance ids, scripts, trees) done with the system library and in
another process with the extended one, results compared; or one confidential request under the plain library that must raise and leave the
transaction as it was; or one observation in a fresh process of a history of setting library paths and using the library.
Distinct = (operation, chain), (request shape), (history)."""
QUICK = 500
REQUIRED = {'compared': 2600, 'blind': 520, 'unblind': 1500, 'info': 1500, 'history': 9}
CHAINS = ('elements', 'elements', 'elements/liquidv1', 'bitcoin', 'bitcoin/testnet')


def setup(ctx):
    ctx.data['native'] = env.build_native('plain')
    ctx.data['peer'] = None


def peer(ctx):
    p = ctx.data['peer']
    if p is None or p.poll() is not None:
        p = ctx.data['peer'] = subprocess.Popen([env.PY, '-B', '-m', 'vmon.props._battery', ctx.data['native']], stdin=subprocess.PIPE,
                                                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env.worker_env(), text=True)
    return p


def finish(ctx):
    p = ctx.data['peer']
    if p:
        p.stdin.close()
        p.wait(20)


def raises(f, key, what, **data):
    try:
        v = f()
    except Exception as e:
        expect(isinstance(e, (RuntimeError, AttributeError, ValueError, TypeError, ImportError, NotImplementedError, OSError)), key,
               '%s raised %s' % (what, type(e).__name__))
        return
    expect(False, key, '%s did not raise under a library without confidential functions: %r' % (what, v), **data)


def episode(ctx):
    from bitcointx import ChainParams
    r, rec = ctx.rng, ctx.rec
    p = peer(ctx)
    for op in A.PLAIN:
        seed, chain = r.randrange(10 ** 9), r.choice(CHAINS)
        if op in (A.op_address,) and not chain.startswith('elements'):
            chain = 'elements'
        p.stdin.write('%s %d %s\n' % (op.__name__, seed, chain))
        p.stdin.flush()
        with ChainParams(chain):
            mine = A.run(op, seed).replace('\n', ' ')
        other = p.stdout.readline().rstrip('\n')
        expect(other != '', 'peer', 'the process using the extended library died')
        same(mine, other, 'differs-' + op.__name__, 'the result of an operation that needs no confidential functions depends on the library (plain, extended)',
             seed=seed, chain=chain)
        rec.ev()
        rec.count('compared')
        rec.feat(op.__name__, chain, mine[:6] == 'raised')
    # requests that cannot be met
    for _ in range(2):
        s = ct.scene(r, bits=r.choice((None, 3, 36)), issuances=r.choice((0, .3, .8)), long_ok=False)
        if r.random() < .3:
            s['strict'] = False
        tx = B.lib_tx(s['tx'], mutable=True)
        before, raw = B.m_tx(tx), tx.serialize()
        with ChainParams(r.choice(CHAINS)):
            raises(lambda: ct.blind(s, r, r.choice((None, ct.Draws(b'x'))), tx=tx), 'blind', 'blinding', scene=s)
        same(B.m_tx(tx), before, 'changed', 'a blinding that could not be done changed the transaction', scene=s)
        same(tx.serialize(), raw, 'changed-bytes', 'a blinding that could not be done changed the transaction', scene=s)
        rec.ev(2)
        rec.count('blind')
        rec.feat(ct.features(s) if hasattr(ct, 'features') else len(s['ins']))
    for _ in range(4):
        o = {'asset': bytes([r.choice((10, 11))]) + gen.h32(r), 'value': bytes([r.choice((8, 9))]) + gen.h32(r),
             'nonce': ct.pub(ct.scalar(r)), 'script': ct.spend_script(r, False)}
        proof = r.randbytes(r.choice((1, 64, 65, 100, 3000)))
        if r.random() < .5:
            proof = bytes([0x60, r.randrange(64)]) + proof
        lo, lw = B.lib_out(o, r.random() < .5), B.lib_outwit({'surj': b'', 'range': proof}, r.random() < .5)
        key = A._key(r)
        with ChainParams(r.choice(CHAINS)):
            raises(lambda: lo.unblind_confidential_pair(key, proof), 'unblind', 'unblinding', out=o)
            raises(lw.get_rangeproof_info, 'info', 'asking for proof information', proof=proof)
            raises(B.L().CAsset(gen.h32(r)).to_commitment, 'commitment', 'asking for the commitment of an asset')
        same(B.m_out(lo), o, 'out-changed', 'an output was changed')
        same(bytes(lw.rangeproof), proof, 'wit-changed', 'a proof was changed')
        rec.ev(5)
        rec.count('unblind')
        rec.count('info')


PRE = '''
import sys, os, random
import bitcointx, elementstx
from bitcointx import select_chain_params
from elementstx import set_custom_secp256k1_path as setp, get_custom_secp256k1_path as getp
select_chain_params('elements')
import elementstx.core.secp256k1 as Z
from vmon import ct, bridge as B
def blind():
    r = random.Random(5)
    s = ct.scene(r, bits=3, issuances=0)
    res, tx = ct.blind(s)
    assert res.ok and res.num_successfully_blinded == ct.n_requested(s), res
    m = ct.full(B.m_tx(tx), s['tx'])
    for j, k in enumerate(s['keys']):
        if k is not None:
            assert ct.unblind(m, j, k).ok and tx.wit.vtxoutwit[j].get_rangeproof_info() is not None
def refused(p, exc=ValueError):
    try: setp(p)
    except exc: return
    raise SystemExit('not refused: %r' % p)
def fails(f):
    try: f()
    except SystemExit: raise
    except Exception: return
    raise SystemExit('no error')
'''
HIST = {
    'none': 'assert getp() is None; z = Z.get_secp256k1(); assert z.cap.has_zkp is False and z.ctx.blind is None; assert getp() is None; fails(blind)',
    'set': 'setp(NATIVE); assert getp() == NATIVE; blind(); z = Z.get_secp256k1(); assert z.cap.has_zkp is True; assert Z.get_secp256k1() is z; assert getp() == NATIVE',
    'missing': 'refused(DIR + "/nothing"); assert getp() is None; refused(DIR + "/nothing.so"); fails(blind)',
    'empty-path': 'refused(""); assert getp() is None',
    'directory': 'refused(DIR); refused("/"); assert getp() is None',
    'dangling': 'os.symlink(DIR + "/gone", DIR + "/link"); refused(DIR + "/link"); assert getp() is None',
    'symlink': 'os.symlink(NATIVE, DIR + "/zkp.so"); setp(DIR + "/zkp.so"); assert getp() == DIR + "/zkp.so"; blind()',
    'kept': 'setp(NATIVE); refused(DIR + "/nothing"); refused(DIR); assert getp() == NATIVE; blind()',
    'replaced': 'setp(PLAIN); assert getp() == PLAIN; setp(NATIVE); assert getp() == NATIVE; blind()',
    'plain-path': 'setp(PLAIN); assert Z.get_secp256k1().cap.has_zkp is False; fails(blind)',
    'late': 'z = Z.get_secp256k1(); assert z.cap.has_zkp is False; setp(NATIVE); assert Z.get_secp256k1() is z and z.cap.has_zkp is False; fails(blind)',
    'late-plain': 'setp(NATIVE); blind(); setp(PLAIN); blind(); assert Z.get_secp256k1().cap.has_zkp is True',
    'not-library': 'p = DIR + "/junk.so"; open(p, "w").write("not a library"); setp(p); assert getp() == p; fails(Z.get_secp256k1); fails(blind); assert getp() == p; fails(Z.get_secp256k1)',
    'recovers': 'p = DIR + "/junk.so"; open(p, "w").write("x"); setp(p); fails(Z.get_secp256k1); setp(NATIVE); blind()',
    'removed': 'p = DIR + "/c.so"; import shutil; shutil.copy(NATIVE, p); setp(p); os.remove(p); fails(Z.get_secp256k1); fails(blind)',
    'relative': 'os.chdir(DIR); import shutil; shutil.copy(NATIVE, "c.so"); setp("./c.so"); assert getp() == "./c.so"; blind()',
    'separate': 'setp(NATIVE); assert bitcointx.get_custom_secp256k1_path() is None; blind(); from bitcointx.core.key import CKey; k = CKey(b"\\x07" * 32); assert k.pub.verify(b"\\x01" * 32, k.sign(b"\\x01" * 32))',
    'keys-first': 'from bitcointx.core.key import CKey; k = CKey(b"\\x07" * 32); k.sign(b"\\x01" * 32); setp(NATIVE); blind()',
    'reading-first': 'from vmon import gen; B.L().CElementsTransaction.deserialize(B.lib_tx(gen.tx(random.Random(1))).serialize()); setp(NATIVE); blind()',
}


def histories(part):
    def run(ctx):
        plain = None
        import ctypes.util
        for d in ('/lib/x86_64-linux-gnu', '/usr/lib/x86_64-linux-gnu', '/usr/lib', '/usr/local/lib'):
            f = os.path.join(d, ctypes.util.find_library('secp256k1'))
            if os.path.exists(f):
                plain = f
        for n, (name, code) in enumerate(sorted(HIST.items())):
            if n % 8 != part or plain is None and 'PLAIN' in code:
                continue
            td = tempfile.mkdtemp(prefix='vmon-b14-')
            try:
                src = PRE + 'NATIVE, PLAIN, DIR = %r, %r, %r\n' % (ctx.data['native'], plain, td) + code.replace('; import', '\nimport').replace('; ', '\n') + '\nprint("HISTORY-DONE")\n'
                p = subprocess.run([env.PY, '-B', '-c', src], env=env.worker_env(), capture_output=True, text=True, timeout=120, cwd=td)
                expect(p.returncode == 0 and 'HISTORY-DONE' in p.stdout, 'history-' + name, 'library loading history %r did not go as documented (rc %d)' % (name, p.returncode),
                       history=code, stderr=p.stderr[-2500:], stdout=p.stdout[-500:])
            finally:
                shutil.rmtree(td)
            ctx.rec.ev()
            ctx.rec.count('history')
            ctx.rec.feat('history', name)
    run.__name__ = 'histories_%d' % part
    return run


DIRECTED = [histories(k) for k in range(8)]
