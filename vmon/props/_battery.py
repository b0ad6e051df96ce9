"""Operations of the library as functions of a seed: what each gives is told as text.  Used to compare the same operation in two settings."""
import hashlib
import random

from vmon import ct, gen, bridge as B
from vmon.props import _sig as G


def h(*xs):
    return hashlib.sha256(repr(xs).encode()).hexdigest()[:32]


def attempt(f):
    try:
        return f()
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)


def op_tx(r):
    """read, write, convert, ids, sizes, text"""
    core = B.L()
    t = gen.tx(r, many=0)
    tx = B.lib_tx(t, r.random() < .5)
    raw = tx.serialize()
    back = core.CElementsTransaction.deserialize(raw)
    mt = back.to_mutable()
    return h(raw, tx.GetTxid(), back.GetHash(), back.get_virtual_size(), mt.serialize(), back == mt.to_immutable(), back.num_issuances, repr(back), str(tx), B.m_tx(mt))


def op_bad_bytes(r):
    core = B.L()
    raw = bytearray(B.lib_tx(gen.tx(r, lo=1, many=0)).serialize())
    for _ in range(r.randrange(1, 4)):
        raw[r.randrange(len(raw))] ^= 1 << r.randrange(8)
    raw = bytes(raw[:r.choice((len(raw), r.randrange(len(raw))))])
    return attempt(lambda: h(B.m_tx(core.CElementsTransaction.deserialize(raw))))


def op_sighash(r):
    from bitcointx.core.script import SIGVERSION_BASE, SIGVERSION_WITNESS_V0
    t = gen.tx(r, lo=1, many=0)
    tx = B.lib_tx(t)
    sc = B.lib_script(G.code(r))
    i = r.randrange(len(t['vin']))
    out = []
    for ht in (1, 2, 3, 0x81, 0x83):
        out.append(attempt(lambda: sc.sighash(tx, i, ht).hex()))
        out.append(attempt(lambda: sc.sighash(tx, i, ht, amount=B.L().CConfidentialValue(gen.value(r)), sigversion=SIGVERSION_WITNESS_V0).hex()))
    return h(out)


def op_taproot(r):
    from bitcointx.core.script import SIGHASH_Type
    t = gen.tx(r, lo=1, many=0)
    tx = B.lib_tx(t)
    spent = [B.lib_out(gen.txout(r)) for _ in t['vin']]
    sc = B.lib_script(b'\x51\x20' + r.randbytes(32))
    i = r.randrange(len(t['vin']))
    gh = r.randbytes(32)
    return h([attempt(lambda: sc.sighash_schnorr(tx, i, spent, hashtype=ht and SIGHASH_Type(ht), genesis_block_hash=gh).hex()) for ht in (None, 1, 2, 3, 0x81, 0x82)])


def op_address(r):
    from vmon.props.w05 import CLASSES, address
    import elementstx.wallet as W
    out = []
    for _ in range(4):
        cls, a, s = address(r, r.choice(CLASSES))
        x = W.CCoinAddress(str(a))
        y = W.CCoinAddress.from_scriptPubKey(a.to_scriptPubKey())
        out.append((str(a), type(x).__name__, bytes(x), x.to_scriptPubKey().hex(), str(y), attempt(a.get_output_size)))
        bad = list(str(a))
        bad[r.randrange(len(bad))] = r.choice('qpz28')
        out.append(attempt(lambda: str(W.CCoinAddress(''.join(bad)))))
    return h(out)


def op_keys(r):
    from bitcointx.wallet import CCoinKey, CCoinExtKey
    k = CCoinKey.from_secret_bytes(ct.scalar(r))
    x = CCoinExtKey.from_seed(r.randbytes(32))
    c = x.derive_path("m/%d/%d'" % (r.randrange(9), r.randrange(9)))
    n = x.neuter().derive_path("m/3/4")
    d = r.randbytes(32)
    return h(str(k), k.pub.hex(), str(x), str(c), str(n), k.sign(d).hex(), k.pub.verify(d, k.sign(d)), CCoinKey(str(k)).secret_bytes)


def op_issuance(r):
    core = B.L()
    from bitcointx.core import Uint256
    o = core.CElementsOutPoint(r.randbytes(32), r.randrange(9))
    e = core.generate_asset_entropy(o, r.randbytes(32))
    return h(e.data, core.calculate_asset(e).data, core.calculate_reissuance_token(e, True).data, core.calculate_reissuance_token(e, False).data)


def op_script(r):
    s = B.lib_script(gen.script(r))
    return h(s.is_unspendable(), s.is_pegout(), attempt(s.get_pegout_data), s.derive_blinding_key(_key(r)).secret_bytes, repr(s))


def _key(r):
    from bitcointx.core.key import CKey
    return CKey(ct.scalar(r))


def op_tree(r):
    from elementstx.core.script import TaprootElementsScriptTree, CElementsScript
    from bitcointx.core.key import XOnlyPubKey
    sc = [CElementsScript(b'\x51' * n, name='s%d' % n) for n in range(1, r.randrange(3, 6))]
    t = TaprootElementsScriptTree(sc, internal_pubkey=XOnlyPubKey(ct.pub(ct.scalar(r))[1:]))
    return h(t.merkle_root, bytes(t.output_pubkey), t.parity, [attempt(lambda: t.get_script_with_control_block(x.name)[1]) for x in sc])


PLAIN = [op_tx, op_tx, op_bad_bytes, op_sighash, op_taproot, op_address, op_keys, op_issuance, op_script, op_tree]


def op_blind(r):
    s = ct.scene(r, bits=3, nin=r.choice((1, 2, 3)), issuances=.2, long_ok=False)
    res, tx = ct.blind(s, None, ct.Draws(r.randbytes(8)))
    if not res.ok:
        return 'failure ' + res.error
    m = ct.full(B.m_tx(tx), s['tx'])
    un = []
    for j, k in enumerate(s['keys']):
        if k is not None:
            u = ct.unblind(m, j, k)
            un.append((u.ok, u.error if not u.ok else (u.amount, u.asset.data, u.blinding_factor.data, u.asset_blinding_factor.data)))
            i = tx.wit.vtxoutwit[j].get_rangeproof_info()
            un.append(tuple(i))
    return h(tx.serialize(), [x.data for x in res.blinding_factors], [x.data for x in res.asset_blinding_factors], un)


def op_unblind_bad(r):
    k = ct.scalar(r)
    o = gen.txout(r)
    return h(attempt(lambda: (lambda u: (u.ok, u.error))(B.lib_out(o).unblind_confidential_pair(_key(r), r.randbytes(r.choice((1, 64, 100, 3000)))))))


def op_commitment(r):
    """public commitments of assets"""
    core = B.L()
    assets = [r.randbytes(32) for _ in range(12)]
    return h([core.CAsset(a).to_commitment() for a in assets])


CONF = [op_blind, op_unblind_bad, op_commitment]


def run(op, seed):
    return attempt(lambda: op(random.Random('%s/%s' % (op.__name__, seed))))


if __name__ == '__main__':
    import sys
    from vmon import env
    env.import_repo(sys.argv[1] if sys.argv[1] != '-' else None)
    for line in sys.stdin:
        name, seed, chain = line.split()
        from bitcointx import ChainParams
        with ChainParams(chain):
            sys.stdout.write(run(globals()[name], seed).replace('\n', ' ') + '\n')
        sys.stdout.flush()
