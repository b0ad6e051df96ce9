"""A battery of Bitcoin operations made with python-bitcointx alone.

Runs in two places: in a process that never imports elementstx (`python -m vmon.btc`, one JSON request per line) and in the process
under observation.  Nothing here may import elementstx."""
import hashlib
import json
import random
import sys

CHAINS = ('bitcoin', 'bitcoin/testnet', 'bitcoin/regtest', 'bitcoin/signet')


def show(v, depth=0):
    if v is None or isinstance(v, (bool, int, float)):
        return repr(v)
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        return '[%s]' % ', '.join(show(x, depth + 1) for x in v)
    if isinstance(v, (bytes, bytearray)):
        return '%s:%s' % (type(v).__name__, bytes(v).hex())
    if isinstance(v, str):
        return '%s:%s' % (type(v).__name__, str(v))
    return '%s:%s' % (type(v).__name__, v)


class Log:
    between = None                               # called before every operation, if set

    def __init__(self):
        self.rows = []

    def do(self, label, f, *a, **kw):
        """the result of a call, or the exception it ends with, is written down"""
        if Log.between:
            Log.between()
        try:
            v = f(*a, **kw)
        except Exception as e:
            self.rows.append((label, 'raised %s: %s' % (type(e).__name__, e)))
            return None
        self.rows.append((label, show(v)))
        return v


def rscript(r):
    k = r.randrange(9)
    if k == 0:
        return b'\x76\xa9\x14' + r.randbytes(20) + b'\x88\xac'
    if k == 1:
        return b'\xa9\x14' + r.randbytes(20) + b'\x87'
    if k == 2:
        return b'\0' + bytes([r.choice((20, 32))]) + r.randbytes(32)
    if k == 3:
        return b'\x51\x20' + r.randbytes(32)
    if k == 4:                                   # bytes that are opcodes elsewhere
        return bytes(r.choice((r.randrange(0xba, 0x100), r.randrange(0x60, 0xba), 0x51)) for _ in range(r.randrange(1, 12)))
    if k == 5:
        return b'\x6a' + bytes([r.choice((4, 32, 40))]) + r.randbytes(40)
    if k == 6:                                   # would be a peg-out elsewhere
        return b'\x6a\x20' + r.randbytes(32) + b'\x14' + r.randbytes(20)
    if k == 7:
        return b''
    return r.randbytes(r.randrange(0, 300))


def rtx(r):
    from bitcointx.core import COutPoint, CTxIn, CTxOut, CTransaction, CTxInWitness, CTxWitness
    from bitcointx.core.script import CScript, CScriptWitness
    n = r.choice((1, 1, 2, 3, 6))
    vin = [CTxIn(COutPoint(r.randbytes(32), r.choice((0, 1, 5, 0x3fffffff, 0x40000000, 0x80000000, 0xfffffffe, 0xffffffff))), CScript(rscript(r)), r.choice((0, 0xffffffff, r.getrandbits(32)))) for _ in range(n)]
    vout = [CTxOut(r.choice((0, 1, r.randrange(10 ** 14), r.randrange(10 ** 9), 21 * 10 ** 14)), CScript(rscript(r))) for _ in range(r.choice((1, 1, 2, 4)))]
    wit = CTxWitness([CTxInWitness(CScriptWitness([r.randbytes(r.choice((0, 5, 72))) for _ in range(r.randrange(3))])) for _ in vin]) if r.random() < .6 else CTxWitness()
    return CTransaction(vin, vout, nLockTime=r.choice((0, r.getrandbits(31), r.getrandbits(31), r.getrandbits(32))), nVersion=r.choice((1, 2, -1)), witness=wit)


def generic(seed, g):
    """operations through the generic names, for the chain that is selected"""
    import bitcointx
    import bitcointx.core as c
    import bitcointx.core.script as s
    import bitcointx.core.key as k
    import bitcointx.wallet as w
    from bitcointx.core.scripteval import VerifyScript
    from bitcointx.core.psbt import PartiallySignedTransaction
    from bitcointx.util import dispatcher_mapped_list
    r = random.Random('btc %s' % seed)
    p = bitcointx.get_current_chain_params()
    g.do('params', lambda: [p.name, p.readable_name, p.RPC_PORT, p.get_config_path(), p.get_datadir_extra_name(), p.get_network_id(), repr(p)])
    P = c.CoreCoinParams
    g.do('constants', lambda: [P.MAX_BLOCK_SIZE if hasattr(P, 'MAX_BLOCK_SIZE') else None, P.MAX_MONEY, P.COIN, P.WITNESS_SCALE_FACTOR, P.TAPROOT_LEAF_TAPSCRIPT, P.taptweak_hasher(b'a'),
                               P.tapleaf_hasher(b'a'), P.tapbranch_hasher(b'a'), P.tap_sighash_hasher(b'a'), getattr(P, 'CT_BITS', None), getattr(P, 'CT_EXPONENT', None)])
    # transactions
    tx = g.do('tx', rtx, r)
    raw = g.do('bytes', tx.serialize)
    g.do('ids', lambda: [tx.GetTxid(), tx.GetHash(), tx.get_virtual_size(), tx.is_coinbase(), tx.has_witness(), hash(tx) == hash(tx)])
    g.do('repr', lambda: [repr(tx), str(tx)])
    for cls in (c.CTransaction, c.CMutableTransaction):
        back = g.do('read', cls.deserialize, raw)
        g.do('read part', lambda: [back.vin[0], back.vout[0], back.wit, back == tx, type(back.vin[0]).__name__, type(back.vout[0]).__name__, type(back.vout[0].nValue).__name__])
    bad = bytearray(raw)
    bad[r.randrange(len(bad))] ^= 1 << r.randrange(8)
    b = g.do('damaged', c.CTransaction.deserialize, bytes(bad))
    if b is not None:
        g.do('damaged bytes', b.serialize)
    g.do('elements bytes', c.CTransaction.deserialize, bytes.fromhex('020000000001' + '07' * 32 + '0000000000ffffffff0101' + '03' * 32 + '01000000000000000500015100000000'))
    m = tx.to_mutable()
    m.vout[0].nValue = 7
    m.vin[0].prevout.n = 3
    g.do('mutable', lambda: [m.serialize(), m.GetTxid(), tx.GetTxid(), m.to_immutable()])
    g.do('empty', lambda: [c.CTxOut(), c.CTxIn(), c.CTransaction(), c.CTxInWitness(), c.COutPoint()])
    g.do('check', c.CheckTransaction, tx)
    g.do('block', lambda: [c.MoneyRange(21 * 10 ** 14), c.MoneyRange(21 * 10 ** 14 + 1), c.coins_to_satoshi(1), str(c.satoshi_to_coins(3))])
    # scripts and signature hashes
    for _ in range(3):
        sc = s.CScript(rscript(r))
        g.do('script', lambda: [sc, repr(sc), type(sc).__name__, sc.is_unspendable(), sc.is_valid(), sc.is_p2sh(), sc.is_witness_scriptpubkey(), sc.GetSigOpCount(True) if sc.is_valid() else None, sc.to_p2sh_scriptPubKey(), sc.to_p2wsh_scriptPubKey()])
        i, ht = r.randrange(len(tx.vin)), r.choice((1, 2, 3, 0x81, 0x82, 0x83))
        g.do('sighash', sc.sighash, tx, i, s.SIGHASH_Type(ht))
        g.do('raw sighash', sc.raw_sighash, tx, i + r.randrange(2), s.SIGHASH_Type(ht))
        g.do('v0 sighash', sc.sighash, tx, i, s.SIGHASH_Type(ht), amount=r.randrange(10 ** 9), sigversion=s.SIGVERSION_WITNESS_V0)
        spent = [c.CTxOut(r.randrange(10 ** 9), s.CScript(rscript(r))) for _ in tx.vin]
        g.do('schnorr sighash', sc.sighash_schnorr, tx, i, spent, hashtype=r.choice((None, s.SIGHASH_Type(ht))))
        g.do('schnorr sighash', s.SignatureHashSchnorr, tx, i, spent, hashtype=r.choice((None, s.SIGHASH_Type(ht))))
    g.do('opcodes', lambda: [[str(s.CScriptOp(n)) for n in range(0xb0, 0x100)], len(s.OPCODE_NAMES), sorted(s.OPCODES_BY_NAME)[-5:], [repr(s.CScript([s.CScriptOp(n)])) for n in (0xba, 0xc0, 0xc4, 0xe4, 0xff)]])
    # keys, addresses
    secret = hashlib.sha256(b'key %d' % r.getrandbits(64)).digest()
    key = g.do('key', w.CCoinKey.from_secret_bytes, secret)
    x = w.CCoinExtKey.from_seed(r.randbytes(32))
    g.do('ext', lambda: [x, x.neuter(), x.derive_path('m/1h/2'), x.neuter().derive(5), x.derive(7).priv, w.CCoinExtKey(str(x)) == x, w.CCoinKey(str(key)) == key])
    for sc in [s.CScript(rscript(r)) for _ in range(3)] + [s.CScript(b'\x51\x20' + bytes(key.xonly_pub)), w.P2WPKHCoinAddress.from_pubkey(key.pub).to_scriptPubKey()]:
        a = g.do('address', w.CCoinAddress.from_scriptPubKey, sc)
        if a is not None:
            g.do('address use', lambda: [repr(a), a.to_scriptPubKey(), w.CCoinAddress(str(a)), type(a).__name__, a.get_output_size(), type(a).get_output_size()])
            t = list(str(a))
            t[r.randrange(len(t))] = r.choice('qpzry9x8gf2tvdw0s3jn54khce6mua7l')
            g.do('address damaged', w.CCoinAddress, ''.join(t))
    for n in ('P2PKH', 'P2WPKH', 'P2TR'):
        g.do('of key', getattr(w, n + 'CoinAddress').from_pubkey, key.pub)
    for n in ('P2SH', 'P2WSH'):
        g.do('of script', getattr(w, n + 'CoinAddress').from_redeemScript, s.CScript(rscript(r)[:100]))
    for t in ('el1qqtqscheu5e2cvqzwz5fd2rmkndqv5ngygsf0f9wdw8k7c4x6vwwmjmypg7gx3cxqdfj4q69zj5v4lvvqkkjnxk0l5s9n0v', 'CTEp1nmnr4Cn4ukmJ4tHpYVRpTCLTCpqRtJd4kBQW1sZ1kqfaGbT7bPBVp5yd6oMhfYLT5xiyQ8fm9Dd',
              '2dnxPnZB2mHgxqGLdrdzb7s7tZ8M8xgJP6d', 'ert1qw508d6qejxtdg4y5r3zarvary0c5xw7k2uwn4r', 'lq1', 'ex1qw508d6qejxtdg4y5r3zarvary0c5xw7kxw5fx4'):
        g.do('foreign address', w.CCoinAddress, t)
    g.do('families', lambda: [[q.__name__ for q in dispatcher_mapped_list(cls)] for cls in (w.CCoinAddress, w.CBase58CoinAddress, w.CBech32CoinAddress, w.P2SHCoinAddress, w.CCoinKey, w.CCoinExtKey)])
    # spending, judged by the interpreter of bitcointx
    amount = r.randrange(10 ** 9)
    pk = w.P2PKHCoinAddress.from_pubkey(key.pub)
    m = tx.to_mutable()
    h = pk.to_scriptPubKey().sighash(m, 0, s.SIGHASH_ALL)
    sig = key.sign(h) + b'\1'
    m.vin[0].scriptSig = s.CScript([sig, key.pub])
    g.do('signed', lambda: [h, sig, m.serialize()])
    g.do('verify', VerifyScript, m.vin[0].scriptSig, pk.to_scriptPubKey(), m, 0, amount=amount)
    wp = w.P2WPKHCoinAddress.from_pubkey(key.pub)
    h = g.do('v0 hash', lambda: wp.to_redeemScript().sighash(m, 0, s.SIGHASH_ALL, amount=amount, sigversion=s.SIGVERSION_WITNESS_V0)) or bytes(32)
    wit = s.CScriptWitness([key.sign(h) + b'\1', key.pub])
    g.do('verify v0', VerifyScript, s.CScript(), wp.to_scriptPubKey(), m, 0, amount=amount, witness=wit)
    g.do('verify v0 wrong', VerifyScript, s.CScript(), wp.to_scriptPubKey(), m, 0, amount=amount + 1, witness=wit)
    # taproot
    leaves = [s.CScript(rscript(r)[:60], name='n%d' % i) for i in range(r.randrange(1, 5))]

    def tree():
        q = list(leaves)
        while len(q) > 2:
            q = [s.TaprootScriptTree(q[:2])] + q[2:]
        t = s.TaprootScriptTree(q, internal_pubkey=key.xonly_pub)
        return [type(t).__name__, t.merkle_root, t.output_pubkey, t.parity, [t.get_script_with_control_block('n%d' % i) for i in range(len(leaves))], w.P2TRCoinAddress.from_script_tree(t)]
    g.do('tree', tree)
    g.do('schnorr', lambda: [key.sign_schnorr_tweaked(secret, aux=bytes(32)), key.sign_schnorr_no_tweak(secret, aux=bytes(32)), k.check_tap_tweak(k.tap_tweak_pubkey(key.xonly_pub)[0], key.xonly_pub, parity=k.tap_tweak_pubkey(key.xonly_pub)[1])])

    # partially signed transactions

    def psbt():
        u = tx.to_mutable()
        for i in u.vin:
            i.scriptSig = s.CScript()
        u.wit = c.CMutableTxWitness()
        u.vin[0].prevout.n = 0
        q = PartiallySignedTransaction(unsigned_tx=u.to_immutable())
        data = q.serialize()
        return [data, type(q).__name__, q.to_base64(), PartiallySignedTransaction.deserialize(data).serialize()]
    g.do('psbt', psbt)


def specific(seed, g):
    """operations through the classes of Bitcoin itself, whatever chain is selected"""
    import bitcointx.core as c
    import bitcointx.core.script as s
    import bitcointx.wallet as w
    from bitcointx import ChainParams
    r = random.Random('btc %s' % seed)
    with ChainParams('bitcoin'):
        tx = rtx(r)
        raw = tx.serialize()
        sp = [c.CTxOut(r.randrange(10 ** 9), s.CScript(rscript(r))) for _ in tx.vin]
        secret = hashlib.sha256(b'key %d' % r.getrandbits(64)).digest()
        adr = [f(q) for q in (w.CBitcoinKey.from_secret_bytes(secret).pub,) for f in (w.P2PKHBitcoinAddress.from_pubkey, w.P2WPKHBitcoinAddress.from_pubkey, w.P2TRBitcoinAddress.from_pubkey)]
        texts = [str(a) for a in adr]
        x = w.CBitcoinExtKey.from_seed(secret)
    g.do('bytes', tx.serialize)
    g.do('ids', lambda: [tx.GetTxid(), tx.GetHash(), tx.get_virtual_size(), tx.has_witness(), tx.is_coinbase()])
    for cls in (c.CBitcoinTransaction, c.CBitcoinMutableTransaction):
        t = g.do('read', cls.deserialize, raw)
        if t is not None:
            g.do('read bytes', lambda: [t.serialize(), t.GetTxid(), [type(q).__name__ for q in (t, t.vin[0], t.vin[0].prevout, t.vout[0], t.wit, t.vin[0].scriptSig, t.vout[0].scriptPubKey)]])
            g.do('convert', lambda: [t.to_mutable(), t.to_immutable(), t.to_mutable().serialize(), type(t.to_mutable().vin[0]).__name__])
    g.do('texts', lambda: [repr(tx), str(tx)])
    # (legacy hashes of SINGLE build an empty output of the chain that is selected, and are refused then)
    i, ht = r.randrange(len(tx.vin)), s.SIGHASH_Type(r.choice((1, 2, 0x81, 0x82)))
    sc = s.CBitcoinScript(rscript(r))
    g.do('sighash', sc.sighash, tx, i, ht)
    g.do('v0 sighash', sc.sighash, tx, i, ht, amount=5, sigversion=s.SIGVERSION_WITNESS_V0)
    # (the taproot hash of python-bitcointx takes its tags, and neuter() its class, from the chain that is selected: not compared here)
    with ChainParams('bitcoin'):
        g.do('schnorr sighash', sc.sighash_schnorr, tx, i, sp, hashtype=ht)
    g.do('script', lambda: [repr(sc), sc.is_unspendable(), sc.is_valid(), sc.is_p2sh()])
    g.do('keys', lambda: [x, bytes(x.neuter()), w.CBitcoinExtKey(str(x)) == x, w.CBitcoinKey(str(w.CBitcoinKey.from_secret_bytes(secret)))])
    for a, t in zip(adr, texts):
        g.do('address', lambda: [str(a), repr(a), a.to_scriptPubKey(), type(a)(t) == a])
    g.do('any address', lambda: [w.CBitcoinAddress(t) for t in texts])


def run(what, seed):
    g = Log()
    try:
        {'generic': generic, 'specific': specific}[what](seed, g)
    except Exception as e:                       # something that the rest needs was not possible
        if type(e).__name__ == 'Violation':
            raise
        g.rows.append(('stopped', 'raised %s: %s' % (type(e).__name__, e)))
    return g.rows


def answer(q):
    from bitcointx import ChainParams
    with ChainParams(q['chain']):
        return run(q['what'], q['seed'])


if __name__ == '__main__':
    for line in sys.stdin:
        rows = answer(json.loads(line))
        assert not any(m.startswith('elementstx') for m in sys.modules)
        print(json.dumps(rows), flush=True)
