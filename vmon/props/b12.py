"""B12: blinding keys derived from a master key."""
import hashlib
import hmac

from vmon import ct, gen, bridge as B
from vmon.rec import expect, same

NATIVE = True
TECHNIQUE = 'comparison of every derivation with an HMAC of its own, and recorded wallet histories: derive, build address, blind to it, unblind'
RULE = """Evaluation = one derived key compared with HMAC-SHA256(master secret, script), or one output to a derived address recovered with the
derived key.  Scripts of all lengths from empty to 100 kB as script objects of both mutabilities of origin, bytes and bytearrays; masters of
every key class and edge value; any chain active; foreign scripts and other types refused.  The HMAC is written out here from its definition
over SHA-256.  Distinct = (script length class, argument type, key class, chain)."""
QUICK = 600
REQUIRED = {'derived': 6000, 'long': 100, 'empty': 100, 'refused': 500, 'paid': 60, 'p2sh': 30}
CHAINS = ('elements', 'elements/liquidv1', 'bitcoin', 'bitcoin/testnet', 'bitcoin/regtest', 'elements/elementsregtest')


def setup(ctx):
    ctx.data['z'] = ct.Z(ctx.native)


def mac(key, msg):
    k = key.ljust(64, b'\x00')
    return hashlib.sha256(bytes(b ^ 0x5c for b in k) + hashlib.sha256(bytes(b ^ 0x36 for b in k) + msg).digest()).digest()


def masters(r):
    from bitcointx.core.key import CKey
    from bitcointx.wallet import CCoinKey
    sec = ct.scalar(r, .15)
    from elementstx.wallet import CElementsKey
    return sec, [CKey(sec), CKey.from_secret_bytes(sec, compressed=False), CElementsKey.from_secret_bytes(sec), CCoinKey.from_secret_bytes(sec)]


def episode(ctx):
    from bitcointx import ChainParams
    from bitcointx.core.script import CScript, CBitcoinScript
    from elementstx.core.script import CElementsScript
    from elementstx.core import derive_blinding_key
    r, rec = ctx.rng, ctx.rec
    sec, ms = masters(r)
    for _ in range(4):
        n = r.choice((None, None, None, 0, 1, 22, 23, 25, 34, 55, 63, 64, 65, 75, 76, 252, 253, 520, 521, 10000, 10001, 65536, 100000))
        sc = gen.script(r) if n is None else gen.nbytes(r, n)
        want = mac(sec, sc)
        if not 0 < int.from_bytes(want, 'big') < ct.N:
            continue
        pub = ct.pub(want)
        chain = r.choice(CHAINS)
        for m in ms:
            with ChainParams(chain):
                es = CElementsScript(sc)
                forms = [('script', es), ('bytes', sc), ('bytearray', bytearray(sc))]
                got = {}
                for name, a in forms:
                    k = derive_blinding_key(m, a)
                    same(k.secret_bytes, want, 'derived-' + name, 'the key derived for a script given as %s is not that of the wallet rule' % name, script=sc)
                    same(bytes(a), sc, 'argument', 'the script given was changed')
                    rec.feat(len(sc).bit_length(), name, type(m).__name__, chain)
                k = es.derive_blinding_key(m)
                same(k.secret_bytes, want, 'method', 'the key derived by the script itself differs', script=sc)
                same(m.secret_bytes, sec, 'master', 'the master key was changed')
                same(bytes(k.pub), pub, 'pub', 'the public key of a derived key is wrong')
            rec.ev(6)
            rec.count('derived', 4)
        rec.count('long', len(sc) > 5000)
        rec.count('empty', not sc)
        # foreign scripts, other types
        for a in (CBitcoinScript(sc), None, 5, 'x', [1], sc.hex(), memoryview(sc)):
            try:
                derive_blinding_key(ms[0], a)
            except TypeError:
                pass
            except Exception as e:
                expect(False, 'refused', 'derivation for a %s raised %s: %s' % (type(a).__name__, type(e).__name__, e))
            else:
                expect(False, 'refused', 'derivation for a %s was not refused' % type(a).__name__)
            rec.ev()
            rec.count('refused')
        for a in (None, sec, 5, 'x', ms[0].pub):
            try:
                derive_blinding_key(a, sc)
            except (TypeError, AttributeError):
                pass
            else:
                expect(False, 'refused', 'derivation under a %s was not refused' % type(a).__name__)
            rec.ev()
    if r.random() < .35:
        wallet(ctx)
    rec.sample(master=sec, script=sc[:40])


def wallet(ctx):
    """a wallet restored from seed and master key finds what was sent to its addresses"""
    from bitcointx import ChainParams
    from bitcointx.core.key import CPubKey, CKey
    from elementstx.core import derive_blinding_key
    from elementstx.core.script import CElementsScript
    from vmon.props.w05 import CLASSES, address
    import elementstx.wallet as W
    r, rec = ctx.rng, ctx.rec
    master = CKey(ct.scalar(r))
    s = ct.scene(r, nin=1, nout=2, issuances=0, bits=3, zero=0, long_ok=False)
    addrs = {}
    chain = r.choice(('elements', 'elements/liquidv1'))
    with ChainParams(chain):
        for j, k in enumerate(s['keys']):
            if k is None:
                continue
            n = r.randrange(5)
            h20, h32 = r.randbytes(20), r.randbytes(32)
            spk = (b'\x76\xa9\x14' + h20 + b'\x88\xac', b'\xa9\x14' + h20 + b'\x87', b'\x00\x14' + h20, b'\x00\x20' + h32, b'\x51\x20' + ct.pub(ct.scalar(r))[1:])[n]
            rec.count('p2sh', n == 1)
            bk = CElementsScript(spk).derive_blinding_key(master)
            plain = W.CCoinAddress.from_scriptPubKey(CElementsScript(spk))
            conf = W.CCoinConfidentialAddress.from_unconfidential(plain, bk.pub)
            addrs[j] = (str(conf), spk)
            got = W.CCoinAddress(str(conf))
            same(bytes(got.to_scriptPubKey()), spk, 'address-script', 'an address from a derived key pays elsewhere')
            same(bytes(got.blinding_pubkey), ct.pub(mac(master.secret_bytes, spk)), 'address-key', 'an address from a derived key holds another blinding key')
            s['tx']['vout'][j]['script'] = spk
            s['tx']['vout'][j]['nonce'] = b''
            s['keys'][j] = mac(master.secret_bytes, spk)
        pk = [W.CCoinAddress(addrs[j][0]).blinding_pubkey if j in addrs else CPubKey() for j in range(len(s['keys']))]
        res, tx = ct.blind(s, None, output_pubkeys=pk)
    expect(res.ok, 'blind', 'blinding to addresses from derived keys failed: %s' % res.error)
    _, back = ct.written(tx)
    restored = CKey(master.secret_bytes)
    for j in addrs:
        o = back.vout[j]
        un = o.unblind_confidential_pair(o.scriptPubKey.derive_blinding_key(restored), back.wit.vtxoutwit[j].rangeproof)
        expect(un.ok, 'restored', 'a restored wallet does not recover an output: %s' % un.error)
        same((un.amount, bytes(un.asset.data)), (int.from_bytes(s['tx']['vout'][j]['value'][1:], 'big'), s['tx']['vout'][j]['asset'][1:]), 'restored', 'wrong data')
        rec.ev(2)
        rec.count('paid')
