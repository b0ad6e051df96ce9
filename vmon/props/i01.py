"""I01: identifiers of issued assets and tokens."""
from vmon import gen, bridge as B, corpus
from vmon.rec import same, expect
from vmon.ref import issuance as I, codec as C

RULE = """Evaluation = one identifier (entropy, asset, token of either kind) computed by the library compared with an independent
SHA-256 midstate implementation, or one refused call; all identifiers seen in a worker are kept and must be distinct for distinct inputs.
Distinct = (function, argument type, edge class of outpoint index and hashes, chain)."""
QUICK = 2500
REQUIRED = {'entropy': 5000, 'asset': 5000, 'token': 10000, 'core': 3, 'refused': 5000, 'distinct-ids': 8000, 'foreign-chain': 300}


def setup(ctx):
    ctx.data['ids'] = {}


def unique(ctx, v, why):
    old = ctx.data['ids'].setdefault(bytes(v), why)
    if old != why:
        expect(False, 'collision', 'two different things have the same identifier', a=repr(old), b=repr(why))
    ctx.rec.count('distinct-ids')


def forms(r, b):
    from bitcointx.core import Uint256
    return r.choice((b, bytearray(b), Uint256(b), B.L().CAsset(b) if r.random() < .2 else Uint256(b)))


def one(ctx, h, n, contract, chain=None):
    from bitcointx.core import Uint256, CBitcoinOutPoint
    c = B.L()
    r, rec = ctx.rng, ctx.rec
    cls = r.choice((c.CElementsOutPoint, c.CElementsMutableOutPoint, c.CElementsOutPoint, CBitcoinOutPoint))
    op = cls(h, n)
    before = op.serialize()
    k = forms(r, contract)
    kb = bytes(k.data if isinstance(k, Uint256) else k)
    e = c.generate_asset_entropy(op, k)
    we = I.entropy(h, n, contract)
    expect(type(e) is Uint256, 'entropy-type', 'entropy is a %s' % type(e).__name__)
    same(e.data, we, 'entropy', 'asset entropy is wrong', hash=h, n=n, contract=contract, arg=type(k).__name__)
    same(op.serialize(), before, 'changed', 'the outpoint changed')
    same(bytes(k.data if isinstance(k, Uint256) else k), kb, 'changed', 'the argument changed')
    ef = forms(r, we)
    a = c.calculate_asset(ef)
    expect(type(a) is c.CAsset, 'asset-type', 'asset is a %s' % type(a).__name__)
    same(a.data, I.asset(we), 'asset', 'asset id is wrong', entropy=we, arg=type(ef).__name__)
    ts = []
    for conf in (False, True):
        t = c.calculate_reissuance_token(forms(r, we), conf)
        expect(type(t) is c.CAsset, 'token-type', 'token is a %s' % type(t).__name__)
        same(t.data, I.token(we, conf), 'token', 'token id is wrong', entropy=we, confidential=conf)
        ts.append(t)
        unique(ctx, t.data, ('token', conf, we))
    same(c.CAsset.from_hex(a.to_hex()) if hasattr(c.CAsset, 'from_hex') else a, a, 'hex', 'hex form of the asset')
    unique(ctx, e.data, ('entropy', h, n, contract))
    unique(ctx, a.data, ('asset', we))
    rec.ev(6)
    rec.count('entropy')
    rec.count('asset')
    rec.count('token', 2)
    rec.feat(cls.__name__, type(k).__name__, type(ef).__name__, n in gen.U32, h[:2] in (b'\0\0', b'\xff\xff'), contract[:2] in (b'\0\0', b'\xff\xff'), chain)
    return e, a, ts


def episode(ctx):
    from bitcointx import ChainParams
    from bitcointx.core import Uint256
    c = B.L()
    r, rec = ctx.rng, ctx.rec
    h, n, k = gen.h32(r), gen.u32(r), gen.h32(r)
    e = one(ctx, h, n, k)
    # neighbours: one bit of anything
    hb, kb = bytearray(h), bytearray(k)
    hb[r.randrange(32)] ^= 1 << r.randrange(8)
    kb[r.randrange(32)] ^= 1 << r.randrange(8)
    one(ctx, bytes(hb), n, k)
    one(ctx, h, n ^ 1 << r.randrange(32), k)
    one(ctx, h, n, bytes(kb))
    if r.random() < .3:
        chain = r.choice(('bitcoin', 'elements/liquidv1', 'bitcoin/testnet'))
        with ChainParams(chain):
            e2 = one(ctx, h, n, k, chain)
        same(e2[0].data, e[0].data, 'chain', 'entropy depends on the chain')
        rec.count('foreign-chain')
    op = c.CElementsOutPoint(h, n)
    bad = r.choice((0, 1, 31, 33, 64))
    for f in (lambda: c.generate_asset_entropy(op, gen.nbytes(r, bad)), lambda: c.calculate_asset(gen.nbytes(r, bad)),
              lambda: c.calculate_reissuance_token(gen.nbytes(r, bad), False), lambda: c.calculate_reissuance_token(bytearray(bad), True),
              lambda: c.calculate_asset('00' * 16), lambda: c.calculate_reissuance_token(e[0], 2), lambda: c.calculate_reissuance_token(e[0], None),
              lambda: c.generate_asset_entropy(op, 'ab' * 16), lambda: c.generate_asset_entropy((h, n), k), lambda: c.calculate_asset(None)):
        try:
            v = f()
        except (ValueError, TypeError, AssertionError):
            rec.count('refused')
            rec.ev()
        else:
            expect(False, 'accepted', 'an argument of a wrong size or type was accepted', result=repr(v), size=bad)
    rec.sample(hash=h, n=n, contract=k, entropy=e[0].data)


def d_core(ctx):
    """against what Elements Core reported for its own issuances"""
    c = B.L()
    txs = list(corpus.vectors()['txs'])
    seen = 0
    for t in txs:
        tx = c.CElementsTransaction.deserialize(bytes.fromhex(t['hex']))
        for d in t.get('vin', []):
            iss = d.get('issuance')
            if not iss:
                continue
            i = [x for x in tx.vin if bytes(x.prevout.hash)[::-1].hex() == d['txid'] and x.prevout.n == d['vout']][0]
            ent = bytes.fromhex(iss['assetEntropy'])[::-1]
            if not iss.get('isreissuance'):
                e = c.generate_asset_entropy(i.prevout, i.assetIssuance.assetEntropy)
                same(e.data, ent, 'core-entropy', 'entropy differs from what Elements Core says', got_txid=t.get('txid'))
                if 'token' in iss:
                    conf = 'tokenamountcommitment' in iss or 'assetamountcommitment' in iss
                    same(c.calculate_reissuance_token(e, conf).data[::-1].hex(), iss['token'], 'core-token', 'token differs from what Elements Core says')
            else:
                same(i.assetIssuance.assetEntropy.data, ent, 'core-entropy', 'entropy of a reissuance')
            same(c.calculate_asset(ent).data[::-1].hex(), iss['asset'], 'core-asset', 'asset differs from what Elements Core says')
            same(c.calculate_asset(ent).to_hex(), iss['asset'], 'core-asset-hex', 'asset text differs from what Elements Core says')
            ctx.rec.ev(3)
            ctx.rec.count('core')
            seen += 1


def d_edges(ctx):
    for h in (bytes(32), b'\xff' * 32, b'\x01' + bytes(31)):
        for n in gen.U32:
            for k in (bytes(32), b'\xff' * 32, bytes(31) + b'\x01'):
                one(ctx, h, n, k)


DIRECTED = [d_core, d_edges]
