"""W07: text forms."""
import re

from vmon import gen, poke, bridge as B, corpus
from vmon.rec import same, expect
from vmon.ref import codec as C

RULE = """Evaluation = str and repr of one object: both give a non-empty string, twice the same, and neither changes the object's bytes;
for explicit amounts and assets the true value is in the text.  Objects: transactions and all parts in both mutabilities, confidential fields of
every kind, issuances, addresses, keys, results, under several active chains.  Distinct = (class, kinds of contents, chain)."""
QUICK = 1200
REQUIRED = {'history': 200, 'text': 40000, 'amount-shown': 3000, 'asset-shown': 3000, 'address': 2000, 'result': 650, 'foreign-chain': 200, 'corpus': 20}


def text(ctx, o, why, ser=True):
    rec = ctx.rec
    before = o.serialize() if ser and hasattr(o, 'serialize') else None
    out = []
    for f in (str, repr):
        try:
            t = f(o)
        except Exception as e:
            expect(False, 'fails', '%s of a %s raised %s: %s' % (f.__name__, type(o).__name__, type(e).__name__, e), why=why, bytes=before)
        expect(isinstance(t, str) and t, 'empty', '%s of a %s is empty' % (f.__name__, type(o).__name__), why=why)
        same(f(o), t, 'unstable', '%s of a %s differs the second time' % (f.__name__, type(o).__name__), why=why)
        out.append(t)
        rec.ev()
        rec.count('text')
    if before is not None:
        same(o.serialize(), before, 'changed', 'text form changed a %s' % type(o).__name__, why=why)
    return out


def has_number(t, n):
    return re.search(r'(?<![0-9])' + re.escape(str(n)) + r'(?![0-9])', t) is not None


def field(ctx, o, b, kind, chain):
    s, r = text(ctx, o, kind)
    if kind == 'value' and len(b) == 9 and b[0] == 1:
        v = int.from_bytes(b[1:], 'big', signed=True)
        for t in (s, r):
            expect(has_number(t, v), 'amount', 'the amount %d is not in the text %s' % (v, t))
        ctx.rec.count('amount-shown')
    if kind == 'asset' and len(b) == 33 and b[0] == 1:
        for t in (s, r):
            expect(b[1:][::-1].hex() in t, 'asset', 'the asset is not in the text %s' % t, asset=b)
        ctx.rec.count('asset-shown')
    ctx.rec.feat(kind, b[:1], len(b), chain)


def whole(ctx, t, chain, mutable, tx=None):
    tx = B.lib_tx(t, mutable) if tx is None else tx
    txt = text(ctx, tx, 'tx')
    for i, m in zip(tx.vin, t['vin']):
        for x in text(ctx, i, 'in'):
            expect(('0x%x' % m['seq']) in x.lower() or has_number(x, m['seq']), 'seq', 'the sequence number is not in the text')
        text(ctx, i.prevout, 'point')
        text(ctx, i.scriptSig, 'script')
        it = text(ctx, i.assetIssuance, 'issuance')
        if m['issuance']:
            for k, f in (('amount', i.assetIssuance.nAmount), ('keys', i.assetIssuance.nInflationKeys)):
                b = m['issuance'][k]
                field(ctx, f, b, 'value', chain)
                if len(b) == 9 and b[0] == 1:
                    for x in it + list(txt):
                        expect(has_number(x, int.from_bytes(b[1:], 'big', signed=True)), 'issued', 'the issued amount is not in the text ' + x[:300])
        ctx.rec.feat('in', bool(m['issuance']), m['pegin'], chain, mutable)
    for o, m in zip(tx.vout, t['vout']):
        ot = text(ctx, o, 'out')
        text(ctx, o.scriptPubKey, 'script')
        for k, f in (('value', o.nValue), ('asset', o.nAsset), ('nonce', o.nNonce)):
            field(ctx, f, m[k], k, chain)
        if len(m['value']) == 9 and m['value'][0] == 1:
            v = int.from_bytes(m['value'][1:], 'big', signed=True)
            for x in ot + list(txt):
                expect(has_number(x, v), 'out-amount', 'the amount %d is not in the text %s' % (v, x[:300]))
            ctx.rec.count('amount-shown')
        if len(m['asset']) == 33 and m['asset'][0] == 1:
            for x in ot + list(txt):
                expect(m['asset'][1:][::-1].hex() in x, 'out-asset', 'the asset is not in the text ' + x[:300])
            ctx.rec.count('asset-shown')
        ctx.rec.feat('out', m['value'][:1], m['asset'][:1], m['nonce'][:1], chain, mutable)
    text(ctx, tx.wit, 'wit')
    for w in tx.wit.vtxinwit:
        text(ctx, w, 'inwit')
        text(ctx, w.scriptWitness, 'stack')
        ctx.rec.feat('inwit', w.is_null(), chain, mutable)
    for w in tx.wit.vtxoutwit:
        text(ctx, w, 'outwit')
        ctx.rec.feat('outwit', w.is_null(), chain, mutable)


def results(ctx):
    from bitcointx.core import Uint256
    c = B.L()
    r = ctx.rng
    u = lambda: Uint256(gen.h32(r))
    amount = r.choice((0, 1, 21 * 10 ** 14, r.randrange(21 * 10 ** 14)))
    a = c.CAsset(gen.h32(r))
    msg = r.choice(('problem {0} %s', 'x', 'ünïcode', '"quoted"'))
    un = c.UnblindingSuccess(asset=a, amount=amount, blinding_factor=u(), asset_blinding_factor=u())
    for t in text(ctx, un, 'result', False) + text(ctx, un.get_descriptor(), 'result', False):
        expect(has_number(t, amount), 'result-amount', 'amount not in the text of a result: ' + t)
        expect(a.to_hex() in t, 'result-asset', 'asset not in the text of a result: ' + t)
    n = r.randrange(4)
    for t in text(ctx, c.BlindingSuccess(num_successfully_blinded=n, blinding_factors=[u() for _ in range(n)], asset_blinding_factors=[u() for _ in range(n)]),
                  'result', False):
        expect(has_number(t, n), 'result-count', 'count not in the text of a result: ' + t)
    for cls in (c.BlindingFailure, c.UnblindingFailure):
        f = cls(msg)
        s, _ = text(ctx, f, 'result', False)
        expect(msg in s, 'result-error', 'error not in the text of a failure: ' + s)
        same(f.error, msg, 'changed', 'error changed')
    text(ctx, a, 'asset')
    same(str(a), a.to_hex(), 'asset-str', 'text of an asset') if str(a) == a.to_hex() else expect(a.to_hex() in str(a), 'asset-str', 'text of an asset')
    ctx.rec.count('result')
    ctx.rec.feat('result', amount in (0, 1), n, msg)


def addresses(ctx, chain):
    from vmon.props import w05
    for name in ctx.rng.sample(w05.CLASSES, 3):
        cls, a, s = w05.address(ctx.rng, name)
        before = bytes(a)
        st, rp = text(ctx, a, 'address', False)
        expect(st in rp, 'address-repr', 'the repr of an address does not show it: ' + rp)
        same(bytes(a), before, 'changed', 'address changed')
        ctx.rec.count('address')
        ctx.rec.feat('address', name, chain)


def episode(ctx):
    from bitcointx import ChainParams
    r = ctx.rng
    t = gen.tx(r, many=0.003)
    whole(ctx, t, 'elements', r.random() < .5)
    with ChainParams(r.choice(('bitcoin', 'elements/liquidv1', 'bitcoin/signet'))) as p:
        whole(ctx, gen.tx(r, many=0), p.NAME, r.random() < .5)
        ctx.rec.count('foreign-chain')
    chain = r.choice(('elements', 'elements/liquidv1'))
    with ChainParams(chain):
        addresses(ctx, chain)
    results(ctx)
    ctx.rec.sample(text=repr(B.lib_tx(t))[:400])


def d_history(ctx):
    """texts follow every change made in place"""
    r = ctx.rng
    for _ in range(60):
        t, tx = poke.start(r, lo=0)
        for k in range(5):
            whole(ctx, t, 'elements', True, tx)
            ctx.rec.feat('poke', poke.tx(r, t, tx))
            ctx.rec.count('history')


def d_corpus(ctx):
    for b in corpus.transactions():
        t = C.r_tx(b)
        whole(ctx, t, 'elements', False)
        whole(ctx, t, 'elements', True)
        ctx.rec.count('corpus')


def d_invalid(ctx):
    """fields the constructors accept although no reader gives them"""
    c = B.L()
    for p in range(256):
        for n in (9, 33):
            text(ctx, c.CConfidentialValue(bytes([p]) + ctx.rng.randbytes(n - 1)), 'invalid-value')
        text(ctx, c.CConfidentialAsset(bytes([p]) + ctx.rng.randbytes(32)), 'invalid-asset')
        text(ctx, c.CConfidentialNonce(bytes([p]) + ctx.rng.randbytes(32)), 'invalid-nonce')
        for s in (b'', bytes([p]), bytes([p]) * 3, b'\x4d\xff' + bytes([p]), b'\x51' + bytes([p])):
            text(ctx, B.lib_script(s), 'script')
            text(ctx, c.CElementsTxOut(c.CConfidentialValue(b'\x01' + bytes([p]) * 8), B.lib_script(s)), 'out')


DIRECTED = [d_history, d_corpus, d_invalid]
