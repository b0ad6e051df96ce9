"""W01: transactions and their parts are written and read exactly as the Elements wire format says."""
from vmon import gen, poke, bridge as B
from vmon.rec import same, expect
from vmon.ref import codec as C

RULE = """Episode = one model transaction from a boundary-heavy generator, built through public constructors (mutable or not, under
one of four active chains), written by the library and compared with an independent writer, then read back from the independent
bytes through one of the reading entry points and compared field by field and rewritten; the parts are checked one by one too.
Distinct = (shape of counts, null/explicit/committed kinds, issuance and peg-in flags; entry point; chain)."""
QUICK = 2400
CHAINS = ('elements', 'elements/liquidv1', 'bitcoin', 'bitcoin/testnet')
REQUIRED = {'large': 8, 'history': 600, 'tx': 1300, 'with-witness': 500, 'issuance': 400, 'pegin': 300, 'coinbase-index': 20, 'one-sided-witness': 100,
            'many': 20, 'large-blob': 10, 'parts': 1300}


def check_tx(ctx, t, how=None, chain=None):
    from bitcointx import ChainParams
    from io import BytesIO
    core = B.L()
    r, rec = ctx.rng, ctx.rec
    chain = chain or r.choice(CHAINS)
    mutable = r.random() < 0.4
    want = C.w_tx(t)
    with ChainParams(chain):
        tx = B.lib_tx(t, mutable, r.random() < .5)
        same(tx.serialize(), want, 'serialize', 'serialization differs from the wire format', model=t, chain=chain)
        same(tx.serialize(include_witness=False), C.w_tx(t, False), 'serialize-nowit', 'serialization without witness differs', model=t)
        cls = core.CElementsMutableTransaction if r.random() < .5 else core.CElementsTransaction
        how = how or r.choice(('deserialize', 'stream', 'padding', 'bytearray', 'generic'))
        if how == 'deserialize':
            back = cls.deserialize(want)
        elif how == 'bytearray':
            back = cls.deserialize(bytearray(want))
        elif how == 'stream':
            tail = r.randbytes(r.randrange(0, 9))
            f = BytesIO(want + tail)
            back = cls.stream_deserialize(f)
            same(f.read(), tail, 'stream-position', 'reading does not stop at the end of the transaction', model=t)
        elif how == 'padding':
            back = cls.deserialize(want + b'\x00' * 3, allow_padding=True)
        else:
            with ChainParams('elements'):
                from bitcointx.core import CTransaction
                back = CTransaction.deserialize(want)
                expect(isinstance(back, core.CElementsTransaction), 'dispatch', 'generic class does not give an Elements transaction')
        same(C.norm(B.m_tx(back)), C.norm(t), 'fields', 'fields read back differ', how=how, model=t, wire=want)
        same(back.serialize(), want, 'reserialize', 'rewriting what was read gives other bytes', how=how, model=t)
        if C.has_witness(t):
            same((len(back.wit.vtxinwit), len(back.wit.vtxoutwit)), (len(t['vin']), len(t['vout'])), 'witness-count',
                 'witness records do not match inputs and outputs', model=t)
        same(back.num_issuances, sum((0 if not i['issuance'] else bool(i['issuance']['amount']) + bool(i['issuance']['keys'])) for i in t['vin']),
             'num-issuances', 'number of issuances is wrong', model=t)
        expect((back == tx) and not (back != tx), 'equality', 'transaction read back is not equal to the original', model=t)
        same(back.has_witness(), C.has_witness(t), 'has-witness', 'has_witness is wrong', model=t)
    rec.ev(8)
    rec.count('tx')
    rec.count('with-witness', C.has_witness(t))
    rec.count('issuance', any(i['issuance'] for i in t['vin']))
    rec.count('pegin', any(i['pegin'] for i in t['vin']))
    rec.count('coinbase-index', any(i['n'] == 0xffffffff for i in t['vin']))
    rec.count('many', len(t['vin']) > 251 or len(t['vout']) > 251)
    rec.count('large-blob', len(want) > 60000)
    rec.feat('tx', gen.shape(t), how, chain, mutable)
    return tx


def check_parts(ctx, t):
    core = B.L()
    from bitcointx import ChainParams
    from vmon.ref.codec import w_in, w_out, w_inwit, w_outwit, w_issuance, conf
    r, rec = ctx.rng, ctx.rec
    with ChainParams(r.choice(CHAINS)):
        for i in t['vin'][:3]:
            m = r.random() < .5
            x = B.lib_in(i, m)
            same(x.serialize(), w_in(i), 'txin', 'input is not written as the format says', model=i)
            y = (core.CElementsMutableTxIn if r.random() < .5 else core.CElementsTxIn).deserialize(w_in(i))
            same(B.m_in(y), B.m_in(x), 'txin-read', 'input is not read back', model=i)
            same(x.GetHash(), C.dsha(w_in(i)), 'txin-hash', 'hash of the input is not the hash of its bytes', model=i)
            same(x.prevout.serialize(), C.w_prevout(i), 'outpoint', 'outpoint of an input carries flag bits', model=i)
            if i['issuance']:
                b = w_issuance(i['issuance'])
                same(x.assetIssuance.serialize(), b, 'issuance', 'issuance is not written as the format says', model=i)
                same(core.CAssetIssuance.deserialize(b).serialize(), b, 'issuance-read', 'issuance is not read back', model=i)
            rec.ev(5)
        for o in t['vout'][:3]:
            x = B.lib_out(o, r.random() < .5)
            same(x.serialize(), w_out(o), 'txout', 'output is not written as the format says', model=o)
            same(B.m_out((core.CElementsMutableTxOut if r.random() < .5 else core.CElementsTxOut).deserialize(w_out(o))), o,
                 'txout-read', 'output is not read back', model=o)
            for c, k in ((core.CConfidentialAsset, 'asset'), (core.CConfidentialValue, 'value'), (core.CConfidentialNonce, 'nonce')):
                same(c.deserialize(conf(o[k])).commitment, o[k], 'conf-' + k, 'confidential field is not read back', field=o[k])
                same(c(o[k]).serialize(), conf(o[k]), 'conf-w-' + k, 'confidential field is not written right', field=o[k])
            rec.ev(8)
        for w in (t['winwit'] or [])[:3]:
            x = B.lib_inwit(w, r.random() < .5)
            same(x.serialize(), w_inwit(w), 'inwit', 'input witness is not written as the format says', model=w)
            same(B.m_inwit(core.CElementsTxInWitness.deserialize(w_inwit(w))), w, 'inwit-read', 'input witness is not read back', model=w)
            same(x.is_null(), C.inwit_null(w), 'inwit-null', 'null test of an input witness is wrong', model=w)
            rec.ev(3)
        for w in (t['woutwit'] or [])[:3]:
            x = B.lib_outwit(w, r.random() < .5)
            same(x.serialize(), w_outwit(w), 'outwit', 'output witness is not written as the format says', model=w)
            same(B.m_outwit(core.CElementsMutableTxOutWitness.deserialize(w_outwit(w))), w, 'outwit-read', 'output witness is not read back', model=w)
            same(x.is_null(), C.outwit_null(w), 'outwit-null', 'null test of an output witness is wrong', model=w)
            rec.ev(3)
    rec.count('parts')


def episode(ctx):
    r = ctx.rng
    t = gen.tx(r)
    k = r.random()
    if k < 0.1 and C.has_witness(t):
        # only one of the two witness vectors given
        if r.random() < .5:
            t['winwit'] = None
        else:
            t['woutwit'] = None
        ctx.rec.count('one-sided-witness')
        ctx.rec.feat('one-sided', t['winwit'] is None, C.has_witness(t))
    check_tx(ctx, t)
    check_parts(ctx, t)
    ctx.rec.sample(wire=C.w_tx(t)[:400], shape=repr(gen.shape(t))[:300])


def d_history(ctx):
    """an object changed in place is written as what it is now"""
    r = ctx.rng
    for _ in range(150):
        t, tx = poke.start(r, lo=0)
        for k in range(6):
            what = poke.tx(r, t, tx) if k else 'start'
            m = C.w_tx(t)
            same(tx.serialize(), m, 'stale', 'a transaction changed in place (%s) is not written as it is now' % what, model=t)
            same(tx.serialize(include_witness=False), C.w_tx(t, False), 'stale-nowit', 'a transaction changed in place (%s) is not written as it is now' % what, model=t)
            same(tx.to_immutable().serialize(), m, 'stale-immutable', 'the immutable form of a transaction changed in place (%s) is not written as it is now' % what, model=t)
            for i, x in zip(t['vin'], tx.vin):
                same(x.serialize(), C.w_in(i), 'stale-in', 'an input changed in place is not written as it is now', model=i)
            for o, x in zip(t['vout'], tx.vout):
                same(x.serialize(), C.w_out(o), 'stale-out', 'an output changed in place is not written as it is now', model=o)
            ctx.rec.ev(3)
            ctx.rec.feat('poke', what)
            ctx.rec.count('history')


def d_counts(ctx):
    """vector counts around every size-encoding boundary"""
    r = ctx.rng
    for n in (0, 1, 252, 253, 254, 255, 256):
        for which in ('vin', 'vout', 'stack', 'pegin_stack'):
            t = gen.tx(r, lo=1, many=0, witness=True)
            if which == 'vin':
                t['vin'] = [gen.txin(r) for _ in range(n)]
                t['winwit'] = [dict(C.NULL_INWIT) for _ in range(n)]
            elif which == 'vout':
                t['vout'] = [gen.txout(r) for _ in range(n)]
                t['woutwit'] = [dict(C.NULL_OUTWIT) for _ in range(n)]
            else:
                t['winwit'][0] = dict(t['winwit'][0], **{which: [bytes([j & 255]) for j in range(n)]})
            check_tx(ctx, t)


def d_large(ctx):
    """many inputs and outputs with witnesses, and counts that take five bytes"""
    r = ctx.rng
    for nin, nout in gen.LARGE:
        t, _ = gen.large(r, nin, nout)
        check_tx(ctx, t)
        ctx.rec.count('large')


def d_huge_in(ctx):
    t, _ = gen.large(ctx.rng, 65536, 2)
    check_tx(ctx, t, 'deserialize')
    ctx.rec.count('large')


def d_huge_out(ctx):
    t, _ = gen.large(ctx.rng, 2, 65536)
    check_tx(ctx, t, 'deserialize')
    ctx.rec.count('large')


def d_sizes(ctx):
    r = ctx.rng
    for n in (0, 1, 75, 76, 252, 253, 254, 255, 256, 65535, 65536, 70000):
        t = gen.tx(r, lo=1, many=0, witness=True)
        b = gen.nbytes(r, n)
        t['vin'][0]['script'] = b
        t['vout'][0]['script'] = b
        t['winwit'][0] = {'amount_proof': b, 'keys_proof': b, 'stack': [b, b''], 'pegin_stack': [b]}
        t['woutwit'][0] = {'surj': b, 'range': b}
        check_tx(ctx, t)
        check_parts(ctx, t)


def d_flags(ctx):
    """every combination of issuance kinds, peg-in and outpoint index, in the same transaction as an ordinary input"""
    r = ctx.rng
    kinds = [b'', b'\x01' + (5).to_bytes(8, 'big'), b'\x08' + b'\x22' * 32, b'\x09' + b'\x33' * 32]
    for n in (0, 1, 0x3ffffffe, 0x20000000, 0xffffffff):
        for a in kinds:
            for k in kinds:
                for pegin in (False, True):
                    i = gen.txin(r, rich=False)
                    i.update(n=n, issuance=None, pegin=pegin)
                    if n == 0xffffffff:
                        i['pegin'] = False
                    elif a or k or r.random() < .7:        # of neither: there, but written as if not
                        ctx.rec.count('flags-hollow', not (a or k))
                        i['issuance'] = {'nonce': gen.h32(r), 'entropy': gen.h32(r), 'amount': a, 'keys': k}
                    t = gen.tx(r, lo=1, many=0)
                    t['vin'] = [gen.txin(r), i]
                    t['winwit'] = t['woutwit'] = None
                    check_tx(ctx, t)
    # the largest index: everything but the one combination that the format itself cannot tell from a coinbase input
    for iss, pegin in ((False, False), (True, False), (False, True)):
        i = gen.txin(r, rich=False)
        i.update(n=0x3fffffff, issuance=gen.issuance(r) if iss else None, pegin=pegin)
        t = gen.tx(r, lo=1, many=0)
        t['vin'], t['winwit'] = [i], None
        check_tx(ctx, t)


def d_high_bits(ctx):
    """an in-memory index with flag bits is refused rather than written"""
    from bitcointx.core.serialize import SerializationError
    core = B.L()
    for n in (0x40000000, 0x80000000, 0xc0000000, 0xfffffffe, 0x7fffffff):
        for mutable in (False, True):
            i = gen.txin(ctx.rng, rich=False)
            i.update(n=n, issuance=None, pegin=False)
            x = B.lib_in(i, mutable)
            tx = core.CElementsTransaction([x], [])
            for f in (x.serialize, tx.serialize, tx.GetTxid):
                try:
                    got = f()
                except SerializationError:
                    ctx.rec.ev()
                    ctx.rec.feat('high', n, mutable, f.__name__)
                else:
                    expect(False, 'high-bits', 'outpoint index with flag bits was written', n=n, got=got)


def d_corpus(ctx):
    """transactions made by Elements Core, from the project's vectors"""
    from vmon import corpus
    core = B.L()
    for b in corpus.transactions():
        t = C.r_tx(b)
        same(C.w_tx(t), b, 'model', 'model does not reproduce a Core transaction (harness error)')
        tx = core.CElementsTransaction.deserialize(b)
        same(C.norm(B.m_tx(tx)), C.norm(t), 'core-fields', 'fields of a Core transaction are read wrong', wire=b)
        same(tx.serialize(), b, 'core-bytes', 'a Core transaction is not rewritten to the same bytes', wire=b)
        ctx.rec.ev(2)
        ctx.rec.feat('core', C.txid(t))
        ctx.rec.count('core-transactions')


DIRECTED = [d_huge_in, d_huge_out, d_large, d_history, d_counts, d_sizes, d_flags, d_high_bits, d_corpus]
