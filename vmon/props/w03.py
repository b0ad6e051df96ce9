"""W03: transaction identity."""
from vmon import gen, poke, bridge as B
from vmon.rec import same, expect
from vmon.ref import codec as C

RULE = """Episode = a model transaction, its identifiers compared with an independent computation in every form (mutable, immutable,
reread, copied), and a batch of single-field edits: a witness edit must keep the txid and change the witness hash, any other edit must
change both, and equality must follow.  Distinct = (edit kind, transaction shape)."""
QUICK = 800
REQUIRED = {'large': 50, 'history': 600, 'identity': 487, 'witness-edit': 400, 'body-edit': 2600, 'hollow': 500}


def edits(r, t):
    """(name, touches witness only, edited model) of single-field edits that change the wire format"""
    def cp():
        return {'version': t['version'], 'locktime': t['locktime'], 'vin': [dict(i) for i in t['vin']], 'vout': [dict(o) for o in t['vout']],
                'winwit': None if t['winwit'] is None else [dict(w) for w in t['winwit']],
                'woutwit': None if t['woutwit'] is None else [dict(w) for w in t['woutwit']]}
    e = cp()
    e['version'] = (t['version'] + 1 + 2 ** 31) % 2 ** 32 - 2 ** 31
    yield 'version', False, e
    e = cp()
    e['locktime'] ^= 1 << r.randrange(32)
    yield 'locktime', False, e
    if t['vin']:
        k = r.randrange(len(t['vin']))
        i = t['vin'][k]
        e = cp()
        e['vin'][k]['seq'] ^= 1 << r.randrange(32)
        yield 'seq', False, e
        e = cp()
        h = bytearray(i['hash'])
        h[r.randrange(32)] ^= 1 << r.randrange(8)
        e['vin'][k]['hash'] = bytes(h)
        yield 'prevout-hash', False, e
        e = cp()
        e['vin'][k]['script'] = i['script'] + b'\x51'
        yield 'scriptsig', False, e
        if i['n'] < 0x3ffffffe:
            e = cp()
            e['vin'][k]['n'] ^= 1
            yield 'prevout-n', False, e
            e = cp()
            e['vin'][k]['pegin'] = not i['pegin']
            yield 'pegin', False, e
            e = cp()
            e['vin'][k]['issuance'] = gen.issuance(r)
            yield 'issuance', False, e
    if t['vout']:
        k = r.randrange(len(t['vout']))
        for f, g in (('asset', gen.asset), ('value', gen.value), ('nonce', gen.nonce)):
            e = cp()
            e['vout'][k][f] = g(r)
            yield f, False, e
        e = cp()
        e['vout'][k]['script'] += b'\x6a'
        yield 'script', False, e
        e = cp()
        if len(t['vout']) > 1:
            e['vout'] = e['vout'][1:] + e['vout'][:1]
            yield 'vout-order', False, e
    if t['vin'] and t['winwit']:
        k = r.randrange(len(t['vin']))
        for f in ('amount_proof', 'keys_proof'):
            e = cp()
            e['winwit'][k][f] = e['winwit'][k][f] + b'\x01'
            yield f, True, e
        for f in ('stack', 'pegin_stack'):
            e = cp()
            e['winwit'][k][f] = list(e['winwit'][k][f]) + [r.randbytes(3)]
            yield f, True, e
    if t['vout'] and t['woutwit']:
        k = r.randrange(len(t['vout']))
        for f in ('surj', 'range'):
            e = cp()
            e['woutwit'][k][f] = e['woutwit'][k][f] + b'\x01'
            yield f, True, e
    if C.has_witness(t):
        e = cp()
        e['winwit'] = e['woutwit'] = None
        yield 'no-witness', True, e


def episode(ctx):
    core = B.L()
    r, rec = ctx.rng, ctx.rec
    t = gen.tx(r, many=0.005)
    tx = B.lib_tx(t, False)
    mx = B.lib_tx(t, True)
    tid, wid = C.txid(t), C.wtxid(t)
    forms = [tx, mx, tx.to_mutable(), mx.to_immutable(), core.CElementsTransaction.deserialize(C.w_tx(t)),
             core.CElementsMutableTransaction.deserialize(C.w_tx(t)), tx.clone() if hasattr(tx, 'clone') else tx]
    for f in forms:
        same(f.GetTxid(), tid, 'txid', 'txid is not the hash of the witness-less bytes', model=t)
        same(f.GetHash(), wid, 'hash', 'hash is not the hash of the full bytes', model=t)
        expect(f == tx and tx == f, 'equal', 'forms of one transaction are not equal', model=t)
    same(hash(forms[3]), hash(tx), 'pyhash', 'equal transactions have different hash()', model=t)
    same(tid == wid, not C.has_witness(t), 'model', 'model')
    same(tx.is_coinbase(), len(t['vin']) == 1 and t['vin'][0]['n'] == 0xffffffff and t['vin'][0]['hash'] == b'\x00' * 32, 'coinbase',
         'coinbase test is wrong', model=t)
    rec.ev(3 * len(forms) + 2)
    rec.count('identity')
    for name, wonly, e in edits(r, t):
        if C.w_tx(e) == C.w_tx(t):
            continue
        ex = B.lib_tx(e, r.random() < .3)
        same(ex.GetTxid(), C.txid(e), 'txid-edit', 'txid of an edited transaction is wrong', edit=name, model=e)
        same(ex.GetTxid() == tid, wonly, 'malleability', 'txid after an edit of %s' % name, edit=name, model=e)
        expect(ex.GetHash() != wid, 'hash-edit', 'hash does not cover ' + name, edit=name, model=e)
        expect(ex != tx and not (ex == tx), 'unequal', 'a transaction that differs in %s is equal' % name, edit=name, model=e)
        rec.ev(4)
        rec.count('witness-edit' if wonly else 'body-edit')
        rec.feat(name, gen.shape(t)[:3])
    hollow = [k for k, i in enumerate(t['vin']) if i['n'] < 0x3fffffff and i['issuance'] is None]
    if hollow:              # an issuance of nothing is written like no issuance at all
        e = dict(t, vin=[dict(i) for i in t['vin']])
        e['vin'][r.choice(hollow)]['issuance'] = {'nonce': gen.h32(r), 'entropy': gen.h32(r), 'amount': b'', 'keys': b''}
        for mutable in (False, True):
            ex = B.lib_tx(e, mutable)
            same((ex.GetTxid(), ex.GetHash(), ex == tx), (tid, wid, True), 'hollow', 'an issuance of nothing changes identifiers', model=e)
            rec.ev(3)
            rec.count('hollow')
    # edits through the mutable object are seen by every identifier
    if t['vin']:
        mx.vin[0].nSequence ^= 1
        t['vin'][0]['seq'] ^= 1
        same(mx.GetTxid(), C.txid(t), 'stale', 'txid does not follow an edit of a mutable transaction', model=t)
        same(mx.GetHash(), C.wtxid(t), 'stale-hash', 'hash does not follow an edit of a mutable transaction', model=t)
        same(tx.GetTxid(), tid, 'leak', 'editing one form changed another', model=t)
    if mx.wit.vtxoutwit:
        from elementstx.core import CElementsMutableTxOutWitness
        before = mx.GetTxid()
        mx.wit.vtxoutwit[0] = CElementsMutableTxOutWitness(b'\x01', b'\x02\x03')
        same(mx.GetTxid(), before, 'wit-txid', 'txid changes with a proof set in place', model=t)
        expect(mx.GetHash() != wid, 'wit-hash', 'hash does not change with a proof set in place', model=t)
    rec.ev(3)
    rec.sample(txid=tid[::-1].hex(), shape=repr(gen.shape(t))[:200])


def d_history(ctx):
    """identifiers follow every change made in place"""
    r = ctx.rng
    for _ in range(150):
        t, tx = poke.start(r, lo=0)
        for k in range(6):
            what = poke.tx(r, t, tx) if k else 'start'
            alone = r.random() < .5                 # nothing asked of any other object in between
            before = tx if alone else tx.to_immutable()
            same(tx.GetTxid(), C.txid(t), 'stale', 'the id does not follow a change in place (%s)' % what, model=t)
            same(tx.GetHash(), C.wtxid(t), 'stale-hash', 'the hash does not follow a change in place (%s)' % what, model=t)
            same((before.GetTxid(), before.GetHash(), hash(before) if not alone else 0), (C.txid(t), C.wtxid(t), hash(B.lib_tx(t, False)) if not alone else 0),
                 'stale-immutable', 'the immutable form does not follow a change in place (%s)' % what, model=t)
            expect(tx == before, 'stale-equal', 'equality does not follow a change in place (%s)' % what, model=t)
            ctx.rec.ev(4)
            ctx.rec.feat('poke', what)
            ctx.rec.count('history')


def d_large(ctx):
    """identity of transactions with many inputs and outputs, and that every one of them counts"""
    r, rec = ctx.rng, ctx.rec
    for nin, nout in gen.LARGE:
        t, at = gen.large(r, nin, nout)
        tx = B.lib_tx(t, True)
        seen = {}
        for k in [None] + at + r.sample(range(nin), min(nin, 5)):
            if k is not None:
                t['vin'][k]['seq'] ^= 1
                tx.vin[k].nSequence ^= 1
            j = None if k is None else min(k, nout - 1)
            if j is not None:
                t['vout'][j]['script'] += b'\x51'
                tx.vout[j].scriptPubKey = B.lib_script(t['vout'][j]['script'])
            a = bytes(tx.GetTxid()), bytes(tx.GetHash())
            same(a, (C.txid(t), C.wtxid(t)), 'large', 'identity of a transaction with many inputs and outputs is wrong', model_counts=(nin, nout), changed=k)
            expect(a not in seen, 'large-same', 'a change of input and output did not change the identity', k=k)
            seen[a] = k
            rec.ev(2)
            rec.count('large')


DIRECTED = [d_history, d_large]
