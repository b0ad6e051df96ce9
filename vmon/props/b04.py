"""B04: refused requests leave the transaction as it was."""
import re

from vmon import ct, gen, bridge as B
from vmon.rec import expect, same
from vmon.ref import codec as C

NATIVE = True
RULE = """Evaluation = one refused request: the bytes and every field of the transaction (and of the arguments) compared before and after,
the answer is an error or a failure with a text, and the text names the position concerned.  Each cause of refusal is put at random
positions of random valid scenes, so that everything before it is acceptable.  Distinct = (cause, position class, scene shape)."""
QUICK = 1500
REQUIRED = {'refused': 975, 'position-named': 700, 'failure-result': 500, 'raised': 500, 'accepted-before': 39, 'short': 50}
REQUIRED.update({'cause:' + c: 12 for c in (
    'extra-keys', 'key-type', 'extra-asset-keys', 'extra-token-keys', 'asset-key-type', 'token-key-type', 'few-descriptors',
    'many-descriptors', 'descriptor-type', 'bad-pubkey', 'value-not-explicit', 'asset-not-explicit', 'witness-in-place', 'fee',
    'issuance-blinded', 'issuance-proof', 'aux-short', 'aux-type', 'aux-length', 'aux-invalid', 'no-aux', 'immutable', 'wrong-tx',
    'reissue-tokens', 'negative-amount', 'no-issuance', 'issuance-null', 'ct-type')})
BADKEYS = (b'\x02' + b'\xff' * 32, b'\x02' + bytes(32), b'\x03' + ct.N.to_bytes(32, 'big')[:31] + b'\x00', b'\x05' + b'\x11' * 32, b'\x02' + b'\x11' * 31,
           b'\x00' * 33, b'\x04' + b'\x11' * 64, b'\x02', b'\x06' + b'\x22' * 64)


def bad_pubkey(r):
    from vmon.ref import ec
    while True:
        k = r.choice(BADKEYS) if r.random() < .6 else bytes([r.choice((2, 3))]) + r.randbytes(32)
        if ec.par(k) is None:
            return k


def mkissuance(r, s, i, amount=True, keys=False, new=True):
    s['tx']['vin'][i]['issuance'] = {'nonce': bytes(32) if new else r.randbytes(32), 'entropy': r.randbytes(32),
                                     'amount': ct.val(ct.amount(r)) if amount else b'', 'keys': ct.val(ct.amount(r)) if keys else b''}


def inwits(s):
    if s['tx']['winwit'] is None:
        s['tx']['winwit'] = [dict(C.NULL_INWIT) for _ in s['ins']]
    return s['tx']['winwit']


def spoil(r, cause, s):
    """change the scene or the request so that it has to be refused; returns (overrides, position or None, allowed kind of answer)"""
    from bitcointx.core.key import CKey, CPubKey
    core = B.L()
    nin, nout = len(s['ins']), len(s['keys'])
    i = r.randrange(nin)
    blinded = [j for j, k in enumerate(s['keys']) if k is not None]
    j = r.choice(blinded)
    kw = {}
    if cause == 'extra-keys':
        pk = ct.request(s)['output_pubkeys'] + [CPubKey(ct.pub(ct.scalar(r))) if r.random() < .5 else CPubKey()] * r.randrange(1, 3)
        return {'output_pubkeys': pk}, None
    if cause == 'key-type':
        pk = ct.request(s)['output_pubkeys']
        pk[j] = r.choice((bytes(pk[j]), None, 'x', 5, CKey(ct.scalar(r)), bytearray(pk[j])))
        return {'output_pubkeys': pk}, j
    if cause in ('extra-asset-keys', 'extra-token-keys'):
        n = 'blind_issuance_asset_keys' if 'asset' in cause else 'blind_issuance_token_keys'
        return {n: [None] * nin + [r.choice((None, CKey(ct.scalar(r))))]}, None
    if cause in ('asset-key-type', 'token-key-type'):
        mkissuance(r, s, i, True, True)
        s['iss'][i] = (ct.scalar(r), ct.scalar(r))
        n = 'blind_issuance_asset_keys' if 'asset' in cause else 'blind_issuance_token_keys'
        k = ct.request(s)[n]
        k += [None] * (nin - len(k))
        k[i] = r.choice((b'', 0, False, 1, 'x', b'\x01' * 32, CPubKey(ct.pub(ct.scalar(r))), [], ()))
        return {n: k}, i
    if cause == 'few-descriptors':
        return {'input_descriptors': ct.descriptors(s['ins'])[:r.randrange(nin)]}, None
    if cause == 'many-descriptors':
        return {'input_descriptors': ct.descriptors(s['ins'] + s['ins'][:1])}, None
    if cause == 'descriptor-type':
        d = ct.descriptors(s['ins'])
        f = r.choice(('asset', 'amount', 'blinding_factor', 'asset_blinding_factor'))
        bad = {'asset': (b'\x01' * 32, None, core.CConfidentialAsset(), B.u256(b'\x01' * 32)), 'amount': (1.0, None, '1', b'\x01', core.CConfidentialValue(1)),
               'blinding_factor': (b'\x01' * 32, None, 5), 'asset_blinding_factor': (b'\x01' * 32, None, 5)}[f]
        d[i] = d[i]._replace(**{f: r.choice(bad)})
        return {'input_descriptors': d}, i
    if cause == 'bad-pubkey':
        pk = ct.request(s)['output_pubkeys']
        pk += [CPubKey()] * (nout - len(pk))
        j = r.randrange(nout)
        pk[j] = CPubKey(bad_pubkey(r))
        return {'output_pubkeys': pk}, j
    if cause == 'value-not-explicit':
        s['tx']['vout'][j]['value'] = r.choice((b'', bytes([r.choice((8, 9))]) + r.randbytes(32)))
        return kw, j
    if cause == 'asset-not-explicit':
        s['tx']['vout'][j]['asset'] = r.choice((b'', bytes([r.choice((10, 11))]) + r.randbytes(32)))
        return kw, j
    if cause == 'witness-in-place':
        w = [dict(C.NULL_OUTWIT) for _ in s['keys']]
        w[j] = r.choice(({'surj': b'', 'range': b'\x01'}, {'surj': b'\x01', 'range': b''}, {'surj': b'\x01\x02', 'range': b'\x00' * 5000}))
        s['tx']['woutwit'] = w
        return kw, j
    if cause == 'fee':
        s['tx']['vout'][j]['script'] = b''
        return kw, j
    if cause == 'issuance-blinded':
        mkissuance(r, s, i, True, r.random() < .5)
        f = r.choice(('amount', 'keys'))
        s['tx']['vin'][i]['issuance'][f] = bytes([r.choice((8, 9))]) + r.randbytes(32)
        s['iss'][i] = r.choice(((None, None), (ct.scalar(r), None)))
        # an earlier input may have an issuance in the clear
        return kw, i
    if cause == 'issuance-proof':
        mkissuance(r, s, i, True, True)
        n = r.randrange(2)
        s['iss'][i] = (ct.scalar(r), ct.scalar(r)) if r.random() < .5 else ((ct.scalar(r), None), (None, ct.scalar(r)))[n]
        inwits(s)[i] = dict(inwits(s)[i], **{('amount_proof', 'keys_proof')[n]: r.randbytes(r.choice((1, 5, 3000)))})
        return kw, i
    if cause == 'aux-short':
        return {'auxiliary_generators': aux(r, s)[:nin - 1] or [b'']}, None if nin > 1 else -1
    if cause == 'aux-type':
        a = aux(r, s)
        n = r.randrange(len(a))
        a[n] = r.choice((None, 'x' * 33, 5, [0] * 33))
        return {'auxiliary_generators': a}, n
    if cause == 'aux-length':
        a = aux(r, s)
        n = r.randrange(len(a))
        a[n] = r.choice((b'', a[n][:32], a[n] + b'\x00', a[n] * 2))
        return {'auxiliary_generators': a}, n
    if cause == 'aux-invalid':
        a = aux(r, s)
        n = r.randrange(len(a))
        if n < nin:
            s['ins'][n].update(asset=bytes(32), amount=-1, bf=bytes(32), abf=bytes(32))
        a[n] = r.choice((bytes(33), b'\x02' + a[n][1:], b'\x08' + a[n][1:], a[n][:1] + b'\xff' * 32, a[n][:1] + b'\xee' * 31 + b'\x00'))
        from vmon.ref import ec
        while ec.par_square(a[n], 10) is not None:
            a[n] = b'\x0a' + r.randbytes(32)
        return {'auxiliary_generators': a}, n
    if cause == 'no-aux':
        s['ins'][i].update(asset=bytes(32))
        if r.random() < .5:
            s['ins'][i].update(amount=-1, bf=bytes(32), abf=bytes(32))
        return r.choice(({}, {'auxiliary_generators': []}, {'auxiliary_generators': ()})), i
    if cause == 'reissue-tokens':
        mkissuance(r, s, i, r.random() < .8, True, new=False)
        s['iss'][i] = r.choice(((None, None), (ct.scalar(r), None), (ct.scalar(r), ct.scalar(r)), (None, ct.scalar(r))))
        if not s['tx']['vin'][i]['issuance']['amount']:
            s['iss'][i] = (None, s['iss'][i][1])
        return kw, i
    if cause == 'negative-amount':
        s['ins'][i].update(amount=-r.choice((1, 1, 2, 3, 2 ** 31, 2 ** 32, ct.MONEY, 2 ** 63, r.randrange(1, 10 ** 9))), bf=ct.scalar(r), abf=ct.scalar(r))
        if r.random() < .5:
            s['ins'][i][r.choice(('bf', 'abf'))] = bytes(32)
        return kw, i
    if cause == 'no-issuance':
        s['tx']['vin'][i]['issuance'] = None
        s['iss'][i] = r.choice(((ct.scalar(r), None), (None, ct.scalar(r)), (ct.scalar(r), ct.scalar(r))))
        return kw, i
    if cause == 'issuance-null':
        n = r.randrange(2)
        mkissuance(r, s, i, n != 0, n != 1)
        s['iss'][i] = ((ct.scalar(r), None), (None, ct.scalar(r)))[n]
        return kw, i
    if cause == 'ct-type':
        return {r.choice(('custom_ct_bits', 'custom_ct_exponent')): r.choice(('8', 1.5, b'\x08', []))}, None
    raise AssertionError(cause)


def aux(r, s):
    from vmon.ref import ec
    a = []
    for d in s['ins']:
        a.append(ec.ser_square(ec.blinded_generator(d['asset'] if any(d['asset']) else r.randbytes(32), d['abf']), 10))
    for _ in range(r.choice((0, 0, 1, 3))):
        a.append(ec.ser_square(ec.generator(r.randbytes(32)), 10))
    return a


CAUSES = sorted(c[6:] for c in REQUIRED if c.startswith('cause:'))


def refused(ctx, cause, tx, kw, pos, shape, snapshot=ct.snapshot):
    rec = ctx.rec
    before = snapshot(tx)
    ids = [id(x) for x in list(tx.vin) + list(tx.vout)]
    args = repr(sorted((k, str(v)) for k, v in kw.items() if k != '_rand_func'))
    try:
        res = tx.blind(**kw)
        text, raised = res.error, False
        expect(res.ok is False, 'accepted-' + cause, 'a request that has to be refused (%s) was accepted' % cause, kw=args, tx=before[-1])
        rec.count('failure-result')
    except Exception as e:
        text, raised = str(e), True
        rec.count('raised')
    expect(isinstance(text, str) and text.strip(), 'no-text-' + cause, 'the refusal (%s) has no text' % cause)
    expect('%' not in text and '{' not in text, 'unfilled-' + cause, 'the text of the refusal has unfilled placeholders: %s' % text)
    after = snapshot(tx)
    same(after, before, 'changed-' + cause, 'a refused request (%s) changed the transaction' % cause, text=text)
    same([id(x) for x in list(tx.vin) + list(tx.vout)], ids, 'replaced-' + cause, 'a refused request (%s) replaced parts of the transaction' % cause)
    same(repr(sorted((k, str(v)) for k, v in kw.items() if k != '_rand_func')), args, 'args-' + cause, 'a refused request (%s) changed its arguments' % cause)
    if pos is not None:
        expect(re.search(r'(?<!\d)%d(?!\d)' % pos, text) is not None, 'position-' + cause, 'the refusal (%s) does not name position %d: %s' % (cause, pos, text))
        rec.count('position-named')
    rec.ev(4)
    rec.count('refused')
    rec.count('cause:' + cause)
    rec.feat(cause, raised, pos, shape)


def episode(ctx):
    r = ctx.rng
    s = ct.scene(r, nin=r.choice((1, 2, 3, 4, 12)), bits=4, long_ok=False)
    cause = CAUSES[ctx.index % len(CAUSES)]
    if cause in ('immutable', 'wrong-tx'):
        from bitcointx.core import CTransaction, CMutableTransaction
        import elementstx.core as core
        kw = ct.request(s, r)
        if cause == 'immutable':
            # wherever the entry point is, an immutable transaction is not blinded
            t = B.lib_tx(s['tx'], mutable=False, parts_mutable=False)
            before = ct.snapshot(t)
            try:
                res = core.blind_transaction(t, **kw)
                expect(res.ok is False, 'accepted-immutable', 'an immutable transaction was blinded')
            except Exception as e:
                expect(str(e), 'no-text-immutable', 'the refusal has no text')
            same(ct.snapshot(t), before, 'changed-immutable', 'an immutable transaction changed')
            try:
                t.blind(**kw)
                expect(False, 'accepted-immutable', 'an immutable transaction has blind()')
            except (AttributeError, ValueError, TypeError):
                pass
        else:
            for t in (None, b'', s['tx'], B.lib_tx(s['tx'], mutable=True).serialize()):
                try:
                    res = core.blind_transaction(t, **kw)
                    expect(res.ok is False, 'accepted-wrong-tx', 'not a transaction was blinded')
                except Exception as e:
                    expect(str(e), 'no-text-wrong-tx', 'the refusal has no text')
        ctx.rec.ev(2)
        ctx.rec.count('cause:' + cause)
        ctx.rec.count('refused')
        ctx.rec.feat(cause, ct.features(s)[:4])
        return
    over, pos = spoil(r, cause, s)
    s['strict'] = r.random() < .5
    kw = ct.request(s, r if r.random() < .3 and not over else None)
    kw.update(over)
    if pos == -1:
        pos = None
    tx = B.lib_tx(s['tx'], mutable=True)
    refused(ctx, cause, tx, kw, pos, (len(s['ins']), len(s['keys']), s['tx']['winwit'] is not None, s['tx']['woutwit'] is not None))
    ctx.rec.sample(cause=cause, position=pos)


def d_then_fine(ctx):
    """a request that was refused can be repaired and then succeeds on the same object"""
    r = ctx.rng
    z = ct.Z(ctx.native)
    from bitcointx.core.key import CPubKey
    for k in range(70):
        s = ct.scene(r, nin=2, bits=4, long_ok=False)
        tx = B.lib_tx(s['tx'], mutable=True)
        kw = ct.request(s)
        bad = dict(kw, output_pubkeys=[CPubKey(bad_pubkey(r)) if q is not None else CPubKey() for q in s['keys']])
        j = [q is not None for q in s['keys']].index(True)
        refused(ctx, 'bad-pubkey', tx, bad, j, 'then')
        res = tx.blind(**kw)
        expect(res.ok is True, 'after-refusal', 'a valid request after a refused one failed: %s' % res.error)
        m, _ = ct.written(tx)
        if k < 20:
            ct.check_proofs(z, s, m)
            ct.check_balance(s, m)
        # and what is blinded now cannot be blinded again
        again = B.lib_tx(ct.full(m, s['tx']), mutable=True)
        refused(ctx, 'value-not-explicit', again, kw, None, 'again')
        ctx.rec.count('accepted-before')


def d_short_vectors(ctx):
    """witness vectors that end before the inputs or outputs do: a proof that is in place is seen all the same"""
    r = ctx.rng
    for k in range(60):
        s = ct.scene(r, nin=r.choice((2, 3, 5)), nout=r.choice((2, 4)), bits=4, long_ok=False)
        nin, nout = len(s['ins']), len(s['keys'])
        a = b = 0
        if k % 3:
            i = r.randrange(nin)
            n = k % 2
            mkissuance(r, s, i, True, True)
            s['iss'][i] = r.choice((((ct.scalar(r), None), (None, ct.scalar(r)))[n], (ct.scalar(r), ct.scalar(r))))
            s['tx']['winwit'] = [dict(C.NULL_INWIT) for _ in s['ins']]
            s['tx']['winwit'][i][('amount_proof', 'keys_proof')[n]] = r.randbytes(r.choice((1, 5, 3000)))
            a, pos, cause = r.randrange(i + 1, nin + 1), i, 'issuance-proof'
        else:
            pos, cause = r.choice([j for j, q in enumerate(s['keys']) if q is not None]), 'witness-in-place'
            s['tx']['woutwit'] = [dict(C.NULL_OUTWIT) for _ in s['keys']]
            s['tx']['woutwit'][pos] = r.choice(({'surj': b'', 'range': b'\x01'}, {'surj': b'\x01', 'range': b''}))
            b = r.randrange(pos + 1, nout + 1)
        tx = B.lib_tx(s['tx'], mutable=True)
        if a:
            del tx.wit.vtxinwit[a:]
        if b:
            del tx.wit.vtxoutwit[b:]
        refused(ctx, cause, tx, ct.request(s), pos, ('short', a < nin, b < nout), ct.state)
        ctx.rec.count('short')


DIRECTED = [d_then_fine, d_short_vectors]
