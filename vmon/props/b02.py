"""B02: the recipient recovers what was sent."""
from vmon import ct, gen, bridge as B
from vmon.rec import expect, same
from vmon.ref import ec

NATIVE = True
RULE = """Evaluation = one field (amount, asset, either factor) of one recovered output compared with what was sent, with what the sender was
told, and with the commitments by Python EC arithmetic.  Every blinded output of random scenes is recovered from the object that was
blinded, from its immutable form and from its bytes read back, under any chain; recovered descriptors are spent in a second blinding.
Distinct = (script class and length class, amount class, precision, form, chain)."""
QUICK = 420
REQUIRED = {'recovered': 1500, 'respent': 60, 'max-money': 8, 'long-script': 15, 'unspendable-script': 30, 'zero-amount': 20, 'siblings': 25, 'foreign': 50}


def setup(ctx):
    ctx.data['z'] = ct.Z(ctx.native)


def kind(s):
    if s[:1] == b'\x6a':
        return 'return'
    if len(s) > 10000:
        return 'oversize'
    return ('w', len(s)) if len(s) in (22, 34) else min(len(s).bit_length(), 12)


def recovered(ctx, s, j, un, m, res, form):
    rec = ctx.rec
    o = s['tx']['vout'][j]
    v = int.from_bytes(o['value'][1:], 'big')
    expect(un.ok is True, 'not-recovered', 'output %d is not recovered by its holder (%s): %s' % (j, form, un.error), scene=s)
    same(un.amount, v, 'amount', 'a wrong amount was recovered')
    same(bytes(un.asset.data), o['asset'][1:], 'asset', 'a wrong asset was recovered')
    bf, abf = bytes(un.blinding_factor.data), bytes(un.asset_blinding_factor.data)
    same((bf, abf), (bytes(res.blinding_factors[j].data), bytes(res.asset_blinding_factors[j].data)), 'factors',
         'the recovered factors are not those told to the sender')
    g = ec.blinded_generator(o['asset'][1:], abf)
    same(m['vout'][j]['asset'], ec.ser_square(g, 10), 'asset-opening', 'the recovered factor does not open the asset commitment')
    same(m['vout'][j]['value'], ec.ser_square(ec.commitment(v, g, bf), 8), 'value-opening', 'the recovered factors do not open the value commitment')
    rec.ev(6)
    rec.count('recovered')
    rec.count('max-money', v == ct.MONEY)
    rec.count('zero-amount', v == 0)
    rec.count('long-script', len(o['script']) > 500)
    rec.count('unspendable-script', ct.unspendable(o['script']))
    rec.feat(kind(o['script']), v.bit_length(), s['bits'], form)


def episode(ctx):
    from bitcointx import ChainParams
    from bitcointx.core.key import CKey
    r = ctx.rng
    s = ct.scene(r, bits=ct.small(r), issuances=.15, nin=r.choice((1, 1, 2, 3)))
    if r.random() < .08:                 # one output of the maximum
        s['bits'] = s['exp'] = None
        j = r.choice([j for j, k in enumerate(s['keys']) if k is not None])
        i = r.randrange(len(s['ins']))
        s['tx']['vout'][j]['value'] = ct.val(ct.MONEY)
    res, tx = ct.must(s, r)
    m = ct.full(B.m_tx(tx), s['tx'])
    back_m, back = ct.written(tx)
    same(ct.full(back_m, s['tx']), m, 'read-back', 'the blinded transaction read back differs')
    imm = tx.to_immutable()
    for j, k in enumerate(s['keys']):
        if k is None:
            continue
        forms = [('mutable', tx), ('read back', back), ('immutable', imm)]
        for form, t in r.sample(forms, 2):
            with ChainParams(r.choice(('elements', 'elements', 'elements/liquidv1'))):
                un = t.vout[j].unblind_confidential_pair(CKey(k), t.wit.vtxoutwit[j].rangeproof)
            recovered(ctx, s, j, un, m, res, form)
    if r.random() < .25:
        respend(ctx, s, tx, m)
    ctx.rec.sample(outputs=len(s['keys']), bits=s['bits'])


def respend(ctx, s, tx, m):
    """spend a recovered output, by what was recovered alone"""
    r = ctx.rng
    for j, k in enumerate(s['keys']):
        if k is None:
            continue
        un = ct.unblind(m, j, k)
        d = un.get_descriptor()
        if d.amount < 2:
            continue
        in_ = {'asset': bytes(d.asset.data), 'amount': d.amount, 'bf': bytes(d.blinding_factor.data), 'abf': bytes(d.asset_blinding_factor.data)}
        x = r.randrange(1, d.amount)
        outs = [{'asset': b'\x01' + in_['asset'], 'value': ct.val(v), 'nonce': b'', 'script': ct.spend_script(r)} for v in (x, d.amount - x)]
        for o in outs:
            if o['script'][:1] == b'\x6a':
                o['script'] = b'\x51'
        s2 = {'tx': {'version': 2, 'vin': [{'hash': bytes(tx.GetTxid()), 'n': j, 'script': b'', 'seq': 0, 'issuance': None, 'pegin': False}],
                     'vout': outs, 'locktime': 0, 'winwit': None, 'woutwit': None}, 'ins': [in_], 'keys': [ct.scalar(r), ct.scalar(r)],
              'iss': [(None, None)], 'aux': None, 'strict': True, 'exp': 0, 'bits': 8}
        tx2 = B.lib_tx(s2['tx'], mutable=True)
        kw = ct.request(s2)
        kw['input_descriptors'] = [d]
        res = tx2.blind(**kw)
        expect(res.ok is True, 'respend', 'the recovered data was refused for blinding a spend: %s' % res.error)
        m2 = ct.full(B.m_tx(tx2), s2['tx'])
        # the spent output itself, as in the first transaction, is what the second has to balance with
        p = ec.par_square(m['vout'][j]['value'], 8)
        outs = [ec.neg(ct.point_of_value(o['value'], ct.gen_of_asset(o['asset']))) for o in m2['vout']]
        expect(ec.add(p, *outs) is None, 'respend-unbalanced', 'a spend of the recovered output does not balance with it')
        z = ctx.data['z']
        for q, o in enumerate(m2['vout']):
            expect(z.surj_verify([m['vout'][j]['asset']], o['asset'], m2['woutwit'][q]['surj']), 'respend-surjection',
                   'surjection proof of a spend does not verify against the spent output')
            recovered(ctx, s2, q, ct.unblind(m2, q, s2['keys'][q]), m2, res, 'respent')
        ctx.rec.count('respent')
        ctx.rec.ev(3)


def d_scripts(ctx):
    """script lengths around every boundary"""
    r = ctx.rng
    for n in (1, 2, 33, 34, 35, 75, 76, 252, 253, 254, 255, 256, 519, 520, 521, 9999, 10000, 10001, 65535, 65536, 100000):
        s = ct.scene(r, nin=1, nout=2, issuances=0, explicit_in=0, blind=True, bits=8, zero=0)
        for o, k in zip(s['tx']['vout'], s['keys']):
            if k is not None:
                o['script'] = b'\x51' + gen.nbytes(r, n - 1)
        res, tx = ct.must(s, r)
        m, _ = ct.written(tx)
        m = ct.full(m, s['tx'])
        for j, k in enumerate(s['keys']):
            if k is not None:
                recovered(ctx, s, j, ct.unblind(m, j, k), m, res, 'length')


def d_money(ctx):
    r = ctx.rng
    for v in (1, 2, 3, 2 ** 32 - 1, 2 ** 32, 2 ** 50, ct.MONEY - 1, ct.MONEY):
        for bits in (None, 3, 36, 51):
            s = ct.scene(r, nin=1, nout=1, issuances=0, explicit_in=0, blind=True, bits=bits, zero=0, fee=False)
            s['tx']['vout'] = [dict(s['tx']['vout'][0], value=ct.val(v), script=b'\x51'),
                               dict(s['tx']['vout'][0], value=ct.val(0), script=b'\x6a')]
            s['tx']['woutwit'] = None
            s['keys'] = [ct.scalar(r), ct.scalar(r)]
            s['ins'][0]['amount'] = v
            res, tx = ct.must(s, r)
            m = ct.full(B.m_tx(tx), s['tx'])
            for j, k in enumerate(s['keys']):
                recovered(ctx, s, j, ct.unblind(m, j, k), m, res, 'money')


def d_keys(ctx):
    """blinding keys of every class and edge values of the secret"""
    from bitcointx.core.key import CKey, CPubKey
    from bitcointx.wallet import CCoinKey
    r = ctx.rng
    for sec in (1, 2, 3, ct.N - 1, ct.N - 2, 1 << 255, 0xffffffff):
        sec = sec.to_bytes(32, 'big')
        s = ct.scene(r, nin=1, nout=2, issuances=0, explicit_in=0, blind=True, bits=8, zero=0)
        s['keys'] = [None if k is None else sec for k in s['keys']]
        res, tx = ct.must(s, r)
        m = ct.full(B.m_tx(tx), s['tx'])
        for j, k in enumerate(s['keys']):
            if k is None:
                continue
            for key in (CKey(sec), CKey.from_secret_bytes(sec), CCoinKey.from_secret_bytes(sec), CKey.from_secret_bytes(sec, compressed=False)):
                un = tx.vout[j].unblind_confidential_pair(key, bytearray(m['woutwit'][j]['range']))
                recovered(ctx, s, j, un, m, res, type(key).__name__)
    # uncompressed public keys
    s = ct.scene(r, nin=1, nout=2, issuances=0, explicit_in=0, blind=True, bits=8, zero=0)
    pk = [CPubKey() if k is None else CKey.from_secret_bytes(k, compressed=False).pub for k in s['keys']]
    res, tx = ct.blind(s, output_pubkeys=pk)
    expect(res.ok is True, 'uncompressed', 'an uncompressed key was refused: %s' % res.error)
    m = ct.full(B.m_tx(tx), s['tx'])
    for j, k in enumerate(s['keys']):
        if k is not None:
            recovered(ctx, s, j, ct.unblind(m, j, k), m, res, 'uncompressed')


def d_siblings(ctx):
    """transactions that differ in one thing each, from the same random source"""
    def audit(s, res, tx, draws, seen):
        m = ct.full(B.m_tx(tx), s['tx'])
        for j, k in enumerate(s['keys']):
            if k is not None:
                recovered(ctx, s, j, ct.unblind(m, j, k), m, res, 'sibling')
    ct.same_source(ctx, audit, 3)


def d_foreign(ctx):
    """outputs as another wallet makes them, committed to the whole script; and the same under a script that differs at its end only"""
    from bitcointx.core.key import CKey
    r, rec, z = ctx.rng, ctx.rec, ctx.data['z']
    core = B.L()
    for n in (1, 22, 34, 75, 76, 252, 253, 255, 256, 519, 520, 521, 600, 4096, 9999, 10000, 10001, 65536):
        for v in (1, 5000, ct.MONEY):
            script = b'\x51' + gen.nbytes(r, n - 1)
            asset, abf, bf, key, eph = r.randbytes(32), ct.scalar(r), ct.scalar(r), ct.scalar(r), ct.scalar(r)
            nonce = ec.ser(ec.mul(int.from_bytes(eph, 'big')))
            made = z.make(asset, abf, v, bf, ct.nonce_for(eph, ct.pub(key)), script, asset + abf, bits=r.choice((8, 52)))
            expect(made is not None, 'make', 'the output could not be made (harness)')
            a33, v33, proof = made
            o = core.CElementsTxOut(core.CConfidentialValue(v33), B.lib_script(script), core.CConfidentialAsset(a33), core.CConfidentialNonce(nonce))
            un = o.unblind_confidential_pair(CKey(key), proof)
            expect(un.ok is True, 'foreign', 'an output of another wallet with a script of %d bytes is not recovered: %s' % (n, un.error), amount=v)
            same((un.amount, bytes(un.asset.data), bytes(un.blinding_factor.data), bytes(un.asset_blinding_factor.data)), (v, asset, bf, abf), 'foreign-data',
                 'an output of another wallet is recovered wrong', script_length=n)
            for other in (script[:-1] + bytes([script[-1] ^ 1]), script + b'\x51', script[:-1]):
                o2 = core.CElementsTxOut(core.CConfidentialValue(v33), B.lib_script(other), core.CConfidentialAsset(a33), core.CConfidentialNonce(nonce))
                expect(o2.unblind_confidential_pair(CKey(key), proof).ok is False, 'foreign-script', 'an output is recovered under a script it was not made for', script_length=n)
            rec.ev(7)
            rec.count('foreign')


DIRECTED = [d_foreign, d_scripts, d_money, d_keys, d_siblings]
