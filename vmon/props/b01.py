"""B01: balance, proofs and openings of blinded transactions."""
from vmon import ct
from vmon.rec import expect, same

NATIVE = True
RULE = """Evaluation = one proof verified, one commitment opened or one balance equation over curve points, for a transaction blinded by
the real code.  Scenes: 1-4 (directed: up to 40) inputs, explicit, fully blinded and half blinded; 1-3 assets; fees; issuances and
reissuances, blinded or not; any subset of outputs blinded; all kinds of scripts up to 30000 bytes; amounts from 1 to the maximum;
proofs of 3 to 52 bits.  Balance and openings are computed by a Python EC implementation, proofs are verified through a separate binding.
Distinct = (counts, kinds of inputs, issuances, keys, scripts, precision, witnesses present)."""
QUICK = 420
REQUIRED = {'balanced': 227, 'range-proofs': 600, 'surjection-proofs': 600, 'openings': 600, 'issuance-proofs': 60, 'mixed-inputs': 60, 'multi-asset': 100, 'refused-as-due': 30, 'siblings': 25, 'zero-inputs': 25}
ASSUMPTIONS = ['the native library is the stand-in native/zkp.c, byte-exact on the recorded Elements Core blindings (B16)']


def setup(ctx):
    ctx.data['z'] = ct.Z(ctx.native)


def audit(ctx, s, res, tx):
    z, rec = ctx.data['z'], ctx.rec
    m, _ = ct.written(tx)
    m = ct.full(m, s['tx'])
    same(res.num_successfully_blinded, ct.n_requested(s), 'count', 'wrong number of blinded parts reported')
    ct.check_proofs(z, s, m, rec)
    ct.check_openings(s, m, res, rec)
    ct.check_balance(s, m)
    rec.ev()
    rec.count('balanced')
    k = {(any(d['bf']), any(d['abf'])) for d in s['ins']}
    rec.count('mixed-inputs', len(k) > 1)
    rec.count('multi-asset', len({o['asset'] for o in s['tx']['vout']}) > 1)
    rec.feat(*ct.features(s))
    rec.sample(inputs=len(s['ins']), outputs=len(s['keys']), blinded=res.num_successfully_blinded, bits=s['bits'])
    return m


def episode(ctx):
    r = ctx.rng
    s = ct.scene(r, bits=ct.small(r))
    res, tx = ct.must(s, r, ct.Draws(r.randbytes(8)) if r.random() < .5 else None)
    audit(ctx, s, res, tx)


def d_many(ctx):
    r = ctx.rng
    for nin, nout in ((40, 1), (1, 30), (20, 20), (256, 1), (255, 3), (2, 257)):
        s = ct.scene(r, nin=nin, nout=nout, bits=4, issuances=.1 if nin < 100 else 0)
        res, tx = ct.must(s, r)
        audit(ctx, s, res, tx)


def d_chain(ctx):
    """outputs of one blinded transaction are spent by the next, and so on; what was recovered is what is spent"""
    r = ctx.rng
    from vmon import bridge as B
    for _ in range(4):
        s = ct.scene(r, bits=8, nin=2, issuances=.5, zero=0)
        for step in range(4):
            res, tx = ct.must(s, r)
            m = audit(ctx, s, res, tx)
            ins, vin = [], []
            txid = bytes(tx.GetTxid())
            for j, o in enumerate(m['vout']):
                u = s['tx']['vout'][j]
                v = int.from_bytes(u['value'][1:], 'big')
                if not o['script'] or v == 0:
                    continue
                if s['keys'][j] is None:
                    ins.append({'asset': u['asset'][1:], 'amount': v, 'bf': bytes(32), 'abf': bytes(32)})
                else:
                    un = ct.unblind(m, j, s['keys'][j])
                    expect(un.ok is True, 'unblind', 'output %d cannot be unblinded: %s' % (j, un.error))
                    d = un.get_descriptor()
                    ins.append({'asset': bytes(d.asset.data), 'amount': d.amount, 'bf': bytes(d.blinding_factor.data), 'abf': bytes(d.asset_blinding_factor.data)})
                vin.append({'hash': txid, 'n': j, 'script': b'', 'seq': 0, 'issuance': None, 'pegin': False})
            t, vout, keys = {}, [], []
            for d in ins:
                t[d['asset']] = t.get(d['asset'], 0) + d['amount']
            for a, v in t.items():
                while v:
                    x = r.randrange(1, v + 1)
                    v -= x
                    if len(vout) > 12:
                        x, v = x + v, 0
                    vout.append({'asset': b'\x01' + a, 'value': ct.val(x), 'nonce': b'', 'script': b'\x00\x14' + r.randbytes(20)})
                    keys.append(ct.scalar(r) if r.random() < .7 or len(keys) < 2 else None)
            s = {'tx': {'version': 2, 'vin': vin, 'vout': vout, 'locktime': 0, 'winwit': None, 'woutwit': None}, 'ins': ins, 'keys': keys,
                 'iss': [(None, None)] * len(vin), 'aux': None, 'strict': True, 'exp': 0, 'bits': 8}
            ctx.rec.count('chained')


def d_lonely_keys(ctx):
    """keys for issuances that are not there: either refused, or the result balances"""
    r = ctx.rng
    from bitcointx.core.key import CKey
    for i in range(12):
        s = ct.scene(r, bits=4, issuances=0, nin=3, min_blind=2)
        for over in ('blind_issuance_asset_keys', 'blind_issuance_token_keys'):
            ks = [None] * 3
            ks[i % 3] = CKey(ct.scalar(r))
            for strict in (True, False):
                try:
                    res, tx = ct.blind(s, r, **{over: ks, 'is_blind_success_strict': strict})
                except Exception:
                    ctx.rec.count('refused-as-due')
                    continue
                if res.ok:
                    m, _ = ct.written(tx)
                    ct.check_balance(s, m)
                ctx.rec.count('refused-as-due')
                ctx.rec.ev()


def d_amounts(ctx):
    """each boundary amount, alone, among others, with the default precision"""
    r = ctx.rng
    for v in (1, 2, 3, 4, 5, 2 ** 16, 2 ** 32 - 1, 2 ** 32, 2 ** 51 - 1, 2 ** 50 + 1, ct.MONEY - 1, ct.MONEY):
        s = ct.scene(r, nin=1, nout=1, issuances=0, explicit_in=0, blind=True, bits=8, zero=0, fee=False)
        d = s['ins'][0]
        d['amount'] = v
        s['tx']['vout'] = [dict(s['tx']['vout'][0], value=ct.val(v))]
        s['keys'] = s['keys'][:1]
        s['tx']['woutwit'] = None
        if v > 10 ** 6:
            s['bits'] = s['exp'] = None
        res, tx = ct.must(s, r)
        audit(ctx, s, res, tx)


def d_siblings(ctx):
    """transactions that differ in one thing each, from the same random source"""
    ct.same_source(ctx, lambda s, res, tx, draws, seen: audit(ctx, s, res, tx), 3)


def d_zero_inputs(ctx):
    """inputs of no amount: their factors count all the same; and factors that leave nothing to hide"""
    r = ctx.rng
    for _ in range(25):
        s = ct.scene(r, bits=4, issuances=.2)
        i = r.randrange(len(s['ins']) + 1)
        z = bytes(32)
        bf, abf = r.choice(((1, 1), (1, 1), (0, 1), (1, 0)))
        s['ins'].insert(i, {'asset': r.choice((s['ins'][0]['asset'], r.randbytes(32))), 'amount': 0, 'bf': ct.scalar(r) if bf else z, 'abf': ct.scalar(r) if abf else z})
        s['tx']['vin'].insert(i, {'hash': r.randbytes(32), 'n': 7, 'script': b'', 'seq': 0, 'issuance': None, 'pegin': False})
        s['iss'].insert(i, (None, None))
        if s['tx']['winwit'] is not None:
            s['tx']['winwit'].insert(i, {'amount_proof': b'', 'keys_proof': b'', 'stack': [], 'pegin_stack': []})
        res, tx = ct.must(s, r)
        audit(ctx, s, res, tx)
        ctx.rec.count('zero-inputs')
    for _ in range(10):
        s = ct.cancelling(r)
        res, tx = ct.must(s, r)
        ct.check_balance(s, ct.full(ct.written(tx)[0], s['tx']))


DIRECTED = [d_zero_inputs, d_many, d_chain, d_lonely_keys, d_amounts, d_siblings]
