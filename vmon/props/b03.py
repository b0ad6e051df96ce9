"""B03: frame and counts of blinding."""
from vmon import ct, gen, bridge as B
from vmon.rec import expect, same
from vmon.ref import codec as C, ec

NATIVE = True
RULE = """Evaluation = one part of the transaction (input field, issuance field, output, witness) compared before and after, or one reported
count compared with the number of parts that are really blinded (commitment and verifying proof in place).  Scenes of all kinds, plus ones
that cannot be done completely: outputs whose asset no input has, a single blinded output without a blinded input, issuances alone,
issuance keys where nothing can be blinded; both strict and not.  Distinct = scene features x outcome."""
QUICK = 500
REQUIRED = {'complete': 350, 'incomplete-strict': 50, 'incomplete-loose': 45, 'loose-complete': 60, 'part-kept': 1500, 'part-blinded': 500, 'witness-kept': 150, 'short-inwit': 20, 'short-outwit': 15, 'cancelling': 20, 'many-inputs': 8, 'between': 12, 'lone': 24}


def setup(ctx):
    ctx.data['z'] = ct.Z(ctx.native)


def really(z, s, m):
    """parts that are blinded for good: commitment in place and proofs verify"""
    outs, iss = set(), set()
    tg, _ = ct.targets(s)
    for j, o in enumerate(m['vout']):
        w = m['woutwit'][j]
        if s['keys'][j] is not None and o['value'][:1] in (b'\x08', b'\x09') and w['range'] and w['surj'] \
                and z.range_verify(o['value'], o['asset'], o['script'], w['range']) and z.surj_verify(tg, o['asset'], w['surj']):
            outs.add(j)
    for i, x in enumerate(m['vin']):
        if x['issuance'] is None:
            continue
        for n, f, p in ((0, 'amount', 'amount_proof'), (1, 'keys', 'keys_proof')):
            if s['iss'][i][n] and x['issuance'][f][:1] in (b'\x08', b'\x09') and m['winwit'][i][p]:
                tag = ct.issued(s['tx']['vin'][i], s['iss'][i])[n]
                if tag and z.range_verify(x['issuance'][f], b'\x01' + tag, b'', m['winwit'][i][p]):
                    iss.add((i, f))
    return outs, iss


def judge(ctx, s, r=None, tx=None):
    """any outcome, judged"""
    rec, z = ctx.rec, ctx.data['z']
    try:
        res, tx = ct.blind(s, r, None, tx)
    except Exception as e:
        expect(False, 'raised', 'blinding raised %s: %s' % (type(e).__name__, e), scene=s)
    m, _ = ct.written(tx)
    m = ct.full(m, s['tx'])
    ct.check_frame(s, m)
    outs, iss = really(z, s, m)
    want = ct.n_requested(s)
    if not res.ok:
        expect(s['strict'], 'loose-failed', 'a valid request failed without strict mode: %s' % res.error, scene=s)
        expect(len(outs) + len(iss) != want, 'strict-refused', 'everything was blinded, but failure is reported: %s' % res.error, scene=s)
        rec.count('incomplete-strict')
    else:
        same(res.num_successfully_blinded, len(outs) + len(iss), 'count', 'the reported number is not that of the parts really blinded', scene=s)
        if s['strict']:
            same(res.num_successfully_blinded, want, 'strict', 'strict success, but not everything requested was blinded', scene=s)
        rec.count('complete' if res.num_successfully_blinded == want else 'incomplete-loose')
        rec.count('loose-complete', not s['strict'] and res.num_successfully_blinded == want)
    rec.ev(3 + len(m['vin']) * 8 + len(m['vout']) * 3)
    rec.count('part-kept', len(m['vin']) + len(m['vout']) - len(outs))
    rec.count('part-blinded', len(outs) + len(iss))
    rec.count('witness-kept', s['tx']['winwit'] is not None)
    rec.feat(ct.features(s), s['strict'], res.ok, len(outs) + len(iss) == want)
    return res, tx, m, outs, iss


def episode(ctx):
    r = ctx.rng
    s = ct.scene(r, bits=r.choice((3, 4, 8)))
    s['strict'] = r.random() < .6
    k = r.random()
    if k < .2:                                   # an output of an asset that is not there
        c = [j for j, q in enumerate(s['keys']) if q is not None]
        for j in r.sample(c, r.randrange(1, len(c) + 1)):
            s['tx']['vout'][j]['asset'] = b'\x01' + r.randbytes(32)
            s['tx']['woutwit'] = None
    elif k < .3:                                 # only one, nothing to balance with
        s = ct.scene(r, bits=4, issuances=r.choice((0, .8)), explicit_in=1, blinded_in=False, zero=0)
        s['strict'] = r.random() < .5
        s['iss'] = [(None, None)] * len(s['ins'])
        c = [j for j, q in enumerate(s['keys']) if q is not None]
        for j in c[1:]:
            s['keys'][j] = None
    elif k < .4:                                 # issuances alone
        s = ct.scene(r, bits=4, issuances=1)
        s['strict'] = r.random() < .5
        s['keys'] = [None] * len(s['keys'])
    judge(ctx, s, r)
    ctx.rec.sample(requested=ct.n_requested(s), strict=s['strict'])


def d_witness_vectors(ctx):
    """every state of the witness vectors: absent, complete, only one of the two; other witness data is kept"""
    r = ctx.rng
    for k in range(60):
        s = ct.scene(r, bits=4, issuances=.6, nin=3)
        s['tx']['winwit'] = None if k % 2 else [{'amount_proof': b'', 'keys_proof': b'', 'stack': [r.randbytes(5)], 'pegin_stack': []} for _ in s['ins']]
        s['tx']['woutwit'] = None if k % 4 < 2 else [dict(C.NULL_OUTWIT) if q is not None else {'surj': b'\x01', 'range': b'\x02\x03'} for q in s['keys']]
        s['strict'] = bool(k % 3)
        judge(ctx, s, r)


def d_short_vectors(ctx):
    """witness vectors of a mutable transaction that end before the inputs or outputs do: what they have is kept, the rest is made"""
    r = ctx.rng
    for k in range(80):
        s = ct.scene(r, bits=4, nin=r.choice((2, 3, 5)), nout=r.choice((3, 4, 6)), issuances=.5)
        iss = [i for i, q in enumerate(s['iss']) if any(q)]
        out = [j for j, q in enumerate(s['keys']) if q is None]
        nin, nout = len(s['ins']), len(s['keys'])
        s['tx']['winwit'] = s['tx']['woutwit'] = None
        a, b = nin, nout
        if iss and k % 4 != 1:
            # with issuances to blind, the vector is completed by the library itself
            a = r.randrange(1, nin)
            s['tx']['winwit'] = [{'amount_proof': b'', 'keys_proof': b'', 'stack': [r.randbytes(r.choice((0, 5, 72))) for _ in range(r.choice((1, 2)))],
                                  'pegin_stack': r.choice(([], [r.randbytes(4)]))} if i < a else dict(C.NULL_INWIT) for i in range(nin)]
            # a proof of an issuance that is not asked to be blinded
            i = r.randrange(a)
            if s['iss'][i] == (None, None) and s['tx']['vin'][i]['issuance'] is None:
                s['tx']['winwit'][i]['amount_proof'] = r.randbytes(9)
            ctx.rec.count('short-inwit')
        if k % 4 != 2:
            b = r.randrange(1, nout)
            s['tx']['woutwit'] = [{'surj': r.randbytes(3), 'range': r.randbytes(r.choice((1, 40)))} if j in out and j < b else dict(C.NULL_OUTWIT) for j in range(nout)]
            ctx.rec.count('short-outwit', any(j < b for j in out))
        s['strict'] = bool(k % 3)
        tx = B.lib_tx(s['tx'], mutable=True)
        del tx.wit.vtxinwit[a:]
        del tx.wit.vtxoutwit[b:]
        judge(ctx, s, r, tx)


def d_subsets(ctx):
    """every subset of four equal outputs and two issuances"""
    r = ctx.rng
    for mask in range(64):
        s = ct.scene(r, nin=2, nout=4, bits=4, issuances=0, zero=0)
        while len(s['keys']) < 5:
            s = ct.scene(r, nin=2, nout=4, bits=4, issuances=0, zero=0)
        s['tx']['woutwit'] = None
        for i in (0, 1):
            s['tx']['vin'][i]['issuance'] = {'nonce': r.randbytes(32), 'entropy': r.randbytes(32), 'amount': ct.val(1000 + i), 'keys': b''}
            s['iss'][i] = (ct.scalar(r) if mask >> (4 + i) & 1 else None, None)
        n = 0
        for j, o in enumerate(s['tx']['vout']):
            s['keys'][j] = None
            if o['script'] and n < 4:
                s['keys'][j] = ct.scalar(r) if mask >> n & 1 else None
                n += 1
        s['strict'] = mask % 5 > 0
        judge(ctx, s, r)


def d_partial(ctx):
    """a second blinding of what is left keeps what the first one made"""
    r = ctx.rng
    for _ in range(20):
        s = ct.scene(r, nin=2, nout=4, bits=4, issuances=0, explicit_in=0, blind=True, zero=0)
        c = [j for j, q in enumerate(s['keys']) if q is not None]
        if len(c) < 4:
            continue
        first = dict(s, keys=[q if j in c[:2] else None for j, q in enumerate(s['keys'])])
        res, tx = ct.must(first, r)
        m1 = ct.full(B.m_tx(tx), s['tx'])
        second = dict(s, tx=dict(m1), keys=[q if j in c[2:] else None for j, q in enumerate(s['keys'])])
        res, tx, m, outs, iss = judge(ctx, second, r)
        expect(res.ok is True, 'second', 'blinding of the rest failed: %s' % res.error)
        same(len(outs), len(c) - 2, 'second-count', 'the rest was not blinded')


def d_limit(ctx):
    """around the largest number of assets that a surjection proof can choose from: what cannot be proved is not reported as blinded"""
    r = ctx.rng
    for nin in (255, 256, 257, 300):
        for strict in (True, False):
            s = ct.scene(r, nin=nin, nout=2, bits=4, issuances=0)
            s['strict'] = strict
            judge(ctx, s, r)
            ctx.rec.count('many-inputs')


def d_between(ctx):
    """without strict mode an output that cannot be proved does not keep the others from being blinded, wherever it stands"""
    r = ctx.rng
    for k in range(24):
        s = ct.scene(r, nin=2, nout=3, bits=4, issuances=0, explicit_in=0, blind=True, zero=0, aux=False)
        c = [j for j, q in enumerate(s['keys']) if q is not None]
        if len(c) < 3:
            continue
        bad = (c[:1], c[-1:], c[1:2], c[:2], c[1:], [c[0], c[-1]])[k % 6]
        for j in bad:
            s['tx']['vout'][j]['asset'] = b'\x01' + r.randbytes(32)
        s['tx']['woutwit'] = None
        s['strict'] = False
        res, tx, m, outs, iss = judge(ctx, s, r)
        expect(res.ok is True, 'between-refused', 'blinding failed without strict mode: %s' % res.error, scene=s)
        same(sorted(outs), [j for j in c if j not in bad], 'between', 'an output that cannot be proved kept others from being blinded', scene=s, bad=bad)
        ctx.rec.count('between')


def d_cancel(ctx):
    """nothing left to hide: the one output of no amount stays explicit and counts as done; with anything else to hide it is blinded"""
    r, rec = ctx.rng, ctx.rec
    for _ in range(20):
        s = ct.cancelling(r)
        res, tx = ct.must(s, r)
        m = ct.full(ct.written(tx)[0], s['tx'])
        ct.check_frame(s, m, (), ())
        same(res.num_successfully_blinded, 1, 'cancel-count', 'the output with nothing to hide is not counted as done', scene=s)
        same([bytes(x.data) for x in list(res.blinding_factors) + list(res.asset_blinding_factors)], [bytes(32)] * 2 * len(s['keys']), 'cancel-factors',
             'an output that was not blinded has blinding factors', scene=s)
        ct.check_balance(s, m)
        rec.count('cancelling')
        rec.ev(4)
        # the same with an input more, that has something to hide
        i = r.randrange(len(s['ins']) + 1)
        s['ins'].insert(i, {'asset': s['ins'][0]['asset'], 'amount': r.choice((0, 0, 1, 5)), 'bf': ct.scalar(r), 'abf': ct.scalar(r)})
        s['tx']['vin'].insert(i, {'hash': r.randbytes(32), 'n': 7, 'script': b'', 'seq': 0, 'issuance': None, 'pegin': False})
        s['iss'].append((None, None))
        judge(ctx, s, r)


def d_lone_nothing(ctx):
    """a single output, of no amount or of some, with nothing blinded to balance it: it is not blinded, and not reported as blinded"""
    r = ctx.rng
    for k in range(24):
        s = ct.scene(r, nin=1 + k % 3, nout=3, bits=4, issuances=0, explicit_in=1, blinded_in=False, zero=0, aux=False)
        j = r.randrange(len(s['keys']) + 1)
        s['tx']['vout'].insert(j, dict(s['tx']['vout'][0], value=ct.val((0, 0, 5)[k // 2 % 3]), nonce=b'', script=r.choice((b'\x6a', b'\x6a\x01\x02', b'\x51' * 10001))))
        s['keys'] = [ct.scalar(r) if i == j else None for i in range(len(s['tx']['vout']))]
        s['tx']['woutwit'] = None
        s['strict'] = bool(k % 2)
        res, tx, m, outs, iss = judge(ctx, s, r)
        same((len(outs), res.ok), (0, not s['strict']), 'lone', 'a single output with nothing to balance it has another outcome', scene=s)
        ctx.rec.count('lone')


DIRECTED = [d_lone_nothing, d_limit, d_between, d_cancel, d_witness_vectors, d_short_vectors, d_subsets, d_partial]
