"""B11: outcome objects."""
import copy
import pickle

from vmon import ct, gen, bridge as B
from vmon.rec import expect, same

NATIVE = True
TECHNIQUE = 'assertions on every outcome object produced by blinding and unblinding workloads, valid and failing, and on direct construction'
RULE = """Evaluation = one fact about one outcome object: exactly one of success and failure; error text empty exactly for success; truth value
refused in every boolean context; all data present and of the documented types; factor lists as long as the outputs, zero exactly for those
not blinded; descriptors carry the same fields and blind a spend.  Outcomes come from random blindings (strict or not, complete, partial and
refused), from unblinding of honest and hostile outputs, and from direct construction with each field replaced by each wrong type.
Distinct = (kind of outcome, reason, sizes)."""
QUICK = 500
REQUIRED = {'blind-success': 300, 'blind-failure': 200, 'unblind-success': 400, 'unblind-failure': 800, 'partial': 40, 'bad-construction': 32, 'respent': 100, 'truth': 1500}


def setup(ctx):
    ctx.data['z'] = ct.Z(ctx.native)


def truth(ctx, o):
    for f in (bool, lambda x: not x, lambda x: 1 if x else 2, lambda x: x and 1, lambda x: x or 1, lambda x: [i for i in (1,) if x],
              lambda x: all([x]), lambda x: any([x])):
        try:
            f(o)
        except TypeError:
            continue
        expect(False, 'truth', 'an outcome (%s) has a truth value' % type(o).__name__)
    ctx.rec.ev(8)
    ctx.rec.count('truth')


def outcome(ctx, o, good, bad, others):
    """common to all; true if success"""
    truth(ctx, o)
    expect(isinstance(o, good) != isinstance(o, bad), 'kind', 'an outcome is a %s' % type(o).__name__)
    for c in others:
        expect(not isinstance(o, c), 'kind', 'a %s passes as a %s' % (type(o).__name__, c.__name__))
    e, k = o.error, o.ok
    expect(type(e) is str, 'error-type', 'error text is a %s' % type(e).__name__)
    expect(k is True or k is False, 'ok-type', 'ok is %r' % k)
    same(k, isinstance(o, good), 'ok', 'ok is %r for a %s' % (k, type(o).__name__))
    same(e == '', k, 'error-empty', 'error text %r for ok=%r' % (e, k))
    if not k:
        expect(e.strip() and '%d' not in e and '%s' not in e and '{' not in e, 'error-text', 'error text %r' % e)
        expect(e in str(o), 'error-str', 'the text form %r of a failure does not tell the reason' % str(o))
        expect(not isinstance(o, tuple) and not hasattr(o, 'blinding_factors') and not hasattr(o, 'amount'), 'failure-data', 'a failure carries data')
        # the outcome is stable
    for _ in range(2):
        same((o.error, o.ok), (e, k), 'unstable', 'an outcome changed when looked at')
    expect(repr(o) and str(o), 'text', 'an outcome has no text form')
    ctx.rec.ev(8)
    return k


def zero(u):
    return not any(bytes(u.data))


def blinding(ctx, s, res, tx):
    core = B.L()
    from bitcointx.core import Uint256
    rec = ctx.rec
    k = outcome(ctx, res, core.BlindingSuccess, core.BlindingFailure, (core.UnblindingSuccess, core.UnblindingFailure))
    if not k:
        rec.count('blind-failure')
        rec.feat('failure', ''.join(c for c in res.error if not c.isdigit()))
        return k
    rec.count('blind-success')
    expect(type(res.num_successfully_blinded) is int, 'count-type', 'the count is a %s' % type(res.num_successfully_blinded).__name__)
    same(tuple(res), (res.num_successfully_blinded, res.blinding_factors, res.asset_blinding_factors), 'tuple', 'fields do not agree with the tuple')
    for name, l in (('value', res.blinding_factors), ('asset', res.asset_blinding_factors)):
        same(len(l), len(s['keys']), 'length', 'wrong number of %s factors' % name)
        for j, x in enumerate(l):
            expect(isinstance(x, Uint256), 'factor-type', '%s factor %d is a %s' % (name, j, type(x).__name__))
            if s['keys'][j] is None:
                expect(zero(x), 'factor-not-zero', '%s factor of output %d, which was not blinded, is not zero' % (name, j))
            else:
                expect(not zero(x), 'factor-zero', '%s factor of output %d, which was blinded, is zero' % (name, j))
            rec.ev()
    rec.feat('success', len(s['keys']), res.num_successfully_blinded, s['strict'])
    return k


def unblinding(ctx, un):
    core = B.L()
    from bitcointx.core import Uint256
    rec = ctx.rec
    k = outcome(ctx, un, core.UnblindingSuccess, core.UnblindingFailure, (core.BlindingSuccess, core.BlindingFailure))
    if not k:
        rec.count('unblind-failure')
        rec.feat('unblind-failure', un.error)
        return
    rec.count('unblind-success')
    expect(type(un.amount) is int and isinstance(un.asset, core.CAsset) and isinstance(un.blinding_factor, Uint256) and isinstance(un.asset_blinding_factor, Uint256),
           'unblind-types', 'a field of an unblinding has a wrong type')
    d = un.get_descriptor()
    expect(isinstance(d, core.BlindingInputDescriptor), 'descriptor', 'the descriptor is a %s' % type(d).__name__)
    same((d.asset, d.amount, d.blinding_factor, d.asset_blinding_factor), (un.asset, un.amount, un.blinding_factor, un.asset_blinding_factor),
         'descriptor', 'a descriptor differs from the unblinding it comes from')
    same(tuple(un), (un.asset, un.amount, un.blinding_factor, un.asset_blinding_factor), 'tuple', 'fields do not agree with the tuple')
    expect(un.get_descriptor() == d, 'descriptor', 'the descriptor changes')
    rec.ev(5)
    return d


def episode(ctx):
    from bitcointx.core.key import CKey
    r, rec = ctx.rng, ctx.rec
    s = ct.scene(r, bits=3, issuances=.2, long_ok=False)
    k = r.random()
    if k < .15:
        s['strict'] = False
    elif k < .35:
        # an output of an asset that no input has: skipped
        js = [j for j, x in enumerate(s['keys']) if x is not None]
        j = r.choice(js)
        a = s['tx']['vout'][j]['asset']
        s['tx']['vout'][j]['asset'] = b'\x01' + r.randbytes(32)
        s['strict'] = r.random() < .3
        rec.count('partial')
    elif k < .4:
        # nothing to blind
        s['keys'] = [None] * len(s['keys'])
        s['iss'] = [(None, None)] * len(s['iss'])
    elif k < .5:
        # one explicit input, one output: not possible
        s = ct.scene(r, nin=1, nout=2, bits=3, issuances=0, explicit_in=1, long_ok=False)
        first = [j for j, x in enumerate(s['keys']) if x is not None][0]
        s['keys'] = [x if j == first else None for j, x in enumerate(s['keys'])]
        s['strict'] = r.random() < .5
    res, tx = ct.blind(s, r)
    if k >= .4 and k < .5 and not s['strict']:
        # success with nothing blinded: all factors zero
        outcome(ctx, res, B.L().BlindingSuccess, B.L().BlindingFailure, ())
        same(res.num_successfully_blinded, 0, 'count-nothing', 'nothing can have been blinded')
        expect(all(zero(x) for l in (res.blinding_factors, res.asset_blinding_factors) for x in l), 'factors-nothing', 'factors although nothing was blinded')
        same((len(res.blinding_factors), len(res.asset_blinding_factors)), (len(s['keys']),) * 2, 'length', 'wrong number of factors')
    else:
        blinding(ctx, s, res, tx)
    if res.ok:
        m = ct.full(B.m_tx(tx), s['tx'])
        ds = []
        for j, key in enumerate(s['keys']):
            if key is None:
                continue
            p = m['woutwit'][j]['range']
            if not p:
                continue
            d = unblinding(ctx, ct.unblind(m, j, key))
            if d is not None:
                ds.append((d, j))
            o = m['vout'][j]
            for out, kk, pp in ((o, ct.scalar(r), p), (o, key, b''), (o, key, p[:-1]), (dict(o, value=ct.val(3)), key, p), (dict(o, value=b''), key, p),
                                (dict(o, asset=b''), key, p), (dict(o, asset=b'\x0a' + b'\xff' * 32), key, p), (dict(o, nonce=b'\x02' + b'\xff' * 32), key, p),
                                (dict(o, value=b'\x08' + b'\xff' * 32), key, p)):
                unblinding(ctx, B.lib_out(out).unblind_confidential_pair(CKey(kk), pp))
        if ds and r.random() < .5:
            respend(ctx, ds)
    bad(ctx, s)
    rec.sample(ok=res.ok, error=res.error)


def respend(ctx, ds):
    """descriptors are accepted as they are"""
    r = ctx.rng
    d, j = r.choice(ds)
    if d.amount < 2:
        return
    a = bytes(d.asset.data)
    s = {'tx': {'version': 2, 'vin': [{'hash': r.randbytes(32), 'n': j, 'script': b'', 'seq': 0, 'issuance': None, 'pegin': False}],
                'vout': [{'asset': b'\x01' + a, 'value': ct.val(v), 'nonce': b'', 'script': b'\x51'} for v in (1, d.amount - 1)], 'locktime': 0, 'winwit': None, 'woutwit': None},
         'ins': [{'asset': a, 'amount': d.amount, 'bf': bytes(d.blinding_factor.data), 'abf': bytes(d.asset_blinding_factor.data)}],
         'keys': [ct.scalar(r), ct.scalar(r)], 'iss': [(None, None)], 'aux': None, 'strict': True, 'exp': 0, 'bits': 3}
    res, tx = ct.blind(s, None, None, None, input_descriptors=r.choice(([d], (d,))))
    expect(res.ok, 'descriptor-refused', 'a descriptor from an unblinding was refused: %s' % res.error)
    ct.check_balance(s, ct.full(B.m_tx(tx), s['tx']))
    ctx.rec.ev()
    ctx.rec.count('respent')


def bad(ctx, s):
    """one of the refusals"""
    r = ctx.rng
    k = r.randrange(4)
    u = dict(s, tx=dict(s['tx'], vout=[dict(o) for o in s['tx']['vout']]), strict=True)
    j = r.randrange(len(u['keys']))
    u['keys'] = [ct.scalar(r) if x == j else q for x, q in enumerate(u['keys'])]
    if k == 0:
        u['tx']['vout'][j]['value'] = b''
    elif k == 1:
        u['tx']['vout'][j]['asset'] = b'\x0a' + r.randbytes(32)
    elif k == 2:
        u['ins'] = [dict(d, asset=bytes(32)) for d in u['ins']]
    elif k == 3:
        u['tx']['vout'][j]['script'] = b''
    res, tx = ct.blind(u)
    same(blinding(ctx, u, res, tx), False, 'bad-accepted', 'a bad request was accepted')


def d_construct(ctx):
    core = B.L()
    from bitcointx.core import Uint256
    from bitcointx import ChainParams
    rec = ctx.rec
    U, A = Uint256(b'\x01' * 32), core.CAsset(b'\x02' * 32)

    def refused(f, *a):
        try:
            o = f(*a)
        except (AssertionError, TypeError, ValueError):
            rec.count('bad-construction')
            rec.ev()
            return
        expect(False, 'bad-construction', '%s was made from %r' % (f.__name__, a))
    for cls in (core.BlindingFailure, core.UnblindingFailure):
        o = cls('some text')
        truth(ctx, o)
        same((o.ok, o.error), (False, 'some text'), 'failure', 'a failure tells %r' % o.error)
        for x in ('', None, b'text', 5, [], ['x'], True, 0):
            refused(cls, x)
        refused(cls)
    bs = [1, [U, U], [U, Uint256()]]
    o = core.BlindingSuccess(*bs)
    truth(ctx, o)
    same((o.ok, o.error, o.num_successfully_blinded), (True, '', 1), 'success', 'success is not')
    for i, wrong in ((0, ('1', None, 1.0, b'1', [1])), (1, (None, [None], [U, None], [b'\x01' * 32], ['x'], [U, 1], 5)), (2, (None, [None], [U, None], [b'\x01' * 32], 5))):
        for w in wrong:
            a = list(bs)
            a[i] = w
            refused(core.BlindingSuccess, *a)
    us = [A, 5, U, U]
    for v in (0, 1, ct.MONEY):
        o = core.UnblindingSuccess(A, v, U, U)
        truth(ctx, o)
        same((o.ok, o.error, o.amount), (True, '', v), 'success', 'success is not')
        same(tuple(o.get_descriptor()), (A, v, U, U), 'descriptor', 'a descriptor differs')
        for a in (A, core.CAsset(), core.CAsset(b'\x01' + bytes(31))):
            for b, c in ((U, Uint256()), (Uint256(), U), (Uint256(), Uint256()), (Uint256(b'\xff' * 32), Uint256(b'\x03' * 32))):
                o = core.UnblindingSuccess(asset=a, amount=v, blinding_factor=b, asset_blinding_factor=c)
                d = o.get_descriptor()
                same(tuple(d), (a, v, b, c), 'descriptor', 'a descriptor differs')
                same((d.asset, d.amount, d.blinding_factor, d.asset_blinding_factor), (a, v, b, c), 'descriptor', 'a field of a descriptor differs')
                same((type(d.asset), type(d.blinding_factor), type(d.asset_blinding_factor)), (core.CAsset, Uint256, Uint256), 'descriptor', 'a field of a descriptor has another type')
                rec.ev()
    for i, wrong in ((0, (None, b'\x02' * 32, U, 'x', 5)), (1, (None, '5', 5.0, -1, ct.MONEY + 1, 2 ** 64, b'5')), (2, (None, b'\x01' * 32, 5, 'x')), (3, (None, b'\x01' * 32, 5, 'x'))):
        for w in wrong:
            a = list(us)
            a[i] = w
            refused(core.UnblindingSuccess, *a)
    # results do not share their lists or zero entries with later results
    r = ctx.rng
    s = ct.scene(r, nin=1, nout=3, issuances=0, bits=3, zero=1)
    a, _ = ct.must(s, None, ct.Draws(b'1'))
    saved = [bytes(x.data) for x in list(a.blinding_factors) + list(a.asset_blinding_factors)]
    ct.must(s, None, ct.Draws(b'2'))
    same([bytes(x.data) for x in list(a.blinding_factors) + list(a.asset_blinding_factors)], saved, 'changed-later', 'a result changed when another was made')
    rec.ev()


DIRECTED = [d_construct]
