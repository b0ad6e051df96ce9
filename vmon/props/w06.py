"""W06: classification and conversion of confidential fields."""
import struct

from vmon import gen, bridge as B
from vmon.rec import same, expect
from vmon.ref import codec as C

RULE = """Evaluation = one field's classification (four predicates), construction outcome, or conversion compared with the definition by length
and prefix; or one output's fee predicate.  The (type, length 0..40, prefix 0..255) grid and the fee grid are complete; contents are random.
Distinct = (type, length, prefix class, how it was made) or (amount class) or (fee grid cell)."""
QUICK = 2500
REQUIRED = {'grid': 20000, 'refused-length': 15000, 'amounts': 3250, 'assets': 2600, 'refused-conversion': 3250, 'fee-true': 20, 'fee-false': 400,
            'read': 4000}

KIND = {'value': (9, (8, 9)), 'asset': (33, (10, 11)), 'nonce': (33, (2, 3))}


def cls(kind):
    c = B.L()
    return {'value': c.CConfidentialValue, 'asset': c.CConfidentialAsset, 'nonce': c.CConfidentialNonce}[kind]


def kindof(kind, b):
    n, pre = KIND[kind]
    if not b:
        return 'null'
    if len(b) == n and b[0] == 1:
        return 'explicit'
    if len(b) == 33 and b[0] in pre:
        return 'commitment'
    return 'invalid'


def classify(ctx, kind, o, b, how):
    k = kindof(kind, b)
    got = (o.is_null(), o.is_explicit(), o.is_commitment(), o.is_valid())
    for g in got:
        expect(isinstance(g, bool), 'type', 'a predicate gives a %s' % type(g).__name__, data=b)
    same(got, (k == 'null', k == 'explicit', k == 'commitment', k != 'invalid'), 'classify', 'a %s field is classified wrong' % kind, data=b, how=how)
    same(bytes(o.commitment), bytes(b), 'content', 'the field does not hold what it was made of', how=how)
    ctx.rec.ev()
    ctx.rec.feat(kind, len(b), b[0] if b and b[0] < 16 else bool(b), k, how)
    return k


def convert(ctx, kind, o, b, k):
    """explicit content is given exactly, anything else is refused"""
    c = B.L()
    if kind == 'nonce':
        return
    f = o.to_amount if kind == 'value' else o.to_asset
    if k == 'explicit':
        v = f()
        if kind == 'value':
            expect(type(v) is int, 'amount-type', 'amount is a %s' % type(v).__name__)
            same(v, struct.unpack('>q', b[1:])[0], 'amount', 'amount is wrong', data=b)
            same(c.CConfidentialValue(v).commitment, bytes(b), 'amount-back', 'amount does not convert back', data=b)
            same(c.CConfidentialValue.from_amount(v), o, 'amount-back', 'amount does not convert back', data=b)
        else:
            expect(type(v) is c.CAsset, 'asset-type', 'asset is a %s' % type(v).__name__)
            same(v.data, bytes(b[1:]), 'asset', 'asset is wrong', data=b)
            same(c.CConfidentialAsset(v).commitment, bytes(b), 'asset-back', 'asset does not convert back', data=b)
            same(c.CConfidentialAsset.from_asset(v), o, 'asset-back', 'asset does not convert back', data=b)
        ctx.rec.count('amounts' if kind == 'value' else 'assets')
    else:
        try:
            v = f()
        except (TypeError, ValueError):
            ctx.rec.count('refused-conversion')
        else:
            expect(False, 'silent-conversion', 'a %s %s was converted to %r' % (k, kind, v), data=b)
    ctx.rec.ev()


def build(ctx, kind, b, how):
    try:
        o = cls(kind)(b)
    except ValueError:
        o = None
    n = KIND[kind][0]
    legal = len(b) in (0, n, 33)
    if not legal:
        expect(o is None, 'length', 'a %s of %d bytes was accepted' % (kind, len(b)), data=b)
        ctx.rec.count('refused-length')
        ctx.rec.ev()
        return
    expect(o is not None, 'refused', 'a %s of %d bytes was refused' % (kind, len(b)), data=b)
    k = classify(ctx, kind, o, b, how)
    convert(ctx, kind, o, b, k)
    if k != 'invalid' and b[:1] != b'\0':
        same(o.serialize(), bytes(b) or b'\0', 'written', 'a %s is written wrong' % kind)
        o2 = cls(kind).deserialize(bytes(b) or b'\0')
        same(classify(ctx, kind, o2, b, 'read'), k, 'read', 'kind after reading')
        expect(o2 == o and hash(o2) == hash(o), 'equal', 'read field differs', data=b)
        ctx.rec.count('read')


def d_grid(ctx):
    for kind in KIND:
        for n in range(41):
            for p in range(256):
                b = (bytes([p]) + ctx.rng.randbytes(n))[:n]
                build(ctx, kind, b if p % 3 else bytearray(b), 'grid')
                ctx.rec.count('grid')
                if n == 0:
                    break


def d_amounts(ctx):
    c = B.L()
    vals = set(gen.I64)
    for k in range(64):
        for d in (-1, 0, 1):
            for s in (1, -1):
                v = s * (2 ** k + d)
                if -2 ** 63 <= v < 2 ** 63:
                    vals.add(v)
    for v in vals:
        for o in (c.CConfidentialValue(v), c.CConfidentialValue.from_amount(v)):
            same(o.to_amount(), v, 'amount', 'amount is not returned as given')
            same(o.commitment, b'\x01' + struct.pack('>q', v), 'amount-form', 'an explicit amount is stored wrong')
            classify(ctx, 'value', o, b'\x01' + struct.pack('>q', v), 'amount')
            ctx.rec.count('amounts')
            ctx.rec.ev()
    for v in (2 ** 63, -2 ** 63 - 1, 2 ** 64, 10 ** 30):
        try:
            o = c.CConfidentialValue(v)
        except Exception:
            ctx.rec.ev()
        else:
            expect(False, 'amount-overflow', 'amount %d was accepted as %r' % (v, o.to_amount()))


def d_types(ctx):
    """arguments of a wrong type or size"""
    from bitcointx.core import Uint256
    c = B.L()
    a = c.CAsset(b'\x21' * 32)
    u = Uint256(b'\x21' * 32)
    for what, f in {'value of float': lambda: c.CConfidentialValue(1.0), 'value of str': lambda: c.CConfidentialValue('1'), 'value of None': lambda: c.CConfidentialValue(None),
                    'asset of str': lambda: c.CConfidentialAsset('00' * 33), 'asset of int': lambda: c.CConfidentialAsset(1),
                    'asset of Uint256': lambda: c.CConfidentialAsset(u), 'from_asset of Uint256': lambda: c.CConfidentialAsset.from_asset(u),
                    'from_asset of bytes': lambda: c.CConfidentialAsset.from_asset(b'\x01' * 33), 'from_amount of bytes': lambda: c.CConfidentialValue.from_amount(b'\x01' * 9),
                    'nonce of int': lambda: c.CConfidentialNonce(5), 'nonce of str': lambda: c.CConfidentialNonce('a' * 33),
                    'CAsset of 31': lambda: c.CAsset(b'\x01' * 31), 'CAsset of 33': lambda: c.CAsset(b'\x01' * 33),
                    'output with int value': lambda: c.CElementsTxOut(5), 'output with swapped fields': lambda: c.CElementsTxOut(
                        c.CConfidentialAsset(a), B.lib_script(b''), c.CConfidentialValue(1)),
                    'output with bytes asset': lambda: c.CElementsTxOut(c.CConfidentialValue(1), B.lib_script(b''), b'\x01' * 33),
                    'issuance with int': lambda: c.CAssetIssuance(nAmount=5), 'issuance with asset': lambda: c.CAssetIssuance(nAmount=c.CConfidentialAsset(a))}.items():
        try:
            f()
        except (TypeError, ValueError):
            ctx.rec.ev()
            ctx.rec.count('refused-conversion')
            ctx.rec.feat('type', what)
        else:
            expect(False, 'wrong-type', what + ' was accepted')


def d_fee(ctx):
    """the complete grid of field kinds"""
    r = ctx.rng
    V = [b'', b'\x01' + bytes(8), b'\x01' + b'\xff' * 8, b'\x01' + b'\0' * 7 + b'\x05', b'\x08' + b'\x31' * 32, b'\x09' + b'\x31' * 32, b'\x05' + bytes(8), b'\x01' + bytes(32)]
    A = [b'', b'\x01' + bytes(32), b'\x01' + b'\x44' * 32, b'\x0a' + b'\x44' * 32, b'\x0b' + b'\x44' * 32, b'\x08' + b'\x44' * 32]
    N = [b'', b'\x01' + bytes(32), b'\x02' + b'\x12' * 32]
    S = [b'', b'\x00', b'\x51', b'\x6a', b'\x6a\x01\x01']
    c = B.L()
    for v in V:
        for a in A:
            for n in N:
                for s in S:
                    for m in (False, True):
                        o = (c.CElementsMutableTxOut if m else c.CElementsTxOut)(
                            c.CConfidentialValue(v), B.lib_script(s), c.CConfidentialAsset(a), c.CConfidentialNonce(n))
                        want = not s and kindof('value', v) == 'explicit' and kindof('asset', a) == 'explicit'
                        expect(o.is_fee() is want, 'fee', 'is_fee is %r' % o.is_fee(), value=v, asset=a, nonce=n, script=s)
                        expect(o.is_null() is (not s and not v and not a and not n), 'null-out', 'is_null of an output is %r' % o.is_null(),
                               value=v, asset=a, nonce=n, script=s)
                        ctx.rec.ev(2)
                        ctx.rec.count('fee-true' if want else 'fee-false')
                        ctx.rec.feat('fee', v[:1], a[:1], n[:1], s, m, len(v))


def episode(ctx):
    r, c = ctx.rng, B.L()
    v = gen.i64(r)
    b = b'\x01' + struct.pack('>q', v)
    build(ctx, 'value', b, 'random')
    same(c.CConfidentialValue(v).to_amount(), v, 'amount', 'amount is not returned as given')
    ctx.rec.count('amounts')
    a = gen.h32(r)
    build(ctx, 'asset', b'\x01' + a, 'random')
    same(c.CConfidentialAsset(c.CAsset(a)).to_asset().data, a, 'asset', 'asset is not returned as given')
    ctx.rec.count('assets')
    for kind in KIND:
        build(ctx, kind, bytes([r.choice((0, 1, 2, 3, 8, 9, 10, 11, r.randrange(256)))]) + r.randbytes(r.choice((8, 32))), 'random')
        build(ctx, kind, r.randbytes(r.choice((1, 8, 9, 10, 31, 32, 33, 34, 64, 66))), 'random-length')
    # issuance parts and null outpoint
    i = gen.issuance(r, True)
    o = B.lib_issuance(i)
    expect(o.is_null() is C.null_issuance(i), 'null-issuance', 'is_null of an issuance is %r' % o.is_null(), issuance=i)
    ctx.rec.ev()
    ctx.rec.sample(amount=v, asset=a)


DIRECTED = [d_grid, d_amounts, d_types, d_fee]
