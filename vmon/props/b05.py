"""B05: unblinding never lies."""
import hashlib

from vmon import ct, gen, bridge as B
from vmon.rec import expect, same
from vmon.ref import ec

NATIVE = True
RULE = """Evaluation = one call of unblinding, judged: success only if the returned asset, amount and factors open the very commitments
given (Python EC), otherwise a failure with a reason; never an exception; arguments unchanged.  Inputs: honest outputs; every single-field
replacement (key, script, asset, value, nonce, proof), swaps between outputs, single-byte changes of every byte of a proof, cuts,
extensions, null and explicit fields, random bytes; and outputs crafted with the right keys but a false side channel, an amount out of
range, no room for a message, other header parameters.  Distinct = (what was changed, reason given, precision)."""
QUICK = 34
REQUIRED = {'honest': 60, 'hostile': 2500, 'crafted': 80, 'proof-byte': 800, 'crafted-lie': 15, 'out-of-range-amount': 2, 'swap': 20, 'null-nonce': 20, 'explicit-lie': 10, 'explicit-honest': 8, 'siblings': 25, 'mirrored': 2, 'nonce-no-point': 3, 'no-asset': 3}


def setup(ctx):
    ctx.data['z'] = ct.Z(ctx.native)


def ask(ctx, out, secret, proof, kind, must=None):
    """must: None (any honest answer), 'ok' or 'fail'"""
    from bitcointx.core.key import CKey
    core = B.L()
    rec = ctx.rec
    key = CKey(secret)
    o = B.lib_out(out, mutable=ctx.rng.random() < .3)
    before = B.m_out(o)
    pc = bytes(proof)
    try:
        if ctx.rng.random() < .5:
            un = o.unblind_confidential_pair(key, proof)
        else:
            un = core.unblind_confidential_pair(blinding_key=key, confValue=o.nValue, confAsset=o.nAsset, confNonce=o.nNonce,
                                                committedScript=o.scriptPubKey, rangeproof=proof)
    except Exception as e:
        expect(False, 'raised-' + kind, 'unblinding (%s) raised %s: %s' % (kind, type(e).__name__, e), out=out, proof=proof)
    same(B.m_out(o), before, 'changed', 'the output changed')
    same(bytes(proof), pc, 'changed', 'the proof changed')
    ok = un.ok
    expect(ok is True or ok is False, 'ok', 'ok is %r' % ok)
    if ok:
        same(un.error, '', 'error-text', 'success with an error text')
        a, v = bytes(un.asset.data), un.amount
        bf, abf = bytes(un.blinding_factor.data), bytes(un.asset_blinding_factor.data)
        expect(type(v) is int and 0 <= v <= ct.MONEY, 'amount-range', 'success with amount %r' % v)
        g = ec.blinded_generator(a, abf)
        want = ec.ser_square(g, 10) if out['asset'][:1] != b'\x01' else b'\x01' + a
        same(out['asset'], want, 'lie-asset-' + kind, 'success (%s), but the result does not open the asset commitment' % kind, out=out)
        if out['asset'][:1] == b'\x01':
            same(abf, bytes(32), 'lie-asset-' + kind, 'success for an explicit asset with a blinding factor')
        same(out['value'], ec.ser_square(ec.commitment(v, g, bf), 8), 'lie-value-' + kind, 'success (%s), but the result does not open the value commitment' % kind, out=out)
    else:
        expect(isinstance(un.error, str) and un.error.strip(), 'no-reason-' + kind, 'a failure without a reason')
    if must == 'fail':
        expect(not ok, 'accepted-' + kind, 'unblinding succeeded where it cannot (%s)' % kind, out=out)
    if must == 'ok':
        expect(ok, 'refused-' + kind, 'an honest output was not unblinded (%s): %s' % (kind, un.error), out=out)
    rec.ev()
    rec.count('honest' if must == 'ok' else 'hostile')
    rec.feat(kind, un.error or 'ok', len(proof).bit_length())
    return un


def episode(ctx):
    r = ctx.rng
    s = ct.scene(r, bits=r.choice((3, 4, 8, 8, 16, 32)), nin=2, issuances=.1)
    if sum(k is not None for k in s['keys']) < 2:
        s = ct.scene(r, bits=8, nin=2, nout=3, issuances=.1, blind=True)
    res, tx = ct.must(s, r)
    m = ct.full(B.m_tx(tx), s['tx'])
    bl = [j for j, k in enumerate(s['keys']) if k is not None]
    for j in bl:
        o, k, p = m['vout'][j], s['keys'][j], m['woutwit'][j]['range']
        ask(ctx, o, k, p, 'honest', 'ok')
        ask(ctx, o, k, bytearray(p), 'bytearray', 'ok')
        ask(ctx, o, ct.scalar(r, 0), p, 'other-key', 'fail')
        ask(ctx, o, (ct.N - int.from_bytes(k, 'big')).to_bytes(32, 'big'), p, 'negated-key')
        for sc in (b'', o['script'] + b'\x00', o['script'][:-1], b'\x51' + o['script'], gen.script(r)):
            if sc != o['script']:
                ask(ctx, dict(o, script=sc), k, p, 'other-script', 'fail')
        fields = {
            'value': [b'', ct.val(1), s['tx']['vout'][j]['value'], bytes([o['value'][0] ^ 1]) + o['value'][1:], b'\x08' + r.randbytes(32), b'\x08' + b'\xff' * 32,
                      b'\x0a' + o['value'][1:], b'\x00' + o['value'][1:], flip(r, o['value'])],
            'asset': [b'', b'\x01' + s['tx']['vout'][j]['asset'][1:], bytes([o['asset'][0] ^ 1]) + o['asset'][1:], b'\x0a' + r.randbytes(32), b'\x0b' + b'\xff' * 32,
                      b'\x08' + o['asset'][1:], b'\x00' + o['asset'][1:], flip(r, o['asset'])],
            'nonce': [b'', b'\x01' + o['nonce'][1:], bytes([o['nonce'][0] ^ 1]) + o['nonce'][1:], ct.pub(ct.scalar(r)), b'\x02' + b'\xff' * 32, b'\x02' + bytes(32),
                      b'\x00' + o['nonce'][1:], b'\x04' + o['nonce'][1:], flip(r, o['nonce'])],
        }
        for f, vs in fields.items():
            for v in vs:
                if v != o[f]:
                    ask(ctx, dict(o, **{f: v}), k, p, 'other-' + f, 'fail')
        for q in (b'', p[:-1], p + b'\x00', p[1:], p[:64], p[:65], p[:r.randrange(len(p))], r.randbytes(len(p)), r.randbytes(r.randrange(0, 5200)), p + p,
                  bytes(len(p)), b'\xff' * len(p), bytes(10), m['woutwit'][j]['surj']):
            ask(ctx, o, k, q, 'other-proof', 'fail')
        for _ in range(12):
            ask(ctx, o, k, flip(r, p), 'proof-byte', 'fail')
            ctx.rec.count('proof-byte')
    for a in bl:
        for b in bl:
            if a != b and m['vout'][a] != m['vout'][b]:
                ask(ctx, m['vout'][a], s['keys'][b], m['woutwit'][a]['range'], 'swap-key', 'fail' if s['keys'][a] != s['keys'][b] else None)
                ask(ctx, m['vout'][a], s['keys'][a], m['woutwit'][b]['range'], 'swap-proof', 'fail')
                ask(ctx, m['vout'][a], s['keys'][b], m['woutwit'][b]['range'], 'swap-proof-key', 'fail')
                for f in ('asset', 'value', 'nonce', 'script'):
                    if m['vout'][a][f] != m['vout'][b][f]:
                        ask(ctx, dict(m['vout'][a], **{f: m['vout'][b][f]}), s['keys'][a], m['woutwit'][a]['range'], 'swap-' + f, 'fail')
                ctx.rec.count('swap')
    for _ in range(4):
        crafted(ctx)
    ctx.rec.sample(outputs=len(bl))


def flip(r, b):
    b = bytearray(b)
    k = r.randrange(len(b))
    b[k] ^= r.choice((1, 2, 128, 255, r.randrange(1, 256)))
    return bytes(b)


def crafted(ctx):
    """outputs made with the library directly, by a sender who knows the receiver's key and cheats in what only the receiver sees"""
    r, z = ctx.rng, ctx.data['z']
    rec = ctx.rec
    secret, eph = ct.scalar(r), ct.scalar(r)
    nullnonce = r.random() < .25
    nonce_field = b'' if nullnonce else ct.pub(eph)
    sn = secret if nullnonce else ct.nonce_for(secret, nonce_field)
    script = ct.spend_script(r)
    com = b'' if nullnonce else script
    a, abf, bf, v = r.randbytes(32), ct.scalar(r), ct.scalar(r), ct.amount(r)
    msg, lo, exp, bits, must, kind = a + abf, 1, 0, 8, 'ok', 'honest'
    k = r.randrange(17)
    mirrored = False
    explicit = r.random() < .3
    if explicit:
        # the asset is public (its field names it), the amount is not
        abf = bytes(32)
        msg = a + abf
        rec.count('explicit-asset')
    if k == 0:
        v = r.choice((ct.MONEY + 1, ct.MONEY + 2, 2 ** 51, 2 ** 52 - 1, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 63 + ct.MONEY, 2 ** 64 - 1))
        must, kind = 'fail', 'amount'
        rec.count('out-of-range-amount')
    elif k == 1:
        msg, must, kind = r.randbytes(32) + abf, 'fail', 'lie-asset'
    elif k == 2:
        msg, must, kind = a + ct.scalar(r), 'fail', 'lie-factor'
    elif k == 3:
        msg, must, kind = (r.randbytes(32) if explicit else a) + bytes(32), 'fail', 'lie-no-factor'
    elif k == 4:
        msg, must, kind = a + b'\xff' * 32, 'fail', 'lie-big-factor'
    elif k == 5:
        msg, must, kind = b'', 'fail', 'no-message'
    elif k == 6:
        msg, must, kind = msg + r.randbytes(32), 'ok' if False else None, 'long-message'
        bits = 16
    elif k == 7:
        msg, exp, bits, lo, must, kind = b'', -1, 0, v, 'fail', 'public-value'
    elif k == 8:
        msg, bits, v, must, kind = b'', r.choice((0, 1, 2)), r.choice((1, 2, 3)), 'fail', 'one-ring'
    elif k == 9:
        exp, bits, kind = r.randrange(1, 19), r.choice((4, 8, 16)), 'exponent'
    elif k == 10:
        lo, kind = r.choice((0, v // 2, max(0, v - 10))), 'minimum'
    elif k == 11:
        com, must, kind = com + b'\x01' if not nullnonce else b'\x51', 'fail', 'other-commitment'
    elif k == 12:
        sn, must, kind = r.randbytes(32), 'fail', 'other-nonce'
    elif k == 13 and not explicit:
        # the commitment of the asset is the mirror image of the one that the message describes
        mirrored, must, kind = True, 'fail', 'mirrored'
    elif k == 14:
        # a nonce that is there but is not a point: no key can be agreed on, also not the one used when there is no nonce at all
        nonce_field = r.choice((b'\x01', b'\x02', b'\x03')) + r.randbytes(32)
        while nonce_field[0] != 1 and ec.par(nonce_field) is not None:
            nonce_field = nonce_field[:1] + r.randbytes(32)
        sn, com, must, kind = secret, r.choice((b'', script)), 'fail', 'nonce-no-point'
    elif k == 15:
        # no asset at all, and a proof made as if the asset were the one with the number zero, or as if it had any other
        if r.random() < .7:
            a = bytes(32)
        abf, explicit, kind, must = bytes(32), False, 'no-asset', 'fail'
        msg = a + abf
    g = None
    if mirrored:
        f = bytearray(ec.ser_square(ec.blinded_generator(a, abf), 10))
        f[0] ^= 1
        g = z.gen(bytes(f))
    got = z.make(a, abf, v, bf, sn, com, msg, lo, exp, bits, **({'gen': g} if g else {}))
    if got is None:
        rec.count('declined')
        return
    out = {'asset': b'' if kind == 'no-asset' else b'\x01' + a if explicit else got[0], 'value': got[1], 'nonce': nonce_field, 'script': script}
    un = ask(ctx, out, secret, got[2], ('crafted-explicit-' if explicit else 'crafted-') + kind, must)
    if un.ok:
        same((un.amount, bytes(un.asset.data)), (v, a), 'crafted-data', 'wrong data for a crafted output (%s)' % kind)
    rec.count('crafted')
    rec.count('crafted-lie', kind.startswith('lie'))
    rec.count('mirrored', mirrored)
    rec.count('no-asset', kind == 'no-asset')
    rec.count('nonce-no-point', kind == 'nonce-no-point')
    rec.count('explicit-lie', explicit and kind.startswith('lie'))
    rec.count('explicit-honest', explicit and must == 'ok')
    rec.count('null-nonce', nullnonce)


def d_all_bytes(ctx):
    """each byte of a proof changed in turn, each cut, for a few precisions"""
    r = ctx.rng
    for bits in (3, 8) if ctx.tier == 'thorough' else (3,):
        s = ct.scene(r, nin=1, nout=2, issuances=0, explicit_in=0, blind=True, bits=bits, zero=0)
        s['tx']['vout'][0] = dict(s['tx']['vout'][0])
        res, tx = ct.must(s, r)
        m = ct.full(B.m_tx(tx), s['tx'])
        j = [k is not None for k in s['keys']].index(True)
        o, k, p = m['vout'][j], s['keys'][j], m['woutwit'][j]['range']
        for x in range(len(p)):
            q = bytearray(p)
            q[x] ^= 1 << r.randrange(8)
            ask(ctx, o, k, bytes(q), 'proof-byte', 'fail')
            ctx.rec.count('proof-byte')
        for x in range(0, len(p), 7):
            ask(ctx, o, k, p[:x], 'cut', 'fail')
        for f in ('asset', 'value', 'nonce'):
            for x in range(33):
                for bit in range(8) if x == 0 or ctx.tier == 'thorough' else (r.randrange(8),):
                    q = bytearray(o[f])
                    q[x] ^= 1 << bit
                    ask(ctx, dict(o, **{f: bytes(q)}), k, p, 'field-bit-' + f, 'fail')


def d_crafted(ctx):
    for _ in range(160):
        crafted(ctx)


def d_headers(ctx):
    """every first two bytes of a proof"""
    r = ctx.rng
    s = ct.scene(r, nin=1, nout=2, issuances=0, explicit_in=0, blind=True, bits=8, zero=0)
    res, tx = ct.must(s, r)
    m = ct.full(B.m_tx(tx), s['tx'])
    j = [k is not None for k in s['keys']].index(True)
    o, k, p = m['vout'][j], s['keys'][j], m['woutwit'][j]['range']
    for a in range(256):
        for b in (0, 1, 7, 51, 63, 64, 255) if ctx.tier == 'thorough' or a in (0, p[0]) else (p[1], r.randrange(256)):
            q = bytes([a, b]) + p[2:]
            ask(ctx, o, k, q, 'header', 'ok' if q == p else 'fail')


def d_siblings(ctx):
    """transactions that differ in one thing each, from the same random source: each with its own keys, and with those of the others"""
    def audit(s, res, tx, draws, seen):
        m = ct.full(B.m_tx(tx), s['tx'])
        for j, k in enumerate(s['keys']):
            if k is None:
                continue
            o, p = m['vout'][j], m['woutwit'][j]['range']
            ask(ctx, o, k, p, 'sibling', 'ok')
            for x in list(seen.get('keys', ())):
                if x != k:
                    ask(ctx, o, x, p, 'sibling-key', 'fail')
            for o2, k2, p2 in seen.get('outs', [])[-3:]:
                ask(ctx, o2, k2, p2, 'sibling-again', 'ok')
                if o2 != o:
                    ask(ctx, o, k2, p2, 'sibling-other', 'fail')
                    ask(ctx, o2, k2, p, 'sibling-proof', 'fail' if p != p2 else 'ok')
                    for f in o:
                        if o[f] != o2[f]:
                            ask(ctx, dict(o, **{f: o2[f]}), k, p, 'sibling-' + f, 'fail')
            seen.setdefault('keys', {})[k] = 1
            if len(seen['keys']) > 5:
                del seen['keys'][ctx.rng.choice(list(seen['keys']))]
            seen.setdefault('outs', []).append((o, k, p))
    ct.same_source(ctx, audit, 3)


DIRECTED = [d_all_bytes, d_headers, d_crafted, d_siblings]
