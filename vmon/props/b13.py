"""B13: range proof precision and information."""
from vmon import ct, gen, bridge as B
from vmon.rec import expect, same

NATIVE = True
TECHNIQUE = 'comparison of proof information with a header parser and parameter rule of its own, on proofs from blinding and on hostile bytes'
RULE = """Evaluation = one proof whose information is compared with a parser of the header written here and with the native library asked directly;
for proofs made by blinding also with the parameters the request determines (exponent, bits, minimum one or zero by script), bracketing of the
true amount, and the public range that verification reports.  Bytes: every first byte, random, cut, extended and edited proofs, empty.
Distinct = (exponent asked, bits asked, amount class, script class) and (header class, answer)."""
QUICK = 330
REQUIRED = {'made': 500, 'default': 20, 'exponent': 60, 'unspendable': 30, 'arbitrary': 20000, 'none': 5000, 'some': 1500, 'issuance': 40, 'few-bits': 25, 'nothing': 14, 'no-bits': 15, 'siblings': 25, 'replaced': 60, 'many-bits': 20, 'odd': 32}


def setup(ctx):
    ctx.data['z'] = ct.Z(ctx.native)


M64 = 2 ** 64 - 1


def header(p):
    """(exp, mantissa, min, max) or None: the published format of the first bytes of a range proof"""
    if len(p) < 65 or p[0] & 128:
        return None
    exp, mantissa, hi, at = -1, 0, 0, 1
    if p[0] & 64:
        exp = p[0] & 31
        if exp > 18:
            return None
        mantissa = p[1] + 1
        if mantissa > 64:
            return None
        hi = 2 ** mantissa - 1
        at = 2
        hi *= 10 ** exp
        if hi > M64:
            return None
    lo = int.from_bytes(p[at:at + 8], 'big') if p[0] & 32 else 0
    if hi + lo > M64:
        return None
    return exp, mantissa, lo, hi + lo


def rule(value, lo, exp, bits):
    """what the request determines: (exp, mantissa, min, max)"""
    if lo:
        bits = min(bits, 64 - lo.bit_length() + 0) if 64 - lo.bit_length() else 0
    if bits > 61 or value > 2 ** 63 - 1:
        exp = 0
    v = value - lo
    span = M64 >> (64 - bits) if bits else 0
    n = 0
    while n < exp and span <= M64 // 10:
        v //= 10
        span *= 10
        n += 1
    mantissa = max(v.bit_length() or 1, bits)
    low = value - v * 10 ** n
    return n, mantissa, low, low + (2 ** mantissa - 1) * 10 ** n


def tup(i):
    return None if i is None else (i.exp, i.mantissa, i.value_min, i.value_max)


def ask(ctx, proof, mutable=False):
    core = B.L()
    z, rec = ctx.data['z'], ctx.rec
    cls = core.CElementsMutableTxOutWitness if mutable else core.CElementsTxOutWitness
    w = cls(b'', proof)
    try:
        got = tup(w.get_rangeproof_info())
        again = tup(w.get_rangeproof_info())
    except Exception as e:
        expect(False, 'info-raised', 'proof information raised %s: %s' % (type(e).__name__, e), proof=proof)
    same(bytes(w.rangeproof), bytes(proof), 'info-changed', 'asking for information changed the proof')
    same(again, got, 'info-unstable', 'asking twice gives two answers')
    want = header(proof)
    same(got, want, 'info', 'the information does not agree with the header', proof=proof[:80])
    same(got, z.info(proof), 'info-native', 'the information is not that of the library', proof=proof[:80])
    if got is not None:
        expect(0 <= got[2] <= got[3] <= M64 and -1 <= got[0] <= 18 and 0 <= got[1] <= 64, 'info-range', 'inconsistent information %r' % (got,))
        expect(all(type(x) is int for x in got), 'info-type', 'information of wrong types')
    rec.ev(4)
    rec.count('none' if got is None else 'some')
    return got


def made(ctx, s, m):
    """every proof of a blinded transaction"""
    z, rec = ctx.data['z'], ctx.rec
    exp = ct.CT_EXP if s['exp'] is None else s['exp']
    bits = ct.CT_BITS if s['bits'] is None else s['bits']
    for j, k in enumerate(s['keys']):
        if k is None:
            continue
        o, w = s['tx']['vout'][j], m['woutwit'][j]
        v = int.from_bytes(o['value'][1:], 'big')
        lo = 0 if ct.unspendable(o['script']) else 1
        got = ask(ctx, w['range'], ctx.rng.random() < .5)
        same(got, rule(v, lo, exp, bits), 'parameters', 'a range proof was not made with the parameters asked for', value=v, lo=lo, exp=exp, bits=bits)
        expect(got[2] <= v <= got[3], 'bracket', 'the information does not bracket the amount')
        expect(got[2] >= lo, 'minimum', 'the minimum is below %d' % lo)
        rg = z.range_verify(m['vout'][j]['value'], m['vout'][j]['asset'], o['script'], w['range'])
        same(rg, got[2:], 'verified-range', 'the range that verification reports is another')
        rec.ev(4)
        rec.count('made')
        rec.count('exponent', exp > 0)
        rec.count('unspendable', lo == 0)
        rec.count('few-bits', s['bits'] in (0, 1, 2))
        rec.count('no-bits', s['bits'] == 0)
        rec.count('default', s['bits'] is None and s['exp'] is None)
        rec.feat(exp, bits, v.bit_length(), lo, len(o['script']).bit_length())
    for i, q in enumerate(s['iss']):
        for x, f, p in ((q[0], 'amount', 'amount_proof'), (q[1], 'keys', 'keys_proof')):
            if x is not None:
                v = int.from_bytes(s['tx']['vin'][i]['issuance'][f][1:], 'big')
                same(ask(ctx, m['winwit'][i][p]), rule(v, 0, exp, bits), 'parameters-issuance', 'a range proof of an issuance was not made with the parameters asked for')
                rec.count('issuance')


def episode(ctx):
    from bitcointx import ChainParams
    r, rec = ctx.rng, ctx.rec
    s = ct.scene(r, bits=8, issuances=.2)
    k = r.random()
    if k < .12:
        s['bits'] = s['exp'] = None
    elif k < .2:
        s['bits'], s['exp'] = None, 0
    elif k < .28:
        s['bits'], s['exp'] = r.choice((52, 36, 48)), None
    else:
        s['bits'] = r.choice((0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40))
        s['exp'] = r.choice((0, 0, 0, 1, 2, 3, 5, 10, 18)) if s['bits'] < 20 else 0
    with ChainParams(r.choice(('elements', 'elements/liquidv1', 'elements', 'bitcoin'))):
        try:
            res, tx = ct.blind(s, r)
        except RuntimeError as e:
            # the exponent leaves no room for the message, or the library declines: nothing is claimed
            expect(s['exp'] or (s['bits'] is not None and s['bits'] < 3), 'declined', 'blinding with %r bits failed: %s' % (s['bits'], e))
            rec.count('declined')
            res = None
    if res is not None:
        expect(res.ok, 'refused', 'blinding was refused: %s' % res.error)
        m = ct.full(B.m_tx(tx), s['tx'])
        made(ctx, s, m)
        for w in m['woutwit']:
            p = w['range']
            if len(p) > 64:
                for q in (p[:-1], p[:65], p[:64], p[:1], p + b'\x00', bytes([p[0] ^ 64]) + p[1:], bytes([p[0] ^ 32]) + p[1:], bytes([p[0] ^ 128]) + p[1:],
                          bytes([p[0], r.randrange(256)]) + p[2:], bytes([r.randrange(256)]) + p[1:], p[:2] + b'\xff' * 8 + p[10:], p[1:]):
                    ask(ctx, q)
                    rec.count('arbitrary')
    for _ in range(60):
        n = r.choice((0, 1, 2, 9, 10, 63, 64, 65, 66, 67, 72, 73, 74, 75, 200, 1000, r.randrange(300)))
        q = gen.nbytes(r, n) if r.random() < .3 else bytes([r.choice((0x60, 0x40, 0x20, 0, r.randrange(256), 0x40 | r.randrange(20), 0x60 | r.randrange(20)))]) + bytes(
            [r.choice((0, 1, 31, 51, 60, 61, 62, 63, 64, r.randrange(256)))]) + r.choice((bytes(8), b'\xff' * 8, r.randbytes(8), b'\x00' * 7 + b'\x01')) + r.randbytes(60)
        got = ask(ctx, q)
        rec.count('arbitrary')
        rec.feat('h', q[:1], len(q) > 64, got is None, got and got[1])
    rec.sample(exp=s['exp'], bits=s['bits'])


def d_first_bytes(ctx):
    r = ctx.rng
    for a in range(256):
        for b in (0, 1, 31, 32, 51, 55, 60, 61, 62, 63, 64, 127, 128, 255):
            for lo in (bytes(8), b'\xff' * 8, b'\x7f' + b'\xff' * 7):
                q = bytes([a, b]) + lo + r.randbytes(56)
                ask(ctx, q)
                ctx.rec.count('arbitrary')


def d_amounts(ctx):
    """amounts around powers of two and ten times bits times exponents"""
    r = ctx.rng
    for v in (1, 2, 7, 8, 9, 10, 11, 99, 100, 255, 256, 257, 1000, 65535, 65536, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, ct.MONEY - 1, ct.MONEY):
        for bits, exp in ((0, 0), (1, 0), (2, 0), (0, 2), (3, 0), (4, 0), (8, 0), (8, 1), (8, 2), (16, 5), (33, 0), (8, 18)):
            s = ct.scene(r, nin=1, nout=1, issuances=0, explicit_in=0, blind=True, bits=bits, zero=0, fee=False)
            s['tx']['vout'] = [dict(s['tx']['vout'][0], value=ct.val(v), script=b'\x51'), dict(s['tx']['vout'][0], value=ct.val(v), script=b'\x6a')]
            s['tx']['woutwit'] = None
            s['keys'] = [ct.scalar(r), ct.scalar(r)]
            s['ins'][0]['amount'] = min(2 * v, ct.MONEY)
            s['exp'] = exp
            try:
                res, tx = ct.blind(s)
            except RuntimeError as e:
                expect(exp or bits < 3, 'declined', 'blinding of %d with %d bits failed: %s' % (v, bits, e))
                ctx.rec.count('declined')
                continue
            made(ctx, s, ct.full(B.m_tx(tx), s['tx']))


def d_bits(ctx):
    """every number of bits up to the largest, in proofs that blinding makes"""
    r = ctx.rng
    for bits in list(range(37, 65)) + [53, 57, 58, 59, 60, 61, 62, 63, 64]:
        v = r.choice((1, 5, 2 ** 32, ct.MONEY // 2, r.randrange(1, ct.MONEY // 2)))
        s = ct.scene(r, nin=1, nout=1, issuances=0, explicit_in=0, blind=True, bits=bits, zero=0, fee=False)
        s['tx']['vout'] = [dict(s['tx']['vout'][0], value=ct.val(v), script=b'\x51'), dict(s['tx']['vout'][0], value=ct.val(v), script=b'\x6a')]
        s['tx']['woutwit'] = None
        s['keys'] = [ct.scalar(r), ct.scalar(r)]
        s['ins'][0]['amount'] = 2 * v
        s['exp'] = r.choice((None, 0))
        res, tx = ct.must(s)
        made(ctx, s, ct.full(B.m_tx(tx), s['tx']))
        ctx.rec.count('many-bits', bits > 52)


def d_odd(ctx):
    """parameters that no proof with a message can have: public values, exponents and bits out of range.  Nothing is made with others instead"""
    r = ctx.rng
    for exp, bits in [(-1, 8), (-1, None), (-1, 0), (-1, 52), (-2, 8), (-100, None), (19, 8), (20, None), (100, 3), (0, 65), (0, 100), (None, 65), (0, -1), (None, -1), (None, -52), (-1, 65)] * 2:
        s = ct.scene(r, nin=1, nout=1, issuances=0, explicit_in=0, blind=True, bits=8, zero=0, fee=False)
        v = r.choice((1, 5, 100, 2 ** 32, r.randrange(1, ct.MONEY // 2)))
        s['tx']['vout'] = [dict(s['tx']['vout'][0], value=ct.val(v))]
        s['tx']['woutwit'] = None
        s['keys'] = [ct.scalar(r)]
        s['ins'][0]['amount'] = v
        s['exp'], s['bits'] = exp, bits
        ctx.rec.count('odd')
        ctx.rec.ev()
        try:
            res, tx = ct.blind(s, r)
        except (RuntimeError, ValueError):
            continue
        if not res.ok:
            continue
        m = ct.full(B.m_tx(tx), s['tx'])
        got = ask(ctx, m['woutwit'][0]['range'])
        same(got, (-1, 0, v, v) if exp == -1 and (bits is None or 0 <= bits <= 64) else None, 'parameters', 'blinding with exponent %r and %r bits made a proof of other parameters' % (exp, bits), value=v)


def d_extreme(ctx):
    """proofs by other senders: any minimum, up to 64 bits, public values"""
    r, z = ctx.rng, ctx.data['z']
    for bits in (0, 1, 2, 3, 50, 60, 61, 62, 63, 64):
        for exp in (-1, 0, 1, 18):
            for v, lo in ((1, 1), (5, 0), (2 ** 63 - 1, 1), (2 ** 63, 0), (M64, M64), (M64, 0), (M64 - 1, 1), (10 ** 18, 10 ** 17), (0, 0)):
                got = z.make(r.randbytes(32), ct.scalar(r), v, ct.scalar(r), r.randbytes(32), b'', b'', lo, exp, bits)
                if got is not None:
                    i = ask(ctx, got[2])
                    expect(i is not None and i[2] <= v <= i[3], 'bracket', 'the information does not bracket the amount %d: %r' % (v, i))
                    ctx.rec.count('other-sender')


def d_nothing(ctx):
    """outputs of no amount: the minimum of one leaves no proof for them unless the script is unspendable"""
    r = ctx.rng
    for sc in (b'\x51', b'\x00\x14' + bytes(20), b'\x6a', b'\x51' * 10000, b'\x51' * 10001, b'\x6a\x01\x00', b'\x00'):
        for strict in (True, False):
            s = ct.scene(r, nin=2, nout=2, issuances=0, explicit_in=0, blind=True, bits=r.choice((3, 8, 52)), zero=0, fee=False)
            s['strict'], s['exp'] = strict, 0
            at = r.randrange(len(s['keys']) + 1)
            s['tx']['vout'].insert(at, dict(s['tx']['vout'][0], value=ct.val(0), script=sc))
            s['keys'].insert(at, ct.scalar(r))
            s['tx']['woutwit'] = None
            ctx.rec.count('nothing')
            ctx.rec.ev()
            try:
                res, tx = ct.blind(s)
            except RuntimeError:
                expect(not ct.unspendable(sc), 'declined', 'an unspendable output of no amount cannot be blinded', script=sc[:40])
                continue
            m = ct.full(B.m_tx(tx), s['tx'])
            if ct.unspendable(sc):
                made(ctx, s, m)
            else:
                got = ask(ctx, m['woutwit'][at]['range'])
                expect(got is None or got[2] >= 1, 'minimum', 'the minimum for a spendable script is below one', script=sc[:40])


def d_siblings(ctx):
    """transactions that differ in one thing each, from the same random source; and one witness object through all their proofs"""
    r = ctx.rng
    w = B.L().CElementsMutableTxOutWitness()

    def audit(s, res, tx, draws, seen):
        m = ct.full(B.m_tx(tx), s['tx'])
        made(ctx, s, m)
        for x in m['woutwit']:
            for p in (x['range'], bytes([x['range'][0] ^ 32]) + x['range'][1:] if x['range'] else r.randbytes(100)):
                w.rangeproof = p
                same(tup(w.get_rangeproof_info()), header(p), 'info-replaced', 'the information is not that of the proof the witness has now', proof=p[:80])
                ctx.rec.count('replaced')
                ctx.rec.ev()
    ct.same_source(ctx, audit, 3)


DIRECTED = [d_bits, d_odd, d_first_bytes, d_nothing, d_amounts, d_extreme, d_siblings]
