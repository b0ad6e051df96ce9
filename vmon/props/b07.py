"""B07: memory of the native library."""
import os

from vmon import ct, gen, bridge as B
from vmon.rec import expect, same, Violation
from vmon.ref import ec

PHASES = [('asan', True, 80)]
QUICK = 80
LEVEL = 'exploration'
TECHNIQUE = 'AddressSanitizer and UndefinedBehaviorSanitizer on the native library (its buffers come from the code under test, allocated by malloc)'
RULE = """Evaluation = one entry of the confidential API executed with the crypto library compiled with address and undefined-behaviour sanitizers
and all Python memory coming from the checked allocator, so that a read or write outside a buffer that the code under test passes, or of a
released object, ends the process (reported as a violation).  Workloads: blinding of random scenes with sizes from empty to maximal (scripts to
100 kB, hundreds of inputs, targets beyond the limit of the library, all precisions), unblinding and proof information of honest, cut, extended,
random and header-crafted proofs, issuances, auxiliary generators, injected faults.  Distinct = (operation, size classes, outcome)."""
REQUIRED = {'blind': 100, 'unblind': 800, 'info': 1500, 'faulted': 50, 'many-inputs': 4, 'long-script': 10, 'max-precision': 20, 'targets-over-limit': 1,
            'calls:surjectionproof_generate': 200, 'calls:rangeproof_sign': 250, 'calls:rangeproof_rewind': 300, 'calls:rangeproof_info': 1500}


def setup(ctx):
    ctx.data['z'] = ct.Z(ctx.native)


def finish(ctx):
    from vmon.props.b06 import FUNCS
    for f in FUNCS:
        ctx.rec.count('calls:' + f, ctx.data['z'].calls(f.encode()))


def sz(n):
    return n.bit_length()


def run(ctx, s, r=None, **over):
    """blind; any outcome, but memory-safe"""
    try:
        res, tx = ct.blind(s, r, **over)
        got = 'ok' if res.ok else 'failure'
    except Exception as e:
        res, tx, got = None, None, type(e).__name__
    ctx.rec.ev()
    ctx.rec.count('blind')
    ctx.rec.count('max-precision', s['bits'] in (52, None))
    ctx.rec.count('long-script', any(len(o['script']) > 5000 for o in s['tx']['vout']))
    ctx.rec.feat('blind', got, sz(len(s['ins'])), sz(len(s['keys'])), ct.n_requested(s), s['bits'], sz(max([len(o['script']) for o in s['tx']['vout']] or [0])))
    return res, tx


def un(ctx, out, secret, proof, kind):
    from bitcointx.core.key import CKey
    try:
        u = B.lib_out(out).unblind_confidential_pair(CKey(secret), proof)
        got = u.ok
    except Exception as e:
        got = type(e).__name__
    ctx.rec.ev()
    ctx.rec.count('unblind')
    ctx.rec.feat('unblind', kind, got, sz(len(proof)), sz(len(out['script'])))
    return got


def info(ctx, proof, kind):
    try:
        got = B.L().CElementsTxOutWitness(b'', proof).get_rangeproof_info()
        got = None if got is None else (got.exp, got.mantissa)
    except Exception as e:
        got = type(e).__name__
    ctx.rec.ev()
    ctx.rec.count('info')
    ctx.rec.feat('info', kind, got, sz(len(proof)))


def mutants(r, p):
    yield b''
    yield p[:1]
    for _ in range(3):
        yield p[:r.randrange(len(p) + 1)]
    yield p[:-1]
    yield p + b'\x00'
    yield p + r.randbytes(r.choice((1, 31, 32, 33, 5000, 70000)))
    yield bytes([r.randrange(256)]) + p[1:]
    yield bytes([p[0], r.randrange(256)]) + p[2:]
    yield bytes([0x60, r.randrange(64)]) + p[2:]
    yield r.randbytes(r.choice((1, 2, 9, 10, 64, 65, 66, 100, 5134, 5135, 6000)))
    yield bytes([r.choice((0x40, 0x60, 0x20, 0x52)), r.randrange(64)]) + r.randbytes(r.randrange(0, 6000))
    q = bytearray(p)
    q[r.randrange(len(q))] ^= 1 << r.randrange(8)
    yield bytes(q)


def episode(ctx):
    r, z, rec = ctx.rng, ctx.data['z'], ctx.rec
    s = ct.scene(r, bits=r.choice((3, 3, 4, 8, 8, 16, 32, 52, None)) if r.random() < .8 else 3)
    k = r.random()
    over = {}
    if k < .2:
        over['custom_ct_bits'] = r.choice((-1, 0, 1, 2, 51, 52, 63, 64, 65, 1000))
        over['custom_ct_exponent'] = r.choice((-2, -1, 0, 1, 5, 18, 19, 1000))
    elif k < .35:
        s['aux'] = [ec.ser_square(ec.blinded_generator(d['asset'], d['abf']), 10) for d in s['ins']] + [b'\x0a' + r.randbytes(32) for _ in range(r.choice((0, 1)))]
    elif k < .45:
        for o in s['tx']['vout']:
            if o['script'] and r.random() < .5:
                o['script'] = b'\x51' + gen.nbytes(r, r.choice((9999, 10000, 30000, 65536, 100000)))
    elif k < .5:
        s['strict'] = False
        s['tx']['vout'][0]['asset'] = b'\x01' + r.randbytes(32)       # no such input: no surjection proof
    res, tx = run(ctx, s, r, **over)
    if res is not None and res.ok:
        m = ct.full(B.m_tx(tx), s['tx'])
        for j, key in enumerate(s['keys']):
            if key is None or not m['woutwit'][j]['range']:
                continue
            p = m['woutwit'][j]['range']
            un(ctx, m['vout'][j], key, p, 'honest')
            info(ctx, p, 'honest')
            un(ctx, dict(m['vout'][j], script=gen.nbytes(r, r.choice((0, 1, 33, 10001, 100000)))), key, p, 'script')
            for q in mutants(r, p):
                un(ctx, m['vout'][j], key, q, 'mutant')
                info(ctx, q, 'mutant')
            for f in ('asset', 'value', 'nonce'):
                b = m['vout'][j][f]
                for v in (b'', b[:1] + r.randbytes(32), bytes([r.randrange(256)]) + b[1:], b'\x01' + r.randbytes(8 if f == 'value' else 32)):
                    un(ctx, dict(m['vout'][j], **{f: v}), key, p, 'field')
            break
        for i, q in enumerate(s['iss']):
            for x in ('amount_proof', 'keys_proof'):
                if m['winwit'][i][x]:
                    info(ctx, m['winwit'][i][x], 'issuance')
    for _ in range(10):
        info(ctx, bytes([r.choice((0, 0x20, 0x40, 0x60, 0x52, 0x12, r.randrange(256)))]) + r.randbytes(r.choice((0, 1, 8, 9, 10, 64, 65, 200))), 'random')
    if r.random() < .4:
        from vmon.props.b06 import FUNCS
        t = dict(s, bits=3, exp=0)
        for _ in range(4):
            z.fault_from(r.choice(FUNCS).encode(), r.randrange(1, 8)) if r.random() < .3 else z.fault(r.choice(FUNCS).encode(), r.randrange(1, 8))
            run(ctx, t, r)
            if res is not None and res.ok:
                for j, key in enumerate(s['keys']):
                    if key is not None:
                        un(ctx, m['vout'][j], key, m['woutwit'][j]['range'], 'fault')
            z.fault(b'', 0)
            rec.count('faulted')
    live = z.live_surjectionproofs()
    same(live, 0, 'live', 'native proof objects left alive: %d' % live)
    rec.sample(bits=s['bits'], parts=ct.n_requested(s))


def many(ctx, nin, nout, extra=0):
    r = ctx.rng
    a = r.randbytes(32)
    s = {'tx': {'version': 2, 'vin': [{'hash': r.randbytes(32), 'n': 0, 'script': b'', 'seq': 0, 'issuance': None, 'pegin': False} for _ in range(nin)],
                'vout': [{'asset': b'\x01' + a, 'value': ct.val(1), 'nonce': b'', 'script': b'\x51'} for _ in range(nout)], 'locktime': 0,
                'winwit': None, 'woutwit': None},
         'ins': [{'asset': a, 'amount': 1, 'bf': ct.scalar(r), 'abf': ct.scalar(r)} for _ in range(nin)],
         'keys': [ct.scalar(r) if j < 2 or j == nout - 1 else None for j in range(nout)], 'iss': [(None, None)] * nin, 'aux': None, 'strict': True, 'exp': 0, 'bits': 3}
    if extra:
        g = ec.ser_square(ec.blinded_generator(a, ct.scalar(r)), 10)
        s['aux'] = [g] * (nin + extra)
    n = nin + extra
    for attempt in range(30):               # see ct.chance
        res, tx = run(ctx, s)
        if res is None or res.ok or n > 256:
            break
    ctx.rec.count('many-inputs')
    if n > 256:
        expect(res is None or not res.ok, 'over-limit', 'strict success with %d surjection targets' % n)
        ctx.rec.count('targets-over-limit')
    else:
        expect(res is not None and res.ok, 'many', 'blinding with %d surjection targets failed' % n)
        m = ct.full(B.m_tx(tx), s['tx'])
        tg, _ = ct.targets(s)
        for j, k in enumerate(s['keys']):
            if k is not None:
                expect(ctx.data['z'].surj_verify(tg, m['vout'][j]['asset'], m['woutwit'][j]['surj']), 'surjection', 'a surjection proof does not verify with %d targets' % n)


def d_many_1(ctx):
    many(ctx, 60, 60)


def d_many_2(ctx):
    many(ctx, 255, 3)
    many(ctx, 256, 3)


def d_many_3(ctx):
    many(ctx, 257, 3)
    many(ctx, 3, 3, 253)


def d_many_4(ctx):
    many(ctx, 3, 3, 254)
    many(ctx, 2, 300)
    many(ctx, 2, 3, 600)


def d_issuances(ctx):
    """an issuance of everything at each of many inputs: three targets each"""
    r = ctx.rng
    for nin in (20,):
        s = ct.scene(r, nin=nin, nout=1, issuances=1, reissue=.3, bits=3)
        run(ctx, s, r)


def d_precisions(ctx):
    """every combination of header parameters that the library takes"""
    r, z = ctx.rng, ctx.data['z']
    sec, eph = ct.scalar(r), ct.scalar(r)
    for bits in (3, 4, 5, 10, 30, 50, 52, 60, 62, 63, 64):
        for exp in (0, 1, 18) if bits < 20 else (0,):
            for mlen in (64, 0, 65, 128, 4096):
                a, abf, bf = r.randbytes(32), ct.scalar(r), ct.scalar(r)
                for v in (1, ct.MONEY, 2 ** 64 - 1)[:2 if mlen == 64 else 1]:
                    got = z.make(a, abf, v, bf, ct.nonce_for(sec, ct.pub(eph)), b'\x51', (a + abf + r.randbytes(4096))[:mlen], 0 if bits > 60 else 1, exp, bits)
                    if got is None:
                        continue
                    out = {'asset': got[0], 'value': got[1], 'nonce': ct.pub(eph), 'script': b'\x51'}
                    g = un(ctx, out, sec, got[2], 'made')
                    info(ctx, got[2], 'made')
                    expect(g is True or g is False, 'made', 'unblinding raised %s' % g)
                    ctx.rec.count('max-precision', bits >= 52)


def d_headers(ctx):
    r = ctx.rng
    for a in range(256):
        for n in (1, 2, 9, 10, 11, 17, 18, 64, 65, 66):
            info(ctx, bytes([a]) + r.randbytes(n - 1), 'header')


DIRECTED = [d_precisions, d_many_1, d_many_2, d_many_3, d_many_4, d_issuances, d_headers]
