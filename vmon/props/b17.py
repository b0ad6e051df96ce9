"""B17: public commitments of assets."""
from vmon import ct, gen, bridge as B
from vmon.rec import expect, same
from vmon.ref import ec

NATIVE = True
TECHNIQUE = 'reference-model monitor: generators recomputed by own curve code (hash to curve, Shallue-van de Woestijne), and audited histories that use them'
RULE = """Evaluation = one commitment of an asset compared with own curve code and with the native library, one output carrying it recovered, or one fact of a split
blinding in which it stands for an explicit input: proofs, openings, balance.  Assets random, zero, ones, with few bits, made from bytes, text and issuances; every
chain selected.  Distinct = (source of the asset, chain, parity of the generator) and (inputs, explicit ones, unknown ones, form)."""
QUICK = 120
REQUIRED = {'commitment': 3250, 'recovered': 65, 'split': 50, 'explicit-unknown': 60, 'parity-0': 1000, 'parity-1': 1000}


def setup(ctx):
    ctx.data['z'] = ct.Z(ctx.native)


def one(ctx, a, src):
    from bitcointx import ChainParams
    core = B.L()
    r, rec = ctx.rng, ctx.rec
    if src == 'text':
        o = core.CAsset.from_hex(a[::-1].hex()) if hasattr(core.CAsset, 'from_hex') else core.CAsset(a)
    elif src == 'field':
        o = core.CConfidentialAsset(core.CAsset(a)).to_asset()
    else:
        o = core.CAsset(a)
    chain = r.choice(('elements', 'elements/liquidv1', 'bitcoin', 'bitcoin/testnet'))
    with ChainParams(chain):
        got = o.to_commitment()
    want = ec.ser_square(ec.generator(a), 10)
    expect(isinstance(got, bytes) and len(got) == 33, 'form', 'the commitment is %r' % (got,))
    same(got, want, 'generator', 'the commitment of an asset is not its generator', asset=a)
    same(bytes(o.data), a, 'changed', 'the asset changed')
    f = core.CConfidentialAsset(got)
    expect(f.is_commitment() and not f.is_explicit() and not f.is_null(), 'field', 'as a field it is not a commitment')
    same(bytes(f.commitment), got, 'field', 'the field has other bytes')
    rec.ev(3)
    rec.count('commitment')
    rec.count('parity-%d' % (got[0] & 1))
    rec.feat(src, chain, got[0])
    return got


def episode(ctx):
    from bitcointx.core.key import CKey
    core = B.L()
    r, z, rec = ctx.rng, ctx.data['z'], ctx.rec
    for _ in range(50):
        k = r.random()
        a = gen.h32(r) if k < .3 else (1 << r.randrange(256)).to_bytes(32, 'big') if k < .5 else r.randbytes(32)
        one(ctx, a, r.choice(('bytes', 'text', 'field')))
    # an output that carries it
    a, v = r.randbytes(32), ct.amount(r)
    secret, eph, bf = ct.scalar(r), ct.scalar(r), ct.scalar(r)
    script = ct.spend_script(r)
    nf = ct.pub(eph)
    got = z.make(a, bytes(32), v, bf, ct.nonce_for(secret, nf), script, a + bytes(32))
    field = core.CAsset(a).to_commitment()
    same(got[0], field, 'native', 'the native library makes another generator')
    o = B.lib_out({'asset': field, 'value': got[1], 'nonce': nf, 'script': script})
    un = o.unblind_confidential_pair(CKey(secret), got[2])
    expect(un.ok, 'recover', 'an output with the commitment of its asset is not recovered: %s' % un.error)
    same((bytes(un.asset.data), un.amount, bytes(un.asset_blinding_factor.data)), (a, v, bytes(32)), 'recover', 'wrong data')
    rec.ev(2)
    rec.count('recovered')
    split(ctx)
    rec.sample(asset=a)


def split(ctx):
    """some inputs are explicit, and unknown to the one who blinds but for the commitment of their asset"""
    core = B.L()
    r, z, rec = ctx.rng, ctx.data['z'], ctx.rec
    s = ct.scene(r, nin=r.choice((2, 3, 4)), issuances=0, explicit_in=.6, bits=r.choice((3, 8)), zero=0)
    ex = [i for i, d in enumerate(s['ins']) if not any(d['abf']) and not any(d['bf'])]
    # outputs of the assets of known inputs only can be given proofs in general, but an unknown target stands for its asset in none
    known = {d['asset'] for i, d in enumerate(s['ins']) if i not in ex}
    keys = [k if o['asset'][1:] in known else None for k, o in zip(s['keys'], s['tx']['vout'])]
    if not ex or not any(keys):
        return
    s['keys'] = keys
    form = r.choice((bytes, bytearray))
    s['aux'] = [form(core.CAsset(d['asset']).to_commitment()) if i in ex else ec.ser_square(ec.blinded_generator(d['asset'], d['abf']), 10)
                for i, d in enumerate(s['ins'])]
    null = {'asset': bytes(32), 'amount': -1, 'bf': bytes(32), 'abf': bytes(32)}
    u = dict(s, ins=[null if i in ex else d for i, d in enumerate(s['ins'])])
    res, tx = ct.must(u)
    m = ct.full(B.m_tx(tx), s['tx'])
    tg = [b'\x01' + d['asset'] if i in ex else ec.ser_square(ec.blinded_generator(d['asset'], d['abf']), 10) for i, d in enumerate(s['ins'])]
    for j, k in enumerate(keys):
        if k is not None:
            expect(z.surj_verify(tg, m['vout'][j]['asset'], m['woutwit'][j]['surj']), 'surjection', 'the surjection proof of output %d does not verify with the explicit assets' % j)
            expect(z.range_verify(m['vout'][j]['value'], m['vout'][j]['asset'], s['tx']['vout'][j]['script'], m['woutwit'][j]['range']) is not None, 'range',
                   'range proof of output %d does not verify' % j)
            rec.ev(2)
    ct.check_openings(u, m, res, rec)
    ct.check_balance(s, m)
    rec.ev()
    rec.count('split')
    rec.count('explicit-unknown', len(ex))
    rec.feat(len(s['ins']), len(ex), form.__name__, sum(k is not None for k in keys))


def d_bits(ctx):
    for i in range(256):
        one(ctx, (1 << i).to_bytes(32, 'big'), 'bytes')
    for a in (bytes(32), b'\xff' * 32):
        for src in ('bytes', 'text', 'field'):
            one(ctx, a, src)


DIRECTED = [d_bits]
