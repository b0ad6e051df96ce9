"""S02: the segwit v0 signature hash against an independent model."""
from vmon import gen, poke, bridge as B
from vmon.props import _sig as G
from vmon.rec import same, expect
from vmon.ref import codec as C, sighash as H

TECHNIQUE = 'online reference-model monitor of signature hash calls'
RULE = """Evaluation = one digest of the library compared with the independent model, for one (transaction, input, script, hash type,
amount, chain).  Distinct = (hash type, issuance of the signed and of other inputs, peg-in, position against outputs, amount kind, chain, mutability)."""
QUICK = 1500
REQUIRED = {'siblings': 30, 'large': 80, 'history': 100, 'digests': 5000, 'issuance-signed': 800, 'issuance-elsewhere': 800, 'single-out-of-range': 200, 'amount-explicit': 800, 'amount-commitment': 800,
            'amount-null': 100, 'late-locktime': 300, 'foreign-chain': 300}


def one(ctx, t, tx, sc, idx, ht, amt, chain, raw):
    from bitcointx import ChainParams
    from bitcointx.core.script import SIGVERSION_WITNESS_V0, SIGHASH_Type
    rec = ctx.rec
    want = H.v0(t, sc, idx, ht, amt)
    before = G.snapshot(tx)
    script = B.lib_script(sc)
    a = B.L().CConfidentialValue(amt)
    with ChainParams(chain):
        if raw:
            got, err = script.raw_sighash(tx, idx, ht, amount=a, sigversion=SIGVERSION_WITNESS_V0)
            expect(err is None, 'err', 'unexpected error %s' % err)
        else:
            got = script.sighash(tx, idx, SIGHASH_Type(ht), amount=a, sigversion=SIGVERSION_WITNESS_V0)
    same(got, want, 'digest', 'segwit signature hash differs', idx=idx, ht=ht, script=sc, amount=amt, chain=chain, model=t)
    G.unchanged(tx, before, 'sighash')
    rec.ev()
    rec.count('digests')
    rec.count('foreign-chain', not chain.startswith('elements'))
    iss = bool(t['vin'][idx]['issuance'])
    other = any(x['issuance'] for j, x in enumerate(t['vin']) if j != idx)
    rec.count('issuance-signed', iss)
    rec.count('issuance-elsewhere', other)
    rec.count('single-out-of-range', ht & 0x1f == 3 and idx >= len(t['vout']))
    rec.count('late-locktime', t['locktime'] >= 2 ** 31)
    rec.count('amount-' + ('null' if not amt else 'explicit' if amt[0] == 1 else 'commitment'))
    rec.feat(ht, iss, other, t['vin'][idx]['pegin'], idx < len(t['vout']), amt[:1], chain, tx.is_mutable(), raw, len(sc) > 252)


def episode(ctx):
    r = ctx.rng
    t = gen.tx(r, lo=1, many=0.01)
    G.null_index(r, t)
    for _ in range(4):
        tx = B.lib_tx(t, r.random() < .5, r.random() < .5)
        raw = r.random() < .6
        one(ctx, t, tx, G.code(r), r.randrange(len(t['vin'])), G.hashtype(r) if raw else r.choice((1, 2, 3, 0x81, 0x82, 0x83)), gen.value(r),
            r.choice(G.ELEMENTS if r.random() < .75 else G.FOREIGN), raw)
    ctx.rec.sample(tx=C.w_tx(t)[:300])


def history(ctx, steps=5):
    """the same object hashed, changed in place and hashed again, mostly with the same arguments"""
    r = ctx.rng
    t, tx = poke.start(r)
    a = None
    for k in range(steps + 1):
        if a is None or a[1] >= len(t['vin']) or r.random() < .3:
            a = [G.code(r), r.randrange(len(t['vin'])), r.choice((1, 1, 2, 3, 0x81, 0x83)), gen.value(r), r.choice(G.ELEMENTS), r.random() < .5]
        one(ctx, t, tx, *a)
        if r.random() < .3:
            p = r.randrange(2)
            a[(0, 3)[p]] = (G.code, gen.value)[p](r)
            one(ctx, t, tx, *a)
        ctx.rec.feat('poke', poke.tx(r, t, tx))
    ctx.rec.count('history')


def d_history(ctx):
    for _ in range(60):
        history(ctx, 6)


def d_siblings(ctx):
    r = ctx.rng
    for _ in range(30):
        a = G.code(r), 0, r.choice((1, 1, 2, 3, 0x81, 0x83)), gen.value(r), r.choice(G.ELEMENTS), r.random() < .5
        G.siblings(ctx, lambda t, x: one(ctx, t, x, *a))


def d_grid(ctx):
    r = ctx.rng
    for nin in (1, 2, 3):
        for nout in (0, 1, 2, 3):
            t = gen.tx(r, lo=1, many=0)
            t['vin'] = [gen.txin(r) for _ in range(nin)]
            t['vin'][0].update(n=3, issuance=gen.issuance(r), pegin=True)
            t['vout'] = [gen.txout(r) for _ in range(nout)]
            t['winwit'] = t['woutwit'] = None
            tx = B.lib_tx(t, nin == 2)
            for idx in range(nin):
                for ht in (1, 2, 3, 0x81, 0x82, 0x83):
                    for amt in (b'', b'\x01' + bytes(8), b'\x08' + b'\x77' * 32):
                        one(ctx, t, tx, b'\x76\xa9\x14' + r.randbytes(20) + b'\x88\xab\xac', idx, ht, amt, 'elements', ht % 2 == 1)


def d_types(ctx):
    r = ctx.rng
    t = gen.tx(r, lo=2, many=0)
    tx = B.lib_tx(t)
    for ht in list(range(256)) + [-1, -2 ** 31, 2 ** 31 - 1, 256, 257]:
        one(ctx, t, tx, b'\xac', ht % len(t['vin']), ht, b'\x01' + bytes(8), 'elements', True)


def d_bad(ctx):
    """requests that are not meaningful raise"""
    from bitcointx.core.script import SIGVERSION_WITNESS_V0, SIGVERSION_TAPROOT
    t = gen.tx(ctx.rng, lo=1, many=0)
    tx = B.lib_tx(t)
    s = B.lib_script(b'\xac')
    V = B.L().CConfidentialValue
    for a, kw in (((tx, 0, 1), dict(sigversion=SIGVERSION_WITNESS_V0)), ((tx, 0, 1), dict(amount=5, sigversion=SIGVERSION_WITNESS_V0)),
                  ((tx, 0, 1), dict(amount=V(5), sigversion=SIGVERSION_TAPROOT)), ((tx, 0, 1), dict(amount=V(5), sigversion=77)),
                  ((tx, len(t['vin']), 1), dict(amount=V(5), sigversion=SIGVERSION_WITNESS_V0)),
                  ((tx, 0, 0), dict(amount=V(5), sigversion=SIGVERSION_WITNESS_V0)), ((tx, 0, 4), dict(amount=V(5), sigversion=SIGVERSION_WITNESS_V0))):
        try:
            s.sighash(*a, **kw)
        except (ValueError, TypeError, IndexError):
            ctx.rec.ev()
        else:
            expect(False, 'bad-request', 'a meaningless request was answered', args=repr(a[1:]), kw=repr(kw))


def d_large(ctx):
    """many inputs and outputs: positions beyond one byte"""
    r = ctx.rng
    for nin, nout in gen.LARGE:
        t, at = gen.large(r, nin, nout)
        tx = B.lib_tx(t, nin % 2 == 0)
        for ht in (1, 2, 3, 0x81, 0x83):
            for idx in r.sample(at, min(3, len(at))) + [nin - 1]:
                one(ctx, t, tx, G.code(r), idx, ht, gen.value(r), 'elements', r.random() < .5)
                ctx.rec.count('large')


DIRECTED = [d_history, d_history, d_siblings, d_grid, d_types, d_bad, d_large]
