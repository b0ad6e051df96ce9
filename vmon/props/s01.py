"""S01: the legacy signature hash against an independent model."""
from vmon import gen, poke, bridge as B
from vmon.props import _sig as G
from vmon.rec import same, expect
from vmon.ref import codec as C, sighash as H

TECHNIQUE = 'online reference-model monitor of signature hash calls'
RULE = """Evaluation = one digest of the library compared with the independent model, for one (transaction, input, script, hash type, chain).
Distinct = (hash type, issuance/peg-in of the signed input, SINGLE position, code separators present, chain, mutability)."""
QUICK = 1500
REQUIRED = {'siblings': 30, 'large': 80, 'history': 100, 'digests': 4000, 'single-out-of-range': 100, 'index-out-of-range': 100, 'codesep': 400, 'issuance-signed': 300, 'foreign-chain': 300}


def one(ctx, t, tx, sc, idx, ht, chain, raw):
    from bitcointx import ChainParams
    from bitcointx.core.script import SIGVERSION_BASE, SIGHASH_Type
    rec = ctx.rec
    want = H.base(t, sc, idx, ht)
    before = G.snapshot(tx)
    script = B.lib_script(sc)
    foreign = not chain.startswith('elements')
    with ChainParams(chain):
        kw = {} if ctx.rng.random() < .5 else {'sigversion': SIGVERSION_BASE}
        if ctx.rng.random() < .2:
            kw['amount'] = B.L().CConfidentialValue(gen.value(ctx.rng))
        try:
            if raw:
                got, err = script.raw_sighash(tx, idx, ht, **kw)
                if want is None:
                    expect(err, 'single-bug-err', 'no error where consensus hashes to one', idx=idx, ht=ht)
                    same(got, H.ONE, 'single-bug-one', 'constant one expected', idx=idx, ht=ht)
                else:
                    expect(err is None, 'err', 'unexpected error from the signature hash: %s' % err, idx=idx, ht=ht)
            else:
                got = script.sighash(tx, idx, SIGHASH_Type(ht), **kw)
                expect(want is not None, 'single-bug-silent', 'a hash is returned where there is none', idx=idx, ht=ht)
        except ValueError as e:
            if want is None and not raw:
                got = None
            elif G.witness_program(sc) or foreign:
                rec.count('refused')
                return
            else:
                raise
    if want is not None:
        same(got, want, 'digest', 'legacy signature hash differs', idx=idx, ht=ht, script=sc, chain=chain, model=t)
    G.unchanged(tx, before, 'sighash')
    rec.ev()
    rec.count('digests')
    rec.count('foreign-chain', foreign)
    rec.count('codesep', b'\xab' in sc)
    rec.count('index-out-of-range', idx >= len(t['vin']))
    rec.count('single-out-of-range', want is None and idx < len(t['vin']))
    i = t['vin'][idx] if idx < len(t['vin']) else None
    iss = bool(i and i['issuance'])
    rec.count('issuance-signed', iss)
    rec.feat(ht, iss, bool(i and i['pegin']), idx - len(t['vout']) if idx > len(t['vout']) - 2 else -9, b'\xab' in sc, chain, tx.is_mutable(), raw, len(sc) > 252)


def episode(ctx):
    r = ctx.rng
    t = gen.tx(r, lo=1, many=0.01)
    for _ in range(4):
        tx = B.lib_tx(t, r.random() < .5, r.random() < .5)
        idx = r.randrange(len(t['vin'])) if r.random() < .92 else len(t['vin']) + r.choice((0, 1, 1000))
        raw = r.random() < .6
        ht = G.hashtype(r) if raw else r.choice((1, 2, 3, 0x81, 0x82, 0x83))
        chain = r.choice(G.ELEMENTS if r.random() < .75 else G.FOREIGN)
        one(ctx, t, tx, G.code(r), idx, ht, chain, raw)
    ctx.rec.sample(tx=C.w_tx(t)[:300])


def history(ctx, steps=5):
    """the same object hashed, changed in place and hashed again, mostly with the same arguments"""
    r = ctx.rng
    t, tx = poke.start(r)
    a = None
    for k in range(steps):
        if a is None or r.random() < .3:
            a = G.code(r), r.randrange(len(t['vin'])), r.choice((1, 1, 2, 3, 0x81, 0x83)), r.choice(G.ELEMENTS), r.random() < .5
        one(ctx, t, tx, *a)
        ctx.rec.feat('poke', poke.tx(r, t, tx))
    one(ctx, t, tx, *a)
    ctx.rec.count('history')


def d_history(ctx):
    for _ in range(60):
        history(ctx, 6)


def d_siblings(ctx):
    r = ctx.rng
    for _ in range(30):
        a = G.code(r), 0, r.choice((1, 1, 2, 3, 0x81, 0x83)), r.choice(G.ELEMENTS), r.random() < .5
        G.siblings(ctx, lambda t, x: one(ctx, t, x, *a))


def d_grid(ctx):
    """every hash type x input position x number of outputs, in transactions of several shapes"""
    r = ctx.rng
    for nin in (1, 2, 3):
        for nout in (0, 1, 2, 3):
            t = gen.tx(r, lo=1, many=0)
            t['vin'] = [gen.txin(r) for _ in range(nin)]
            t['vin'][-1].update(n=3, issuance=gen.issuance(r), pegin=True)
            t['vout'] = [gen.txout(r) for _ in range(nout)]
            t['winwit'] = [gen.inwit(r) for _ in range(nin)]
            t['woutwit'] = [gen.outwit(r) for _ in range(nout)]
            tx = B.lib_tx(t, nin == 2)
            for idx in range(nin + 1):
                for ht in (1, 2, 3, 0x81, 0x82, 0x83):
                    for raw in (True, False):
                        one(ctx, t, tx, b'\x76\xa9\x14' + r.randbytes(20) + b'\x88\xab\xac', idx, ht, 'elements', raw)


def d_types(ctx):
    """all 256 one-byte hash types, in raw form; those that are no signature hash type are refused by the wallet-level call"""
    r = ctx.rng
    t = gen.tx(r, lo=2, many=0)
    tx = B.lib_tx(t)
    sc = B.lib_script(b'\xac')
    for ht in range(256):
        one(ctx, t, tx, b'\xac', ht % len(t['vin']), ht, 'elements', True)
        if ht & 0x7f not in (1, 2, 3):
            try:
                sc.sighash(tx, 0, ht)
            except ValueError:
                ctx.rec.ev()
            else:
                expect(False, 'hash-type', 'unknown hash type accepted', ht=ht)


def d_large(ctx):
    """many inputs and outputs: positions beyond one byte"""
    r = ctx.rng
    for nin, nout in gen.LARGE:
        t, at = gen.large(r, nin, nout)
        tx = B.lib_tx(t, nin % 2 == 0)
        for ht in (1, 2, 3, 0x81, 0x83):
            for idx in r.sample(at, min(3, len(at))) + [nin - 1]:
                one(ctx, t, tx, b'\x76\xa9\x14' + r.randbytes(20) + b'\x88\xac', idx, ht, 'elements', r.random() < .5)
                ctx.rec.count('large')


DIRECTED = [d_history, d_history, d_siblings, d_grid, d_types, d_large]
