"""S03: the taproot and tapscript signature hash against an independent model."""
from vmon import gen, poke, bridge as B
from vmon.props import _sig as G
from vmon.rec import same, expect
from vmon.ref import codec as C, sighash as H

TECHNIQUE = 'online reference-model monitor of signature hash calls'
RULE = """Evaluation = one taproot digest of the library compared with the independent model, for one (transaction, spent outputs, input, hash
type, path, annex, chain).  Distinct = (hash type, path, annex, witness shape, issuance and peg-in of signed and other inputs, chain, mutability)."""
QUICK = 1500
TYPES = (None, 1, 2, 3, 0x81, 0x82, 0x83)
REQUIRED = {'siblings': 30, 'large': 100, 'leaves': 110, 'history': 100, 'digests': 3250, 'script-path': 1500, 'annex': 1500, 'acp': 1500, 'acp-issuance': 300, 'no-witness': 300, 'one-sided': 100,
            'refused': 150, 'single': 300, 'foreign-chain': 300}


def args(r):
    path = r.random() < .5
    return dict(leaf=gen.script(r, valid=True) if path else None, codesep=r.choice((-1, 0, 1, 2 ** 31 - 1)) if path else -1,
                annex=gen.h32(r) if r.random() < .4 else None, genesis=gen.h32(r))


def one(ctx, t, tx, spent, idx, ht, a, chain, method=True, so=None):
    from bitcointx import ChainParams
    from bitcointx.core.script import SIGVERSION_TAPSCRIPT, SIGVERSION_TAPROOT, SIGHASH_Type
    from elementstx.core.script import ElementsSignatureHashSchnorr
    rec = ctx.rec
    leaf = a['leaf']
    lh = H.leaf_hash(leaf) if leaf is not None else None
    want = H.taproot(t, idx, spent, ht, a['genesis'], lh, a['codesep'], a['annex'])
    before = G.snapshot(tx)
    kw = dict(annex_hash=a['annex'], genesis_block_hash=a['genesis'])
    if ht is not None:
        kw['hashtype'] = SIGHASH_Type(ht)
    if so is None:
        so = [B.lib_out(o, ctx.rng.random() < .3) for o in spent]
        if ctx.rng.random() < .3:
            so = tuple(so)
    with ChainParams(chain):
        try:
            if leaf is not None:
                if method:
                    got = B.lib_script(leaf).sighash_schnorr(tx, idx, so, codeseparator_pos=a['codesep'], **kw)
                else:
                    got = ElementsSignatureHashSchnorr(tx, idx, so, sigversion=SIGVERSION_TAPSCRIPT, tapleaf_hash=lh, codeseparator_pos=a['codesep'], **kw)
            elif method:
                got = ElementsSignatureHashSchnorr(tx, idx, so, **kw)
            else:
                got = ElementsSignatureHashSchnorr(tx, idx, so, sigversion=SIGVERSION_TAPROOT, **kw)
        except ValueError:
            if want is not None:
                raise
            rec.count('refused')
            rec.ev()
            return
    expect(want is not None, 'single-range', 'a hash is returned for single without matching output', idx=idx, ht=ht)
    same(got, want, 'digest', 'taproot signature hash differs', idx=idx, ht=ht, args=a, chain=chain, spent=spent, model=t)
    G.unchanged(tx, before, 'sighash')
    same([B.m_out(o) for o in so], list(spent), 'spent-changed', 'computing the hash changed the spent outputs')
    rec.ev()
    rec.count('digests')
    acp = bool(ht and ht & 0x80)
    iss = bool(t['vin'][idx]['issuance'])
    rec.count('script-path', leaf is not None)
    rec.count('annex', a['annex'] is not None)
    rec.count('acp', acp)
    rec.count('acp-issuance', acp and iss)
    rec.count('single', bool(ht) and ht & 3 == 3)
    rec.count('no-witness', not C.has_witness(t))
    rec.count('foreign-chain', not chain.startswith('elements'))
    rec.feat(ht, leaf is not None, a['annex'] is not None, C.has_witness(t), iss, t['vin'][idx]['pegin'], any(i['issuance'] for i in t['vin']), chain,
             tx.is_mutable(), idx < len(t['vout']), a['codesep'])


def episode(ctx):
    r = ctx.rng
    t = gen.tx(r, lo=1, many=0.005)
    if r.random() < .15 and C.has_witness(t):
        t['winwit' if r.random() < .5 else 'woutwit'] = None
        ctx.rec.count('one-sided')
    spent = [gen.txout(r) for _ in t['vin']]
    G.null_index(r, t)
    for _ in range(4):
        tx = B.lib_tx(t, r.random() < .5, r.random() < .5)
        one(ctx, t, tx, spent, r.randrange(len(t['vin'])), r.choice(TYPES), args(r), r.choice(G.ELEMENTS if r.random() < .8 else G.FOREIGN), r.random() < .6)
    ctx.rec.sample(tx=C.w_tx(t)[:300])


def history(ctx, steps=5):
    """the same objects hashed, changed in place (the transaction, the spent outputs, one argument) and hashed again"""
    r = ctx.rng
    t, tx = poke.start(r)
    frozen = r.random() < .3          # an immutable transaction: only the rest changes
    if frozen:
        tx = tx.to_immutable()
    spent = [gen.txout(r) for _ in t['vin']]
    so = [B.lib_out(o, True) for o in spent]
    idx, ht, a = r.randrange(len(spent)), r.choice(TYPES), args(r)
    for k in range(steps):
        one(ctx, t, tx, spent, idx, ht, a, r.choice(G.ELEMENTS), True, so)
        p = r.randrange(10)
        if p < 4 and not frozen:
            ctx.rec.feat('poke', poke.tx(r, t, tx, same_size=True))
        elif p < 7:
            o = poke.out(r, spent, so)
            ctx.rec.feat('poke-spent', o)
        elif p == 7:
            # other outputs in a new list, the same transaction
            spent = [gen.txout(r) for _ in t['vin']]
            so = [B.lib_out(o, r.random() < .5) for o in spent]
            if not all(o.is_mutable() for o in so):
                one(ctx, t, tx, spent, idx, ht, a, 'elements', True, so)
                so = [B.lib_out(o, True) for o in spent]
        elif p == 8:
            b = args(r)
            f = r.choice(('annex', 'genesis'))
            a = dict(a, **{f: b[f]})
        else:
            idx, ht = r.randrange(len(spent)), r.choice(TYPES)
    one(ctx, t, tx, spent, idx, ht, a, 'elements', True, so)
    ctx.rec.count('history')


def d_history(ctx):
    for _ in range(60):
        history(ctx, 8)


def d_siblings(ctx):
    r = ctx.rng
    for _ in range(30):
        ht, a, spent = r.choice((None,) + TYPES), args(r), [gen.txout(r) for _ in range(8)]
        so = [B.lib_out(o) for o in spent]
        G.siblings(ctx, lambda t, x: one(ctx, t, x, spent[:len(t['vin'])], 0, ht, a, 'elements', True, so[:len(t['vin'])]))


def d_grid(ctx):
    r = ctx.rng
    for nin in (1, 2, 3):
        for nout in (0, 1, 2):
            t = gen.tx(r, lo=1, many=0)
            t['vin'] = [gen.txin(r) for _ in range(nin)]
            t['vin'][-1].update(n=3, issuance=gen.issuance(r), pegin=nin == 2)
            t['vout'] = [gen.txout(r) for _ in range(nout)]
            t['winwit'] = [gen.inwit(r) for _ in range(nin)] if nin != 1 else None
            t['winwit'] and t['winwit'][-1].update(amount_proof=r.randbytes(300), keys_proof=r.randbytes(10))
            t['woutwit'] = [gen.outwit(r) for _ in range(nout)] if nin != 1 else None
            spent = [gen.txout(r) for _ in t['vin']]
            tx = B.lib_tx(t, nin == 2)
            for idx in range(nin):
                for ht in TYPES:
                    for leaf in (None, b'\x51', b''):
                        for annex in (None, r.randbytes(32)):
                            one(ctx, t, tx, spent, idx, ht, dict(leaf=leaf, codesep=-1 if leaf is None else 5, annex=annex, genesis=r.randbytes(32)), 'elements')


def d_bad(ctx):
    """requests without an answer raise"""
    from bitcointx.core.script import SIGVERSION_TAPSCRIPT, SIGVERSION_TAPROOT, SIGVERSION_BASE, SIGVERSION_WITNESS_V0, SIGHASH_SINGLE, SIGHASH_ANYONECANPAY
    from elementstx.core.script import ElementsSignatureHashSchnorr as F
    r = ctx.rng
    g = b'\x11' * 32
    t = gen.tx(r, lo=2, many=0)
    spent = [B.lib_out(gen.txout(r)) for _ in t['vin']]
    tx = B.lib_tx(t)
    n = len(t['vin'])
    cases = [((tx, n, spent), dict(genesis_block_hash=g)), ((tx, -1, spent), dict(genesis_block_hash=g)),
             ((tx, 0, spent[:-1]), dict(genesis_block_hash=g)), ((tx, 0, spent + spent[:1]), dict(genesis_block_hash=g)), ((tx, 0, []), dict(genesis_block_hash=g)),
             ((tx, 0, spent), dict(genesis_block_hash=g, sigversion=SIGVERSION_TAPSCRIPT)),
             ((tx, 0, spent), dict(genesis_block_hash=g, sigversion=SIGVERSION_TAPSCRIPT, tapleaf_hash=g, codeseparator_pos=None)),
             ((tx, 0, spent), dict(genesis_block_hash=g, sigversion=SIGVERSION_BASE)), ((tx, 0, spent), dict(genesis_block_hash=g, sigversion=SIGVERSION_WITNESS_V0)),
             ((tx, 0, spent), dict(genesis_block_hash=g, sigversion=99)), ((tx, 0, spent), dict(genesis_block_hash=g, hashtype=7)),
             ((tx, 0, spent), dict(genesis_block_hash=g, hashtype=0))]
    for bad in (b'', g[:31], g + b'\0', 'a' * 32, 5):
        cases.append(((tx, 0, spent), dict(genesis_block_hash=bad)))
        cases.append(((tx, 0, spent), dict(genesis_block_hash=g, annex_hash=bad)))
        cases.append(((tx, 0, spent), dict(genesis_block_hash=g, sigversion=SIGVERSION_TAPSCRIPT, tapleaf_hash=bad)))
    short = B.lib_tx(dict(t, vout=t['vout'][:1] or [gen.txout(r)], winwit=None, woutwit=None))
    for ht in (SIGHASH_SINGLE, SIGHASH_SINGLE | SIGHASH_ANYONECANPAY):
        for kw in ({}, dict(sigversion=SIGVERSION_TAPSCRIPT, tapleaf_hash=g)):
            for i in range(1, n):
                cases.append(((short, i, spent), dict(genesis_block_hash=g, hashtype=ht, **kw)))
    cases.append(((tx, 0, spent), {}))
    for a, kw in cases:
        try:
            got = F(*a, **kw)
        except (ValueError, TypeError):
            ctx.rec.ev()
            ctx.rec.count('refused')
        else:
            expect(False, 'bad-request', 'a request without an answer was answered', idx=a[1], n_spent=len(a[2]), kw=repr(kw), got=got)


def d_large(ctx):
    """many inputs and outputs: positions beyond one byte"""
    r = ctx.rng
    for nin, nout in gen.LARGE:
        t, at = gen.large(r, nin, nout)
        tx = B.lib_tx(t, nin % 2 == 0)
        spent = [gen.txout(r) if i in at else {'asset': b'\x01' + b'\x77' * 32, 'value': b'\x01' + i.to_bytes(8, 'big'), 'nonce': b'', 'script': b'\x51'} for i in range(nin)]
        so = [B.lib_out(o) for o in spent]
        for ht in TYPES:
            for idx in r.sample(at, min(3, len(at))) + [nin - 1]:
                one(ctx, t, tx, spent, idx, ht, args(r), 'elements', r.random() < .6, so)
                ctx.rec.count('large')


def d_leaves(ctx):
    """scripts around every length boundary, code separator positions of every size"""
    r = ctx.rng
    t = gen.tx(r, lo=2, many=0, witness=True)
    spent = [gen.txout(r) for _ in t['vin']]
    tx = B.lib_tx(t)
    for n in (0, 1, 32, 75, 76, 252, 253, 254, 255, 256, 519, 520, 521, 9999, 10000, 10001, 65535, 65536, 100000):
        for cs in (-1, 0, 1, r.choice((127, 128, 252, 253, 255, 256, 65535, 65536, 2 ** 31 - 1, n))):
            one(ctx, t, tx, spent, r.randrange(len(spent)), r.choice(TYPES[:3]), dict(args(r), leaf=b'\x51' * n, codesep=cs), 'elements', True)
            ctx.rec.count('leaves')
    # the same lengths of the script that is spent
    for n in (252, 253, 254, 255, 256, 519, 520, 10001, 65535, 65536, 70000, 100000):
        idx = r.randrange(len(spent))
        spent2 = [dict(o, script=b'\x51' * n) if i == idx else o for i, o in enumerate(spent)]
        for ht in (None, 0x81, 0x82, 0x83, 1):
            if ht == 0x83 and idx >= len(t['vout']):
                continue
            one(ctx, t, tx, spent2, idx, ht, args(r), 'elements', r.random() < .5)
            ctx.rec.count('leaves')


DIRECTED = [d_history, d_history, d_siblings, d_grid, d_bad, d_large, d_leaves]
