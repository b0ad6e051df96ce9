"""W05: sizes reported against sizes of the written forms."""
from vmon import gen, poke, bridge as B, corpus
from vmon.rec import same
from vmon.ref import codec as C, ec

RULE = """Evaluation = one reported size or count compared with the one computed from the independently written form: virtual size of a
transaction (every residue of the weight modulo four, all mixtures of witness data), output size of an address or address class, number of
issuances.  Distinct = (what, weight mod 4, witness mixture, transaction shape) or (address class, chain, how it was asked)."""
QUICK = 2500
REQUIRED = {'large': 11, 'history': 600, 'vsize': 4500, 'vsize-witness': 2500, 'mod0': 500, 'mod1': 500, 'mod2': 500, 'mod3': 500, 'only-in': 300, 'only-out': 300, 'issuances': 2000,
            'output-size': 1000, 'class-size': 30}

CLASSES = ('P2PKHCoinAddress', 'P2SHCoinAddress', 'P2WPKHCoinAddress', 'P2WSHCoinAddress', 'P2TRCoinAddress',
           'P2PKHCoinConfidentialAddress', 'P2SHCoinConfidentialAddress', 'P2WPKHCoinConfidentialAddress', 'P2WSHCoinConfidentialAddress',
           'P2TRCoinConfidentialAddress')


def issuances(t):
    return sum((len(i['issuance']['amount']) > 0) + (len(i['issuance']['keys']) > 0) for i in t['vin'] if i['issuance'])


def check_tx(ctx, t, tx, how):
    rec = ctx.rec
    same(tx.get_virtual_size(), C.vsize(t), 'vsize', 'virtual size is wrong', how=how, model=t)
    same(tx.num_issuances, issuances(t), 'num-issuances', 'number of issuances is wrong', model=t)
    rec.ev(2)
    w = 3 * len(C.w_tx(t, False)) + len(C.w_tx(t))
    wi = any(not C.inwit_null(x) for x in t['winwit'] or ())
    wo = any(not C.outwit_null(x) for x in t['woutwit'] or ())
    rec.count('vsize')
    rec.count('vsize-witness', wi or wo)
    rec.count('only-in', wi and not wo)
    rec.count('only-out', wo and not wi)
    rec.count('mod%d' % (w % 4))
    rec.count('issuances', issuances(t) > 0)
    rec.feat(w % 4, wi, wo, gen.shape(t)[:3], tx.is_mutable(), how, min(issuances(t), 5))


def address(r, name):
    """an address object of the current chain and the script it stands for"""
    import elementstx.wallet as W, bitcointx.wallet as BW
    cls = getattr(W, name, None) or getattr(BW, name)
    n = 32 if 'P2WSH' in name or 'P2TR' in name else 20
    prog = ec.ser_x(ec.mul(r.randrange(1, ec.N))) if 'P2TR' in name else gen.nbytes(r, n)
    data = prog
    if 'Confidential' in name:
        data = ec.ser(ec.mul(r.randrange(1, ec.N))) + prog
    a = cls.from_bytes(data)
    s = {'P2PKH': b'\x76\xa9\x14' + prog + b'\x88\xac', 'P2SHC': b'\xa9\x14' + prog + b'\x87', 'P2WPK': b'\x00\x14' + prog,
         'P2WSH': b'\x00\x20' + prog, 'P2TRC': b'\x51\x20' + prog}[name[:5]]
    return cls, a, s


def want_size(s, conf):
    o = {'asset': b'\x0a' + bytes(32) if conf else b'', 'value': b'\x08' + bytes(32) if conf else b'\x01' + bytes(8),
         'nonce': b'\x02' + bytes(32) if conf else b'', 'script': s}
    return len(C.w_out(o))


def episode(ctx):
    from bitcointx import ChainParams
    r, rec = ctx.rng, ctx.rec
    t = gen.tx(r, many=0.01)
    if t['winwit'] is not None and r.random() < .4:
        if r.random() < .5:
            t['winwit'] = [dict(C.NULL_INWIT) for _ in t['vin']]
        else:
            t['woutwit'] = [dict(C.NULL_OUTWIT) for _ in t['vout']]
    check_tx(ctx, t, B.lib_tx(t, False), 'built')
    mx = B.lib_tx(t, True)
    check_tx(ctx, t, mx, 'mutable')
    if t['vout']:
        mx.vout[0].scriptPubKey = B.lib_script(t['vout'][0]['script'] + b'\x51')
        t['vout'][0]['script'] += b'\x51'
        check_tx(ctx, t, mx, 'edited')
    if r.random() < .2:
        import elementstx.core as core
        with ChainParams(r.choice(('bitcoin', 'elements/liquidv1'))):
            check_tx(ctx, t, core.CElementsTransaction.deserialize(C.w_tx(t)), 'other-chain')
    chain = r.choice(('elements', 'elements/liquidv1'))
    with ChainParams(chain):
        name = r.choice(CLASSES)
        cls, a, s = address(r, name)
        sizes(ctx, name, chain, a, s, 'instance')
    rec.sample(weight=3 * len(C.w_tx(t, False)) + len(C.w_tx(t)), vsize=C.vsize(t))


def sizes(ctx, name, chain, a, s, how):
    import elementstx.core as core
    conf = 'Confidential' in name
    got = a.get_output_size()
    if not conf:
        # defined by the project (and its tests) as the size with an explicit amount and neither asset nor nonce
        o = core.CElementsTxOut(core.CConfidentialValue(5), a.to_scriptPubKey())
    else:
        o = core.CElementsTxOut(core.CConfidentialValue(b'\x08' + b'\x11' * 32), a.to_scriptPubKey(), core.CConfidentialAsset(b'\x0a' + b'\x11' * 32),
                                core.CConfidentialNonce(b'\x02' + b'\x11' * 32))
    same(got, len(o.serialize()), 'output-size', 'output size of an address is not that of an output paying to it', cls=name, chain=chain)
    same(got, want_size(s, conf), 'output-size-model', 'output size of an address is wrong', cls=name, chain=chain)
    ctx.rec.ev(2)
    ctx.rec.count('output-size')
    ctx.rec.feat('size', name, chain, how)


def d_classes(ctx):
    import elementstx.wallet as W, bitcointx.wallet as BW
    from bitcointx import ChainParams
    for chain in ('elements', 'elements/liquidv1', 'elements/elementsregtest'):
        with ChainParams(chain):
            for name in CLASSES:
                cls, a, s = address(ctx.rng, name)
                if 'P2TR' not in name:
                    same(cls.get_output_size(), want_size(s, 'Confidential' in name), 'class-size', 'output size of an address class is wrong',
                         cls=name, chain=chain)
                    same(type(a).get_output_size(), want_size(s, 'Confidential' in name), 'class-size', 'output size of an address class is wrong',
                         cls=name, chain=chain)
                ctx.rec.ev()
                ctx.rec.count('class-size')
                ctx.rec.feat('class-size', name, chain)
                sizes(ctx, name, chain, a, s, 'text')


def d_history(ctx):
    """sizes follow every change made in place"""
    r = ctx.rng
    for _ in range(150):
        t, tx = poke.start(r, lo=0)
        for k in range(6):
            check_tx(ctx, t, tx, poke.tx(r, t, tx) if k else 'start')
            ctx.rec.count('history')


def d_corpus(ctx):
    for b in corpus.transactions():
        t = C.r_tx(b)
        check_tx(ctx, t, B.L().CElementsTransaction.deserialize(b), 'corpus')


def d_residues(ctx):
    """every residue of the weight, with every mixture of witness data"""
    for k in range(8):
        for wi in (0, 1, 2):
            for wo in (0, 1, 2):
                t = {'version': 2, 'locktime': 0, 'winwit': None, 'woutwit': None,
                     'vin': [{'hash': b'\x01' * 32, 'n': 1, 'script': b'\x51' * k, 'seq': 0, 'issuance': None, 'pegin': False}],
                     'vout': [{'asset': b'\x01' * 33, 'value': b'\x01' + bytes(8), 'nonce': b'', 'script': b'\x51' * k}]}
                if wi or wo:
                    t['winwit'] = [dict(C.NULL_INWIT, stack=[b'a' * k] if wi else [], amount_proof=b'p' * (wi - 1) * k if wi else b'')]
                    t['woutwit'] = [dict(C.NULL_OUTWIT, surj=b'x' * wo, range=b'r' * (wo * 300 - k) if wo else b'')]
                check_tx(ctx, t, B.lib_tx(t), 'grid')


def d_large(ctx):
    """many inputs and outputs; counts around the places where they take more bytes"""
    r = ctx.rng
    for nin, nout in gen.LARGE + ((252, 252), (253, 252), (252, 253), (65535, 1), (1, 65536)):
        t, _ = gen.large(r, nin, nout)
        check_tx(ctx, t, B.lib_tx(t, nin % 2 == 0), 'large')
        ctx.rec.count('large')


DIRECTED = [d_large, d_history, d_classes, d_corpus, d_residues]
