"""A03: joining and splitting confidential addresses."""
from vmon import ct
from vmon.ref import addr as A, ec
from vmon.rec import expect, same
from vmon.props.a01 import program, check, CHAINS, OTHER

TECHNIQUE = 'matrix monitor: every source address, target class and active chain joined, results and refusals compared with a table written from the specification'
RULE = """Evaluation = one join of a plain address with a key through one class, or one observation of its result (kind, bytes, text, script, key, plain
address, re-join).  Every plain kind of both families, every confidential class (dispatching, family, concrete, of both families), every selected chain
incl. Bitcoin; keys valid as bytes, bytearray and key object, and invalid in each way; sources that are confidential, text, bytes or of Bitcoin.
Distinct = (active chain, source class, target class, sort of key, outcome)."""
QUICK = 500
REQUIRED = {'joined': 8000, 'redeem': 2000, 'refused-chain': 5000, 'refused-kind': 5000, 'refused-key': 8000, 'refused-source': 4000, 'twins': 1900}
BASE = ('P2PKH', 'P2SH')


def targets():
    """class name -> (family or None for the selected one, plain kinds it joins)"""
    out = {'CCoinConfidentialAddress': (None, A.KINDS), 'CBase58CoinConfidentialAddress': (None, BASE),
           'CBlech32CoinConfidentialAddress': (None, tuple(k for k in A.KINDS if k not in BASE))}
    for k in A.KINDS:
        out[k + 'CoinConfidentialAddress'] = (None, (k,))
    for chain in ('elements', 'elements/liquidv1'):
        f = A.CHAIN[chain]['family']
        out['C%sConfidentialAddress' % f] = (f, A.KINDS)
        out['CBase58%sConfidentialAddress' % f] = (f, BASE)
        out['CBlech32%sConfidentialAddress' % f] = (f, tuple(k for k in A.KINDS if k not in BASE))
        for k in A.KINDS:
            out[A.cls_name(chain, 'c' + k)] = (f, (k,))
    return out


TARGETS = targets()


def bad_keys(r):
    good = ct.pub(ct.scalar(r))
    p = ec.P
    x = int.from_bytes(good[1:], 'big')
    while pow((x**3 + 7) % p, (p - 1) // 2, p) == 1:
        x = (x + 1) % p
    pt = ec.lift_x(good[1:])
    un = b'\x04' + pt[0].to_bytes(32, 'big') + pt[1].to_bytes(32, 'big')
    return {'not on the curve': b'\x02' + x.to_bytes(32, 'big'), 'x above the field': b'\x02' + b'\xff' * 32, 'zero': bytes(33), 'empty': b'',
            'short': good[:32], 'long': good + b'\0', 'prefix': bytes([r.choice((0, 1, 4, 5, 8, 10, 255))]) + good[1:], 'uncompressed': un, 'hybrid': bytes([6 + (pt[1] & 1)]) + un[1:],
            'x-only': good[1:], 'zero x': b'\x02' + bytes(32), 'random': r.randbytes(r.randrange(0, 32))}


def join(ctx, active, name, src, key, how):
    """address or None"""
    from bitcointx.wallet import CCoinAddressError
    try:
        return A.find(name).from_unconfidential(src, key)
    except (TypeError, ValueError, CCoinAddressError) as e:
        return None
    except Exception as e:
        expect(False, 'error-type', 'joining (%s) raised %s: %s' % (how, type(e).__name__, e), cls=name, source=str(src), bkey=bytes(key) if isinstance(key, (bytes, bytearray)) else str(key))


def episode(ctx):
    from bitcointx import ChainParams
    from bitcointx.core.key import CPubKey
    r, rec = ctx.rng, ctx.rec
    active = r.choice(CHAINS + OTHER)
    fam = A.CHAIN[active]['family'] if active in A.CHAIN else None
    pub = ct.pub(ct.scalar(r))
    form = r.choice((bytes, bytearray, CPubKey))
    bad = bad_keys(r)
    with ChainParams(active):
        for chain in ('elements', 'elements/liquidv1'):
            for kind in A.KINDS:
                prog = program(r, kind)
                src = A.find(A.cls_name(chain, kind)).from_bytes(prog)
                ps = A.encode(chain, kind, prog)
                conf = A.find(A.cls_name(chain, 'c' + kind)).from_bytes(ct.pub(ct.scalar(r)) + prog)
                for name, (f, kinds) in TARGETS.items():
                    if r.random() < .3:
                        continue
                    ok = (f or fam) == A.CHAIN[chain]['family'] and kind in kinds
                    a = join(ctx, active, name, src, form(pub), 'valid')
                    rec.ev()
                    rec.feat(active, chain, kind, name, a is not None)
                    if not ok:
                        expect(a is None, 'joined-foreign', 'joining an address with a class of another kind or chain gave %r' % a, cls=name, source=ps, active=active)
                        rec.count('refused-kind' if (f or fam) == A.CHAIN[chain]['family'] else 'refused-chain')
                        continue
                    expect(a is not None, 'refused-join', 'joining an address with a key is refused', cls=name, source=ps, active=active)
                    verify(ctx, chain, kind, a, pub, prog, ps)
                    rec.count('joined')
                    # keys that are not valid
                    w = r.choice(list(bad))
                    b = join(ctx, active, name, src, bad[w] if r.random() < .7 else bytearray(bad[w]), w)
                    if w in ('uncompressed', 'hybrid'):
                        # a valid point in a form with no place in an address
                        expect(b is None, 'joined-form', 'joining with an %s key gave %r' % (w, b), cls=name, bkey=bad[w])
                    expect(b is None, 'joined-key', 'joining with a key that is invalid (%s) gave %r' % (w, b), cls=name, bkey=bad[w])
                    rec.ev()
                    rec.count('refused-key')
                    rec.feat('key', w, name)
                for what, x in (('confidential', conf), ('text', ps), ('bytes', prog), ('bitcoin', bitcoin(r, kind, prog)), ('None', None)):
                    name = r.choice([n for n, (f, k) in TARGETS.items() if kind in k])
                    try:
                        b = A.find(name).from_unconfidential(x, pub)
                    except Exception:
                        b = None
                    expect(b is None, 'joined-source', 'joining something that is not a plain address of the chain (%s) gave %r' % (what, b), cls=name, source=str(x))
                    rec.ev()
                    rec.count('refused-source')
                    rec.feat('source', what, name)
                for key in (pub.hex(), int.from_bytes(pub, 'big'), None):
                    expect(join(ctx, active, A.cls_name(chain, 'c' + kind), src, key, 'key type') is None, 'joined-keytype', 'joining with a key of a wrong type is accepted')
                    rec.ev()
    rec.sample(active=active, source=ps, key=pub)


def bitcoin(r, kind, prog):
    import bitcointx.wallet as W
    return getattr(W, kind + r.choice(('Bitcoin', 'BitcoinTestnet', 'BitcoinRegtest')) + 'Address').from_bytes(prog)


def verify(ctx, chain, kind, a, pub, prog, ps):
    rec = ctx.rec
    s = A.encode(chain, 'c' + kind, pub + prog)
    check(ctx, chain, 'c' + kind, a, pub + prog, s, 'joined')
    same(bytes(a.blinding_pubkey), pub, 'key', 'blinding key of a joined address', text=s)
    from bitcointx.core.key import CPubKey
    expect(isinstance(a.blinding_pubkey, CPubKey), 'key-type', 'type of the blinding key')
    u = a.to_unconfidential()
    check(ctx, chain, kind, u, prog, ps, 'split')
    spk = A.script(kind, prog)
    same(bytes(a.to_scriptPubKey()), spk, 'script', 'output script of a joined address', text=s)
    # the script that a signature for the output commits to, where the address determines it
    want = {'P2PKH': spk, 'P2WPKH': b'\x76\xa9\x14' + prog + b'\x88\xac'}.get(kind)
    for x in (a, u):
        try:
            got = bytes(x.to_redeemScript())
        except NotImplementedError:
            got = None
        same(got, want, 'redeem', 'redeem script of a joined or plain address', text=s)
        rec.ev()
    rec.count('redeem', want is not None)
    same(bytes(u.to_scriptPubKey()), spk, 'script', 'output script of the plain address', text=ps)
    # size of an output paying to it: script, and commitments of asset, value and nonce
    same(a.get_output_size(), 33 * 3 + 1 + len(spk), 'size', 'size of an output to a confidential address', text=s)
    same(type(a).get_output_size(), 33 * 3 + 1 + len(spk), 'size', 'size of an output to a confidential address class', text=s)
    rec.ev(7)
    # written, read, split and joined again
    b = type(a)(str(a))
    c = type(b).from_unconfidential(b.to_unconfidential(), b.blinding_pubkey)
    same((bytes(c), str(c), type(c).__name__), (pub + prog, s, type(a).__name__), 'rejoin', 'address read, split and joined again')
    rec.ev()


def d_twins(ctx):
    """few addresses and keys, joined in turn by every class under every chain"""
    from bitcointx import ChainParams
    from bitcointx.core.key import CPubKey
    r, rec = ctx.rng, ctx.rec
    for _ in range(6):
        pubs, v = [ct.pub(ct.scalar(r)) for _ in range(2)], r.randbytes(32)
        bad = list(bad_keys(r).values())
        for _ in range(120):
            active, chain, kind = r.choice(CHAINS), r.choice(('elements', 'elements/liquidv1')), r.choice(A.KINDS)
            fam = A.CHAIN[active]['family']
            prog = v[:A.SIZE[kind]]
            with ChainParams(active):
                src = A.find(A.cls_name(chain, kind)).from_bytes(prog)
                for name in r.sample(list(TARGETS), 4):
                    f, kinds = TARGETS[name]
                    pub = r.choice(pubs)
                    a = join(ctx, active, name, src, r.choice((bytes, bytearray, CPubKey))(pub), 'twin')
                    ok = (f or fam) == A.CHAIN[chain]['family'] and kind in kinds
                    expect((a is not None) == ok, 'twin', 'joining an address with a key is %s' % ('refused' if ok else 'accepted'), cls=name, source=str(src), active=active)
                    if ok:
                        verify(ctx, chain, kind, a, pub, prog, A.encode(chain, kind, prog))
                        expect(join(ctx, active, name, src, r.choice(bad), 'twin') is None, 'twin-key', 'joining with an invalid key is accepted after one with a valid key', cls=name)
                    rec.ev(2)
                    rec.count('twins')


DIRECTED = [d_twins]
