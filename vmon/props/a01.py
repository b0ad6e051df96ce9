"""A01: address text forms and scripts."""
import hashlib

from vmon import ct, gen, bridge as B
from vmon.ref import addr as A, ec
from vmon.rec import expect, same

TECHNIQUE = 'round-trip monitor over every address kind, chain and decoding class, compared with encoders, decoders and scripts of its own'
RULE = """Evaluation = one observation of one address: its text against an encoder written here from the specifications, reading that text through one
class (type, bytes and text of the result), its output script, or the address made from a script, key, redeem script or script tree.  All ten kinds,
both parameter sets and the alias chain, every class of the family that reads the kind, concrete classes also under other chains; programs random,
zero, ones and with leading zeros.  Distinct = (chain, kind, class or constructor, active chain, case)."""
QUICK = 450
REQUIRED = {'text': 2600, 'read': 24000, 'script': 2600, 'made': 4000, 'upper': 600, 'foreign-active': 1800, 'key': 3500, 'not-made': 10000, 'twins': 1500}
CHAINS = ('elements', 'elements/liquidv1', 'elements/elementsregtest')
OTHER = ('elements', 'elements/liquidv1', 'bitcoin', 'bitcoin/testnet', 'bitcoin/regtest', 'bitcoin/signet')


def program(r, kind):
    n = A.SIZE[kind.lstrip('c')]
    k = r.random()
    if k < .1:
        return bytes(n)
    if k < .15:
        return b'\xff' * n
    if k < .3:
        return bytes(r.randrange(1, n)) .ljust(n, b'\x01')[:n]
    return r.randbytes(n)


def check(ctx, chain, kind, a, data, s, how):
    """all that can be seen of one address object"""
    rec = ctx.rec
    same(type(a).__name__, A.cls_name(chain, kind), 'class-' + how, 'class of an address (%s)' % how, text=s)
    same(bytes(a), data, 'bytes-' + how, 'content of an address (%s)' % how, text=s)
    same(a.to_bytes() if hasattr(a, 'to_bytes') else bytes(a), data, 'to_bytes-' + how, 'content of an address (%s)' % how)
    same(str(a), s, 'text-' + how, 'text of an address (%s)' % how)
    expect(s in repr(a) and type(a).__name__ in repr(a), 'repr', 'repr of an address: %r' % a)
    rec.ev(4)


def reading(ctx, chain, kind, data, s):
    from bitcointx import ChainParams
    r, rec = ctx.rng, ctx.rec
    forms = [s]
    if kind.lstrip('c') in A.WITVER:
        forms.append(s.upper())
    for name, kinds in A.families(chain).items():
        if kind not in kinds:
            continue
        for f in forms:
            try:
                a = A.find(name)(f)
            except Exception as e:
                expect(False, 'refused', 'a valid address is refused by %s: %s: %s' % (name, type(e).__name__, e), text=f, chain=chain)
            check(ctx, chain, kind, a, data, s, 'read')
            rec.count('read')
            rec.count('upper', f != s)
            rec.feat(chain, kind, name, f != s)
    other = r.choice(OTHER)
    with ChainParams(other):
        for name in (A.cls_name(chain, kind), 'C%sAddress' % A.CHAIN[chain]['family']) + (('C%sConfidentialAddress' % A.CHAIN[chain]['family'],) if kind[0] == 'c' else ()):
            try:
                a = A.find(name)(s)
            except Exception as e:
                expect(False, 'refused-foreign', 'a valid address is refused by %s while %s is selected: %s: %s' % (name, other, type(e).__name__, e), text=s)
            check(ctx, chain, kind, a, data, s, 'foreign')
            same(bytes(a.to_scriptPubKey()), A.script(kind, data), 'script-foreign', 'script of an address while another chain is selected', text=s)
            rec.count('foreign-active')
            rec.feat(chain, kind, name, other)


def episode(ctx):
    from bitcointx import ChainParams
    r, rec = ctx.rng, ctx.rec
    chain = r.choice(CHAINS)
    with ChainParams(chain):
        for kind in A.ALL:
            prog = program(r, kind)
            data = (ct.pub(ct.scalar(r)) if kind[0] == 'c' else b'') + prog
            s, spk = A.encode(chain, kind, data), A.script(kind, data)
            cls = A.find(A.cls_name(chain, kind))
            a = cls.from_bytes(data)
            check(ctx, chain, kind, a, data, s, 'made')
            gen_ = A.find('%sCoin%sAddress' % (kind.lstrip('c'), 'Confidential' if kind[0] == 'c' else ''))
            check(ctx, chain, kind, gen_.from_bytes(data), data, s, 'generic')
            rec.count('text')
            same(bytes(a.to_scriptPubKey()), spk, 'script', 'output script of an address', text=s)
            rec.ev()
            rec.count('script')
            reading(ctx, chain, kind, data, s)
            expect(a == A.find('CCoinAddress')(s) and hash(a) == hash(A.find('CCoinAddress')(s)), 'equality', 'equal addresses differ')
            from_script(ctx, chain, kind, data, spk, s)
        keys(ctx, chain)
    rec.sample(chain=chain, text=s, script=spk)


def from_script(ctx, chain, kind, data, spk, s):
    from bitcointx.wallet import CCoinAddressError
    rec, r = ctx.rec, ctx.rng
    plain = kind.lstrip('c')
    prog = data[33:] if kind[0] == 'c' else data
    ps = A.encode(chain, plain, prog)
    es = B.lib_script(spk)
    for name in ('CCoinAddress', plain + 'CoinAddress', A.cls_name(chain, plain), 'C%sAddress' % A.CHAIN[chain]['family']):
        try:
            a = A.find(name).from_scriptPubKey(es)
        except Exception as e:
            expect(False, 'from-script', '%s.from_scriptPubKey refused the script of an address: %s: %s' % (name, type(e).__name__, e), script=spk)
        check(ctx, chain, plain, a, prog, ps, 'from-script')
        rec.count('made')
        rec.feat(chain, kind, name, 'script')
    # another kind's class, or no address at all
    bad = r.choice((spk[:-1], spk + b'\x51', b'', b'\x6a' + spk, bytes([spk[0] ^ 1]) + spk[1:], B'\x52' + spk[1:], spk[:1] + bytes([spk[1] ^ 1]) + spk[2:]))
    for name, sc in (('CCoinAddress', bad), (r.choice([k for k in A.KINDS if k != plain]) + 'CoinAddress', spk), (A.cls_name(chain, 'c' + plain), spk),
                     ('CCoinConfidentialAddress', spk)):
        try:
            a = A.find(name).from_scriptPubKey(B.lib_script(sc))
        except CCoinAddressError:
            pass
        except Exception as e:
            expect(False, 'script-error', '%s.from_scriptPubKey raised %s: %s' % (name, type(e).__name__, e), script=sc)
        else:
            # a changed script may be that of another address: then it must be exactly that one
            same(bytes(a.to_scriptPubKey()), sc, 'script-lie', '%s.from_scriptPubKey gave an address for a different script: %s' % (name, a), script=sc)
        rec.ev()
        rec.count('not-made')


def keys(ctx, chain):
    """from keys, redeem scripts and trees"""
    from bitcointx.core.key import CPubKey, XOnlyPubKey
    r, rec = ctx.rng, ctx.rec
    k = ct.scalar(r)
    pub = ct.pub(k)
    unc = ec.mul(int.from_bytes(k, 'big'))
    un = b'\x04' + unc[0].to_bytes(32, 'big') + unc[1].to_bytes(32, 'big')
    h160 = hash160(pub)
    W = A.find
    made = [('P2PKH', h160, lambda: W('P2PKHCoinAddress').from_pubkey(CPubKey(pub))), ('P2PKH', h160, lambda: W('P2PKHCoinAddress').from_pubkey(pub)),
            ('P2PKH', hash160(un), lambda: W('P2PKHCoinAddress').from_pubkey(un, accept_uncompressed=True)),
            ('P2WPKH', h160, lambda: W('P2WPKHCoinAddress').from_pubkey(bytearray(pub))),
            ('P2PKH', h160, lambda: W(A.cls_name(chain, 'P2PKH')).from_redeemScript(B.lib_script(A.script('P2PKH', h160))))]
    sc = gen.script(r)[:520]
    if gen_ok(sc):
        made += [('P2SH', hash160(sc), lambda: W('P2SHCoinAddress').from_redeemScript(B.lib_script(sc))),
                 ('P2WSH', hashlib.sha256(sc).digest(), lambda: W('P2WSHCoinAddress').from_redeemScript(B.lib_script(sc)))]
    x = ec.mul(int.from_bytes(k, 'big'))
    internal = ec.ser_x(x)
    tag = hashlib.sha256(b'TapTweak/elements').digest()
    tw = int.from_bytes(hashlib.sha256(tag + tag + internal).digest(), 'big')
    out = ec.ser_x(ec.add(ec.lift_x(internal), ec.mul(tw)))
    made += [('P2TR', internal, lambda: W('P2TRCoinAddress').from_xonly_output_pubkey(XOnlyPubKey(internal))),
             ('P2TR', internal, lambda: W('P2TRCoinAddress').from_output_pubkey(CPubKey(pub))),
             ('P2TR', out, lambda: W('P2TRCoinAddress').from_pubkey(CPubKey(pub))), ('P2TR', out, lambda: W('P2TRCoinAddress').from_xonly_pubkey(internal)),
             ('P2TR', out, lambda: W(A.cls_name(chain, 'P2TR')).from_pubkey(pub))]
    for n, (kind, data, f) in enumerate(made):
        try:
            a = f()
        except Exception as e:
            expect(False, 'from-key', 'constructor %d of %s raised %s: %s' % (n, kind, type(e).__name__, e), key=pub, redeem=sc)
        check(ctx, chain, kind, a, data, A.encode(chain, kind, data), 'from-key')
        rec.count('key')
        rec.feat(chain, kind, n)


def gen_ok(sc):
    return len(sc) <= 520


def hash160(b):
    from bitcointx.core import Hash160
    return Hash160(b)


def d_twins(ctx):
    """addresses that share content, of all kinds and chains in turn: nothing of one may show in another"""
    from bitcointx import ChainParams
    r, rec = ctx.rng, ctx.rec
    for _ in range(12):
        pubs, progs = [ct.pub(ct.scalar(r)) for _ in range(2)], [r.randbytes(32) for _ in range(2)]
        made = []
        for _ in range(60):
            chain, kind = r.choice(CHAINS), r.choice(A.ALL)
            data = (r.choice(pubs) if kind[0] == 'c' else b'') + r.choice(progs)[:A.SIZE[kind.lstrip('c')]]
            s, spk = A.encode(chain, kind, data), A.script(kind, data)
            with ChainParams(chain):
                a = A.find(A.cls_name(chain, kind)).from_bytes(data) if r.random() < .5 else A.find('CCoinAddress')(s)
                made.append((chain, kind, data, s, spk, a))
                if r.random() < .1:
                    reading(ctx, chain, kind, data, s)
                if r.random() < .2:
                    from_script(ctx, chain, kind, data, spk, s)
            with ChainParams(r.choice(CHAINS)):
                for chain, kind, data, s, spk, a in [made[-1]] + r.sample(made, min(len(made), 3)):
                    if r.random() < .7:
                        same(bytes(a.to_scriptPubKey()), spk, 'twin-script', 'output script of an address', text=s)
                    if kind[0] == 'c' and r.random() < .6:
                        check(ctx, chain, kind[1:], a.to_unconfidential(), data[33:], A.encode(chain, kind[1:], data[33:]), 'twin-split')
                        same(bytes(a.blinding_pubkey), data[:33], 'twin-key', 'blinding key of an address', text=s)
                    check(ctx, chain, kind, a, data, s, 'twin')
                    rec.ev(3)
                    rec.count('twins')
            rec.feat('twin', chain, kind)


DIRECTED = [d_twins]
