"""A05: private and extended keys."""
import hashlib, hmac

from vmon import ct
from vmon.ref import addr as A, ec
from vmon.rec import expect, same
from vmon.props.a01 import CHAINS, hash160

TECHNIQUE = 'round-trip and differential monitor of key text forms and derivation, compared with base58check and BIP32 written here; hostile texts with a strict decoder as oracle'
RULE = """Evaluation = one observation of a key: its text, the key read from it through the dispatching and the concrete class, secret, public key, chain
code, depth, fingerprint, number, a derived child (private and public), or one refused text.  All Elements chains; secrets and chain codes random and at
the edges; paths of up to 5 steps, hardened or not; texts damaged, with prefixes of other kinds and chains, wrong lengths and invalid content under a
valid checksum.  Distinct = (chain, kind of key, class, observation or damage)."""
QUICK = 600
REQUIRED = {'wif': 1500, 'ext': 1500, 'derived': 1000, 'public-derived': 500, 'refused': 12000, 'single': 3000, 'twins': 150}


def secret(r):
    k = r.random()
    if k < .1:
        return r.choice((1, 2, ec.N - 1, ec.N // 2, ec.N // 2 + 1)).to_bytes(32, 'big')
    if k < .2:
        return r.randrange(1, 1 << 60).to_bytes(32, 'big')
    return ct.scalar(r)


def point(k, compressed=True):
    x, y = ec.mul(int.from_bytes(k, 'big'))
    if compressed:
        return bytes([2 + (y & 1)]) + x.to_bytes(32, 'big')
    return b'\4' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


class X:
    """extended private key of the model"""
    def __init__(s, depth, fp, n, cc, k):
        s.depth, s.fp, s.n, s.cc, s.k = depth, fp, n, cc, k

    def head(s):
        return bytes([s.depth]) + s.fp + s.n.to_bytes(4, 'big') + s.cc

    def prv(s):
        return s.head() + b'\0' + s.k

    def pub(s):
        return s.head() + point(s.k)

    def child(s, n):
        m = (b'\0' + s.k if n >> 31 else point(s.k)) + n.to_bytes(4, 'big')
        h = hmac.new(s.cc, m, hashlib.sha512).digest()
        k = (int.from_bytes(h[:32], 'big') + int.from_bytes(s.k, 'big')) % ec.N
        return X(s.depth + 1, hash160(point(s.k))[:4], n, h[32:], k.to_bytes(32, 'big'))


def refusals():
    from bitcointx.core import AddressDataEncodingError
    from bitcointx.wallet import CCoinAddressError
    return AddressDataEncodingError, CCoinAddressError, ValueError, TypeError


def names(chain, what):
    return 'CCoin' + what, 'C%s%s' % (A.CHAIN[chain]['family'], what)


def refuse(ctx, chain, what, s, how):
    for name in names(chain, what):
        try:
            k = A.find(name)(s)
        except refusals():
            pass
        except Exception as e:
            expect(False, 'error-type', '%s (%s) raised %s: %s' % (name, how, type(e).__name__, e), text=s)
        else:
            expect(False, 'accepted', '%s accepted a text that is not a key of its kind and chain (%s) as %s' % (name, how, bytes(k).hex()), text=s)
        ctx.rec.ev()
        ctx.rec.count('refused')
        ctx.rec.feat(chain, what, name, how)


def damage(ctx, chain, what, s):
    r = ctx.rng
    for n in (1, 1, 1, 2, 3, 4):
        t = list(s)
        for i in r.sample(range(len(t)), n):
            t[i] = r.choice([c for c in A.B58 + ('0OIl -' if r.random() < .1 else '') if c != t[i]])
        refuse(ctx, chain, what, ''.join(t), 'changed')
        ctx.rec.count('single', n == 1)
    i = r.randrange(len(s) - 1)
    if s[i] != s[i + 1]:
        refuse(ctx, chain, what, s[:i] + s[i + 1] + s[i] + s[i + 2:], 'swapped')
    for how, t in (('deleted', s[:i] + s[i + 1:]), ('inserted', s[:i] + r.choice(A.B58) + s[i:]), ('space', r.choice((' ' + s, s + ' ', s + '\n', '\t' + s))),
                   ('case', s.swapcase()), ('non-ascii', s[:i] + chr(r.choice((0x80, 0x430, 0x661))) + s[i + 1:]), ('empty', ''), ('leading one', '1' + s)):
        refuse(ctx, chain, what, t, how)


def episode(ctx):
    from bitcointx import ChainParams
    r, rec = ctx.rng, ctx.rec
    chain = r.choice(CHAINS)
    t = A.CHAIN[chain]
    other = A.CHAIN['elements' if t['family'] != 'Elements' else 'elements/liquidv1']
    with ChainParams(chain):
        k = secret(r)
        for comp in (True, False):
            body = k + b'\1' * comp
            s = A.b58check(t['wif'] + body)
            for key in [A.find(n).from_secret_bytes(k, comp) for n in names(chain, 'Key')] + [A.find(n)(s) for n in names(chain, 'Key')]:
                same(type(key).__name__, names(chain, 'Key')[1], 'class', 'class of a private key')
                same(str(key), s, 'wif', 'text of a private key')
                same(bytes(key), body, 'bytes', 'content of a private key')
                same(key.secret_bytes, k, 'secret', 'secret of a private key')
                same(bytes(key.pub), point(k, comp), 'pub', 'public key')
                same(key.is_compressed(), comp, 'compressed', 'compression of a private key')
                same(str(key.to_compressed()), A.b58check(t['wif'] + k + b'\1'), 'compress', 'compressed form')
                same(str(key.to_uncompressed()), A.b58check(t['wif'] + k), 'compress', 'uncompressed form')
                if comp:
                    same(bytes(key.xonly_pub), point(k)[1:], 'xonly', 'x-only public key')
                rec.ev(9)
                rec.count('wif')
            rec.feat(chain, 'wif', comp)
            damage(ctx, chain, 'Key', s)
        # prefixes of other kinds and chains, bad content
        for how, b in (('bitcoin prefix', b'\x80' + body), ('address prefix', t['P2PKH'] + body), ('conf prefix', t['cP2PKH'] + body), ('ext prefix', t['xprv'] + body),
                       ('prefix', bytes([r.choice([x for x in range(256) if x != 239])]) + body), ('no prefix', body if body[0] != 239 else b'\0' + body),
                       ('zero', t['wif'] + bytes(32) + b'\1'), ('order', t['wif'] + ec.N.to_bytes(32, 'big') + b'\1'), ('above', t['wif'] + b'\xff' * 32),
                       ('long', t['wif'] + k + b'\1' * 2), ('short', t['wif'] + k[:31]), ('empty', t['wif'])):
            refuse(ctx, chain, 'Key', A.b58check(b), how)
        # extended keys
        cc = r.choice((r.randbytes(32), r.randbytes(32), bytes(32), b'\xff' * 32))
        m = X(0, bytes(4), 0, cc, k)
        if r.random() < .3:
            seed = r.randbytes(r.choice((16, 32, 64)))
            h = hmac.new(b'Bitcoin seed', seed, hashlib.sha512).digest()
            m = X(0, bytes(4), 0, h[32:], h[:32])
            for n in names(chain, 'ExtKey'):
                same(str(A.find(n).from_seed(seed)), A.b58check(t['xprv'] + m.prv()), 'seed', 'extended key from a seed')
        elif r.random() < .5:
            m = X(r.randrange(1, 250), r.randbytes(4), r.randrange(1 << 32), cc, k)
        observe(ctx, chain, m, A.find(r.choice(names(chain, 'ExtKey'))).from_bytes(m.prv()))
        walk(ctx, chain, m)
        sx, sp = A.b58check(t['xprv'] + m.prv()), A.b58check(t['xpub'] + m.pub())
        damage(ctx, chain, 'ExtKey', sx)
        damage(ctx, chain, 'ExtPubKey', sp)
        for what, good in (('ExtKey', m.prv()), ('ExtPubKey', m.pub())):
            mine, o = (t['xprv'], other['xprv']) if what == 'ExtKey' else (t['xpub'], other['xpub'])
            zero = X(0, bytes(4), 0, cc, k)
            for how, b in (('other chain', o + good), ('other kind', (t['xpub'] if what == 'ExtKey' else t['xprv']) + good), ('other both', other['xpub' if what == 'ExtKey' else 'xprv'] + good),
                           ('prefix', bytes.fromhex('02575048') + good), ('swapped kind', mine + (m.pub() if what == 'ExtKey' else m.prv())), ('short', mine + good[:-1]),
                           ('long', mine + good + b'\0'), ('no prefix', good), ('empty', mine), ('zero secret', mine + good[:41] + bytes(33)),
                           ('order', mine + good[:41] + bytes(what == 'ExtKey') + (ec.N if what == 'ExtKey' else 2**256 - 1).to_bytes(32, 'big') + bytes(what != 'ExtKey')),
                           ('marker', mine + good[:41] + bytes([r.choice((1, 4, 5, 6, 255))]) + good[42:])) + \
                          ((('depth 0', mine + b'\0' + b'\1\2\3\4' + zero.prv()[5:]), ('depth 0 number', mine + zero.prv()[:5] + b'\0\0\0\1' + zero.prv()[9:])) if what == 'ExtKey' else ()):
                refuse(ctx, chain, what, A.b58check(b), how)
    rec.sample(chain=chain, wif=s, xprv=sx, xpub=sp)


def observe(ctx, chain, m, x):
    r, rec = ctx.rng, ctx.rec
    t = A.CHAIN[chain]
    sx, sp = A.b58check(t['xprv'] + m.prv()), A.b58check(t['xpub'] + m.pub())
    for y in [x] + [A.find(n)(sx) for n in names(chain, 'ExtKey')]:
        same((str(y), bytes(y), type(y).__name__), (sx, m.prv(), names(chain, 'ExtKey')[1]), 'xprv', 'extended private key')
        same(str(y.priv), A.b58check(t['wif'] + m.k + b'\1'), 'xprv-key', 'private key in an extended key')
        same(type(y.priv).__name__, names(chain, 'Key')[1], 'xprv-key-class', 'class of the private key in an extended key')
        fields(m, y)
        z = y.neuter()
        same((str(z), bytes(z), type(z).__name__), (sp, m.pub(), names(chain, 'ExtPubKey')[1]), 'neuter', 'extended public key of a private one')
        rec.ev(5)
        rec.count('ext')
    for y in [A.find(n)(sp) for n in names(chain, 'ExtPubKey')] + [A.find(n).from_bytes(m.pub()) for n in names(chain, 'ExtPubKey')]:
        same((str(y), bytes(y), type(y).__name__), (sp, m.pub(), names(chain, 'ExtPubKey')[1]), 'xpub', 'extended public key')
        fields(m, y)
        rec.ev(2)
    rec.feat(chain, 'ext', m.depth > 0)


def fields(m, y):
    same((y.depth, y.parent_fp, y.child_number, y.chaincode, bytes(y.pub), y.fingerprint), (m.depth, m.fp, m.n, m.cc, point(m.k), hash160(point(m.k))[:4]), 'fields',
         'depth, fingerprint, number, chain code, public key of an extended key')


def walk(ctx, chain, m):
    r, rec = ctx.rng, ctx.rec
    x = A.find(names(chain, 'ExtKey')[1]).from_bytes(m.prv())
    path, y = [], x
    for _ in range(r.randrange(1, 6)):
        n = r.choice((0, 1, 2**31 - 1, r.randrange(2**31)))
        hard = r.random() < .4
        p = None if hard else y.neuter().derive(n)
        n |= hard << 31
        m, y = m.child(n), y.derive(n)
        path.append(n)
        observe(ctx, chain, m, y)
        rec.count('derived')
        if p is not None:
            t = A.CHAIN[chain]
            same((str(p), type(p).__name__), (A.b58check(t['xpub'] + m.pub()), names(chain, 'ExtPubKey')[1]), 'public-derived', 'child of an extended public key')
            rec.ev()
            rec.count('public-derived')
        else:
            try:
                y.neuter().derive(n)
            except ValueError:
                pass
            else:
                expect(False, 'hardened', 'a hardened child is derived from a public key')
        rec.feat(chain, 'derived', hard, len(path))
    txt = '/'.join("%d%s" % (n & 0x7fffffff, r.choice(("'", 'h')[:1]) if n >> 31 else '') for n in path)
    same(str(x.derive_path(txt)), str(y), 'path', 'key derived along a path at once and step by step', path=txt)
    same(str(x.derive_path(path)), str(y), 'path', 'key derived along a path at once and step by step', path=txt)
    rec.ev(2)


def d_twins(ctx):
    """keys that share all but one thing, observed and derived in turn under every chain"""
    from bitcointx import ChainParams
    r, rec = ctx.rng, ctx.rec
    for _ in range(8):
        k, cc, fp, num = [secret(r) for _ in range(2)], [r.randbytes(32) for _ in range(2)], [r.randbytes(4) for _ in range(2)], [r.randrange(1 << 32) for _ in range(2)]
        keys = [X(r.choice((1, 2)), r.choice(fp), r.choice(num), r.choice(cc), r.choice(k)) for _ in range(5)]
        step = [0, 1, 1 << 31, r.randrange(1 << 31)]
        for _ in range(25):
            chain = r.choice(CHAINS)
            t = A.CHAIN[chain]
            m = r.choice(keys)
            with ChainParams(chain):
                x = A.find(r.choice(names(chain, 'ExtKey'))).from_bytes(m.prv())
                if r.random() < .3:
                    observe(ctx, chain, m, x)
                n = r.choice(step)
                c = m.child(n)
                y = x.derive(n)
                same((str(y), type(y).__name__), (A.b58check(t['xprv'] + c.prv()), names(chain, 'ExtKey')[1]), 'twin-derived', 'child of an extended key')
                if not n >> 31:
                    y = x.neuter().derive(n)
                    same((str(y), type(y).__name__), (A.b58check(t['xpub'] + c.pub()), names(chain, 'ExtPubKey')[1]), 'twin-public', 'child of an extended public key')
                comp = r.random() < .5
                q = A.find(r.choice(names(chain, 'Key'))).from_secret_bytes(m.k, comp)
                same((str(q), type(q).__name__, bytes(q.pub)), (A.b58check(t['wif'] + m.k + b'\1' * comp), names(chain, 'Key')[1], point(m.k, comp)), 'twin-wif', 'a private key')
                o = A.CHAIN['elements' if t['family'] != 'Elements' else 'elements/liquidv1']
                if r.random() < .3:
                    refuse(ctx, chain, 'ExtKey', A.b58check(o['xprv'] + m.prv()), 'twin')
                    refuse(ctx, chain, 'ExtPubKey', A.b58check(o['xpub'] + m.pub()), 'twin')
                rec.ev(3)
                rec.count('twins')


DIRECTED = [d_twins]
