"""A02: only exact addresses are read."""
from vmon import ct, gen
from vmon.ref import addr as A
from vmon.rec import expect, same
from vmon.props.a01 import program, CHAINS

TECHNIQUE = 'hostile-input monitor with an independent strict decoder as oracle: accepted exactly when the decoder accepts, same kind and bytes, only documented errors'
RULE = """Evaluation = one reading of one string through one class.  Strings: every single-character change of valid addresses (complete for one address
per kind in the directed part), 1 to 4 random changes, swaps, insertions, deletions, mixed case, the other checksum constant or length, other prefixes,
versions, program lengths and paddings with a valid checksum, base58 prefixes and lengths, addresses of the other chains and of Bitcoin, non-ASCII,
blank and very long strings; and raw data of
other sizes or witness versions.  Classes: all that read addresses of the chain.  Distinct = (chain, kind of damage, kind of address, class, outcome)."""
QUICK = 420
REQUIRED = {'refused': 60000, 'accepted': 2000, 'single': 5000, 'resealed': 3500, 'foreign': 1500, 'junk': 1000, 'twins': 800, 'raw': 1000}
B58X = ''.join(c for c in map(chr, range(33, 127)) if c.isalnum())
ALPHA = B58X + '1' + ' -_/+\x00\x7f\n'


def refusals():
    from bitcointx.core import AddressDataEncodingError
    from bitcointx.wallet import CCoinAddressError
    return CCoinAddressError, AddressDataEncodingError


def attempt(ctx, chain, s, how, names=None, kind0=None):
    rec = ctx.rec
    want = A.decode(chain, s)
    b58 = A.b58checkdec(s) is not None if s.isascii() else False
    fams = A.families(chain)
    for name in names or fams:
        kinds = fams[name]
        try:
            a = A.find(name)(s)
        except refusals():
            a = None
        except TypeError as e:
            expect(b58, 'error-type', '%s(%s string) raised TypeError: %s' % (name, how, e), text=s)
            a = None
        except Exception as e:
            expect(False, 'error-type', '%s(%s string) raised %s: %s' % (name, how, type(e).__name__, e), text=s)
        ok = want is not None and want[0] in kinds
        if a is None:
            expect(not ok, 'refused-valid', 'a valid address is refused by %s' % name, text=s)
        else:
            expect(ok, 'accepted', '%s accepted a string that is not an address it stands for (%s): as %r' % (name, how, a), text=s, chain=chain)
            same(type(a).__name__, A.cls_name(chain, want[0]), 'kind', 'kind of address read', text=s)
            same(bytes(a), want[1], 'bytes', 'content of address read', text=s)
            t = str(a)
            expect(t == s or want[0].lstrip('c') in A.WITVER and t == s.lower(), 'retext', 'an accepted string is written differently: %s' % t, text=s)
        rec.ev()
        rec.count('refused' if a is None else 'accepted')
        rec.feat(chain, how, kind0, name, a is not None)
    return want


def some(r, chain):
    """all dispatching classes are always tried, of the concrete ones a few"""
    f = list(A.families(chain))
    return ['CCoinAddress'] + r.sample(f, 5)


def change(r, s, n):
    t = list(s)
    alpha = A.B32 if len(s) > 4 and s.lower().startswith(('el1', 'ert1', 'ex1', 'lq1')) else A.B58
    if r.random() < .2:
        alpha = ALPHA
    for i in r.sample(range(len(t)), min(n, len(t))):
        t[i] = r.choice([c for c in alpha if c != t[i]])
    return ''.join(t)


def damage(r, s):
    k = r.randrange(9)
    i = r.randrange(len(s))
    if k == 0:
        return change(r, s, r.choice((1, 1, 2, 3, 4)))
    if k == 1:
        j = r.randrange(len(s) - 1)
        return s[:j] + s[j + 1] + s[j] + s[j + 2:]
    if k == 2:
        j = r.randrange(len(s))
        t = list(s)
        t[i], t[j] = t[j], t[i]
        return ''.join(t)
    if k == 3:
        return s[:i] + r.choice(ALPHA) + s[i:]
    if k == 4:
        return s[:i] + s[i + 1:]
    if k == 5:
        return ''.join(c.upper() if r.random() < .5 else c for c in s)
    if k == 6:
        return r.choice((' %s', '%s ', '\n%s', '%s\n', '\ufeff%s', '%s\0', '1%s', '%s1', '%sq')) % s
    if k == 7:
        return s[:i] + s[i:].upper() if r.random() < .5 else s.swapcase()
    t = s[:i] + chr(r.choice((0x430, 0x391, 0x661, 0x212a, 0x131, 0x17f, 0xff11, 0x1d7d9, 0xe9))) + s[i + 1:]
    return t


def resealed(r, chain):
    """valid checksum, wrong something"""
    other = r.choice([c for c in ('elements', 'elements/liquidv1') if A.CHAIN[c] is not A.CHAIN[chain]])
    t = A.CHAIN[chain]
    long_ = r.random() < .6
    hrp = t['chrp' if long_ else 'hrp']
    k = r.randrange(8)
    n = r.choice((20, 32)) + 33 * long_
    ver = r.choice((0, 1))
    if k == 0:  # the other constant
        v = [ver] + A.to5(r.randbytes(n))
        return 'constant', A.seg_raw(hrp, v, long_, A.const(1 - ver, long_))
    if k == 1:  # wrong prefix
        h = r.choice((t['hrp' if long_ else 'chrp'], A.CHAIN[other]['chrp'], A.CHAIN[other]['hrp'], 'bc', 'tb', 'bcrt', hrp + '1', '1' + hrp, hrp + 'q', hrp[:-1], 'e', 'l', 'tex', 'tlq'))
        return 'hrp', A.seg(h, ver, r.randbytes(n), long_)
    if k == 2:
        return 'version', A.seg(hrp, r.randrange(17), r.randbytes(n), long_)
    if k == 3:
        v = r.choice((17, 31, r.randrange(32)))
        return 'version', A.seg_raw(hrp, [v] + A.to5(r.randbytes(n)), long_, A.const(r.choice((0, 1)), long_))
    if k == 4:
        return 'length', A.seg(hrp, ver, r.randbytes(r.choice((n + 1, n - 1, 20, 32, 53, 65, 73, 74, 40, 41, 1, 2, 0, r.randrange(80)))), long_)
    if k == 5:  # padding
        v = A.to5(r.randbytes(n))
        pad = -8 * n % 5
        if pad and r.random() < .5:
            v[-1] |= r.randrange(1, 1 << pad)
        else:
            v += [r.choice((0, r.randrange(32)))] * r.choice((1, 1, 2))
        return 'padding', A.seg_raw(hrp, [ver] + v, long_, A.const(ver, long_))
    if k == 6:  # the other generator
        return 'generator', A.seg(hrp, ver, r.randbytes(n), not long_)
    if r.random() < .3:
        return 'constant', A.seg_raw(hrp, [ver] + A.to5(r.randbytes(n)), long_, r.choice((0, 2, A.M6, A.M12, A.M12 ^ 1, r.getrandbits(55 if long_ else 25))))
    p = r.choice((t['P2PKH'], t['P2SH'], t['cP2PKH'], t['cP2SH'], b'\0', b'\5', b'\x6f', b'\xc4', b'', t['cP2PKH'][:1], t['cP2SH'][::-1], t['P2PKH'] + t['cP2PKH'][:1],
                  A.CHAIN[other]['P2PKH'], A.CHAIN[other]['cP2SH'], r.randbytes(1), r.randbytes(2)))
    n = r.choice((20, 53, 20, 53, 19, 21, 52, 54, 0, 1, 32, r.randrange(100)))
    return 'base58', A.b58check(p + r.randbytes(n))


def junk(r):
    k = r.randrange(9)
    if k == 0:
        return ''
    if k == 1:
        return r.choice((' ', '1', '11', '111111', '1q', 'el1', 'el', 'lq1', 'ert1q', '\0', 'é', 'el1q' + 'q' * 11, '0', 'O0Il', '\ud800', 'el1' + 'q' * 12, '١'))
    if k == 2:
        return ''.join(r.choice(ALPHA) for _ in range(r.randrange(200)))
    if k == 3:
        return ''.join(chr(r.choice((r.randrange(0x80), r.randrange(0xd800), 0x1f600))) for _ in range(r.randrange(120)))
    if k == 4:
        return ''.join(r.choice(A.B58) for _ in range(r.randrange(120)))
    if k == 5:
        return r.choice(('el1', 'lq1', 'ert1', 'ex1')) + ''.join(r.choice(A.B32) for _ in range(r.randrange(160)))
    if k == 6:
        return r.choice(('el1', 'lq1', 'ert1', 'ex1', '1')) + r.choice('qpz1') * r.choice((80, 100, 989, 1000, 1001, 1200))
    if k == 7:
        return A.b58check(r.randbytes(r.randrange(0, 90)))
    return A.b58(r.randbytes(r.randrange(0, 6)))


def episode(ctx):
    from bitcointx import ChainParams
    r, rec = ctx.rng, ctx.rec
    chain = r.choice(CHAINS)
    last = None
    with ChainParams(chain):
        for kind in A.ALL:
            data = (ct.pub(ct.scalar(r)) if kind[0] == 'c' else b'') + program(r, kind)
            s = A.encode(chain, kind, data)
            if r.random() < .25:
                attempt(ctx, chain, s, 'valid', None, kind)
            for _ in range(2):
                attempt(ctx, chain, change(r, s, 1), 'single', some(r, chain), kind)
                rec.count('single')
            for _ in range(2):
                last = damage(r, s)
                attempt(ctx, chain, last, 'damage', some(r, chain), kind)
            # an address of another chain
            oc = 'elements' if A.CHAIN[chain]['family'] != 'Elements' else 'elements/liquidv1'
            f = A.encode(oc, kind, data)
            attempt(ctx, chain, f, 'foreign', some(r, chain), kind)
            rec.count('foreign')
            if kind[0] != 'c' and r.random() < .3:
                f = A.seg(r.choice(('bc', 'tb', 'bcrt')), A.WITVER[kind], data, False) if kind in A.WITVER else A.b58check(r.choice(('\0', '\5', '\x6f', '\xc4')).encode('latin1') + data)
                attempt(ctx, chain, f, 'bitcoin', None, kind)
        for _ in range(14):
            how, s = resealed(r, chain)
            attempt(ctx, chain, s, how, some(r, chain))
            rec.count('resealed')
        for _ in range(4):
            attempt(ctx, chain, junk(r), 'junk', some(r, chain))
            rec.count('junk')
    rec.sample(chain=chain, damaged=last, resealed=s)


def every_change(chain, kind):
    def go(ctx):
        from bitcointx import ChainParams
        r = ctx.rng
        data = (ct.pub(ct.scalar(r)) if kind[0] == 'c' else b'') + program(r, kind)
        s = A.encode(chain, kind, data)
        alpha = (A.B32 + '1bio') if kind.lstrip('c') in A.WITVER else A.B58 + '0OIl'
        conc = A.cls_name(chain, kind)
        with ChainParams(chain):
            for i in range(len(s)):
                for c in alpha:
                    if c != s[i]:
                        attempt(ctx, chain, s[:i] + c + s[i + 1:], 'every', ('CCoinAddress', conc), kind)
                attempt(ctx, chain, s[:i] + s[i + 1:], 'every-deletion', ('CCoinAddress', conc), kind)
            for i in range(len(s) - 1):
                attempt(ctx, chain, s[:i] + s[i + 1] + s[i] + s[i + 2:], 'every-swap', ('CCoinAddress', conc), kind)
        ctx.rec.count('complete')
    go.__name__ = 'every_change_%s_%s' % (chain.replace('/', '_'), kind)
    return go


def every_version(chain):
    """all versions and program lengths under a right checksum"""
    def go(ctx):
        from bitcointx import ChainParams
        t = A.CHAIN[chain]
        with ChainParams(chain):
            for long_ in (False, True):
                for ver in range(18):
                    for n in (2, 19, 20, 21, 31, 32, 33, 40, 52, 53, 54, 64, 65, 66, 73):
                        for c in (0, 1):
                            s = A.seg_raw(t['chrp' if long_ else 'hrp'], [ver] + A.to5(bytes(range(n))), long_, A.const(c, long_))
                            attempt(ctx, chain, s, 'every-version', None)
    go.__name__ = 'every_version_' + chain.replace('/', '_')
    return go


def d_twins(ctx):
    """texts of all chains and their damaged forms in turn, the same ones again and again under either chain"""
    from bitcointx import ChainParams
    r = ctx.rng
    for _ in range(6):
        texts = []
        pub, prog = ct.pub(ct.scalar(r)), r.randbytes(32)
        for kind in A.ALL:
            for chain in ('elements', 'elements/liquidv1'):
                s = A.encode(chain, kind, (pub if kind[0] == 'c' else b'') + prog[:A.SIZE[kind.lstrip('c')]])
                texts += [s, change(r, s, 1), s.swapcase()]
        for _ in range(30):
            chain = r.choice(CHAINS)
            with ChainParams(chain):
                for s in r.sample(texts, 6):
                    attempt(ctx, chain, s, 'twin', None if r.random() < .3 else some(r, chain))
                    ctx.rec.count('twins')


def d_raw(ctx):
    """addresses made of raw data: of the size of the class, and of no other witness version than its own"""
    from bitcointx import ChainParams
    r, rec = ctx.rng, ctx.rec
    import elementstx.wallet as W
    for chain in ('elements', 'elements/liquidv1'):
        # of classes that stand for several kinds: refused, and of no effect on what follows
        name = 'Elements' if chain == 'elements' else 'ElementsLiquidV1'
        for cls in (getattr(W, 'CBlech32%sConfidentialAddress' % name), W.CBlech32CoinConfidentialAddress):
            for n in (53, 65):
                for ver in (0, 1, 2, 16, None):
                    try:
                        a = cls.from_bytes(ct.pub(ct.scalar(r)) + r.randbytes(n - 33), witver=ver)
                    except (ValueError, TypeError, *refusals()):
                        rec.count('raw-general')
                    else:
                        expect(False, 'raw-general', 'raw data of version %r is accepted by %s as %r' % (ver, cls.__name__, a))
                    rec.ev()
        for kind in A.ALL:
            cls, base = A.find(A.cls_name(chain, kind)), kind.lstrip('c')
            size = A.SIZE[base] + (33 if kind[0] == 'c' else 0)
            for n in sorted({0, 1, 19, 20, 21, 32, 33, 40, 52, 53, 54, 64, 65, 66, 73, 98, r.randrange(120)}):
                for ver in (None,) + ((-1, 0, 1, 2, 5, 16, 17, 256) if base in A.WITVER else ()):
                    data = ct.pub(ct.scalar(r)) + r.randbytes(n - 33) if n >= 33 else r.randbytes(n)
                    with ChainParams(r.choice((chain, chain, 'elements', 'elements/liquidv1'))):
                        try:
                            a = cls.from_bytes(data) if ver is None else cls.from_bytes(data, witver=ver)
                        except (ValueError, TypeError, *refusals()):
                            a = None
                        except Exception as e:
                            expect(False, 'raw-error', 'raw data of %d bytes (version %r) for %s: %s: %s' % (n, ver, cls.__name__, type(e).__name__, e))
                    ok = n == size and ver in (None, A.WITVER.get(base))
                    expect((a is not None) == ok, 'raw', 'raw data of %d bytes (version %r) is %s by %s' % (n, ver, 'refused' if ok else 'accepted', cls.__name__))
                    if ok:
                        same((type(a), bytes(a), str(a)), (cls, data, A.encode(chain, kind, data)), 'raw-address', 'the address made of raw data')
                    rec.ev()
                    rec.count('raw')
                    rec.feat('raw', kind, n, ver)


DIRECTED = [d_twins, d_raw] + [every_change(c, k) for c in ('elements', 'elements/liquidv1') for k in A.ALL] + [every_version(c) for c in ('elements', 'elements/liquidv1')]
