"""W02: reading hostile bytes either fails with a documented error or agrees with the format; never crashes, hangs, or mis-reads."""
import struct
import time

from vmon import gen, bridge as B
from vmon.rec import same, expect, unexpected
from vmon.ref import codec as C

RULE = """Episode = a valid (generated or Core-made) transaction and a batch of mutants of its bytes: bit flips, truncations, insertions,
splices, size-field tampering (non-canonical, huge), flag byte, prefix bytes, superfluous witness, trailing data; every mutant goes to
the library and to an independent strict reader, which must agree on acceptance and on every field, and rejection must be one of the
documented exception families.  Distinct = (mutation kind, outcome, reason given by the strict reader)."""
QUICK = 2200
REQUIRED = {'mutants': 25000, 'accepted': 1500, 'rejected': 8000, 'flag-rejected': 100, 'superfluous': 30, 'non-canonical': 50, 'memory': 800}


def judge(ctx, b, kind, cls=None):
    core = B.L()
    rec = ctx.rec
    cls = cls or (core.CElementsTransaction if ctx.rng.random() < .7 else core.CElementsMutableTransaction)
    try:
        t = C.r_tx(b)
        why = 'ok'
    except C.ParseError as e:
        t, why = None, e.args[0]
    t0 = time.monotonic()
    try:
        tx = cls.deserialize(b)
        err = None
    except B.parse_errors() as e:
        tx, err = None, e
    except Exception as e:
        unexpected(e, 'undocumented-error', 'reading hostile bytes raised an undocumented exception', wire=b, kind=kind)
    dt = time.monotonic() - t0
    expect(dt < 20 + len(b) / 1000, 'slow', 'reading %d bytes took %.1f s' % (len(b), dt), wire=b)
    if t is None:
        expect(tx is None, 'accepted-bad', 'bytes that are not a transaction (%s) were accepted' % why, wire=b, kind=kind)
    else:
        expect(tx is not None, 'rejected-good', 'a well-formed transaction was rejected: %r' % err, wire=b, kind=kind)
        same(C.norm(B.m_tx(tx)), C.norm(t), 'misread', 'fields read differ from the format', wire=b, kind=kind)
        same(tx.serialize(), C.w_tx(t), 'rewrite', 'rewriting accepted bytes gives something else', wire=b, kind=kind)
    rec.ev(1 if t is None else 3)
    rec.count('mutants')
    rec.count('rejected' if t is None else 'accepted')
    if why == 'flag':
        rec.count('flag-rejected')
    elif why == 'superfluous witness':
        rec.count('superfluous')
    elif why == 'non-canonical size':
        rec.count('non-canonical')
    rec.feat(kind, why, len(t['vin']) if t else None, C.has_witness(t) if t else None)


def size_fields(t):
    """offsets and widths of the compact sizes in the serialization of a small transaction"""
    r = [5]
    p = 5 + len(C.cs(len(t['vin'])))
    for i in t['vin']:
        r.append(p + 36)
        p += len(C.w_in(i))
    r.append(p)
    p += len(C.cs(len(t['vout'])))
    for o in t['vout']:
        r.append(p + len(C.conf(o['asset'])) + len(C.conf(o['value'])) + len(C.conf(o['nonce'])))
        p += len(C.w_out(o))
    p += 4
    if C.has_witness(t):
        for w in C.inwits(t):
            r.append(p)
            p += len(C.w_inwit(w))
        for w in C.outwits(t):
            r.append(p)
            p += len(C.w_outwit(w))
    return r


def mutants(r, t, b):
    n = len(b)
    for _ in range(4):
        m = bytearray(b)
        for _ in range(r.choice((1, 1, 1, 2, 5))):
            m[r.randrange(n)] ^= 1 << r.randrange(8)
        yield bytes(m), 'bitflip'
    for _ in range(2):
        yield b[:r.randrange(n)], 'truncate'
    yield b[:-1], 'truncate-last'
    yield b + r.randbytes(r.randrange(1, 5)), 'trailing'
    p = r.randrange(n + 1)
    yield b[:p] + r.randbytes(r.randrange(1, 9)) + b[p:], 'insert'
    p, q = sorted((r.randrange(n), r.randrange(n)))
    yield b[:p] + b[q:], 'cut'
    yield b[:4] + bytes([r.choice((2, 3, 0x80, 0xff, r.randrange(2, 256)))]) + b[5:], 'flag'
    yield b[:4] + bytes([b[4] ^ 1]) + b[5:], 'flag-toggle'
    f = size_fields(t)
    for _ in range(2):
        o = r.choice(f)
        w = {253: 3, 254: 5, 255: 9}.get(b[o], 1)
        v = C.R(b[o:]).cs()
        k = r.randrange(6)
        if k == 0:
            s = b'\xfd' + struct.pack('<H', v & 0xffff)
        elif k == 1:
            s = b'\xfe' + struct.pack('<I', v)
        elif k == 2:
            s = b'\xff' + struct.pack('<Q', v)
        elif k == 3:
            s = C.cs(r.choice((v + 1, max(0, v - 1), 0, 252, 253)))
        elif k == 4:
            s = C.cs(r.choice((0x02000000, 0x02000001, 0xffffffff, 0x1fffffff, 2 ** 63, 2 ** 64 - 1, 0x10000)))
        else:
            s = bytes([r.randrange(256)])
        yield b[:o] + s + b[o + w:], 'size%d' % k
    # a witness part with nothing in it
    w = dict(t, winwit=None, woutwit=None)
    base = C.w_tx(w)
    yield base[:4] + b'\x01' + base[5:] + b'\x00' * (4 * len(t['vin']) + 2 * len(t['vout'])), 'superfluous'
    # prefixes of confidential fields
    if t['vout']:
        o = r.choice(t['vout'])
        i = b.find(C.w_out(o))
        if i >= 0:
            j = i + r.choice((0, len(C.conf(o['asset'])), len(C.conf(o['asset'])) + len(C.conf(o['value']))))
            yield b[:j] + bytes([r.choice((0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 255))]) + b[j + 1:], 'prefix'
    # outpoint flag bits
    if t['vin']:
        j = 5 + len(C.cs(len(t['vin']))) + 35
        yield b[:j] + bytes([b[j] ^ r.choice((0x40, 0x80, 0xc0))]) + b[j + 1:], 'outpoint-flag'
        yield b[:j - 3] + r.choice((b'\xff\xff\xff\xff', b'\xff\xff\xff\x3f', b'\xff\xff\xff\xbf', b'\xff\xff\xff\x7f', b'\xfe\xff\xff\xff')) + b[j + 1:], 'outpoint-index'


def small(r):
    while True:
        t = gen.tx(r, many=0)
        b = C.w_tx(t)
        if len(b) < 20000:
            return t, b


def episode(ctx):
    r = ctx.rng
    if r.random() < 0.1:
        from vmon import corpus
        b = r.choice(corpus.transactions())
        t = C.r_tx(b)
    else:
        t, b = small(r)
    for m, kind in mutants(r, t, b):
        judge(ctx, m, kind)
    if r.random() < 0.05:
        judge(ctx, r.randbytes(r.randrange(0, 200)), 'noise')
        judge(ctx, b[:5] + r.randbytes(r.randrange(0, 200)), 'noise-body')
    ctx.rec.sample(valid=b[:200])


def d_every_truncation(ctx):
    r = ctx.rng
    for _ in range(4):
        while True:
            t, b = small(r)
            if t['vin'] and t['vout'] and C.has_witness(t) and len(b) < 1500:
                break
        for n in range(len(b)):
            judge(ctx, b[:n], 'every-truncation')


def d_every_flag(ctx):
    for _ in range(2):
        t, b = small(ctx.rng)
        for f in range(256):
            judge(ctx, b[:4] + bytes([f]) + b[5:], 'every-flag')


def d_every_prefix(ctx):
    """every leading byte of each confidential field, alone"""
    core = B.L()
    from bitcointx.core.serialize import SerializationError
    for cls, size, ok in ((core.CConfidentialAsset, 33, (10, 11)), (core.CConfidentialValue, 9, (8, 9)), (core.CConfidentialNonce, 33, (2, 3))):
        for p in range(256):
            for n in (0, 8, 32):
                b = bytes([p]) + ctx.rng.randbytes(n)
                want = 1 if p == 0 else (size if p == 1 else (33 if p in ok else None))
                good = want is not None and len(b) == want
                try:
                    v = cls.deserialize(b)
                except (SerializationError, ValueError):
                    expect(not good, 'conf-rejected', 'a valid confidential field was rejected', cls=cls.__name__, wire=b)
                else:
                    expect(good, 'conf-accepted', 'an invalid confidential field was accepted', cls=cls.__name__, wire=b)
                    same(v.serialize(), b, 'conf-rewrite', 'confidential field is rewritten differently', cls=cls.__name__, wire=b)
                ctx.rec.ev()
                ctx.rec.feat('prefix', cls.__name__, p, n)


def d_huge_counts(ctx):
    """counts that announce far more than there is are refused at once, without reserving memory for them"""
    import tracemalloc
    was = tracemalloc.is_tracing()
    tracemalloc.start()
    try:
        def measured(b, kind):
            tracemalloc.reset_peak()
            before = tracemalloc.get_traced_memory()[0]
            judge(ctx, b, kind)
            grown = tracemalloc.get_traced_memory()[1] - before
            expect(grown < 4 * 2 ** 20, 'memory', 'reading %d bytes took %d bytes of memory' % (len(b), grown), wire=b)
            ctx.rec.count('memory')
        for n in (0x02000000, 0x01ffffff, 0x02000001, 0xffffffff, 2 ** 62, 2 ** 64 - 1):
            for tail in (b'', b'\x00' * 50):
                for flag in (b'\x00', b'\x01'):
                    measured(b'\x02\x00\x00\x00' + flag + C.cs(n) + tail, 'huge-vin')
                    measured(b'\x02\x00\x00\x00' + flag + b'\x00' + C.cs(n) + tail, 'huge-vout')
                    measured(b'\x02\x00\x00\x00' + flag + b'\x01' + b'\x11' * 36 + C.cs(n) + tail, 'huge-script')
        # the same at every place of real transactions: wherever a count is expected, it is huge
        for i in range(6):
            b = C.w_tx(gen.tx(ctx.rng, lo=1, many=0))[:1500]
            for k in range(4, len(b)):
                measured(b[:k] + C.cs(ctx.rng.choice((0x02000000, 0x01ffffff))) + b[k:k + ctx.rng.randrange(12)], 'huge-count')
    finally:
        if not was:
            tracemalloc.stop()


DIRECTED = [d_every_truncation, d_every_flag, d_every_prefix, d_huge_counts]
