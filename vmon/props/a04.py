"""A04: the blech32 code itself."""
from vmon.ref import addr as A
from vmon.rec import expect, same

TECHNIQUE = 'reference-model monitor of the codec: every encoding compared with an encoder, and every decoding with a strict decoder, written here from the specification'
RULE = """Evaluation = one encoding or decoding compared with the model.  Prefixes of 1 to 80 characters (longer ones up to the length limit), of any
printable characters incl. the separator and digits; versions 0 to 16; programs of 2 to 73 bytes; refused: other versions and lengths, one to four
changed characters (of data or prefix), other constants, paddings, mixed case, non-ASCII, truncation, too long.  Directed: every single change and every
swap of short strings, all pairs of changes on a stride, all versions by all lengths.  Distinct = (operation, version, program length, case, outcome)."""
QUICK = 1600
REQUIRED = {'encoded': 6000, 'decoded': 6000, 'changed': 12000, 'refused-encode': 2500, 'refused-decode': 25000, 'class': 1500, 'data': 1500, 'twins': 400, 'versionless': 3500}


def hrp(r):
    k = r.random()
    if k < .35:
        return r.choice(('el', 'lq', 'tlq', 'ex', 'a', '1', '11', 'el1', 'q1q', '~', '!'))
    n = r.choice((1, 2, 3, 5, 10, 40, 80, r.randrange(1, 900)))
    return ''.join(r.choice('abcdefghijklmnopqrstuvwxyz0123456789!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~') for _ in range(n))


def prog_len(r, v):
    return r.choice((53, 65)) if v == 0 else r.choice((53, 65, 2, 73, 33, 40, 41, r.randrange(2, 74)))


def enc(h, v, p):
    """result of encode; an error counts as refusal"""
    from elementstx.liquid_addr import encode
    try:
        return encode(h, v, p)
    except Exception:
        return None


def dec(h, s, how):
    from elementstx.liquid_addr import decode
    try:
        v, p = decode(h, s)
    except Exception as e:
        expect(False, 'decode-error', 'decode raised %s: %s (%s)' % (type(e).__name__, e, how), prefix=h, text=s)
    return None if v is None and p is None else (v, p)


def model(h, s):
    x = A.seg_dec(s, True)
    return (x[1], x[2]) if x and x[0] == h else None


def decoding(ctx, h, s, how):
    want = model(h, s)
    got = dec(h, s, how)
    if want is None:
        expect(got is None, 'accepted', 'a string that encodes nothing (%s) decodes to %r' % (how, got), prefix=h, text=s)
    else:
        same(got, want, 'decoded', 'decoded version and program (%s)' % how, prefix=h, text=s)
        expect(isinstance(got[1], bytes), 'type', 'type of the program')
    ctx.rec.ev()
    ctx.rec.count('refused-decode' if want is None else 'decoded')
    ctx.rec.feat('dec', how, want and want[0], want and len(want[1]))
    return want


def episode(ctx):
    r, rec = ctx.rng, ctx.rec
    for _ in range(6):
        h, v = hrp(r), r.randrange(17) if r.random() < .7 else r.randrange(2)
        n = prog_len(r, v)
        p = r.choice((r.randbytes(n), bytes(n), b'\xff' * n, b'\0' * (n - 1) + b'\1'))
        s = A.seg(h, v, p, True)
        fits = len(s) <= 1000
        got = enc(h, v, r.choice((p, bytearray(p), list(p))))
        rec.ev()
        rec.feat('enc', v, n, fits)
        if not fits:
            expect(got is None, 'too-long', 'a string above the length limit is written', length=len(s))
            rec.count('refused-encode')
            decoding(ctx, h, s, 'too long')
            continue
        same(got, s, 'encoded', 'blech32 text of (%s, %d, %s)' % (h[:20], v, p.hex()))
        rec.count('encoded')
        decoding(ctx, h, s, 'valid')
        decoding(ctx, h, s.upper(), 'upper case')
        rec.count('upper')
        # the wrong prefix
        for o in (h[:-1], h + 'q', h.upper() if h.upper() != h else h + 'A', 'el', 'lq', ''):
            decoding(ctx, o, s, 'other prefix')
        for k in (1, 2, 3, 4):
            decoding(ctx, h, flip(r, h, s, k), 'changed %d' % k)
            rec.count('changed')
        damage(ctx, h, v, p, s)
    refused_enc(ctx)
    klass(ctx)
    versionless(ctx)
    rec.sample(prefix=h, version=v, program=p, text=s)


def flip(r, h, s, k):
    t, lo = list(s), len(h) + 1
    for i in r.sample(range(lo, len(t)), k):
        t[i] = r.choice([c for c in A.B32 if c != t[i]])
    return ''.join(t)


def damage(ctx, h, v, p, s):
    r = ctx.rng
    vals = [v] + A.to5(p)
    decoding(ctx, h, A.seg_raw(h, vals, True, A.const(1 if v == 0 else 0, True)), 'other constant')
    decoding(ctx, h, A.seg_raw(h, vals, True, r.choice((0, 2, A.M6, A.const(v, True) ^ 1 << r.randrange(55)))), 'no constant')
    decoding(ctx, h, A.seg_raw(h, vals, False, A.const(v, False)), 'short checksum')
    w = r.choice((17, 18, 31))
    for c in (1, A.M12):
        decoding(ctx, h, A.seg_raw(h, [w] + vals[1:], True, c), 'version')
    pad = -8 * len(p) % 5
    if pad:
        x = list(vals)
        x[-1] |= r.randrange(1, 1 << pad)
        decoding(ctx, h, A.seg_raw(h, x, True, A.const(v, True)), 'padding bits')
    decoding(ctx, h, A.seg_raw(h, vals + [0] * r.choice((1, 2, 3)), True, A.const(v, True)), 'padding group')
    decoding(ctx, h, A.seg_raw(h, vals[:-1], True, A.const(v, True)), 'group missing')
    n = r.choice((0, 1, 74, 75, 100, len(p) + 1, len(p) - 1, 20, 32, 52, 54, 64, 66))
    decoding(ctx, h, A.seg_raw(h, [v] + A.to5(r.randbytes(n)), True, A.const(v, True)), 'length')
    decoding(ctx, h, A.seg_raw(h, [], True, r.choice((1, A.M12))), 'empty')
    i = r.randrange(len(s))
    for how, t in (('mixed case', ''.join(c.upper() if r.random() < .5 else c for c in s)), ('truncated', s[:i]), ('truncated', s[i:]), ('space', s[:i] + ' ' + s[i:]),
                   ('tail', s + r.choice(('q', ' ', '\n', '\0', 'é'))), ('head', r.choice((' ', '1', 'q', '\ufeff')) + s), ('no separator', s[:len(h)] + s[len(h) + 1:]),
                   ('inserted', s[:i] + r.choice(A.B32) + s[i:]), ('deleted', s[:i] + s[i + 1:]), ('non-ascii', s[:i] + chr(r.choice((0x80, 0x17f, 0x212a, 0x661, 0x1f600))) + s[i + 1:]),
                   ('bad character', s[:len(h) + 1 + i % (len(s) - len(h) - 1)] + r.choice('bio1') + s[len(h) + 2 + i % (len(s) - len(h) - 1):])):
        decoding(ctx, h, t, how)


def refused_enc(ctx):
    r, rec = ctx.rng, ctx.rec
    h = r.choice(('el', 'lq'))
    for h, v, p in ((h, 0, r.randbytes(r.choice([n for n in range(80) if n not in (53, 65)]))), (h, r.choice((17, 31, 32, 100, -1)), r.randbytes(65)),
                    (h, r.randrange(1, 17), r.randbytes(r.choice((0, 1, 74, 100, 700)))), ('', r.randrange(17), r.randbytes(65)), ('EL', 0, r.randbytes(65)),
                    ('e l', 1, r.randbytes(65)), ('é', 1, r.randbytes(65)), (h, 1, [0] * 64 + [r.choice((256, -1, 1 << 40))])):
        got = enc(h, v, p)
        expect(got is None, 'encoded-invalid', 'encoding (%r, %d, %d bytes) gave %s' % (h, v, len(p), got))
        rec.ev()
        rec.count('refused-encode')
        rec.feat('enc-refused', h, v, len(p))


def klass(ctx):
    """a data class with a prefix of its own"""
    from elementstx.blech32 import CBlech32Data, Blech32Error
    r, rec = ctx.rng, ctx.rec
    h = hrp(r)[:100]
    v = r.randrange(17)
    n = prog_len(r, v)

    class Data(CBlech32Data):
        blech32_hrp = h
        blech32_witness_version = v
        _data_length = n

        def __init__(self, s=None):
            pass
    p = r.randbytes(n)
    s = A.seg(h, v, p, True)
    for d in (Data(s), Data.from_bytes(p), Data(s.upper()) if s.upper() != s else Data(s)):
        same((bytes(d), str(d), type(d)), (p, s, Data), 'class', 'data object of (%s, %d, %d bytes)' % (h, v, n))
        rec.ev()
        rec.count('class')
    wrong = [flip(r, h, s, r.randrange(1, 5)), s[:-1], s + 'q', A.seg(h + 'x', v, p, True), A.seg_raw(h, [v] + A.to5(p), True, A.const(1 if v == 0 else 0, True))]
    w = r.randrange(17)
    m = r.choice([k for k in (53, 65) if k != n])
    wrong += [A.seg(h, v, r.randbytes(m), True)]
    if w != v:
        wrong.append(A.seg(h, w, p, True) if w or n in (53, 65) else s[:-2])
    for t in wrong:
        try:
            d = Data(t)
        except Blech32Error:
            pass
        except Exception as e:
            expect(False, 'class-error', 'the data class raised %s: %s' % (type(e).__name__, e), text=t)
        else:
            expect(False, 'class-accepted', 'the data class (%s, %d, %d bytes) accepted %s as %r' % (h, v, n, t, d))
        rec.ev()
        rec.count('data')


def versionless(ctx):
    """a data class of no version of its own: each object keeps the version it was made with"""
    from elementstx.blech32 import CBlech32Data
    r, rec = ctx.rng, ctx.rec
    h = hrp(r)[:100]

    class Data(CBlech32Data):
        blech32_hrp = h

        def __init__(self, s=None):
            pass
    made = []
    for _ in range(r.randrange(2, 6)):
        v = r.randrange(17)
        p = r.randbytes(prog_len(r, v))
        s = A.seg(h, v, p, True)
        try:
            made.append((v, p, s, Data(s) if r.random() < .5 else Data.from_bytes(p, witver=v)))
        except Exception as e:
            expect(False, 'versionless-error', 'a data class of no version refuses version %d: %s: %s' % (v, type(e).__name__, e), text=s)
        try:
            d = Data.from_bytes(p)
        except ValueError:
            pass
        else:
            expect(False, 'versionless-accepted', 'data of no version is accepted as %r' % d)
    for v, p, s, d in made:
        same((bytes(d), str(d), d.blech32_witness_version), (p, s, v), 'versionless', 'data object of (%s, %d, %d bytes)' % (h, v, len(p)))
        rec.ev()
        rec.count('versionless')


def every_change(ctx):
    """all single changes and swaps, and pairs of changes, of a short and two real strings"""
    r = ctx.rng
    for h, v, n in (('a', 3, 2), ('el', 0, 53), ('lq', 1, 65)):
        s = A.seg(h, v, r.randbytes(n), True)
        for i in range(len(s)):
            for c in range(33, 127):
                if chr(c) != s[i]:
                    decoding(ctx, h, s[:i] + chr(c) + s[i + 1:], 'every change')
        for i in range(len(s) - 1):
            decoding(ctx, h, s[:i] + s[i + 1] + s[i] + s[i + 2:], 'every swap')
    h = 'a'
    s = A.seg(h, 3, r.randbytes(2), True)
    for i in range(2, len(s)):
        for j in range(i + 1, len(s)):
            for c in A.B32:
                for d in A.B32[::3]:
                    if c != s[i] and d != s[j]:
                        decoding(ctx, h, s[:i] + c + s[i + 1:j] + d + s[j + 1:], 'every pair')
    ctx.rec.count('complete')


def every_shape(ctx):
    """all versions by all lengths by both constants"""
    for v in range(32):
        for n in range(78):
            p = bytes((v * 7 + i * 31) & 255 for i in range(n))
            for c in (1, A.M12):
                decoding(ctx, 'lq', A.seg_raw('lq', [v] + A.to5(p), True, c), 'every shape')
            got, s = enc('lq', v, p), A.seg_raw('lq', [v] + A.to5(p), True, A.const(v, True))
            same(got, s if model('lq', s) else None, 'encoded', 'text of version %d with %d bytes' % (v, n))
            ctx.rec.ev()


def d_twins(ctx):
    """the same few prefixes, versions and programs in turn: written, and read under each other's prefixes"""
    r = ctx.rng
    for _ in range(10):
        hs, ps = [hrp(r) for _ in range(2)] + ['el', 'lq'], [r.randbytes(73) for _ in range(2)]
        hs = [h for h in hs if len(h) < 500]
        done = []
        for _ in range(50):
            h, v = r.choice(hs), r.choice((0, 1, 1, 2, 16))
            p = r.choice(ps)[:r.choice((53, 65))]
            if r.random() < .5:
                same(enc(h, v, p), A.seg(h, v, p, True), 'twin', 'text of a program', prefix=h, version=v, program=p)
            done.append(A.seg(h, v, p, True))
            for s in [done[-1], r.choice(done)]:
                for g in {h, r.choice(hs)}:
                    decoding(ctx, g, s, 'twin')
                    decoding(ctx, g, flip(r, s[:s.rindex('1')], s, r.randrange(1, 5)) if r.random() < .5 else s.upper(), 'twin')
            ctx.rec.count('twins')


DIRECTED = [d_twins, every_change, every_shape]
