"""P01: peg-out recognition and unspendable scripts against an independent parser."""
from vmon import gen, bridge as B
from vmon.rec import same, expect
from vmon.ref import codec as C

RULE = """Evaluation = get_pegout_data, is_pegout and is_unspendable of one script compared with an independent parser.  Scripts: every
opcode in each of the three positions, every push encoding (direct, PUSHDATA1/2/4, minimal or not) of every boundary length, truncation at
every byte, trailing data of all kinds, byte-level mutations of well-formed peg-outs, random bytes, sizes around the limit.
Distinct = (position and kind of deviation, push encodings, lengths)."""
QUICK = 4000
REQUIRED = {'pegout': 8000, 'not-pegout': 30000, 'malformed': 5000, 'trailing': 2000, 'unspendable': 5000, 'spendable': 5000, 'at-limit': 50}


def first_ops(s, n=3):
    """up to n leading operations as (opcode, data or None); 'bad' marks a malformed one"""
    r, p = [], 0
    while p < len(s) and len(r) < n:
        op = s[p]
        p += 1
        if op > 0x4e:
            r.append((op, None))
            continue
        w = {0x4c: 1, 0x4d: 2, 0x4e: 4}.get(op, 0)
        if p + w > len(s):
            return r + ['bad']
        k = int.from_bytes(s[p:p + w], 'little') if w else op
        p += w
        if p + k > len(s):
            return r + ['bad']
        r.append((op, s[p:p + k]))
        p += k
    return r


def pegout(s):
    o = first_ops(s)
    if len(o) < 3 or 'bad' in o:
        return None
    if o[0][0] != 0x6a or o[1][1] is None or len(o[1][1]) != 32 or not o[2][1]:
        return None
    return o[1][1], o[2][1]


def unspendable(s):
    return len(s) == 0 or s[0] == 0x6a or len(s) > 10000


def one(ctx, s, kind):
    from elementstx.core.script import CElementsScript
    rec = ctx.rec
    o = CElementsScript(s)
    want = pegout(s)
    try:
        got = o.get_pegout_data()
        isp = o.is_pegout()
        un = o.is_unspendable()
    except Exception as e:
        expect(False, 'exception', 'asking about a script raised %s: %s' % (type(e).__name__, e), script=s)
    if want is None:
        same(got, None, 'not-a-pegout', 'a script that is not a peg-out is taken for one', script=s)
    else:
        expect(got is not None, 'missed', 'a peg-out is not recognised', script=s)
        same((bytes(got[0]), bytes(got[1])), want, 'data', 'peg-out data is wrong', script=s)
        expect(isinstance(got[1], CElementsScript), 'type', 'the destination is a %s' % type(got[1]).__name__)
    expect(isp is (want is not None), 'is_pegout', 'is_pegout gives %r' % isp, script=s)
    expect(un is unspendable(s), 'is_unspendable', 'is_unspendable gives %r' % un, script=s)
    same(bytes(o), bytes(s), 'changed', 'the script changed')
    rec.ev(4)
    rec.count('pegout' if want else 'not-pegout')
    rec.count('unspendable' if un else 'spendable')
    rec.count('malformed', 'bad' in first_ops(s, 99))
    ops = first_ops(s)
    rec.feat(kind, want is not None, un, [x if x == 'bad' else (x[0], None if x[1] is None else min(len(x[1]), 300)) for x in ops], len(s) > 10000)


def push(r, d, how=None):
    how = r.randrange(5) if how is None else how
    n = len(d)
    if how == 1 and n < 256:
        return b'\x4c' + bytes([n]) + d
    if how == 2 and n < 65536:
        return b'\x4d' + n.to_bytes(2, 'little') + d
    if how == 3:
        return b'\x4e' + n.to_bytes(4, 'little') + d
    return gen.push(d)


def good(r):
    return b'\x6a' + push(r, gen.h32(r)) + push(r, gen.nbytes(r, r.choice((1, 2, 20, 22, 25, 34, 75, 76, 77, 255, 256, 520, 521, 600))))


def trailing(r):
    return r.choice((b'', push(r, r.randbytes(33)) + push(r, r.randbytes(65)), b'\xac' * r.randrange(1, 4), b'\x4c', b'\x4d\xff', b'\x4e\xff\xff\xff\xff',
                     b'\x20' + r.randbytes(31), r.randbytes(r.randrange(1, 40)), b'\x6a', gen.script(r)))


def episode(ctx):
    r = ctx.rng
    g = good(r)
    one(ctx, g, 'good')
    one(ctx, g + trailing(r), 'trailing')
    ctx.rec.count('trailing')
    for _ in range(3):
        b = bytearray(g)
        for _ in range(r.randrange(1, 3)):
            b[r.randrange(min(len(b), 45))] = r.randrange(256)
        one(ctx, bytes(b), 'mutated')
    one(ctx, g[:r.randrange(len(g))], 'cut')
    n = r.choice((0, 1, 31, 33, 64))
    one(ctx, b'\x6a' + push(r, gen.nbytes(r, n)) + push(r, r.randbytes(22)), 'hash-length')
    one(ctx, b'\x6a' + push(r, gen.h32(r)) + push(r, b''), 'empty-destination')
    one(ctx, gen.script(r), 'script')
    one(ctx, r.randbytes(r.randrange(0, 60)), 'random')
    one(ctx, b'\x6a' + r.randbytes(r.randrange(0, 60)), 'random-return')
    if r.random() < .05:
        n = r.choice((9999, 10000, 10001, 10002, 20000))
        one(ctx, (g + b'\x51' * n)[:n] if r.random() < .5 else b'\x51' * n, 'limit')
        ctx.rec.count('at-limit')
    ctx.rec.sample(script=g)


def d_opcodes(ctx):
    r = ctx.rng
    h, d = r.randbytes(32), r.randbytes(22)
    for op in range(256):
        b = bytes([op])
        one(ctx, b + b'\x20' + h + b'\x16' + d, 'op1')
        one(ctx, b'\x6a' + b + h + b'\x16' + d, 'op2')
        one(ctx, b'\x6a\x20' + h + b + d, 'op3')
        one(ctx, b'\x6a\x20' + h + b, 'op3-last')
        one(ctx, b, 'single')
        one(ctx, b'\x6a' + b, 'two')
        one(ctx, b'\x6a\x20' + h + b'\x16' + d + b, 'op4')
        for c in range(0, 256, 5):
            one(ctx, b + bytes([c]), 'pair')


def d_lengths(ctx):
    r = ctx.rng
    for n in list(range(0, 80)) + [255, 256, 257, 519, 520, 521, 9964, 9965, 9966, 65535, 65536]:
        for how in range(5):
            one(ctx, b'\x6a' + push(r, b'\x07' * min(n, 300), how) + b'\x51', 'hash-len')
            one(ctx, b'\x6a' + push(r, b'\x07' * min(n, 300), how) + b'\x01\x51', 'hash-len')
            one(ctx, b'\x6a' + push(r, b'\x07' * 32, how) + push(r, b'\x08' * n, 4 - how), 'dest-len')


def d_cuts(ctx):
    r = ctx.rng
    for how in range(5):
        g = b'\x6a' + push(r, b'\x07' * 32, how) + push(r, b'\x08' * 77, (how * 2) % 5) + push(r, b'\x09' * 33)
        for k in range(len(g) + 1):
            one(ctx, g[:k], 'cut-all')
            one(ctx, g[k:], 'tail-all')


def d_size(ctx):
    for n in range(9990, 10012):
        for first in (0x6a, 0x51, 0x00):
            one(ctx, bytes([first]) + b'\x51' * (n - 1), 'limit')
            ctx.rec.count('at-limit')


def d_chain(ctx):
    """the answers do not depend on the chain selected"""
    from bitcointx import ChainParams
    r = ctx.rng
    for chain in ('bitcoin', 'elements/liquidv1', 'elements'):
        with ChainParams(chain):
            for _ in range(50):
                one(ctx, good(r), 'chain-' + chain)
                one(ctx, gen.script(r), 'chain-' + chain)


DIRECTED = [d_opcodes, d_lengths, d_cuts, d_size, d_chain]
