"""P03: Elements opcodes and scripts made of them."""
from vmon import ct, gen
from vmon.rec import expect, same
import hashlib

TECHNIQUE = 'reference-model monitor: scripts assembled from opcodes, numbers and data are compared byte by byte, and operation by operation, with a table and an encoder written from the specification'
RULE = """Evaluation = one observation of one script: its bytes against an own encoder, the operations that taking it apart gives (opcode, data, offset), the
cooked operations, the same script made by adding parts, from bytes and from hexadecimal text, its class under each chain, the hash-paying scripts of it, and the
value of each opcode constant.  Sequences mix all 37 Elements opcodes, the Bitcoin ones, numbers small, large and negative, and data of every boundary length;
for every ordered pair of Elements opcodes one script.  Distinct = (kinds of neighbouring items, data length class, chain)."""
QUICK = 900
REQUIRED = {'script': 3500, 'elements op': 15000, 'bitcoin op': 4000, 'data': 5000, 'number': 2500, 'constant': 37, 'pair': 1369, 'p2sh': 500}
LEVEL = 'exploration'
OPS = {'DETERMINISTICRANDOM': 0xc0, 'CHECKSIGFROMSTACK': 0xc1, 'CHECKSIGFROMSTACKVERIFY': 0xc2, 'SUBSTR_LAZY': 0xc3, 'SHA256INITIALIZE': 0xc4, 'SHA256UPDATE': 0xc5,
       'SHA256FINALIZE': 0xc6, 'INSPECTINPUTOUTPOINT': 0xc7, 'INSPECTINPUTASSET': 0xc8, 'INSPECTINPUTVALUE': 0xc9, 'INSPECTINPUTSCRIPTPUBKEY': 0xca,
       'INSPECTINPUTSEQUENCE': 0xcb, 'INSPECTINPUTISSUANCE': 0xcc, 'PUSHCURRENTINPUTINDEX': 0xcd, 'INSPECTOUTPUTASSET': 0xce, 'INSPECTOUTPUTVALUE': 0xcf,
       'INSPECTOUTPUTNONCE': 0xd0, 'INSPECTOUTPUTSCRIPTPUBKEY': 0xd1, 'INSPECTVERSION': 0xd2, 'INSPECTLOCKTIME': 0xd3, 'INSPECTNUMINPUTS': 0xd4,
       'INSPECTNUMOUTPUTS': 0xd5, 'TXWEIGHT': 0xd6, 'ADD64': 0xd7, 'SUB64': 0xd8, 'MUL64': 0xd9, 'DIV64': 0xda, 'NEG64': 0xdb, 'LESSTHAN64': 0xdc,
       'LESSTHANOREQUAL64': 0xdd, 'GREATERTHAN64': 0xde, 'GREATERTHANOREQUAL64': 0xdf, 'SCRIPTNUMTOLE64': 0xe0, 'LE64TOSCRIPTNUM': 0xe1, 'LE32TOLE64': 0xe2,
       'ECMULSCALARVERIFY': 0xe3, 'TWEAKVERIFY': 0xe4}
NAMES = list(OPS)
CHAINS = ('elements', 'elements/liquidv1')


def const(name):
    import elementstx.core.script as E
    return getattr(E, 'OP_' + name)


def number(n):
    """minimal little-endian with sign bit, as a push"""
    if n == 0:
        return b'\0'
    if n == -1 or 1 <= n <= 16:
        return bytes([0x50 + n])
    k = abs(n)
    b = bytearray()
    while k:
        b.append(k & 255)
        k >>= 8
    if b[-1] & 128:
        b.append(0)
    if n < 0:
        b[-1] |= 128
    return gen.push(bytes(b))


def item(r):
    """(what to give the library, its bytes, kind, [opcode, data])"""
    import bitcointx.core.script as S
    k = r.random()
    if k < .5:
        n = r.choice(NAMES)
        return const(n), bytes([OPS[n]]), 'elements op', (OPS[n], None)
    if k < .65:
        v = r.choice([x for x in range(0x61, 0xba)])
        return S.CScriptOp(v), bytes([v]), 'bitcoin op', (v, None)
    if k < .75:
        n = r.choice((0, 1, 2, 16, 17, -1, -2, 127, 128, 255, 256, -127, -128, -255, 32767, 32768, 2 ** 31 - 1, -2 ** 31, 2 ** 63 - 1, r.randrange(-2 ** 62, 2 ** 62), r.randrange(-300, 300)))
        b = number(n)
        return n, b, 'number', (b[0], b'' if b[0] == 0 else None if b[0] > 0x4e else b[1:])
    d = gen.nbytes(r, r.choice((1, 2, 20, 32, 33, 75, 76, 77, 255, 256, 257, 520, 521, r.randrange(1, 600))))
    b = gen.push(d)
    return r.choice((bytes, bytearray))(d), b, 'data', (b[0], d)


def check(ctx, items, kind):
    import bitcointx.core.script as S
    from elementstx.core.script import CElementsScript
    r, rec = ctx.rng, ctx.rec
    given = [x[0] for x in items]
    want = b''.join(x[1] for x in items)
    cls = r.choice((CElementsScript, S.CScript))
    sc = cls(r.choice((list, tuple, iter))(given))
    same(bytes(sc), want, 'bytes', 'a script was not assembled as the concatenation of its items (%s)' % kind)
    expect(isinstance(sc, CElementsScript), 'class', 'the class of a script made under an Elements chain is %s' % type(sc).__name__)
    raw = [(int(o), None if d is None else bytes(d), i) for o, d, i in sc.raw_iter()]
    exp, at = [], 0
    for x in items:
        exp.append(x[3] + (at,))
        at += len(x[1])
    same(raw, exp, 'operations', 'taking a script apart gives other operations')
    cooked = [bytes(x) if isinstance(x, (bytes, bytearray)) else int(x) for x in sc]
    cw = []
    for o, d in (x[3] for x in items):
        cw.append(0 if o == 0 else d if d is not None else (o - 0x50) if 0x51 <= o <= 0x60 else o)
    same(cooked, cw, 'cooked', 'iterating a script gives other items')
    same(bytes(CElementsScript(want)), want, 'from-bytes', 'script from bytes')
    same(bytes(CElementsScript.fromhex(want.hex())), want, 'from-hex', 'script from text')
    if len(items) < 20:
        t = CElementsScript()
        for x in given:
            t = t + x
        same(bytes(t), want, 'added', 'a script made by adding parts')
        expect(isinstance(t, CElementsScript), 'class', 'adding scripts gives a %s' % type(t).__name__)
    expect(sc.is_valid(), 'valid', 'a well-formed script is not valid')
    same(repr(sc)[:15], 'CElementsScript', 'repr', 'repr of a script')
    if len(want) <= 520:
        p2sh = sc.to_p2sh_scriptPubKey()
        same(bytes(p2sh), b'\xa9\x14' + hashlib.new("ripemd160", hashlib.sha256(want).digest()).digest() + b'\x87', 'p2sh', 'script paying to the hash of a script')
        expect(isinstance(p2sh, CElementsScript), 'class', 'class of a derived script')
        rec.count('p2sh')
    p2wsh = sc.to_p2wsh_scriptPubKey(checksize=False)
    same(bytes(p2wsh), b'\x00\x20' + hashlib.sha256(want).digest(), 'p2wsh', 'script paying to the witness hash of a script')
    expect(isinstance(p2wsh, CElementsScript), 'class', 'class of a derived script')
    same(sc.is_push_only(), all(x[3][0] <= 0x60 for x in items), 'push-only', 'whether the script only pushes')
    rec.ev(10)
    rec.count('script')
    for x in items:
        rec.count(x[2])
    for x, y in zip(items, items[1:]):
        rec.feat(x[2], y[2], len(y[1]).bit_length(), kind)


def episode(ctx):
    from bitcointx import ChainParams
    r = ctx.rng
    with ChainParams(r.choice(CHAINS)):
        for _ in range(4):
            check(ctx, [item(r) for _ in range(r.choice((0, 1, 2, 3, 8, 20, 40)))], 'random')
    ctx.rec.sample(kind='random')


def d_constants(ctx):
    """every constant, every ordered pair"""
    import bitcointx.core.script as S
    rec = ctx.rec
    for n, v in OPS.items():
        o = const(n)
        same(int(o), v, 'opcode-' + n, 'value of OP_' + n)
        expect(isinstance(o, S.CScriptOp), 'opcode-type', 'OP_%s is a %s' % (n, type(o).__name__))
        rec.count('constant')
        rec.ev()
    own = {int(const(n)) for n in NAMES}
    same(len(own), len(NAMES), 'opcode-shared', 'opcodes share values')
    for a in NAMES:
        for b in NAMES:
            check(ctx, [(const(x), bytes([OPS[x]]), 'elements op', (OPS[x], None)) for x in (a, b)], 'pair')
            rec.count('pair')


DIRECTED = [d_constants]
