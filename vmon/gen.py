"""Boundary-heavy generators of model transactions (plain dicts, see ref/codec.py)."""
from .ref import codec as C

BOUNDS = [0, 1, 2, 31, 32, 33, 75, 76, 77, 252, 253, 254, 255, 256, 257, 520]
BIG = [65535, 65536, 65537]
I32 = [0, 1, 2, -1, -2, 0x7fffffff, -0x80000000, 0x01000000, 255, 256]
U32 = [0, 1, 0xffffffff, 0xfffffffe, 0xfffffffd, 0x80000000, 0x7fffffff, 0x80000001, 500000000, 499999999, 0x00400000, 255, 256]
I64 = [0, 1, -1, 21 * 10 ** 14, 21 * 10 ** 14 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 32, 2 ** 32 - 1, 2 ** 31, 546, 10 ** 8]


def nbytes(r, n):
    if n == 0:
        return b''
    k = r.random()
    if k < 0.05:
        return b'\x00' * n
    if k < 0.1:
        return b'\xff' * n
    if n > 2000:
        s = r.randbytes(257)
        return (s * (n // 257 + 1))[:n]
    return r.randbytes(n)


def blob(r, big=0.004):
    k = r.random()
    if k < big:
        return nbytes(r, r.choice(BIG))
    if k < 0.3:
        return nbytes(r, r.choice(BOUNDS))
    if k < 0.35:
        return nbytes(r, r.randrange(2000, 5200))
    return nbytes(r, r.randrange(0, 80))


def h32(r):
    k = r.random()
    if k < 0.06:
        return b'\x00' * 32
    if k < 0.09:
        return b'\xff' * 32
    if k < 0.12:
        return b'\x01' + b'\x00' * 31
    if k < 0.15:
        return b'\x00' * 31 + b'\x01'
    return r.randbytes(32)


def pick(r, fixed, f, p=0.6):
    return r.choice(fixed) if r.random() < p else f()


def i32(r):
    return pick(r, I32, lambda: r.randrange(-2 ** 31, 2 ** 31))


def u32(r):
    return pick(r, U32, lambda: r.randrange(2 ** 32))


def i64(r):
    return pick(r, I64, lambda: r.randrange(-2 ** 63, 2 ** 63))


def value(r, null=0.15):
    k = r.random()
    if k < null:
        return b''
    if k < 0.6:
        return b'\x01' + i64(r).to_bytes(8, 'big', signed=True)
    return bytes([r.choice((8, 9))]) + h32(r)


def asset(r, null=0.1):
    k = r.random()
    if k < null:
        return b''
    if k < 0.55:
        return b'\x01' + h32(r)
    return bytes([r.choice((10, 11))]) + h32(r)


def nonce(r):
    k = r.random()
    if k < 0.4:
        return b''
    if k < 0.55:
        return b'\x01' + h32(r)
    return bytes([r.choice((2, 3))]) + h32(r)


def push(d):
    if len(d) < 76:
        return bytes([len(d)]) + d
    if len(d) < 256:
        return b'\x4c' + bytes([len(d)]) + d
    if len(d) < 65536:
        return b'\x4d' + len(d).to_bytes(2, 'little') + d
    return b'\x4e' + len(d).to_bytes(4, 'little') + d


def script(r, valid=False):
    k = r.random()
    if k < 0.12:
        return b''
    if k < 0.2:
        return b'\x76\xa9\x14' + r.randbytes(20) + b'\x88\xac'
    if k < 0.28:
        return b'\xa9\x14' + r.randbytes(20) + b'\x87'
    if k < 0.36:
        return b'\x00\x14' + r.randbytes(20)
    if k < 0.44:
        return b'\x00\x20' + r.randbytes(32)
    if k < 0.5:
        return b'\x51\x20' + r.randbytes(32)
    if k < 0.56:
        return b'\x6a' + push(nbytes(r, r.choice((0, 1, 32, 33, 80))))
    if k < 0.8 or valid:
        s = b''
        for _ in range(r.randrange(0, 12)):
            if r.random() < 0.5:
                s += push(nbytes(r, r.choice((0, 1, 2, 20, 32, 33, 75, 76, 255, 256, 520))))
            else:
                s += bytes([r.choice((0x51, 0x52, 0x60, 0x61, 0x63, 0x68, 0x75, 0x76, 0x87, 0x88, 0xa9, 0xac, 0xab, 0xab,
                                      0xae, 0xb1, 0xc0, 0xc4, 0xd6, 0xe3, 0xfe, 0xff))])
        return s
    return blob(r)


def issuance(r, null_ok=False):
    while True:
        i = {'nonce': h32(r), 'entropy': h32(r), 'amount': value(r, 0.25), 'keys': value(r, 0.4)}
        if null_ok or not C.null_issuance(i):
            return i


def txin(r, rich=True):
    k = r.random()
    if rich and k < 0.04:
        n = 0xffffffff
    elif k < 0.6:
        n = r.choice((0, 1, 2, 253, 255, 256, 65535, 65536, 0x3ffffffe, 0x1fffffff, 0x20000000))
    else:
        n = r.randrange(0, 0x3fffffff)
    i = {'hash': h32(r), 'n': n, 'script': script(r) if r.random() < .5 else b'', 'seq': u32(r), 'issuance': None, 'pegin': False}
    if n != 0xffffffff:
        if r.random() < 0.35:
            i['issuance'] = issuance(r)
        if r.random() < 0.25:
            i['pegin'] = True
        if n == 0xffffffff & C.MASK and i['issuance'] and i['pegin']:
            i['pegin'] = False
    return i


def txout(r):
    if r.random() < .02:
        return {'asset': b'', 'value': b'', 'nonce': b'', 'script': b''}
    return {'asset': asset(r), 'value': value(r), 'nonce': nonce(r), 'script': script(r)}


def stack(r):
    k = r.random()
    if k < 0.4:
        return []
    if k < 0.44:
        return [nbytes(r, r.randrange(0, 3)) for _ in range(r.choice((252, 253, 254)))]
    return [blob(r) if r.random() < .8 else bytes([r.randrange(256)]) for _ in range(r.randrange(1, 5))]


def inwit(r):
    if r.random() < 0.3:
        return dict(C.NULL_INWIT)
    return {'amount_proof': blob(r) if r.random() < .4 else b'', 'keys_proof': blob(r) if r.random() < .3 else b'',
            'stack': stack(r), 'pegin_stack': stack(r) if r.random() < .4 else []}


def outwit(r):
    if r.random() < 0.4:
        return dict(C.NULL_OUTWIT)
    return {'surj': blob(r) if r.random() < .7 else b'', 'range': blob(r) if r.random() < .8 else b''}


def count(r, many=0.02, lo=0):
    k = r.random()
    if k < many:
        return r.choice((252, 253, 254, 255, 256, 257))
    return max(lo, r.choice((0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 7)))


def tx(r, lo=0, many=0.02, witness=None):
    nin, nout = count(r, many, lo), count(r, many, lo)
    t = {'version': i32(r), 'vin': [txin(r) for _ in range(nin)], 'vout': [txout(r) for _ in range(nout)],
         'locktime': u32(r), 'winwit': None, 'woutwit': None}
    k = r.random() if witness is None else (0.9 if witness else 0)
    if k > 0.3:
        light = nin > 50
        t['winwit'] = [dict(C.NULL_INWIT) if light and r.random() < .9 else inwit(r) for _ in t['vin']]
        light = nout > 50
        t['woutwit'] = [dict(C.NULL_OUTWIT) if light and r.random() < .9 else outwit(r) for _ in t['vout']]
    return t


def large(r, nin, nout, rich=12):
    """a transaction of many inputs and outputs, most of them plain, with the rich ones anywhere and at the far ends"""
    def places(n):
        return {x for x in (0, 1, 127, 128, 251, 252, 253, 254, 255, 256, 257, n - 2, n - 1) if 0 <= x < n} | {r.randrange(n) for _ in range(rich if n else 0)}
    a, b = places(nin), places(nout)
    t = {'version': i32(r), 'locktime': u32(r), 'vin': [txin(r, False) if i in a else
         {'hash': r.randbytes(32), 'n': i, 'script': b'', 'seq': 0xffffffff, 'issuance': None, 'pegin': False} for i in range(nin)],
         'vout': [txout(r) if i in b else {'asset': b'\x01' + b'\x77' * 32, 'value': b'\x01' + i.to_bytes(8, 'big'), 'nonce': b'', 'script': b'\x51'} for i in range(nout)],
         'winwit': None, 'woutwit': None}
    if r.random() < .8:
        t['winwit'] = [inwit(r) if i in a else dict(C.NULL_INWIT) for i in range(nin)]
        t['woutwit'] = [outwit(r) if i in b else dict(C.NULL_OUTWIT) for i in range(nout)]
    return t, sorted(a)


LARGE = ((253, 3), (256, 255), (257, 258), (300, 1), (2, 300), (520, 515))


def shape(t):
    """features that make a transaction case distinct"""
    def b(n):
        return n if n < 4 else (4 if n < 253 else 253)
    f = set()
    for i in t['vin']:
        iss = i['issuance']
        f.add(('i', i['n'] == 0xffffffff, i['pegin'], None if iss is None else (iss['amount'][:1], iss['keys'][:1]), len(i['script']) > 252))
    for o in t['vout']:
        f.add(('o', o['asset'][:1], o['value'][:1], o['nonce'][:1], (len(o['script']) > 0) + (len(o['script']) > 252)))
    return (b(len(t['vin'])), b(len(t['vout'])), C.has_witness(t), tuple(sorted(map(repr, f))))
