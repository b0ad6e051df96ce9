"""Address and key text forms, from their specifications (base58check, BIP173, BIP350, Elements blech32)."""
import hashlib

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
B32 = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
G6 = (0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)
G12 = (0x7d52fba40bd886, 0x5e8dbf1a03950c, 0x1c3a3c74072a18, 0x385d72fa0e5139, 0x7093e5a608865b)
M6, M12 = 0x2bc830a3, 0x455972a3350f7a1

KINDS = ('P2PKH', 'P2SH', 'P2WPKH', 'P2WSH', 'P2TR')
SIZE = {'P2PKH': 20, 'P2SH': 20, 'P2WPKH': 20, 'P2WSH': 32, 'P2TR': 32}
WITVER = {'P2WPKH': 0, 'P2WSH': 0, 'P2TR': 1}
# base58 prefixes of (P2PKH, P2SH), of the confidential kinds, prefixes of bech32 and blech32
CHAIN = {
    'elements': {'P2PKH': b'\xeb', 'P2SH': b'\x4b', 'cP2PKH': b'\x04\xeb', 'cP2SH': b'\x04\x4b', 'hrp': 'ert', 'chrp': 'el', 'family': 'Elements',
                 'wif': b'\xef', 'xpub': bytes.fromhex('043587cf'), 'xprv': bytes.fromhex('04358394')},
    'elements/liquidv1': {'P2PKH': b'\x39', 'P2SH': b'\x27', 'cP2PKH': b'\x0c\x39', 'cP2SH': b'\x0c\x27', 'hrp': 'ex', 'chrp': 'lq',
                          'family': 'ElementsLiquidV1', 'wif': b'\xef', 'xpub': bytes.fromhex('0488b21e'), 'xprv': bytes.fromhex('0488ade4')},
}
CHAIN['elements/elementsregtest'] = CHAIN['elements']


def b58(b):
    n, s = int.from_bytes(b, 'big'), ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s


def b58dec(s):
    """bytes or None"""
    if not all(c in B58 for c in s):
        return None
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    lead = len(s) - len(s.lstrip('1'))
    return bytes(lead) + n.to_bytes((n.bit_length() + 7) // 8, 'big')


def check(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4]


def b58check(b):
    return b58(b + check(b))


def b58checkdec(s):
    d = b58dec(s)
    if d is None or len(d) < 4 or check(d[:-4]) != d[-4:]:
        return None
    return d[:-4]


def polymod(vals, long_):
    g, top, mask = (G12, 55, (1 << 55) - 1) if long_ else (G6, 25, (1 << 25) - 1)
    c = 1
    for v in vals:
        t = c >> top
        c = ((c & mask) << 5) ^ v
        for i in range(5):
            if t >> i & 1:
                c ^= g[i]
    return c


def expand(hrp):
    return [ord(x) >> 5 for x in hrp] + [0] + [ord(x) & 31 for x in hrp]


def to5(b):
    n, bits = int.from_bytes(b, 'big'), len(b) * 8
    pad = -bits % 5
    n <<= pad
    k = (bits + pad) // 5
    return [n >> 5 * (k - 1 - i) & 31 for i in range(k)]


def from5(v):
    """bytes or None"""
    bits = 5 * len(v)
    extra = bits % 8
    n = 0
    for x in v:
        n = n << 5 | x
    if extra >= 5 or n & ((1 << extra) - 1):
        return None
    return (n >> extra).to_bytes(bits // 8, 'big')


def seg_raw(hrp, vals, long_, const):
    k = 12 if long_ else 6
    p = polymod(expand(hrp) + vals + [0] * k, long_) ^ const
    return hrp + '1' + ''.join(B32[x] for x in vals + [p >> 5 * (k - 1 - i) & 31 for i in range(k)])


def const(ver, long_):
    return 1 if ver == 0 else M12 if long_ else M6


def seg(hrp, ver, prog, long_):
    return seg_raw(hrp, [ver] + to5(prog), long_, const(ver, long_))


def seg_dec(s, long_):
    """(prefix, version, program) or None"""
    k, most = (12, 1000) if long_ else (6, 90)
    if any(not 33 <= ord(c) <= 126 for c in s) or s.lower() != s and s.upper() != s:
        return None
    s = s.lower()
    p = s.rfind('1')
    if p < 1 or len(s) - p - 1 < k or len(s) > most or any(c not in B32 for c in s[p + 1:]):
        return None
    hrp, v = s[:p], [B32.index(c) for c in s[p + 1:]]
    c = polymod(expand(hrp) + v, long_)
    v = v[:-k]
    if not v or v[0] > 16 or c != const(v[0], long_):
        return None
    prog = from5(v[1:])
    if prog is None or not 2 <= len(prog) <= (73 if long_ else 40):
        return None
    if v[0] == 0 and len(prog) not in ((53, 65) if long_ else (20, 32)):
        return None
    return hrp, v[0], prog


def encode(chain, kind, data):
    """kind: P2PKH.. or cP2PKH.. (confidential; data starts with the blinding key)"""
    t = CHAIN[chain]
    base = kind.lstrip('c')
    if base in WITVER:
        conf = kind[0] == 'c'
        return seg(t['chrp' if conf else 'hrp'], WITVER[base], data, conf)
    return b58check(t[kind] + data)


def decode(chain, s):
    """(kind, data) of a valid address of the chain, or None"""
    t = CHAIN[chain]
    d = b58checkdec(s)
    if d is not None:
        for k in ('P2PKH', 'P2SH', 'cP2PKH', 'cP2SH'):
            if d.startswith(t[k]) and len(d) == len(t[k]) + 20 + 33 * (k[0] == 'c'):
                return k, d[len(t[k]):]
    for long_, key, pre, more in ((False, 'hrp', '', 0), (True, 'chrp', 'c', 33)):
        x = seg_dec(s, long_)
        if x and x[0] == t[key]:
            for k, v in WITVER.items():
                if x[1] == v and len(x[2]) == SIZE[k] + more:
                    return pre + k, x[2]
    return None


def script(kind, data):
    base = kind.lstrip('c')
    p = data[33:] if kind[0] == 'c' else data
    return {'P2PKH': b'\x76\xa9\x14' + p + b'\x88\xac', 'P2SH': b'\xa9\x14' + p + b'\x87', 'P2WPKH': b'\x00\x14' + p,
            'P2WSH': b'\x00\x20' + p, 'P2TR': b'\x51\x20' + p}[base]


ALL = KINDS + tuple('c' + k for k in KINDS)


def cls_name(chain, kind):
    return '%s%s%sAddress' % (kind.lstrip('c'), CHAIN[chain]['family'], 'Confidential' if kind[0] == 'c' else '')


def families(chain):
    """name of each decoding class -> kinds it reads while the chain is selected"""
    f = CHAIN[chain]['family']
    b, s = ('P2PKH', 'P2SH'), ('P2WPKH', 'P2WSH', 'P2TR')
    cb, cs = tuple('c' + k for k in b), tuple('c' + k for k in s)
    r = {'CCoinAddress': ALL, 'CCoinConfidentialAddress': cb + cs, 'CBase58CoinAddress': b + cb, 'CBech32CoinAddress': s,
         'CBase58CoinConfidentialAddress': cb, 'CBlech32CoinConfidentialAddress': cs,
         'C%sAddress' % f: ALL, 'C%sConfidentialAddress' % f: cb + cs, 'CBase58%sAddress' % f: b + cb, 'CBech32%sAddress' % f: s,
         'CBase58%sConfidentialAddress' % f: cb, 'CBlech32%sConfidentialAddress' % f: cs}
    for k in KINDS:
        r[k + 'CoinAddress'] = (k,)
        r[k + 'CoinConfidentialAddress'] = ('c' + k,)
        r[cls_name(chain, k)] = (k,)
        r[cls_name(chain, 'c' + k)] = ('c' + k,)
    return r


def find(name):
    import bitcointx.wallet as W
    import elementstx.wallet as E
    return getattr(E, name, None) or getattr(W, name)
