"""secp256k1 in plain Python, affine/Jacobian, for oracles.  No relation to any library."""
import functools
import hashlib

P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def is_square(a):
    return pow(a % P, (P - 1) // 2, P) in (0, 1)


def sqrt(a):
    r = pow(a % P, (P + 1) // 4, P)
    return r if r * r % P == a % P else None


def jadd(p, q):
    if p is None:
        return q
    if q is None:
        return p
    x1, y1, z1 = p
    x2, y2, z2 = q
    z1z1, z2z2 = z1 * z1 % P, z2 * z2 % P
    u1, u2 = x1 * z2z2 % P, x2 * z1z1 % P
    s1, s2 = y1 * z2 * z2z2 % P, y2 * z1 * z1z1 % P
    if u1 == u2:
        if s1 != s2:
            return None
        return jdbl(p)
    h = (u2 - u1) % P
    r = (s2 - s1) % P
    h2 = h * h % P
    h3 = h2 * h % P
    v = u1 * h2 % P
    x3 = (r * r - h3 - 2 * v) % P
    return x3, (r * (v - x3) - s1 * h3) % P, z1 * z2 * h % P


def jdbl(p):
    if p is None or p[1] == 0:
        return None
    x, y, z = p
    a = x * x % P
    b = y * y % P
    c = b * b % P
    d = 2 * ((x + b) ** 2 - a - c) % P
    e = 3 * a % P
    x3 = (e * e - 2 * d) % P
    return x3, (e * (d - x3) - 8 * c) % P, 2 * y * z % P


def aff(j):
    if j is None:
        return None
    zi = pow(j[2], -1, P)
    z2 = zi * zi % P
    return j[0] * z2 % P, j[1] * z2 * zi % P


def jac(p):
    return None if p is None else (p[0], p[1], 1)


def add(*ps):
    r = None
    for p in ps:
        r = jadd(r, jac(p))
    return aff(r)


def neg(p):
    return None if p is None else (p[0], -p[1] % P)


@functools.lru_cache(1)
def gtable():
    t, p = [], jac(G)
    for _ in range(64):
        row, q = [None], None
        for _ in range(15):
            q = jadd(q, p)
            row.append(q)
        t.append([row[0]] + [jac(aff(x)) for x in row[1:]])
        p = jadd(q, p)
    return t


def mul(k, p=None):
    k %= N
    if p is None:
        r = None
        for row in gtable():
            r = jadd(r, row[k & 15])
            k >>= 4
        return aff(r)
    t = [None, jac(p)]
    for _ in range(14):
        t.append(jadd(t[-1], t[1]))
    r = None
    for i in range(63, -1, -1):
        r = jdbl(jdbl(jdbl(jdbl(r))))
        r = jadd(r, t[k >> 4 * i & 15])
    return aff(r)


def ser(p):
    return bytes([2 + (p[1] & 1)]) + p[0].to_bytes(32, 'big')


def ser_x(p):
    return p[0].to_bytes(32, 'big')


def par(b):
    """compressed public key -> point or None"""
    if len(b) != 33 or b[0] not in (2, 3):
        return None
    x = int.from_bytes(b[1:], 'big')
    if x >= P:
        return None
    y = sqrt(x ** 3 + 7)
    if y is None:
        return None
    return (x, y if y & 1 == b[0] & 1 else P - y)


def lift_x(b):
    return par(b'\x02' + b)


def par_square(b, base):
    """Elements commitments: first byte base + (y is not a square)"""
    if len(b) != 33 or b[0] not in (base, base + 1):
        return None
    x = int.from_bytes(b[1:], 'big')
    if x >= P:
        return None
    y = sqrt(x ** 3 + 7)
    if y is None:
        return None
    if not is_square(y):
        y = P - y
    return (x, y if b[0] == base else P - y)


def ser_square(p, base):
    return bytes([base + (0 if is_square(p[1]) else 1)]) + p[0].to_bytes(32, 'big')


def svdw(t):
    """Shallue and van de Woestijne, as in secp256k1-zkp's generator module"""
    c = 0x0a2d2ba93507f1df233770c2a797962cc61f6d15da14ecd47d8d27ae1cd5f852
    d = (c - 1) * pow(2, -1, P) % P
    j = c * t % P
    w = (t * t + 8) % P
    w = j * pow(w, -1, P) % P if w else 0
    x1 = (d - t * w) % P
    x2 = -(x1 + 1) % P
    x3 = (1 + pow(w * w % P, -1, P)) % P if w else 1
    for x in (x1, x2, x3):
        a = (x ** 3 + 7) % P
        if is_square(a):
            y = sqrt(a)
            break
    if not is_square(y):
        y = P - y
    if t & 1:
        y = P - y
    return x, y


@functools.lru_cache(4096)
def generator(tag):
    """the generator point of an asset"""
    a = svdw(int.from_bytes(hashlib.sha256(b'1st generation: ' + tag).digest(), 'big') % P)
    b = svdw(int.from_bytes(hashlib.sha256(b'2nd generation: ' + tag).digest(), 'big') % P)
    return add(a, b)


def blinded_generator(tag, blind):
    return add(generator(tag), mul(int.from_bytes(blind, 'big')))


def commitment(value, gen, blind):
    return add(mul(int.from_bytes(blind, 'big')) if any(blind) else None, mul(value, gen) if value else None)


def ecdh(k, p):
    """libsecp256k1's default hash of the shared point"""
    return hashlib.sha256(ser(mul(k, p))).digest()


def verify(h, sig, pub):
    """ECDSA: h an integer, sig strict DER, pub a serialized key"""
    if len(sig) < 8 or sig[0] != 0x30 or sig[1] != len(sig) - 2 or sig[2] != 2:
        return False
    n = sig[3]
    r = int.from_bytes(sig[4:4 + n], 'big')
    rest = sig[4 + n:]
    if len(rest) < 2 or rest[0] != 2 or rest[1] != len(rest) - 2:
        return False
    s = int.from_bytes(rest[2:], 'big')
    if not (0 < r < N and 0 < s < N):
        return False
    w = pow(s, -1, N)
    p = add(mul(h * w % N), mul(r * w % N, par(pub)))
    return p is not None and p[0] % N == r
