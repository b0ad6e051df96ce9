"""Issuance identifiers: SHA-256 compression written here (midstates are not in hashlib)."""
import struct

from .codec import dsha

K = []


def _consts():
    primes, n = [], 2
    while len(primes) < 64:
        if all(n % p for p in primes):
            primes.append(n)
        n += 1

    def root(p, k):
        # floor(frac(p ** (1/k)) * 2**32)
        lo, hi = 0, p << 32
        target = p << 32 * k
        while lo < hi:
            m = (lo + hi + 1) // 2
            if m ** k <= target:
                lo = m
            else:
                hi = m - 1
        return lo & 0xffffffff
    return [root(p, 3) for p in primes], [root(p, 2) for p in primes[:8]]


K, IV = _consts()


def compress(state, block):
    def rr(x, n):
        return (x >> n | x << 32 - n) & 0xffffffff
    w = list(struct.unpack('>16I', block))
    for i in range(16, 64):
        a, b = w[i - 15], w[i - 2]
        w.append((w[i - 16] + (rr(a, 7) ^ rr(a, 18) ^ a >> 3) + w[i - 7] + (rr(b, 17) ^ rr(b, 19) ^ b >> 10)) & 0xffffffff)
    a, b, c, d, e, f, g, h = state
    for i in range(64):
        t1 = (h + (rr(e, 6) ^ rr(e, 11) ^ rr(e, 25)) + (e & f ^ ~e & 0xffffffff & g) + K[i] + w[i]) & 0xffffffff
        t2 = ((rr(a, 2) ^ rr(a, 13) ^ rr(a, 22)) + (a & b ^ a & c ^ b & c)) & 0xffffffff
        h, g, f, e, d, c, b, a = g, f, e, (d + t1) & 0xffffffff, c, b, a, (t1 + t2) & 0xffffffff
    return [(x + y) & 0xffffffff for x, y in zip(state, (a, b, c, d, e, f, g, h))]


def node(left, right):
    """fast merkle tree node"""
    return struct.pack('>8I', *compress(IV, left + right))


def entropy(prev_hash, prev_n, contract):
    return node(dsha(prev_hash + struct.pack('<I', prev_n)), contract)


def asset(ent):
    return node(ent, bytes(32))


def token(ent, confidential):
    return node(ent, bytes([2 if confidential else 1]) + bytes(31))
