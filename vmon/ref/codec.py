"""Independent model of the Elements transaction wire format.

Written from the format itself (Elements Core primitives/transaction.h), over plain dicts; it shares no code
with bitcointx or elementstx.  It is both a writer and a strict reader.

tx:  {version, vin, vout, locktime, winwit, woutwit}      winwit/woutwit: list (same length as vin/vout) or None
vin: {hash, n, script, seq, issuance, pegin}              issuance: None or {nonce, entropy, amount, keys}
vout: {asset, value, nonce, script}                       bytes; b'' is null
winwit: {amount_proof, keys_proof, stack, pegin_stack}
woutwit: {surj, range}
"""
import hashlib
import struct

MAX_SIZE = 0x02000000
ISSUANCE = 1 << 31
PEGIN = 1 << 30
MASK = 0x3fffffff


class ParseError(Exception):
    pass


def sha256(b):
    return hashlib.sha256(b).digest()


def dsha(b):
    return sha256(sha256(b))


def cs(n):
    if n < 253:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + struct.pack('<H', n)
    if n <= 0xffffffff:
        return b'\xfe' + struct.pack('<I', n)
    return b'\xff' + struct.pack('<Q', n)


def vb(b):
    return cs(len(b)) + bytes(b)


def conf(b):
    return bytes(b) if b else b'\x00'


def null_issuance(i):
    return i is None or (not i['amount'] and not i['keys'])


def w_issuance(i):
    return i['nonce'] + i['entropy'] + conf(i['amount']) + conf(i['keys'])


def w_prevout(i):
    """the outpoint without flag bits"""
    return i['hash'] + struct.pack('<I', i['n'])


def w_in(i, for_sighash=False, script=None, seq=None):
    n = i['n']
    iss = not null_issuance(i['issuance']) and n != 0xffffffff
    if n != 0xffffffff and not for_sighash:
        assert n <= MASK
        n |= (ISSUANCE if iss else 0) | (PEGIN if i['pegin'] else 0)
    r = i['hash'] + struct.pack('<I', n) + vb(i['script'] if script is None else script)
    r += struct.pack('<I', i['seq'] if seq is None else seq)
    if iss:
        r += w_issuance(i['issuance'])
    return r


def w_out(o):
    return conf(o['asset']) + conf(o['value']) + conf(o['nonce']) + vb(o['script'])


def w_inwit(w):
    return (vb(w['amount_proof']) + vb(w['keys_proof']) + cs(len(w['stack'])) + b''.join(vb(s) for s in w['stack'])
            + cs(len(w['pegin_stack'])) + b''.join(vb(s) for s in w['pegin_stack']))


def w_outwit(w):
    return vb(w['surj']) + vb(w['range'])


NULL_INWIT = {'amount_proof': b'', 'keys_proof': b'', 'stack': [], 'pegin_stack': []}
NULL_OUTWIT = {'surj': b'', 'range': b''}


def inwit_null(w):
    return not (w['amount_proof'] or w['keys_proof'] or w['stack'] or w['pegin_stack'])


def outwit_null(w):
    return not (w['surj'] or w['range'])


def inwits(tx):
    return tx['winwit'] if tx['winwit'] else [NULL_INWIT] * len(tx['vin'])


def outwits(tx):
    return tx['woutwit'] if tx['woutwit'] else [NULL_OUTWIT] * len(tx['vout'])


def has_witness(tx):
    return not (all(map(inwit_null, tx['winwit'] or ())) and all(map(outwit_null, tx['woutwit'] or ())))


def w_tx(tx, witness=True):
    wit = witness and has_witness(tx)
    r = struct.pack('<i', tx['version']) + (b'\x01' if wit else b'\x00')
    r += cs(len(tx['vin'])) + b''.join(w_in(i) for i in tx['vin'])
    r += cs(len(tx['vout'])) + b''.join(w_out(o) for o in tx['vout'])
    r += struct.pack('<I', tx['locktime'])
    if wit:
        r += b''.join(w_inwit(w) for w in inwits(tx)) + b''.join(w_outwit(w) for w in outwits(tx))
    return r


def txid(tx):
    return dsha(w_tx(tx, False))


def wtxid(tx):
    return dsha(w_tx(tx))


def vsize(tx):
    return (3 * len(w_tx(tx, False)) + len(w_tx(tx)) + 3) // 4


class R:
    def __init__(self, b):
        self.b = bytes(b)
        self.p = 0

    def get(self, n):
        if n > MAX_SIZE:
            raise ParseError('size')
        if self.p + n > len(self.b):
            raise ParseError('truncated')
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def u(self, fmt):
        return struct.unpack(fmt, self.get(struct.calcsize(fmt)))[0]

    def cs(self):
        r = self.u('<B')
        if r < 253:
            return r
        fmt, low = {253: ('<H', 253), 254: ('<I', 0x10000), 255: ('<Q', 0x100000000)}[r]
        v = self.u(fmt)
        if v < low:
            raise ParseError('non-canonical size')
        if v > MAX_SIZE:
            raise ParseError('size')
        return v

    def vb(self):
        return self.get(self.cs())

    def conf(self, explicit, a, b):
        v = self.get(1)
        if v[0] == 0:
            return b''
        if v[0] == 1:
            return v + self.get(explicit - 1)
        if v[0] in (a, b):
            return v + self.get(32)
        raise ParseError('prefix')

    def vec(self, f):
        return [f() for _ in range(self.cs())]


def r_in(r):
    h = r.get(32)
    n = r.u('<I')
    script = r.vb()
    seq = r.u('<I')
    iss, pegin = None, False
    if n != 0xffffffff:
        pegin = bool(n & PEGIN)
        if n & ISSUANCE:
            iss = {'nonce': r.get(32), 'entropy': r.get(32), 'amount': r.conf(9, 8, 9), 'keys': r.conf(9, 8, 9)}
        n &= MASK
    return {'hash': h, 'n': n, 'script': script, 'seq': seq, 'issuance': iss, 'pegin': pegin}


def r_out(r):
    return {'asset': r.conf(33, 10, 11), 'value': r.conf(9, 8, 9), 'nonce': r.conf(33, 2, 3), 'script': r.vb()}


def r_inwit(r):
    return {'amount_proof': r.vb(), 'keys_proof': r.vb(), 'stack': r.vec(r.vb), 'pegin_stack': r.vec(r.vb)}


def r_outwit(r):
    return {'surj': r.vb(), 'range': r.vb()}


def r_tx(b):
    r = R(b)
    tx = {'version': r.u('<i')}
    flag = r.u('<B')
    if flag > 1:
        raise ParseError('flag')
    tx['vin'] = r.vec(lambda: r_in(r))
    tx['vout'] = r.vec(lambda: r_out(r))
    tx['locktime'] = r.u('<I')
    tx['winwit'] = tx['woutwit'] = None
    if flag:
        tx['winwit'] = [r_inwit(r) for _ in tx['vin']]
        tx['woutwit'] = [r_outwit(r) for _ in tx['vout']]
        if not has_witness(tx):
            raise ParseError('superfluous witness')
    if r.p != len(r.b):
        raise ParseError('trailing')
    return tx


def norm(tx):
    """Equality up to representation: null issuance == None, all-null witness == None"""
    w = has_witness(tx)
    return {
        'version': tx['version'], 'locktime': tx['locktime'],
        'vin': [dict(i, issuance=None if null_issuance(i['issuance']) else i['issuance']) for i in tx['vin']],
        'vout': tx['vout'],
        'winwit': [dict(x, stack=list(x['stack']), pegin_stack=list(x['pegin_stack'])) for x in inwits(tx)] if w else None,
        'woutwit': list(outwits(tx)) if w else None,
    }
