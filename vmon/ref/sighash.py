"""Independent model of the Elements signature hashes, over the dict model of codec.py."""
import hashlib
import struct

from .codec import cs, vb, conf, sha256, dsha, w_issuance, w_prevout, w_in, w_out, w_outwit, null_issuance, inwits, outwits

ALL, NONE, SINGLE, ACP = 1, 2, 3, 0x80
ONE = b'\x01' + b'\x00' * 31


def tagged(tag, data):
    t = sha256(tag)
    return sha256(t + t + data)


def ops(script):
    """(opcode, data or None, start, end) of a well-formed script"""
    i = 0
    while i < len(script):
        s = i
        op = script[i]
        i += 1
        d = None
        if op <= 78:
            if op < 76:
                n = op
            elif op == 76:
                n = script[i]
                i += 1
            elif op == 77:
                n = struct.unpack('<H', script[i:i + 2])[0]
                i += 2
            else:
                n = struct.unpack('<I', script[i:i + 4])[0]
                i += 4
            d = script[i:i + n]
            if len(d) != n:
                raise ValueError('truncated push')
            i += n
        yield op, d, s, i


def strip_codesep(script):
    return b''.join(script[s:e] for op, d, s, e in ops(script) if op != 0xab)


def base(tx, script, idx, ht):
    """returns digest, or None where Core yields the constant one"""
    if idx >= len(tx['vin']):
        return None
    out = ht & 0x1f
    if out == SINGLE and idx >= len(tx['vout']):
        return None
    code = strip_codesep(script)
    ins = []
    for i, x in enumerate(tx['vin']):
        if ht & ACP and i != idx:
            continue
        ins.append(w_in(x, True, code if i == idx else b'', 0 if i != idx and out in (SINGLE, NONE) else None))
    if out == NONE:
        outs = []
    elif out == SINGLE:
        outs = [b'\x00\x00\x00\x00'] * idx + [w_out(tx['vout'][idx])]
    else:
        outs = [w_out(o) for o in tx['vout']]
    return dsha(struct.pack('<i', tx['version']) + cs(len(ins)) + b''.join(ins) + cs(len(outs)) + b''.join(outs)
                + struct.pack('<Ii', tx['locktime'], ht))


def iss_or_zero(i):
    return b'\x00' if null_issuance(i['issuance']) else w_issuance(i['issuance'])


def v0(tx, script, idx, ht, amount):
    out = ht & 0x1f
    z = b'\x00' * 32
    acp = ht & ACP
    hp = z if acp else dsha(b''.join(w_prevout(i) for i in tx['vin']))
    hi = z if acp else dsha(b''.join(iss_or_zero(i) for i in tx['vin']))
    hs = z if acp or out in (SINGLE, NONE) else dsha(b''.join(struct.pack('<I', i['seq']) for i in tx['vin']))
    if out not in (SINGLE, NONE):
        ho = dsha(b''.join(w_out(o) for o in tx['vout']))
    elif out == SINGLE and idx < len(tx['vout']):
        ho = dsha(w_out(tx['vout'][idx]))
    else:
        ho = z
    x = tx['vin'][idx]
    return dsha(struct.pack('<i', tx['version']) + hp + hs + hi + w_prevout(x) + vb(script) + conf(amount)
                + struct.pack('<I', x['seq']) + (b'' if null_issuance(x['issuance']) else w_issuance(x['issuance']))
                + ho + struct.pack('<Ii', tx['locktime'], ht))


def opflag(i):
    return bytes([(0 if null_issuance(i['issuance']) else 0x80) | (0x40 if i['pegin'] else 0)])


def taproot(tx, idx, spent, ht, genesis, leaf=None, codesep=-1, annex_hash=None):
    """ht: None (default) or 1,2,3,0x81..0x83.  None where there is no digest (SINGLE out of range)."""
    out = ALL if ht is None else ht & 3
    acp = ht is not None and ht & ACP
    iw, ow = inwits(tx), outwits(tx)
    r = bytes([ht or 0]) + struct.pack('<iI', tx['version'], tx['locktime'])
    if not acp:
        r += sha256(b''.join(opflag(i) for i in tx['vin']))
        r += sha256(b''.join(w_prevout(i) for i in tx['vin']))
        r += sha256(b''.join(conf(o['asset']) + conf(o['value']) for o in spent))
        r += sha256(b''.join(vb(o['script']) for o in spent))
        r += sha256(b''.join(struct.pack('<I', i['seq']) for i in tx['vin']))
        r += sha256(b''.join(iss_or_zero(i) for i in tx['vin']))
        r += sha256(b''.join(vb(w['amount_proof']) + vb(w['keys_proof']) for w in iw))
    if out == ALL:
        r += sha256(b''.join(w_out(o) for o in tx['vout']))
        r += sha256(b''.join(w_outwit(w) for w in ow))
    r += bytes([(2 if leaf is not None else 0) | (annex_hash is not None)])
    if acp:
        x, o = tx['vin'][idx], spent[idx]
        r += opflag(x) + w_prevout(x) + conf(o['asset']) + conf(o['value']) + vb(o['script']) + struct.pack('<I', x['seq'])
        if null_issuance(x['issuance']):
            r += b'\x00'
        else:
            r += w_issuance(x['issuance']) + sha256(vb(iw[idx]['amount_proof']) + vb(iw[idx]['keys_proof']))
    else:
        r += struct.pack('<I', idx)
    if annex_hash is not None:
        r += annex_hash
    if out == SINGLE:
        if idx >= len(tx['vout']):
            return None
        r += sha256(w_out(tx['vout'][idx])) + sha256(w_outwit(ow[idx]))
    if leaf is not None:
        r += leaf + b'\x00' + struct.pack('<i', codesep)
    return tagged(b'TapSighash/elements', genesis * 2 + r)


def leaf_hash(script, version=0xc4):
    return tagged(b'TapLeaf/elements', bytes([version]) + vb(script))


def branch_hash(a, b):
    return tagged(b'TapBranch/elements', min(a, b) + max(a, b))
