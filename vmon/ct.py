"""Confidential transactions: scenes (what to blind), the request made of the library, and the audit of what came out.

The audit never uses the code under test for arithmetic: commitments and balance are computed in Python (ref/ec.py), range and
surjection proofs are verified through a ctypes binding of its own to the native library."""
import ctypes
import hashlib
import hmac

from . import gen, bridge as B
from .rec import same, expect, Violation
from .ref import codec as C, ec, issuance as I

MONEY = 21 * 10 ** 14
N = ec.N
CT_EXP, CT_BITS = 0, 52


class Z:
    """Own binding to the native library (verification side only)"""

    def __init__(self, path):
        L = self.L = ctypes.CDLL(path)
        P, S, c = ctypes.c_void_p, ctypes.c_size_t, ctypes.c_char_p
        for name, res, args in (
                ('secp256k1_context_create', P, [ctypes.c_uint]),
                ('secp256k1_generator_parse', ctypes.c_int, [P, P, c]),
                ('secp256k1_generator_generate', ctypes.c_int, [P, P, c]),
                ('secp256k1_generator_generate_blinded', ctypes.c_int, [P, P, c, c]),
                ('secp256k1_generator_serialize', ctypes.c_int, [P, P, P]),
                ('secp256k1_pedersen_commit', ctypes.c_int, [P, P, c, ctypes.c_uint64, P]),
                ('secp256k1_pedersen_commitment_serialize', ctypes.c_int, [P, P, P]),
                ('secp256k1_rangeproof_sign', ctypes.c_int, [P, P, P, ctypes.c_uint64, P, c, c, ctypes.c_int, ctypes.c_int, ctypes.c_uint64, c, S, c, S, P]),
                ('secp256k1_rangeproof_info', ctypes.c_int, [P, P, P, P, P, c, S]),
                ('secp256k1_surjectionproof_initialize', ctypes.c_int, [P, P, P, c, S, S, c, S, c]),
                ('secp256k1_pedersen_commitment_parse', ctypes.c_int, [P, P, c]),
                ('secp256k1_rangeproof_verify', ctypes.c_int, [P, P, P, P, c, S, c, S, P]),
                ('secp256k1_surjectionproof_parse', ctypes.c_int, [P, P, c, S]),
                ('secp256k1_surjectionproof_verify', ctypes.c_int, [P, P, c, S, c]),
                ('vmon_sizeof_surjectionproof', S, []), ('vmon_calls', ctypes.c_long, [c]),
                ('vmon_live_surjectionproofs', ctypes.c_long, []), ('vmon_total_surjectionproofs', ctypes.c_long, []),
                ('vmon_fault', ctypes.c_int, [c, ctypes.c_long]), ('vmon_fault_from', ctypes.c_int, [c, ctypes.c_long]), ('vmon_fault_hits', ctypes.c_long, []),
                ('vmon_seqhash', ctypes.c_ulong, [ctypes.c_int]), ('vmon_delay', None, [ctypes.c_uint])):
            # a fresh function object: prototypes set here are not seen by other users of the handle
            f = L[name]
            f.restype, f.argtypes = res, args
            setattr(self, name.replace('secp256k1_', '').replace('vmon_', ''), f)
        self.ctx = ctypes.c_void_p(self.context_create(0x301))
        self.spsize = self.sizeof_surjectionproof()

    def gen(self, b):
        """33-byte generator or explicit asset field -> 64-byte form, or None"""
        o = ctypes.create_string_buffer(64)
        if b[:1] == b'\x01':
            return o.raw if self.generator_generate(self.ctx, o, b[1:]) else None
        return o.raw if self.generator_parse(self.ctx, o, b) else None

    def range_verify(self, value, asset, script, proof):
        """(min, max) or None"""
        c, g = ctypes.create_string_buffer(64), self.gen(asset)
        if g is None or not self.pedersen_commitment_parse(self.ctx, c, value):
            return None
        lo, hi = ctypes.c_uint64(), ctypes.c_uint64()
        ok = self.rangeproof_verify(self.ctx, ctypes.byref(lo), ctypes.byref(hi), c, bytes(proof), len(proof),
                                    script or None, len(script), g)
        return (lo.value, hi.value) if ok else None

    def surj_verify(self, targets, asset, proof):
        s = ctypes.create_string_buffer(self.spsize)
        if not self.surjectionproof_parse(self.ctx, s, bytes(proof), len(proof)):
            return False
        gs = [self.gen(t) for t in targets]
        g = self.gen(asset)
        if g is None or None in gs:
            return False
        return bool(self.surjectionproof_verify(self.ctx, s, b''.join(gs), len(gs), g))

    def make(self, asset, abf, value, bf, secret_nonce, script, message, lo=1, exp=0, bits=8, gen=None):
        """an output as any other wallet might have made it: (asset, value, proof) or None if the library declines"""
        g, c = ctypes.create_string_buffer(64), ctypes.create_string_buffer(64)
        if gen is not None:
            g = ctypes.create_string_buffer(gen, 64)
        elif not self.generator_generate_blinded(self.ctx, g, asset, abf):
            return None
        if not self.pedersen_commit(self.ctx, c, bf, value, g):
            return None
        p, n = ctypes.create_string_buffer(5134), ctypes.c_size_t(5134)
        if not self.rangeproof_sign(self.ctx, p, ctypes.byref(n), lo, c, bf, secret_nonce, exp, bits, value, message, len(message),
                                    script or None, len(script), g):
            return None
        a33, v33 = ctypes.create_string_buffer(33), ctypes.create_string_buffer(33)
        self.generator_serialize(self.ctx, a33, g)
        self.pedersen_commitment_serialize(self.ctx, v33, c)
        return a33.raw, v33.raw, p.raw[:n.value]

    def info(self, proof):
        e, m, lo, hi = ctypes.c_int(), ctypes.c_int(), ctypes.c_uint64(), ctypes.c_uint64()
        ok = self.rangeproof_info(self.ctx, ctypes.byref(e), ctypes.byref(m), ctypes.byref(lo), ctypes.byref(hi), bytes(proof), len(proof))
        return (e.value, m.value, lo.value, hi.value) if ok else None


# ------------------------------------------------------------------------------------------------ randomness

class Draws:
    """The randomness source given to the library: deterministic, recorded"""

    def __init__(self, seed):
        self.seed = seed if isinstance(seed, bytes) else str(seed).encode()
        self.log = []
        self.sizes = []

    def __call__(self, n):
        d = hashlib.shake_256(self.seed + len(self.log).to_bytes(4, 'big')).digest(n)
        self.log.append(d)
        self.sizes.append(n)
        return d


def scalar(r, edge=.04):
    k = r.random()
    if k < edge:
        return r.choice((1, 2, N - 1, N - 2, 1 << 255, 256)).to_bytes(32, 'big')
    while True:
        b = r.randbytes(32)
        if 0 < int.from_bytes(b, 'big') < N:
            return b


def pub(secret):
    return ec.ser(ec.mul(int.from_bytes(secret, 'big')))


def amount(r, hi=MONEY):
    k = r.random()
    if k < .1:
        v = 1
    elif k < .2:
        v = r.choice((2, 3, 255, 256, 65535, 65536, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 10 ** 8, 2 ** 40, 2 ** 50, MONEY, MONEY - 1))
    elif k < .6:
        v = r.randrange(1, 10 ** 6)
    else:
        v = r.randrange(1, 2 ** r.randrange(1, 51))
    return max(1, min(v, hi))


# ------------------------------------------------------------------------------------------------ scenes

def spend_script(r, long_ok=True):
    k = r.random()
    if long_ok and k < .03:
        return gen.nbytes(r, r.choice((252, 253, 520, 9999, 10000, 10001, 10240, 30000)))
    if k < .1:
        return b'\x6a' + r.choice((b'', gen.push(gen.nbytes(r, r.choice((1, 32, 80))))))
    for _ in range(50):
        s = gen.script(r)
        if s:
            return s
    return b'\x51'


def unspendable(s):
    return len(s) == 0 or s[0] == 0x6a or len(s) > 10000


def scene(r, nin=None, nout=None, issuances=.3, reissue=.3, explicit_in=.35, blind=None, bits=None, fee=None, long_ok=True, aux=False,
          big=False, zero=.3, min_blind=1, blinded_in=None):
    """A balanced transaction in the clear with everything needed to blind it.  Every asset id is random."""
    nin = nin or r.choice((1, 1, 2, 2, 3, 4))
    assets = [gen.h32(r) if r.random() < .1 else r.randbytes(32) for _ in range(r.choice((1, 1, 2, 3)))]
    assets = list(dict.fromkeys(a if any(a) else b'\x07' * 32 for a in assets))     # the null asset marks an unknown input
    ins, vin, iss = [], [], []
    total = {}
    ent0 = r.randbytes(32)
    if issuances and r.random() < .3:
        assets[r.randrange(len(assets))] = I.asset(ent0)           # more of an asset that is spent as well, perhaps twice

    def add(a, v):
        total[a] = total.get(a, 0) + v
    for i in range(nin):
        a = r.choice(assets)
        v = amount(r, max(1, MONEY - total.get(a, 0) - nin))       # no asset beyond the maximum
        if ins and r.random() < .06 and total[ins[-1]['asset']] + ins[-1]['amount'] <= MONEY - nin:
            a, v = ins[-1]['asset'], ins[-1]['amount']             # the same descriptor twice
        d = {'asset': a, 'amount': v, 'bf': b'\x00' * 32, 'abf': b'\x00' * 32}
        k = r.random()
        if blinded_in or (blinded_in is None and k >= explicit_in):
            d['bf'] = scalar(r)
            d['abf'] = scalar(r) if r.random() < .92 else d['abf']
            if r.random() < .03:
                d['bf'] = b'\x00' * 32
                d['abf'] = scalar(r)
            if ins and (a, v) == (ins[-1]['asset'], ins[-1]['amount']) and r.random() < .7:
                d = dict(ins[-1])
        add(a, v)
        ins.append(d)
        t = {'hash': r.randbytes(32), 'n': r.choice((0, 1, 2, 7, 255, 256, 65536, 0x3ffffffe)), 'script': b'', 'seq': gen.u32(r),
             'issuance': None, 'pegin': r.random() < .05}
        q = (None, None)
        if r.random() < issuances:
            amt, tok = amount(r), r.choice((0, 0, 1, 5, 10 ** 8, amount(r)))
            if r.random() < reissue:
                ent = ent0 if r.random() < .5 else r.randbytes(32)
                amt = max(1, min(amt, MONEY - total.get(I.asset(ent), 0) - nin))
                t['issuance'] = {'nonce': r.randbytes(32), 'entropy': ent, 'amount': val(amt), 'keys': b''}
                ka = r.randbytes(32) if r.random() < .6 else None
                q = (ka, None)
                add(I.asset(ent), amt)
            else:
                con = gen.h32(r)
                if r.random() < .1:
                    amt, tok = 0, tok or 1
                t['issuance'] = {'nonce': bytes(32), 'entropy': con, 'amount': val(amt) if amt else b'', 'keys': val(tok) if tok else b''}
                ent = I.entropy(t['hash'], t['n'], con)
                doblind = r.random() < .6
                q = (scalar(r) if doblind and amt else None, scalar(r) if doblind and amt and tok else None)
                if amt:
                    add(I.asset(ent), amt)
                if tok:
                    # the reissuance token is the confidential kind exactly if the amount is to be blinded (both or none here)
                    add(I.token(ent, bool(q[1])), tok)
        vin.append(t)
        iss.append(q)
    vout, keys = [], []
    feeasset = assets[0]
    for a, tot in total.items():
        left = tot
        if a == feeasset and tot > 2 and (fee or fee is None and r.random() < .6):
            f = r.randrange(1, min(tot - 1, 10 ** 5) + 1)
            left -= f
            vout.append({'asset': b'\x01' + a, 'value': val(f), 'nonce': b'', 'script': b''})
            keys.append(None)
        k = max(1, min(left, nout or r.choice((1, 1, 2, 2, 3))))
        cuts = sorted(r.randrange(1, left) for _ in range(k - 1)) if left > 1 else []
        parts = [y - x for x, y in zip([0] + cuts, cuts + [left]) if y - x > 0]
        for v in parts:
            vout.append({'asset': b'\x01' + a, 'value': val(v), 'nonce': b'', 'script': spend_script(r, long_ok)})
            keys.append(scalar(r) if blind or blind is None and r.random() < .7 else None)
    if r.random() < zero:
        # a zero-valued output is possible only with an unspendable script
        vout.append({'asset': b'\x01' + r.choice(list(total)), 'value': val(0), 'nonce': b'', 'script': b'\x6a' + gen.push(r.randbytes(r.choice((0, 1, 20))))})
        keys.append(scalar(r) if r.random() < .5 else None)
    o = list(range(len(vout)))
    r.shuffle(o)
    vout, keys = [vout[x] for x in o], [keys[x] for x in o]
    for o, k in zip(vout, keys):
        if k is None and o['script'] and r.random() < .2:
            o['nonce'] = pub(scalar(r))       # an explicit output may carry a nonce; it is left alone
    cand = [j for j, o in enumerate(vout) if o['script']]
    anyblindin = any(any(d['bf']) or any(d['abf']) for d in ins)
    # with nothing blinded on the input side one blinded output cannot be balanced
    need = max(min_blind, 1 if anyblindin or any(x is not None for q in iss for x in q) else 2)
    while sum(k is not None for k in keys) < need:
        free = [j for j in cand if keys[j] is None]
        if not free:
            return scene(r, nin, nout, issuances, reissue, explicit_in, blind, bits, fee, long_ok, aux, big, zero, min_blind, blinded_in)
        j = r.choice(free)
        keys[j] = scalar(r)
        vout[j]['nonce'] = b''
    tx = {'version': r.choice((1, 2, 2, gen.i32(r))), 'vin': vin, 'vout': vout, 'locktime': gen.u32(r), 'winwit': None, 'woutwit': None}
    k = r.random()
    if k < .45:
        tx['winwit'] = [{'amount_proof': b'', 'keys_proof': b'', 'stack': gen.stack(r), 'pegin_stack': gen.stack(r) if t['pegin'] else []} for t in vin]
    if k < .3:
        tx['woutwit'] = [dict(C.NULL_OUTWIT) if kk is not None or r.random() < .7 else gen.outwit(r) for kk in keys]
    return {'tx': tx, 'ins': ins, 'keys': keys, 'iss': iss, 'aux': None, 'strict': True,
            'exp': None if bits is None else 0, 'bits': bits}


def val(v):
    return b'\x01' + v.to_bytes(8, 'big')


def small(r):
    """proof sizes: mostly small ones for speed, all kinds otherwise"""
    return r.choice((3, 4, 5, 8, 8, 8, 16, 16, 32, 36, 52, None))


# ------------------------------------------------------------------------------------------------ request

def descriptors(ins):
    core = B.L()
    return [core.BlindingInputDescriptor(asset=core.CAsset(d['asset']), amount=d['amount'], blinding_factor=B.u256(d['bf']),
                                         asset_blinding_factor=B.u256(d['abf'])) for d in ins]


def request(s, r=None):
    from bitcointx.core.key import CKey, CPubKey
    pk = [CPubKey(pub(k)) if k is not None else CPubKey() for k in s['keys']]
    while pk and not len(pk[-1]) and r is not None and r.random() < .5:
        pk.pop()                                   # fewer keys than outputs is allowed
    ia = [CKey(q[0]) if q[0] else None for q in s['iss']]
    it = [CKey(q[1]) if q[1] else None for q in s['iss']]
    if r is not None:
        for x in (ia, it):
            while x and x[-1] is None and r.random() < .7:
                x.pop()
    kw = dict(input_descriptors=descriptors(s['ins']), output_pubkeys=pk, blind_issuance_asset_keys=ia, blind_issuance_token_keys=it,
              is_blind_success_strict=s['strict'])
    if s['aux'] is not None:
        kw['auxiliary_generators'] = s['aux']
    if s['bits'] is not None:
        kw['custom_ct_bits'] = s['bits']
    if s['exp'] is not None:
        kw['custom_ct_exponent'] = s['exp']
    if r is not None:
        # any sequence will do
        for k in kw:
            if isinstance(kw[k], list) and r.random() < .3:
                kw[k] = tuple(kw[k])
    return kw


def blind(s, r=None, rand=None, tx=None, **over):
    """(result, transaction object); exceptions of the library are those of the caller"""
    if tx is None:
        tx = B.lib_tx(s['tx'], mutable=True)
        if r is not None:
            # witness vectors that hold nothing may as well be absent
            for v in (tx.wit.vtxinwit, tx.wit.vtxoutwit):
                if r.random() < .4 and all(x.is_null() for x in v):
                    del v[:]
    kw = request(s, r)
    kw.update(over)
    if rand is not None:
        kw['_rand_func'] = rand
    return tx.blind(**kw), tx


def chance(s):
    """The native library picks the targets of a surjection proof at random, in a limited number of attempts: with many targets of which
    few are of the asset it may find none, in the code under test as in Elements Core.  True where that is more than negligible."""
    n = len(s['ins']) + sum(2 for x in s['tx']['vin'] if x['issuance'] is not None)
    return max(n, n - len(s['ins']) + len(s['aux'] or [])) > 12


def must(s, r=None, rand=None, **over):
    """blinding that has to succeed completely"""
    for attempt in range(30):
        try:
            res, tx = blind(s, r, rand, **over)
        except Exception as e:
            import traceback
            raise Violation('blind-raised', 'blinding a valid transaction raised %s: %s' % (type(e).__name__, e), scene=s,
                            traceback=traceback.format_exc()[-3000:])
        if res.ok or not chance(s):
            break
        rand = None
    expect(res.ok is True, 'blind-refused', 'blinding a valid transaction failed: %s' % res.error, scene=s)
    return res, tx


def written(tx, key='serialize'):
    """the transaction after a trip through its bytes, as a model"""
    try:
        raw = tx.serialize()
        back = B.L().CElementsTransaction.deserialize(raw)
    except Exception as e:
        raise Violation(key, 'a blinded transaction cannot be written and read back: %s: %s' % (type(e).__name__, e))
    return B.m_tx(back), back


def full(m, t):
    """witness vectors made complete"""
    m = dict(m)
    m['winwit'] = list(m['winwit'] or []) or [dict(C.NULL_INWIT) for _ in t['vin']]
    m['woutwit'] = list(m['woutwit'] or []) or [dict(C.NULL_OUTWIT) for _ in t['vout']]
    return m


def n_requested(s):
    return sum(k is not None for k in s['keys']) + sum(x is not None for q in s['iss'] for x in q)


# ------------------------------------------------------------------------------------------------ audit

def targets(s, m=None):
    """surjection targets in consensus order: [33-byte generator field], and the asset of each (None if not known)"""
    t = m or s['tx']
    out, assets = [], []
    for i, (d, x) in enumerate(zip(s['ins'], s['tx']['vin'])):
        if any(d['asset']):
            out.append(ec.ser_square(ec.blinded_generator(d['asset'], d['abf']), 10))
            assets.append(d['asset'])
        else:
            out.append(bytes(s['aux'][i]))
            assets.append(None)
        q = x['issuance']
        if q is not None:
            a, tok = issued(x, s['iss'][i])
            if q['amount']:
                out.append(b'\x01' + a)
                assets.append(a)
            if q['keys']:
                out.append(b'\x01' + tok)
                assets.append(tok)
    for g in (s['aux'] or [])[len(s['ins']):]:
        out.append(bytes(g))
        assets.append(None)
    return out, assets


def issued(x, keys):
    """(asset, token) created by the issuance of a model input"""
    q = x['issuance']
    if any(q['nonce']):
        return I.asset(q['entropy']), None
    e = I.entropy(x['hash'], x['n'], q['entropy'])
    return I.asset(e), I.token(e, keys[1] is not None)


def point_of_value(value, gen_):
    """the point of a value field under a generator point"""
    if value[:1] == b'\x01':
        v = int.from_bytes(value[1:], 'big')
        return ec.mul(v, gen_) if v else None
    return ec.par_square(value, 8)


def gen_of_asset(asset):
    return ec.generator(asset[1:]) if asset[:1] == b'\x01' else ec.par_square(asset, 10)


def check_balance(s, m, foreign=()):
    """sum of commitments of inputs and issuances equals that of outputs, as curve points.
    foreign: points of inputs that the blinding party does not know"""
    pts = list(foreign)
    for i, (d, x) in enumerate(zip(s['ins'], m['vin'])):
        if any(d['asset']) and d['amount'] >= 0:
            pts.append(ec.commitment(d['amount'], ec.blinded_generator(d['asset'], d['abf']), d['bf']))
        q = x['issuance']
        if s['tx']['vin'][i]['issuance'] is not None:
            a, tok = issued(s['tx']['vin'][i], s['iss'][i])
            if q['amount']:
                p = point_of_value(q['amount'], ec.generator(a))
                pts.append(p)
            if q['keys']:
                pts.append(point_of_value(q['keys'], ec.generator(tok)))
    for j, o in enumerate(m['vout']):
        g = gen_of_asset(o['asset'])
        expect(g is not None, 'bad-asset', 'asset field of output %d is not a point' % j, asset=o['asset'])
        p = point_of_value(o['value'], g)
        expect(p is not None or o['value'] == val(0), 'bad-value', 'value field of output %d is not a point' % j, value=o['value'])
        if p is not None:
            pts.append(ec.neg(p))
    expect(ec.add(*[p for p in pts if p is not None]) is None, 'unbalanced', 'the blinded transaction does not balance', scene=s)


def check_proofs(z, s, m, rec=None, only=None, issuances=True):
    """range and surjection proofs of every part requested to be blinded"""
    tg, assets = targets(s)
    m = full(m, s['tx'])
    for j, k in enumerate(s['keys']):
        if k is None or only is not None and j not in only:
            continue
        o, w = m['vout'][j], m['woutwit'][j]
        expect(o['value'][:1] in (b'\x08', b'\x09') and len(o['value']) == 33, 'not-blinded', 'value of output %d is not a commitment' % j, value=o['value'])
        expect(o['asset'][:1] in (b'\x0a', b'\x0b') and len(o['asset']) == 33, 'not-blinded', 'asset of output %d is not a commitment' % j, asset=o['asset'])
        expect(ec.par(o['nonce']) is not None, 'bad-nonce', 'nonce of output %d is not a public key' % j, nonce=o['nonce'])
        rg = z.range_verify(o['value'], o['asset'], o['script'], w['range'])
        expect(rg is not None, 'rangeproof', 'the range proof of output %d does not verify' % j, scene=s)
        lo = 0 if unspendable(o['script']) else 1
        v = int.from_bytes(s['tx']['vout'][j]['value'][1:], 'big')
        expect(rg[0] >= lo and rg[0] <= v <= rg[1], 'range', 'range of the proof of output %d is %r, amount %d' % (j, rg, v))
        expect(z.surj_verify(tg, o['asset'], w['surj']), 'surjection', 'the surjection proof of output %d does not verify' % j, scene=s)
        if rec:
            rec.count('range-proofs')
            rec.count('surjection-proofs')
            rec.ev(5)
    for i, (ka, kt) in enumerate(s['iss'] if issuances else ()):
        q = m['vin'][i]['issuance']
        if ka is None and kt is None:
            continue
        a, tok = issued(s['tx']['vin'][i], s['iss'][i])
        for which, key, val_, tag, proof, orig in (('amount', ka, q['amount'], a, m['winwit'][i]['amount_proof'], s['tx']['vin'][i]['issuance']['amount']),
                                                   ('tokens', kt, q['keys'], tok, m['winwit'][i]['keys_proof'], s['tx']['vin'][i]['issuance']['keys'])):
            if key is None:
                continue
            expect(val_[:1] in (b'\x08', b'\x09'), 'issuance-not-blinded', '%s of issuance %d is not a commitment' % (which, i), value=val_)
            rg = z.range_verify(val_, b'\x01' + tag, b'', proof)
            expect(rg is not None, 'issuance-rangeproof', 'the range proof of the %s of issuance %d does not verify for the asset it creates' % (which, i), scene=s)
            expect(rg[0] <= int.from_bytes(orig[1:], 'big') <= rg[1], 'issuance-range', 'range %r does not hold the %s of issuance %d' % (rg, which, i))
            if rec:
                rec.count('issuance-proofs')
                rec.ev(3)


def check_openings(s, m, res, rec=None):
    """returned blinding factors open the commitments; zero for outputs not blinded"""
    bf, abf = list(res.blinding_factors), list(res.asset_blinding_factors)
    same((len(bf), len(abf)), (len(m['vout']),) * 2, 'factor-count', 'wrong number of blinding factors')
    for j, k in enumerate(s['keys']):
        b, ab = bytes(bf[j].data), bytes(abf[j].data)
        if k is None:
            same((b, ab), (bytes(32),) * 2, 'factors-of-explicit', 'an output that was not blinded has blinding factors')
            continue
        o = s['tx']['vout'][j]
        g = ec.blinded_generator(o['asset'][1:], ab)
        same(m['vout'][j]['asset'], ec.ser_square(g, 10), 'asset-opening', 'the asset factor returned for output %d does not open its asset commitment' % j, scene=s)
        c = ec.commitment(int.from_bytes(o['value'][1:], 'big'), g, b)
        same(m['vout'][j]['value'], ec.ser_square(c, 8), 'value-opening', 'the factors returned for output %d do not open its value commitment' % j, scene=s)
        if rec:
            rec.count('openings')
            rec.ev(2)


def check_frame(s, m, done_out=None, done_iss=None):
    """only what was asked for has changed.  done_*: parts that may differ (default: all requested)"""
    t = full(s['tx'], s['tx'])
    m = full(m, s['tx'])
    same((m['version'], m['locktime'], len(m['vin']), len(m['vout'])), (t['version'], t['locktime'], len(t['vin']), len(t['vout'])),
         'frame-head', 'version, lock time or a count changed')
    same((len(m['winwit']), len(m['woutwit'])), (len(t['vin']), len(t['vout'])), 'frame-witness-count', 'a witness vector is incomplete')
    for i, (a, b) in enumerate(zip(t['vin'], m['vin'])):
        for f in ('hash', 'n', 'script', 'seq', 'pegin'):
            same(b[f], a[f], 'frame-input-' + f, '%s of input %d changed' % (f, i))
        a, b = a['issuance'] or NULL_ISS, b['issuance'] or NULL_ISS
        same((b['nonce'], b['entropy']), (a['nonce'], a['entropy']), 'frame-issuance', 'issuance data of input %d changed' % i)
        for f, p, k in (('amount', 'amount_proof', s['iss'][i][0]), ('keys', 'keys_proof', s['iss'][i][1])):
            if k is None or done_iss is not None and (i, f) not in done_iss:
                same(b[f], a[f], 'frame-issuance-' + f, 'issuance %s of input %d changed without being asked for' % (f, i), scene=s)
                same(m['winwit'][i][p], t['winwit'][i][p], 'frame-issuance-proof', '%s of input %d changed without being asked for' % (p, i), scene=s)
        for f in ('stack', 'pegin_stack'):
            same(m['winwit'][i][f], t['winwit'][i][f], 'frame-witness-' + f, '%s of input %d changed' % (f, i))
    for j, (a, b) in enumerate(zip(t['vout'], m['vout'])):
        same(b['script'], a['script'], 'frame-script', 'script of output %d changed' % j)
        if s['keys'][j] is None or done_out is not None and j not in done_out:
            same(b, a, 'frame-output', 'output %d changed without being asked for' % j)
            same(m['woutwit'][j], t['woutwit'][j], 'frame-output-witness', 'witness of output %d changed without being asked for' % j)


NULL_ISS = {'nonce': bytes(32), 'entropy': bytes(32), 'amount': b'', 'keys': b''}


def nonce_for(secret, nonce_commitment):
    """shared secret of the holder of a blinding key, from the published nonce"""
    return hashlib.sha256(ec.ecdh(int.from_bytes(secret, 'big'), ec.par(nonce_commitment))).digest()


def unblind(m, j, secret, w=None, script=None):
    """through the code under test"""
    from bitcointx.core.key import CKey
    o = B.lib_out(m['vout'][j] if isinstance(j, int) else j)
    proof = (m['woutwit'][j] if w is None else w)['range']
    return o.unblind_confidential_pair(CKey(secret), proof)


def snapshot(tx):
    return tx.serialize(), B.m_tx(tx)


def state(tx):
    """as snapshot, for transactions with witness vectors that cannot be written"""
    return len(tx.wit.vtxinwit), len(tx.wit.vtxoutwit), B.m_tx(tx)


def features(s):
    def b(n):
        return n if n < 5 else 5
    return (b(len(s['tx']['vin'])), b(len(s['tx']['vout'])), b(n_requested(s)),
            tuple(sorted({(any(d['bf']), any(d['abf'])) for d in s['ins']})),
            tuple(sorted({repr((None if x['issuance'] is None else (any(x['issuance']['nonce']), x['issuance']['amount'] != b'', x['issuance']['keys'] != b'')))
                          for x in s['tx']['vin']})),
            tuple(sorted({(q[0] is not None, q[1] is not None) for q in s['iss']})),
            tuple(sorted({(k is not None, min(len(o['script']), 253) // 40, unspendable(o['script']), o['value'] == val(0)) for k, o in zip(s['keys'], s['tx']['vout'])})),
            s['bits'], s['tx']['winwit'] is not None, s['tx']['woutwit'] is not None)


def must_blind(s, tx, aux):
    """one more step of blinding on a transaction object; has to succeed completely"""
    before = snapshot(tx)
    for attempt in range(30):
        try:
            res, _ = blind(s, None, None, tx, auxiliary_generators=aux)
        except Exception as e:
            import traceback
            raise Violation('blind-raised', 'blinding a valid transaction raised %s: %s' % (type(e).__name__, e), scene=s,
                            traceback=traceback.format_exc()[-3000:])
        if res.ok or not chance(s) or snapshot(tx) != before:
            break
    expect(res.ok is True, 'blind-refused', 'blinding a valid transaction failed: %s' % res.error, scene=s)
    return res, tx


# ------------------------------------------------------------------------------------------------ one source, many transactions

def cancelling(r):
    """inputs whose factors sum to nothing (as when all outputs that a transaction with explicit inputs blinded are spent together), explicit
    outputs, and one of no amount to be blinded: the factor left for it is zero, there is nothing to hide"""
    n = r.choice((1, 1, 2, 3))
    a, ins, total = r.randbytes(32), [], 0
    for i in range(n):
        v = amount(r, 10 ** 9)
        ins.append({'asset': a, 'amount': v, 'bf': scalar(r), 'abf': scalar(r)})
        total += v
    k = sum(d['amount'] * int.from_bytes(d['abf'], 'big') + int.from_bytes(d['bf'], 'big') for d in ins[:-1])
    d = ins[-1]
    d['bf'] = ((-k - d['amount'] * int.from_bytes(d['abf'], 'big')) % N).to_bytes(32, 'big')
    out = lambda v, s: {'asset': b'\x01' + a, 'value': val(v), 'nonce': b'', 'script': s}
    fee = r.randrange(1, min(total, 1000) + 1)
    vout = [out(total - fee, b'\x51'), out(fee, b''), out(0, b'\x6a' + r.randbytes(r.choice((0, 0, 5))))]
    if total == fee:
        del vout[0]
    keys = [None] * (len(vout) - 1) + [scalar(r)]
    o = list(range(len(vout)))
    r.shuffle(o)
    vin = [{'hash': r.randbytes(32), 'n': i, 'script': b'', 'seq': 0, 'issuance': None, 'pegin': False} for i in range(n)]
    return {'tx': {'version': 2, 'vin': vin, 'vout': [vout[i] for i in o], 'locktime': 0, 'winwit': None, 'woutwit': None}, 'ins': ins, 'keys': [keys[i] for i in o],
            'iss': [(None, None)] * n, 'aux': None, 'strict': r.random() < .5, 'exp': 0, 'bits': 4}


def siblings(r, n):
    """Scenes that differ in one thing each, all to be blinded from the same random source: whatever the code under test might keep
    from one to use for another shows.  Yields (what changed, scene, seed of the source)."""
    import copy
    seed = r.randbytes(8)
    while True:
        base = scene(r, nin=2, nout=3, issuances=0, bits=4, long_ok=False, zero=0, blind=True, fee=False)
        if len(base['keys']) <= 6:
            break
    base['tx']['winwit'] = base['tx']['woutwit'] = None
    s = base
    yield 'base', s, seed
    done = 0
    while done < n:
        s = copy.deepcopy(base if r.random() < .3 else s)
        t = s['tx']
        k = r.choice(('asset', 'asset', 'keys', 'key', 'script', 'amount', 'input', 'bits', 'outpoint', 'order', 'drop', 'issuance', 'nothing', 'inorder', 'totals'))
        cand = [j for j, q in enumerate(s['keys']) if q is not None]
        j = r.choice(cand)
        if k == 'asset':
            a, b = t['vout'][j]['asset'][1:], r.randbytes(32)
            if any(x['issuance'] for x in t['vin']):
                continue
            for o in t['vout']:
                o['asset'] = b'\x01' + b if o['asset'][1:] == a else o['asset']
            for d in s['ins']:
                d['asset'] = b if d['asset'] == a else d['asset']
        elif k == 'keys':
            s['keys'] = [q and scalar(r) for q in s['keys']]
        elif k == 'key':
            s['keys'][j] = scalar(r)
        elif k == 'script':
            t['vout'][j]['script'] = spend_script(r, False)
            t['vout'][j]['script'] = t['vout'][j]['script'] if not unspendable(t['vout'][j]['script']) else b'\x51'
        elif k == 'amount':
            c = [x for x in cand if x != j and t['vout'][x]['asset'] == t['vout'][j]['asset'] and t['vout'][x]['value'] > val(1)]
            if not c:
                continue
            x = r.choice(c)
            v = [int.from_bytes(t['vout'][y]['value'][1:], 'big') for y in (j, x)]
            q = r.randrange(1, v[1])
            t['vout'][j]['value'], t['vout'][x]['value'] = val(v[0] + q), val(v[1] - q)
        elif k == 'totals':
            # as much more in an input as in an output
            i = next(i for i, d in enumerate(s['ins']) if d['asset'] == t['vout'][j]['asset'][1:]) if any(
                d['asset'] == t['vout'][j]['asset'][1:] for d in s['ins']) else None
            if i is None:
                continue
            q = r.randrange(1, 1000)
            s['ins'][i]['amount'] += q
            t['vout'][j]['value'] = val(int.from_bytes(t['vout'][j]['value'][1:], 'big') + q)
        elif k == 'input':
            s['ins'][r.randrange(2)].update(bf=scalar(r), abf=scalar(r))
        elif k == 'bits':
            s['bits'] = r.choice((3, 4, 5, 9))
        elif k == 'outpoint':
            if any(x['issuance'] for x in t['vin']):
                continue
            t['vin'][r.randrange(2)].update(hash=r.randbytes(32), n=r.randrange(9))
        elif k == 'order':
            o = list(range(len(s['keys'])))
            r.shuffle(o)
            t['vout'], s['keys'] = [t['vout'][x] for x in o], [s['keys'][x] for x in o]
        elif k == 'inorder':
            if any(x['issuance'] for x in t['vin']):
                continue
            t['vin'].reverse()
            s['ins'].reverse()
            s['iss'].reverse()
        elif k == 'drop':
            if len(cand) < 3:
                continue
            s['keys'][j] = None
        elif k == 'issuance':
            i = r.randrange(2)
            if t['vin'][i]['issuance'] or len(s['keys']) > 7:
                continue
            amt = amount(r, 10 ** 6)
            ent = r.randbytes(32)
            t['vin'][i]['issuance'] = {'nonce': r.randbytes(32), 'entropy': ent, 'amount': val(amt), 'keys': b''}
            s['iss'][i] = (scalar(r) if r.random() < .7 else None, None)
            t['vout'].append({'asset': b'\x01' + I.asset(ent), 'value': val(amt), 'nonce': b'', 'script': b'\x51'})
            s['keys'].append(scalar(r))
        done += 1
        yield k, s, seed


def same_source(ctx, audit, groups, n=12):
    """blind siblings from the same source, judge each"""
    r = ctx.rng
    for _ in range(groups):
        seen = {}
        for k, s, seed in siblings(r, n):
            draws = Draws(seed)
            res, tx = must(s, None, draws)
            audit(s, res, tx, draws, seen)
            if k == 'nothing':
                same(tx.serialize(), must(s, None, Draws(seed))[1].serialize(), 'same-source', 'the same blinding from the same source gives another transaction', scene=s)
            ctx.rec.feat('sibling', k)
            ctx.rec.count('siblings')
