"""B16: what Elements Core made."""
import hashlib
import hmac
import random
from decimal import Decimal

from vmon import ct, corpus, bridge as B
from vmon.ref import codec as C, ec, sighash as H, issuance as I
from vmon.rec import expect, same

NATIVE = True
TECHNIQUE = 'replay of recorded blindings, unblindings and signatures through the real code with byte comparison, and audited variations of them'
RULE = """Evaluation = one recorded blinding replayed and compared byte for byte, one recorded output unblinded and compared with what Elements Core
reported (and with the commitments opened by arithmetic of its own), one recorded signature reproduced (and verified against a hash of its own), or
one variation (outputs permuted, fewer parts blinded, repeated, other chain active) audited for balance and proofs.  Sources are read, converted,
rebuilt from their fields or copied.  Distinct = (recording, source form, chain, variation)."""
QUICK = 250
REQUIRED = {'replayed': 250, 'split': 25, 'issuance': 20, 'unblinded': 400, 'signed': 250, 'variation': 60, 'info': 400, 'twice': 60}
CHAINS = ('elements', 'elements', 'elements/liquidv1', 'bitcoin', 'bitcoin/testnet', 'elements/elementsregtest')


def sat(v):
    return int(Decimal(str(v)) * 10 ** 8)


def lx(s):
    return bytes.fromhex(s)[::-1]


def mac(key, msg):
    return hmac.new(key, msg, hashlib.sha256).digest()


def setup(ctx):
    ctx.data['z'] = ct.Z(ctx.native)
    v = corpus.vectors()
    recs = []
    for n, b in enumerate(v['blinding']):
        recs.append(load('bundle%d' % n, b, ()))
    aux = [bytes.fromhex(u['assetcommitment']) for u in v['split']['tx2']['vin_utxo']]
    for t in ('tx1', 'tx2'):
        recs.append(load('split-' + t, v['split'][t], aux))
    ctx.data['recs'] = recs
    ctx.data['txs'] = v['txs']


def load(name, b, aux):
    un, bl = bytes.fromhex(b['unblinded']['hex']), bytes.fromhex(b['blinded']['hex'])
    t, m = C.r_tx(un), C.r_tx(bl)
    master = lx(b['blinding_derivation_key'])
    if len(m['vout']) != len(t['vout']):
        sc = b'\x6a'
        t = dict(t, vout=t['vout'] + [{'asset': t['vout'][-1]['asset'], 'value': ct.val(0), 'nonce': ct.pub(mac(master, sc)), 'script': sc}])
        if t['woutwit']:
            t['woutwit'] = t['woutwit'] + [dict(C.NULL_OUTWIT)]
    ins = [{'asset': lx(u['asset']), 'amount': -1 if u['amount'] == -1 else sat(u['amount']), 'bf': lx(u['blinder']), 'abf': lx(u['assetblinder'])}
           for u in b['vin_utxo']]
    keys = []
    for o in t['vout']:
        if o['nonce'] and o['value'][:1] == b'\x01':
            k = mac(master, o['script'])
            for fbk, scripts in b.get('foreign_blinding_keys', {}).items():
                if o['script'].hex() in scripts:
                    k = mac(lx(fbk), o['script'])
            keys.append(k)
        else:
            keys.append(None)
    iss = []
    for i, j in zip(m['vin'], t['vin']):
        q = i['issuance']
        if q is None:
            iss.append((None, None))
            continue
        n = i['n']
        num = b'' if n == 0 else (bytes([0x50 + n]) if n <= 16 else None)
        assert num is not None
        if n == 0:
            num = b'\x00'
        k = mac(master, b'\x6a\x20' + i['hash'] + num)
        iss.append((k if q['amount'][:1] in (b'\x08', b'\x09') else None, k if q['keys'][:1] in (b'\x08', b'\x09') else None))
    s = {'tx': t, 'ins': ins, 'keys': keys, 'iss': iss, 'aux': list(aux) or None, 'strict': True, 'exp': 0, 'bits': 32}
    return {'name': name, 's': s, 'blinded': bl, 'm': m, 'b': b, 'signed': bytes.fromhex(b['signed_hex']) if 'signed_hex' in b else None}


def stream(seed):
    r = random.Random()
    r.seed(seed)
    return lambda n: bytes([r.randint(0, 255) for _ in range(n)])


FORMS = ('built', 'built-immutable', 'read', 'read-mutable', 'copied', 'twice-converted', 'generic', 'hex')


def source(t, form):
    core = B.L()
    if form == 'built':
        return B.lib_tx(t, mutable=True)
    if form == 'built-immutable':
        return B.lib_tx(t, mutable=False).to_mutable()
    raw = B.lib_tx(t).serialize()
    if form == 'read':
        return core.CElementsTransaction.deserialize(raw).to_mutable()
    if form == 'read-mutable':
        return core.CElementsMutableTransaction.deserialize(raw)
    if form == 'copied':
        return core.CElementsMutableTransaction.from_instance(core.CElementsMutableTransaction.deserialize(raw))
    if form == 'twice-converted':
        return core.CElementsMutableTransaction.deserialize(raw).to_immutable().to_mutable().to_immutable().to_mutable()
    if form == 'generic':
        from bitcointx import ChainParams
        from bitcointx.core import CTransaction
        with ChainParams('elements'):
            return CTransaction.deserialize(raw).to_mutable()
    import copy
    return copy.deepcopy(B.lib_tx(t, mutable=True)) if form == 'deepcopy' else core.CElementsMutableTransaction.deserialize(bytes.fromhex(raw.hex()))


def episode(ctx):
    from bitcointx import ChainParams
    r, rec, z = ctx.rng, ctx.rec, ctx.data['z']
    n = len(ctx.data['recs'])
    x = ctx.data['recs'][ctx.index % n if ctx.index < 4 * n else r.randrange(n)]
    s, form, chain = x['s'], FORMS[(ctx.index // n) % len(FORMS)], r.choice(CHAINS)
    if form == 'generic' and not chain.startswith('elements'):
        chain = 'elements'
    tx = source(s['tx'], form)
    with ChainParams(chain):
        res, tx = ct.must(s, None, stream(x['b']['rand_seed']), tx=tx)
        got = tx.serialize()
    same(got, x['blinded'], 'replay', 'recorded blinding %s (source %s, chain %s) is not reproduced' % (x['name'], form, chain))
    same(res.num_successfully_blinded, ct.n_requested(s), 'count', 'number of parts reported as blinded')
    rec.ev(2)
    rec.count('replayed')
    rec.count('split', x['name'].startswith('split'))
    rec.count('issuance', any(any(q) for q in s['iss']))
    rec.feat('replay', x['name'], form, chain)
    # a second time, on an object of its own and on the same one
    if r.random() < .4:
        res2, tx2 = ct.must(s, None, stream(x['b']['rand_seed']), tx=source(s['tx'], r.choice(FORMS)))
        same(tx2.serialize(), x['blinded'], 'replay-twice', 'repeating a recorded blinding gives something else')
        same([f.data for f in res2.blinding_factors], [f.data for f in res.blinding_factors], 'replay-factors', 'repeating gives other factors')
        before = ct.snapshot(tx)
        try:
            again, _ = ct.blind(s, None, stream(1), tx)
            expect(again.ok is False, 'blinded-twice', 'blinding a blinded transaction again reported success')
        except Exception as e:
            expect(not isinstance(e, AssertionError) or False, 'blinded-twice', 'blinding again raised %r' % e) if not isinstance(e, (ValueError, RuntimeError)) else None
        same(ct.snapshot(tx), before, 'blinded-twice-changed', 'blinding a blinded transaction again changed it')
        rec.ev(4)
        rec.count('twice')
    unblind(ctx, x, tx, chain, r)
    sign(ctx, x, tx, r)
    info(ctx, r)
    if not x['name'].startswith('split') and r.random() < .5:
        variation(ctx, x, r)


def unblind(ctx, x, tx, chain, r):
    from bitcointx import ChainParams
    from bitcointx.core.key import CKey
    rec, m, s = ctx.rec, x['m'], x['s']
    core = B.L()
    form = r.choice(('result', 'recorded', 'mutable', 'fields'))
    if form == 'recorded':
        tx = core.CElementsTransaction.deserialize(x['blinded'])
    elif form == 'mutable':
        tx = core.CElementsMutableTransaction.deserialize(x['blinded'])
    elif form == 'fields':
        tx = B.lib_tx(m)
    order = list(range(len(m['vout'])))
    r.shuffle(order)
    for j in order:
        k = s['keys'][j]
        if k is None:
            continue
        o, w = tx.vout[j], tx.wit.vtxoutwit[j]
        with ChainParams(chain):
            u = o.unblind_confidential_pair(CKey(k), w.rangeproof)
        expect(u.ok is True, 'unblind', 'output %d of %s made by Elements Core is not recovered: %s' % (j, x['name'], u.error))
        was = s['tx']['vout'][j]
        same((ct.val(u.amount), b'\x01' + u.asset.data), (was['value'], was['asset']), 'recovered', 'amount and asset recovered')
        info = (x['b'].get('unblinded_vout_info') or [{}] * 99)[j]
        if info:
            same((u.amount, u.asset.data, u.blinding_factor.data, u.asset_blinding_factor.data),
                 (sat(info['amount']), lx(info['asset']), lx(info['blinding_factor']), lx(info['asset_blinding_factor'])),
                 'reported', 'output %d of %s recovered to something else than Elements Core reports' % (j, x['name']))
            rec.count('reported')
        g = ec.blinded_generator(u.asset.data, u.asset_blinding_factor.data)
        same(ec.ser_square(g, 10), m['vout'][j]['asset'], 'opening-asset', 'the recovered factor does not open the asset commitment')
        same(ec.ser_square(ec.commitment(u.amount, g, u.blinding_factor.data), 8), m['vout'][j]['value'], 'opening-value', 'the recovered factors do not open the value commitment')
        bad = o.unblind_confidential_pair(CKey(mac(k, b'x')), w.rangeproof)
        expect(bad.ok is False, 'wrong-key', 'unblinding with another key reported success')
        rec.ev(5)
        rec.count('unblinded')
        rec.feat('unblind', x['name'], j, form, chain)


def sign(ctx, x, tx, r):
    from bitcointx import ChainParams
    from bitcointx.core.script import SIGVERSION_BASE
    from bitcointx.wallet import CCoinKey
    rec = ctx.rec
    if x['signed'] is None:
        return
    from elementstx.core.script import CElementsScript
    with ChainParams('elements'):
        form = r.choice(('mutable', 'immutable'))
        out = tx.to_mutable()
        src = tx.to_immutable() if form == 'immutable' else out
        model = C.r_tx(x['blinded'])
        order = list(range(len(out.vin)))
        r.shuffle(order)
        for n in order:
            u = x['b']['vin_utxo'][n]
            spk = bytes.fromhex(u['scriptPubKey'])
            single = 'privkey' in u
            keys = [CCoinKey(u['privkey'])] if single else [CCoinKey(k) for k in u['privkey_list']]
            code = spk if single else bytes([0x50 + u['num_p2sh_participants']]) + b''.join(b'\x21' + bytes(k.pub) for k in keys) + bytes([0x50 + len(keys), 0xae])
            h = CElementsScript(code).sighash(src, n, 1, sigversion=SIGVERSION_BASE)
            same(h, H.base(model, code, n, 1), 'sighash', 'signature hash of input %d of %s' % (n, x['name']))
            sigs = [k.sign(h) + b'\x01' for k in keys]
            for k, g in zip(keys, sigs):
                expect(ec.verify(int.from_bytes(h, "big"), g[:-1], bytes(k.pub)), 'signature', 'a signature does not verify')
            out.vin[n].scriptSig = CElementsScript(
                bytes([len(sigs[0])]) + sigs[0] + b'\x21' + bytes(keys[0].pub) if single else
                b'\x00' + b''.join(bytes([len(g)]) + g for g in sigs) + (bytes([len(code)]) if len(code) < 76 else b'\x4c' + bytes([len(code)]) if len(code) < 256 else b'\x4d' + len(code).to_bytes(2, 'little')) + code)
            rec.ev(2)
            rec.count('signed')
            rec.feat('sign', x['name'], n, form)
        same(out.serialize(), x['signed'], 'signed', 'signing %s does not give the recorded transaction' % x['name'])


def info(ctx, r):
    """proof information of recorded transactions is what Elements Core shows"""
    rec = ctx.rec
    d = r.choice(ctx.data['txs'] + [x['b']['blinded'] for x in ctx.data['recs'] if 'vout' in x['b']['blinded']])
    tx = B.L().CElementsTransaction.deserialize(bytes.fromhex(d['hex']))
    for n, o in enumerate(d['vout']):
        i = None if tx.wit.is_null() else tx.wit.vtxoutwit[n].get_rangeproof_info()
        if 'value-minimum' in o:
            expect(i is not None, 'info', 'no information for a recorded proof')
            same((i.exp, i.mantissa, i.value_min, i.value_max), (o['ct-exponent'], o['ct-bits'], sat(o['value-minimum']), sat(o['value-maximum'])),
                 'info', 'proof information of output %d differs from what Elements Core shows' % n)
        else:
            expect(i is None or i.exp == -1, 'info', 'information for an output without a proof: %r' % (i,))
            same(sat(o['value']), tx.vout[n].nValue.to_amount() if i is None else i.value_min, 'info-value', 'value of an explicit output')
        rec.ev()
        rec.count('info')
    for n, v in enumerate(d['vin']):
        q = v.get('issuance')
        if q:
            i = tx.vin[n].assetIssuance
            core = B.L()
            e = i.assetEntropy if q['isreissuance'] else core.generate_asset_entropy(tx.vin[n].prevout, i.assetEntropy)
            if 'assetEntropy' in q:
                same(e.to_hex(), q['assetEntropy'], 'entropy', 'entropy of a recorded issuance')
            if 'asset' in q:
                same(core.calculate_asset(e).to_hex(), q['asset'], 'issued', 'asset of a recorded issuance')
            if 'token' in q:
                same(core.calculate_reissuance_token(e, i.nAmount.is_commitment()).to_hex(), q['token'], 'token', 'token of a recorded issuance')
            rec.ev(3)


def variation(ctx, x, r):
    """the recorded bundle in another order or blinded in part: audited instead of compared"""
    rec, z = ctx.rec, ctx.data['z']
    s = dict(x['s'], bits=r.choice((32, 36, None)))
    t = dict(s['tx'])
    keys = list(s['keys'])
    kind = r.choice(('permuted', 'part', 'both', 'fresh'))
    order = list(range(len(keys)))
    if kind in ('permuted', 'both'):
        r.shuffle(order)
    if kind in ('part', 'both'):
        cand = [j for j, k in enumerate(keys) if k is not None]
        r.shuffle(cand)
        for j in cand[:r.randrange(0, max(1, len(cand) - 1))]:
            keys[j] = None
    t['vout'] = [t['vout'][j] for j in order]
    if t['woutwit']:
        t['woutwit'] = [t['woutwit'][j] for j in order]
    s['tx'], s['keys'] = t, [keys[j] for j in order]
    blindin = any(any(d['bf']) or any(d['abf']) for d in s['ins']) or any(any(q) for q in s['iss'])
    if ct.n_requested(s) - sum(v is not None for q in s['iss'] for v in q) < (1 if blindin else 2):
        return
    res, tx = ct.must(s, None, r.choice((None, stream(x['b']['rand_seed']))))
    m, _ = ct.written(tx)
    ct.check_balance(s, m)
    ct.check_proofs(z, s, m, rec)
    ct.check_openings(s, m, res, rec)
    ct.check_frame(s, m)
    m = ct.full(m, t)
    for j, k in enumerate(s['keys']):
        if k is not None:
            u = ct.unblind(m, j, k)
            expect(u.ok is True, 'variation-unblind', 'an output of a varied recording is not recovered: %s' % u.error)
            same((ct.val(u.amount), b'\x01' + u.asset.data), (t['vout'][j]['value'], t['vout'][j]['asset']), 'variation-recovered', 'amount and asset recovered')
    rec.ev(3)
    rec.count('variation')
    rec.feat('variation', x['name'], kind, s['bits'], len([k for k in s['keys'] if k]))
