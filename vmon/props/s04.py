"""S04: sign, change one thing, verify again: the signature survives exactly the changes its hash type leaves out."""
import copy

from vmon import gen, bridge as B
from vmon.props import _sig as G
from vmon.rec import same, expect
from vmon.ref import codec as C

TECHNIQUE = 'metamorphic runtime monitor: sign, change one field, verify'
RULE = """Evaluation = one verification of a real signature on a transaction that differs in one field from the signed one, compared with a
table of what each kind of signature covers.  Distinct = (signing kind, hash type, changed field, at the signed position or not, outcome)."""
QUICK = 220
TYPES = (1, 2, 3, 0x81, 0x82, 0x83)
REQUIRED = {'signed': 260, 'covered': 5000, 'uncovered': 2500, 'legacy': 60, 'v0': 60, 'taproot': 60, 'tapscript': 60, 'verify-script': 130}


def flip(r, b):
    if not b:
        return b'\x05'
    b = bytearray(b)
    b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    return bytes(b)


def flipconf(r, b, a):
    """another valid field of the same or another kind"""
    if b and r.random() < .7:
        x = bytearray(b)
        x[r.randrange(1, len(x))] ^= 1 << r.randrange(8)
        return bytes(x)
    if not b or b[0] == 1:
        return bytes([a]) + r.randbytes(32)
    return bytes([b[0] ^ 1]) + b[1:]


def changes(r, t, idx):
    """yields (name, position or None, changed copy)"""
    def c():
        return copy.deepcopy(t)

    for name, f in (('version', 'version'), ('locktime', 'locktime')):
        x = c()
        x[f] ^= 1 << r.randrange(31)
        yield name, None, x
    for j in range(len(t['vin'])):
        i = t['vin'][j]
        x = c()
        x['vin'][j]['hash'] = flip(r, i['hash'])
        yield 'prevout', j, x
        x = c()
        x['vin'][j]['n'] ^= 1
        yield 'prevout', j, x
        x = c()
        x['vin'][j]['seq'] ^= 1 << r.randrange(32)
        yield 'seq', j, x
        x = c()
        x['vin'][j]['script'] = flip(r, i['script'])
        yield 'scriptsig', j, x
        x = c()
        x['vin'][j]['pegin'] = not i['pegin']
        yield 'pegin', j, x
        x = c()
        if i['issuance'] is None:
            x['vin'][j]['issuance'] = gen.issuance(r)
        else:
            x['vin'][j]['issuance'] = None
        yield 'issuance', j, x
        if i['issuance']:
            for f in ('nonce', 'entropy', 'amount', 'keys'):
                x = c()
                z = x['vin'][j]['issuance']
                z[f] = flip(r, z[f]) if f in ('nonce', 'entropy') else flipconf(r, z[f], 8)
                yield 'issuance', j, x
    for j in range(len(t['vout'])):
        for f, a in (('asset', 10), ('value', 8), ('nonce', 2), ('script', 0)):
            x = c()
            o = x['vout'][j]
            o[f] = flip(r, o[f]) if f == 'script' else flipconf(r, o[f], a)
            yield 'out', j, x
    x = c()
    x['vout'].append(gen.txout(r))
    x['woutwit'].append(gen.outwit(r))
    yield 'add-out', len(t['vout']), x
    x = c()
    x['vin'].append(gen.txin(r, rich=False))
    x['winwit'].append(gen.inwit(r))
    yield 'add-in', None, x
    for j in range(len(t['vin'])):
        for f, name in (('amount_proof', 'issuance-proof'), ('keys_proof', 'issuance-proof'), ('stack', 'stack'), ('pegin_stack', 'stack')):
            x = c()
            w = x['winwit'][j] = dict(t['winwit'][j])
            w[f] = flip(r, w[f]) if name == 'issuance-proof' else list(w[f]) + [b'\x01']
            yield name, j, x
    for j in range(len(t['vout'])):
        for f in ('surj', 'range'):
            x = c()
            w = x['woutwit'][j] = dict(t['woutwit'][j])
            w[f] = flip(r, w[f])
            yield 'out-witness', j, x


def covers(kind, ht, idx, name, pos, t):
    """what a signature commits to, field by field"""
    acp, out = bool(ht & 0x80), ht & 3
    mine = pos == idx
    if name in ('version', 'locktime'):
        return True
    if name == 'prevout' or name == 'issuance':
        return mine or not acp
    if name == 'seq':
        if mine:
            return True
        return not acp and (kind in ('taproot', 'tapscript') or out == 1)
    if name in ('scriptsig', 'stack'):
        return False
    if name == 'pegin':
        return kind in ('taproot', 'tapscript') and (mine or not acp)
    if name in ('out', 'add-out'):
        return out == 1 or out == 3 and mine
    if name == 'add-in':
        return not acp
    if name == 'issuance-proof':
        if kind not in ('taproot', 'tapscript'):
            return False
        return not acp or mine and t['vin'][idx]['issuance'] is not None
    if name == 'out-witness':
        return kind in ('taproot', 'tapscript') and (out == 1 or out == 3 and mine)
    raise KeyError(name)


class Signer:
    def __init__(self, ctx, kind, ht, idx, nin):
        from bitcointx.core.key import CKey
        r = ctx.rng
        self.ctx, self.kind, self.ht, self.idx = ctx, kind, ht, idx
        self.key = CKey.from_secret_bytes(r.randbytes(32))
        self.code = G.code(r)
        while G.witness_program(self.code) or not self.code.strip(b'\xab'):     # an empty one cannot tell inputs apart
            self.code = G.code(r)
        self.amount = gen.value(r)
        self.spent = [gen.txout(r) for _ in range(nin)]
        self.genesis, self.annex, self.sep = r.randbytes(32), r.choice((None, r.randbytes(32))), r.choice((-1, 3))

    def digest(self, t, ht=None, idx=None):
        from bitcointx.core.script import SIGHASH_Type, SIGVERSION_BASE, SIGVERSION_WITNESS_V0
        from elementstx.core.script import ElementsSignatureHashSchnorr
        tx = B.lib_tx(t, self.ctx.rng.random() < .5)
        ht = SIGHASH_Type(self.ht if ht is None else ht)
        idx = self.idx if idx is None else idx
        if self.kind == 'legacy':
            return B.lib_script(self.code).sighash(tx, idx, ht, sigversion=SIGVERSION_BASE)
        if self.kind == 'v0':
            return B.lib_script(self.code).sighash(tx, idx, ht, amount=B.L().CConfidentialValue(self.amount), sigversion=SIGVERSION_WITNESS_V0)
        spent = [B.lib_out(o) for o in self.spent]
        while len(spent) < len(t['vin']):
            spent.append(B.lib_out({'asset': b'', 'value': b'', 'nonce': b'', 'script': b''}))
        kw = dict(hashtype=ht, annex_hash=self.annex, genesis_block_hash=self.genesis)
        if self.kind == 'taproot':
            return ElementsSignatureHashSchnorr(tx, idx, spent, **kw)
        return B.lib_script(self.code).sighash_schnorr(tx, idx, spent, codeseparator_pos=self.sep, **kw)

    def sign(self, t):
        h = self.digest(t)
        self.sig = self.key.sign_schnorr_no_tweak(h) if self.kind[:3] == 'tap' else self.key.sign(h)

    def holds(self, t, **kw):
        h = self.digest(t, **kw)
        if self.kind[:3] == 'tap':
            return bool(self.key.xonly_pub.verify_schnorr(h, self.sig))
        return bool(self.key.pub.verify(h, self.sig))


def base_tx(r, nin, nout):
    t = gen.tx(r, lo=1, many=0, witness=True)
    t['vin'] = [gen.txin(r, rich=False) for _ in range(nin)]
    for i in t['vin']:
        i['n'] %= 1 << 29
    t['vout'] = [gen.txout(r) for _ in range(nout)]
    t['winwit'] = [gen.inwit(r) for _ in range(nin)]
    t['woutwit'] = [gen.outwit(r) for _ in range(nout)]
    return t


def one(ctx, kind, ht, nin, nout, idx):
    r, rec = ctx.rng, ctx.rec
    t = base_tx(r, nin, nout)
    s = Signer(ctx, kind, ht, idx, nin)
    s.sign(t)
    expect(s.holds(t), 'own', 'a signature does not verify on the transaction it was made for', kind=kind, ht=ht)
    rec.count('signed')
    rec.count(kind)
    for name, pos, x in changes(r, t, idx):
        want = not covers(kind, ht, idx, name, pos, t)
        got = s.holds(x)
        expect(got == want, '%s-%s' % ('lost' if want else 'uncommitted', name),
               'signature of kind %s, hash type %#x, input %d: changing %s at %s should%s keep it valid' % (kind, ht, idx, name, pos, '' if want else ' not'),
               before=t, after=x)
        rec.ev()
        rec.count('covered' if not want else 'uncovered')
        rec.feat(kind, ht, name, pos == idx, want)
    for other in TYPES:
        if other != ht and (other & 3 != 3 or idx < nout):
            expect(not s.holds(t, ht=other), 'type', 'a signature holds for another hash type', kind=kind, ht=ht, other=other)
            rec.ev()
    if nin > 1 and (ht & 3 != 3):
        expect(not s.holds(t, idx=(idx + 1) % nin), 'index', 'a signature holds for another input', kind=kind, ht=ht)
        rec.ev()
    # what is signed besides the transaction
    extra = []
    if kind in ('v0',):
        a = Signer.__new__(Signer)
        a.__dict__.update(s.__dict__, amount=flipconf(r, s.amount, 8))
        extra.append(('amount', a, False))
    if kind != 'taproot':
        a = Signer.__new__(Signer)
        a.__dict__.update(s.__dict__, code=s.code + b'\x51')
        extra.append(('script', a, False))
    if kind[:3] == 'tap':
        for f in ('asset', 'value', 'nonce', 'script'):
            for j in range(nin):
                sp = [dict(o) for o in s.spent]
                sp[j][f] = flip(r, sp[j][f]) if f == 'script' else flipconf(r, sp[j][f], {'asset': 10, 'value': 8, 'nonce': 2}[f])
                a = Signer.__new__(Signer)
                a.__dict__.update(s.__dict__, spent=sp)
                extra.append(('spent-' + f, a, f == 'nonce' or (bool(ht & 0x80) and j != idx)))
        for f, v in (('genesis', flip(r, s.genesis)), ('annex', r.randbytes(32) if s.annex is None or r.random() < .5 else None)) + (
                (('sep', s.sep + 1),) if kind == 'tapscript' else ()):
            a = Signer.__new__(Signer)
            a.__dict__.update(s.__dict__, **{f: v})
            extra.append((f, a, False))
    for name, a, want in extra:
        expect(a.holds(t) == want, '%s-%s' % ('lost' if want else 'uncommitted', name),
               'signature of kind %s, hash type %#x: changing %s should%s keep it valid' % (kind, ht, name, '' if want else ' not'), tx=t)
        rec.ev()
        rec.feat(kind, ht, name, want)


def episode(ctx):
    r = ctx.rng
    nin, nout = r.choice((1, 2, 3)), r.choice((1, 2, 3))
    idx = r.randrange(nin)
    for kind in r.sample(('legacy', 'v0', 'taproot', 'tapscript'), 2):
        ht = r.choice(TYPES)
        if ht & 3 == 3 and idx >= nout:
            ht -= 1
        one(ctx, kind, ht, nin, nout, idx)
    verify_script(ctx)


def verify_script(ctx):
    """whole spends, checked by the script interpreter"""
    from bitcointx.core.key import CKey
    from bitcointx.core.script import CScriptWitness, SIGVERSION_BASE, SIGVERSION_WITNESS_V0, SIGHASH_Type, OP_CHECKMULTISIG
    from bitcointx.core.scripteval import VerifyScript
    from bitcointx.core import ValidationError
    from elementstx.core.script import CElementsScript as S
    from bitcointx.wallet import CCoinAddress, P2PKHCoinAddress, P2WPKHCoinAddress, P2SHCoinAddress, P2WSHCoinAddress
    core = B.L()
    r, rec = ctx.rng, ctx.rec
    t = base_tx(r, r.choice((1, 2, 3)), r.choice((1, 2, 3)))
    tx = B.lib_tx(t, True)
    idx = r.randrange(len(t['vin']))
    ht = SIGHASH_Type(r.choice(TYPES))
    if ht & 3 == 3 and idx >= len(t['vout']):
        ht = SIGHASH_Type(1)
    keys = [CKey.from_secret_bytes(r.randbytes(32)) for _ in range(3)]
    amount = core.CConfidentialValue(gen.value(r))
    kind = r.choice(('pkh', 'sh', 'wpkh', 'wsh', 'sh-wpkh'))
    multi = S([2] + [k.pub for k in keys] + [3, OP_CHECKMULTISIG])
    pkh = P2PKHCoinAddress.from_pubkey(keys[0].pub).to_scriptPubKey()
    if kind == 'pkh':
        spk = code = pkh
    elif kind == 'sh':
        code, spk = multi, P2SHCoinAddress.from_redeemScript(multi).to_scriptPubKey()
    elif kind == 'wpkh':
        code, spk = pkh, P2WPKHCoinAddress.from_pubkey(keys[0].pub).to_scriptPubKey()
    elif kind == 'wsh':
        code, spk = multi, P2WSHCoinAddress.from_redeemScript(multi).to_scriptPubKey()
    else:
        inner = P2WPKHCoinAddress.from_pubkey(keys[0].pub).to_scriptPubKey()
        code, spk = pkh, P2SHCoinAddress.from_redeemScript(inner).to_scriptPubKey()
    ver = SIGVERSION_WITNESS_V0 if 'w' in kind else SIGVERSION_BASE
    h = code.sighash(tx, idx, ht, amount=amount, sigversion=ver)
    sigs = [k.sign(h) + bytes([ht]) for k in keys]
    def data(sg):
        if code is multi:
            return [b'', sg[0], sg[1], multi]
        return [sg[0], keys[0].pub]
    def place(sg):
        wit, sig = CScriptWitness([]), S(b'')
        if kind == 'pkh':
            sig = S(data(sg))
        elif kind == 'sh':
            sig = S([0] + [bytes(x) for x in data(sg)[1:]])
        else:
            wit = CScriptWitness([bytes(x) for x in data(sg)])
            if kind == 'sh-wpkh':
                sig = S([bytes(inner)])
        return sig, wit
    sig, wit = place(sigs)
    tx.vin[idx].scriptSig = sig
    while len(tx.wit.vtxinwit) < len(tx.vin):
        tx.wit.vtxinwit.append(core.CElementsMutableTxInWitness())
    tx.wit.vtxinwit[idx].scriptWitness = wit
    final = tx.to_immutable() if r.random() < .5 else core.CElementsTransaction.deserialize(tx.serialize())
    def stack(x):
        return x.wit.vtxinwit[idx].scriptWitness if x.wit.vtxinwit else CScriptWitness([])
    VerifyScript(final.vin[idx].scriptSig, spk, final, idx, amount=amount, witness=stack(final))
    rec.ev()
    rec.count('verify-script')
    rec.feat('script', kind, int(ht), len(t['vin']), len(t['vout']))
    # a covered change
    bad = final.to_mutable()
    bad.nLockTime ^= 1
    try:
        VerifyScript(bad.vin[idx].scriptSig, spk, bad, idx, amount=amount, witness=stack(bad))
    except ValidationError:
        rec.ev()
    else:
        expect(False, 'verify-changed', 'a spend verifies after the lock time was changed', kind=kind, ht=int(ht))
    if 'w' in kind:
        other = core.CConfidentialValue(flipconf(r, amount.commitment, 8))
        try:
            VerifyScript(final.vin[idx].scriptSig, spk, final, idx, amount=other, witness=stack(final))
        except ValidationError:
            rec.ev()
        else:
            expect(False, 'verify-amount', 'a spend verifies with another amount', kind=kind, ht=int(ht))


def d_all(ctx):
    for kind in ('legacy', 'v0', 'taproot', 'tapscript'):
        for ht in TYPES:
            one(ctx, kind, ht, 2, 2, 1)


DIRECTED = [d_all]
